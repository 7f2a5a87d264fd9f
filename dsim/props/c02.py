from dsim import gen
from dsim.core import Violation
from dsim.props import Property
from dsim.props.c10 import gen_sched


class BodyError(Exception):
    pass


KINDS = ["BodyError", "KeyboardInterrupt", "StopIteration", "GeneratorExit", "SystemExit"]


def gen_body(rng, ncirc, depth=0):
    steps = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        k = rng.random()
        if k < 0.25:
            steps.append({"do": "op", "q": rng.randrange(2)})
        elif k < 0.4 and depth < 3:
            steps.append({"do": "freeze", "catch": rng.random() < 0.5, "how": rng.choice(["context", "class", "again"]), "steps": gen_body(rng, ncirc, depth + 1)})
        elif k < 0.5:
            steps.append({"do": "template", "p": rng.choice([0, 0.5, 2])})
        elif k < 0.6:
            steps.append({"do": "exit", "fails": False})
        elif k < 0.72:
            steps.append({"do": "nested", "c": rng.randrange(ncirc)})
        elif k < 0.9:
            steps.append({"do": "yield", "n": rng.choice([1, 1, 3, 10])})
        elif k < 0.93:
            steps.append({"do": "unlock"})
        elif k < 0.95:
            steps.append({"do": "reset"})
        else:
            steps.append({"do": "raise", "kind": rng.choice(KINDS)})
    return steps


class C02(Property):
    ID = "C02"
    RUNS = {"quick": 12000, "thorough": 300000}
    BUDGET = {"quick": 60, "thorough": 700}
    CHUNK = 20
    RULE = ("a run is 1-4 threads under a seeded schedule, each opening contexts of its own and of shared circuits 1-4 times, with operations, nested freezes, templates of "
            "parametric circuits, end-of-context actions, nested attempts, waits, exceptions and interruptions in their blocks, and with qubits that fail while a context "
            "opens; non-trivial if there are several threads or a fault was injected; distinct by program digest")
    REAL = "contexts, circuits, operations, registers; real threads"
    STUBS = "thread scheduling, locks; the user's blocks and end-of-context actions; qubits whose hash fails"
    STATES = "(interleaving: sequence of threads entering, being refused and leaving)"
    ASSUMPTIONS = ["threads switch where CPython allows it (function entry, after calls, backward jumps) in the library and where the harness waits",
                   "threads other than the one with the open context make no operations (they would be recorded there)",
                   "interruptions do not arrive within the enter and exit machinery itself"]
    LISTS = ("steps", "threads")

    def generate(self, rng, idx, tier):
        circuits = [{"par": rng.random() < 0.3, "fails": rng.random() < 0.3} for _ in range(rng.choice([1, 2, 3]))]
        nt = rng.choice([1, 2, 2, 3, 4])
        threads = []
        for _ in range(nt):
            steps = []
            for _ in range(rng.randint(1, 4)):
                s = {"do": "context", "c": rng.randrange(len(circuits) + 2), "steps": gen_body(rng, len(circuits) + 2)}
                if rng.random() < 0.6:
                    steps.append({"do": "unlock", "c": s["c"]})
                k = rng.random()
                if k < 0.15:
                    s["interrupt"] = gen.log_uniform(rng, 60)
                elif k < 0.25:
                    s["fail"] = rng.choice([1, 1, 2, 3])
                elif k < 0.3:
                    s["exit_fails"] = True
                if rng.random() < 0.2:
                    s["keep"] = True
                steps.append(s)
                if rng.random() < 0.2:
                    steps.append({"do": "yield", "n": rng.choice([1, 5])})
            threads.append({"steps": steps, "own": [{"par": rng.random() < 0.3, "fails": rng.random() < 0.3} for _ in range(2)]})
        return {"circuits": circuits, "threads": threads, "sched": gen_sched(rng)}

    def execute(self, prog, rec):
        _Run(prog, rec).run()


def failing_qubit():
    """A qubit whose hash fails when told to."""
    from dsim.faults import Boom
    from dsim.lib import L

    class FailingQubit(L.Qubit):
        fail = 0

        def __hash__(self):
            if self.fail:
                self.fail -= 1
                if not self.fail:
                    raise Boom("hash")
            return super().__hash__()

        __eq__ = L.Qubit.__eq__

    return FailingQubit("f")


class _Action:
    n = 0

    def __call__(self):
        self.n += 1


class _Run:
    def __init__(self, prog, rec):
        from dsim.lib import L
        from dsim.sched import Scheduler

        self.prog, self.rec = prog, rec
        self.sched = Scheduler(prog["sched"], rec)
        self.shared = [self.circuit(s) for s in prog["circuits"]]
        self.holder = None
        self.clock = 0
        self.scopes = []  # [thread, start, end]
        self.refusals = []  # (thread, start, end, locked, where)
        self.order = []
        self.tpl = L.ParametricCircuit(1)
        self.tpl_vars = []
        with self.tpl.context as reg:
            L.ops.RX([reg.p[0]], reg.q[0])
            self.tpl_vars.append(reg.p[0])
        self.circuits_all = list(self.shared)

    def circuit(self, s):
        from dsim.lib import L

        c = (L.ParametricCircuit if s["par"] else L.Circuit)(2)
        fq = None
        if s["fails"]:
            fq = failing_qubit()
            c.add_qubit(fq)
        return {"c": c, "fq": fq, "shared": True}

    def tick(self):
        self.clock += 1
        return self.clock

    def run(self):
        from dsim import lib
        from dsim.lib import L

        for tid, t in enumerate(self.prog["threads"]):
            own = [self.circuit(s) for s in t["own"]]
            for o in own:
                o["shared"] = False
            self.circuits_all += own
            self.sched.spawn(lambda tid=tid, t=t, own=own: self.thread(tid, t, self.shared + own))
        if len(self.prog["threads"]) > 1:
            self.rec.nontrivial = True
        try:
            self.sched.run()
        finally:
            self.rec.switches = self.sched.switches
        lib.no_context_open("after all threads have ended")
        self.rec.log(self.sched.n, self.order)
        self.rec.state(self.order)
        # refusals are justified by a lock, or another context open at some time during the attempt
        for tid, a, b, locked, where in self.refusals:
            if not locked and not any(u != tid and s <= b and (e is None or e >= a) for u, s, e in self.scopes):
                raise Violation("refused", f"{where}: opening a context was refused although none was open and the circuit not locked")
        if L.CircuitContext.on_exit_functions:
            raise Violation("exit-actions", f"end-of-context actions left: {L.CircuitContext.on_exit_functions}")
        # everything can be opened now
        for k, o in enumerate(self.circuits_all):
            c = o["c"]
            if o["fq"] is not None:
                o["fq"].fail = 0
            c.unlock()
            n = len(c.circuit)
            with c.context as reg:
                lib.require(L.CircuitContext.active_context.circuit is c, "active-context", f"at the end: another context than that of circuit {k} is active")
                lib.require(not L.CircuitContext.active_context.frozen, "frozen", f"at the end: the context of circuit {k} is frozen")
                op = L.ops.X(reg.q[0])
            lib.require(len(c.circuit) == n + 1 and c.circuit[-1] is op and c.is_locked(), "at-the-end", f"at the end: circuit {k} did not record and lock")
            lib.no_context_open(f"at the end, circuit {k}")

    def thread(self, tid, t, circuits):
        from dsim import sched

        kept = {}
        for k, s in enumerate(t["steps"]):
            where = f"thread {tid} step {k}"
            self.rec.steps += 1
            if s["do"] == "yield":
                for _ in range(s["n"]):
                    sched.point()
            elif s["do"] == "unlock":
                circuits[s["c"] % len(circuits)]["c"].unlock()
            else:
                self.context(tid, s, circuits, where, kept)

    def context(self, tid, s, circuits, where, kept):
        from dsim import faults, lib
        from dsim.lib import L

        o = circuits[s["c"] % len(circuits)]
        c = o["c"]
        fq = None if o["shared"] else o["fq"]
        if fq is not None and s.get("fail"):
            # so that the registers are computed when the context opens
            c.add_bit()
            c.add_qubit(L.Qubit("x"))
            fq.fail = s["fail"]
        ops = list(c.circuit)
        start = self.tick()
        locked = c.is_locked()
        actions = [_Action()]
        entered = False
        freezers = []
        scope = None
        # the context object is kept and used again, or asked for again
        ctx = kept.setdefault(id(c), c.context) if s.get("keep") else c.context
        try:
            with ctx as reg:
                if self.holder is not None:
                    raise Violation("two-contexts", f"{where}: entered a context while that of thread {self.holder} was open")
                self.holder = tid
                entered = True
                scope = [tid, start, None]
                self.scopes.append(scope)
                self.order.append((tid, "in"))
                if fq is not None:
                    fq.fail = 0
                try:
                    self.inside(c, False, where)
                    if locked and not o["shared"] or c.is_locked():
                        raise Violation("locked", f"{where}: entered the context of a locked circuit")
                    L.CircuitContext.on_exit_functions.append(actions[0])
                    if s.get("interrupt"):
                        self.sched.arm(s["interrupt"], faults.Interrupted())
                    try:
                        self.body(tid, s["steps"], c, reg, circuits, where, freezers, False, actions)
                    finally:
                        if s.get("interrupt") and self.sched.disarm():
                            self.rec.fault("interruption")
                    if s.get("exit_fails"):
                        def fails():
                            raise BodyError("exit")
                        self.rec.fault("failing end-of-context action")
                        L.CircuitContext.on_exit_functions.append(fails)
                finally:
                    self.holder = None
                    self.order.append((tid, "out"))
            how = "normally"
        except (BodyError, KeyboardInterrupt, StopIteration, GeneratorExit, SystemExit) as e:
            if not entered:
                raise
            if not getattr(e, "injected", False) and not isinstance(e, faults.Interrupted) and str(e) != "exit":
                raise
            how = type(e).__name__
            self.rec.fault("exception through a context")
        except Exception as e:
            if entered or isinstance(e, Violation):
                raise
            if fq is not None:
                fq.fail = 0
            self.order.append((tid, "refused"))
            self.rec.count("refused")
            if isinstance(e, faults.Boom):
                self.rec.fault("failure while opening")
            else:
                if not isinstance(e, (RuntimeError, L.CircuitError)):
                    raise
                self.refusals.append((tid, start, self.tick(), locked, where))
            if not o["shared"]:
                lib.require(c.is_locked() == locked and [id(x) for x in c.circuit] == [id(x) for x in ops], "refused-but-changed",
                            f"{where}: a refused attempt changed the circuit")
            act = L.CircuitContext.active_context
            if act is not None and act.circuit is c and not o["shared"]:
                raise Violation("refused-but-open", f"{where}: a refused attempt left its context open")
            return
        scope[2] = self.tick()
        self.rec.count("left " + how)
        if any(a.n != 1 for a in actions):
            raise Violation("exit-actions", f"{where}: the end-of-context actions have run {[a.n for a in actions]} times")
        if not o["shared"]:
            lib.require(c.is_locked(), "not-locked", f"{where}: the circuit is not locked after its context was left {how}")
            act = L.CircuitContext.active_context
            lib.require(act is None or act.circuit is not c, "context-left-open", f"{where}: context still active after its block ended {how}")
        if len(self.prog["threads"]) == 1:
            lib.no_context_open(where)
            lib.require(all(v.value is None for v in self.tpl_vars), "exit-actions", f"{where}: variables of an applied template keep their values")

    def inside(self, c, frozen, where):
        """What must hold within a block all the time."""
        from dsim.lib import L

        act = L.CircuitContext.active_context
        if act is None or act.circuit is not c:
            raise Violation("active-context", f"{where}: within the block of a context, {act} is active")
        if bool(act.frozen) != frozen:
            raise Violation("frozen", f"{where}: the context is {'' if act.frozen else 'not '}frozen")

    def body(self, tid, steps, c, reg, circuits, where, freezers, frozen, actions):
        from dsim import faults, lib, sched
        from dsim.lib import L

        alone = len(self.prog["threads"]) == 1 or not any(o["c"] is c for o in self.shared)
        for k, s in enumerate(steps):
            w = f"{where}.{k} ({s['do']})"
            before = [id(x) for x in c.circuit]
            add = 0
            self.rec.steps += 1
            if s["do"] == "op":
                c.is_locked() and c.unlock()
                op = L.ops.RY(0.5, [reg.q[s["q"] % len(reg.q)]])
                add = 0 if frozen else 1
                if add and c.circuit[-1] is not op:
                    raise Violation("recorded", f"{w}: operation not recorded last")
            elif s["do"] == "template":
                if not frozen:
                    c.is_locked() and c.unlock()
                self.tpl([s["p"]], reg.q[0])
                add = 0 if frozen else 1
                if add and c.circuit[-1].parameters != [s["p"]]:
                    raise Violation("recorded", f"{w}: template recorded {c.circuit[-1]}, not with {s['p']}")
            elif s["do"] == "exit":
                actions.append(_Action())
                L.CircuitContext.on_exit_functions.append(actions[-1])
            elif s["do"] == "nested":
                other = circuits[s["c"] % len(circuits)]["c"]
                locked = other.is_locked()
                ctx = other.context
                try:
                    with ctx:
                        raise Violation("two-contexts", f"{w}: opened a second context")
                except (RuntimeError, L.CircuitError):
                    self.rec.count("refused nested")
                    self.rec.nontrivial = True
                lib.require(other.is_locked() == locked or len(self.prog["threads"]) > 1, "refused-but-changed", f"{w}: refused attempt changed the lock")
            elif s["do"] == "yield":
                for _ in range(s["n"]):
                    sched.point()
            elif s["do"] == "unlock":
                c.unlock()
            elif s["do"] == "reset":
                # (keeps the registers; the context stays open and records; other threads may be looking at shared circuits)
                if alone:
                    c.reset()
                    before = []
            elif s["do"] == "raise":
                e = {"BodyError": BodyError, "KeyboardInterrupt": KeyboardInterrupt, "StopIteration": StopIteration, "GeneratorExit": GeneratorExit, "SystemExit": SystemExit}[s["kind"]]("injected")
                e.injected = True
                self.rec.fault("exception in a block")
                raise e
            elif s["do"] == "freeze":
                if s["how"] == "again" and freezers:
                    fr = freezers[-1]
                else:
                    fr = (L.CircuitContext if s["how"] == "class" else c.context).freeze
                freezers.append(fr)
                try:
                    with fr:
                        self.inside(c, True, w)
                        self.body(tid, s["steps"], c, reg, circuits, w, freezers, True, actions)
                        self.inside(c, True, w + " end")
                except (BodyError, KeyboardInterrupt, StopIteration, GeneratorExit, SystemExit) as e:
                    self.inside(c, frozen, w + " left by exception")
                    if not s["catch"] or isinstance(e, faults.Interrupted):
                        raise
                before = None
            self.inside(c, frozen, w)
            if before is not None:
                now = [id(x) for x in c.circuit]
                if now[:len(before)] != before or len(now) != len(before) + add:
                    raise Violation("recorded", f"{w}: {len(now) - len(before)} operations were recorded instead of {add}")
            if self.holder != tid:
                raise Violation("two-contexts", f"{w}: thread {self.holder} has entered meanwhile")


PROP = C02()
