from dsim import gen
from dsim.core import Violation
from dsim.oracle import GATES, PARAMETRIC
from dsim.props import Property

NAMES = list(GATES) + ["Measurement", "Barrier", "UserY"]


class BodyError(Exception):
    """Raised in the bodies of with statements."""


def gen_op(rng, names, par, nb):
    name = rng.choice(names)
    if name == "Measurement":
        k = rng.choice([1, 1, 2])
        o = {"g": name, "q": rng.sample(range(4), k), "b": rng.sample(range(3), k) if rng.random() < 0.7 and nb else None, "s": rng.randrange(6)}
    elif name == "Barrier":
        o = {"g": name, "q": rng.sample(range(4), rng.choice([1, 2, 3])), "s": rng.choice([0, 1, 2])}
    else:
        k, m = GATES.get(name, (0, 1))
        o = {"g": name, "p": [{"v": rng.randrange(3)} if par and rng.random() < 0.5 else gen.param(rng) for _ in range(k)], "q": rng.sample(range(4), m), "s": rng.randrange(6)}
        if not par and k and rng.random() < 0.15:
            o["p"] = [{"set": x} for x in o["p"]]  # a variable that holds the value
    if nb and rng.random() < 0.15:
        o["c"] = rng.sample(range(3), rng.choice([1, 2]))
    return o


def gen_steps(rng, names, circuits, depth, inside, length):
    steps = []
    for _ in range(length):
        k = rng.random()
        c = rng.randrange(len(circuits))
        # mostly about the circuit that is built
        me = inside if inside is not None and rng.random() < 0.7 else c
        if k < (0.4 if inside is not None else 0.12):
            s = {"do": "op", "op": gen_op(rng, names, circuits[me]["par"], True), "of": me}
            if rng.random() < 0.08:
                s["fault"] = {"f": "interrupt", "k": gen.log_uniform(rng, 15)}
        elif k < 0.5:
            s = {"do": "again", "k": rng.randrange(20), "q": [rng.randrange(4) for _ in range(3)], "moved": rng.random() < 0.7}
        elif k < 0.58:
            s = {"do": "template", "c": c, "q": rng.sample(range(4), 4), "b": rng.sample(range(3), 3) if rng.random() < 0.7 else None,
                 "p": [gen.param(rng) for _ in range(3)], "wrong": rng.choice([None, None, None, None, "q", "b", "p"])}
            if rng.random() < 0.1:
                s["fault"] = {"f": "interrupt", "k": gen.log_uniform(rng, 60)}
        elif k < 0.68 and depth < 3:
            s = {"do": "freeze", "how": rng.choice(["context", "class", "again"]), "catch": rng.random() < 0.5,
                 "steps": gen_steps(rng, names, circuits, depth + 1, inside, rng.randint(0, 3))}
        elif k < 0.695:
            s = {"do": "thaw" if rng.random() < 0.6 else "linger", "how": rng.choice(["context", "class"]), "k": rng.randrange(4)}
        elif k < 0.72:
            s = {"do": "bad", "what": rng.choice(["too many", "too few", "foreign", "partly foreign", "no qubits", "parameters", "variable", "type"]), "q": rng.sample(range(4), 4)}
        elif k < 0.76:
            s = {"do": "open", "c": c}
        elif k < 0.80:
            s = {"do": "append", "c": me, "k": rng.randrange(20)}
        elif k < 0.83:
            s = {"do": "extend", "c": me, "ks": [rng.randrange(20) for _ in range(rng.randint(0, 3))]}
            if rng.random() < 0.2:
                s["own"] = True
        elif k < 0.87:
            s = {"do": "remove", "c": me, "k": rng.randrange(20), "absent": rng.random() < 0.2}
        elif k < 0.90:
            s = {"do": "lock", "c": me}
        elif k < 0.93:
            s = {"do": "unlock", "c": me}
        elif k < 0.945:
            s = {"do": "reset", "c": me, "keep": rng.random() < 0.7}
        elif k < 0.96:
            s = {"do": "grow", "c": me, "what": rng.choice(["q", "b"])}
        elif k < 0.97:
            s = {"do": "tweak", "k": rng.randrange(20), "p": gen.param(rng)}
            if rng.random() < 0.4:
                s["q"] = rng.sample(range(5), 5)
        elif k < 0.985 and inside is not None:
            s = {"do": "raise", "kind": rng.choice(["BodyError", "KeyboardInterrupt", "StopIteration", "GeneratorExit"])}
        else:
            s = {"do": "nothing"}
        steps.append(s)
    return steps


class C01(Property):
    ID = "C01"
    RUNS = {"quick": 60000, "thorough": 1000000}
    BUDGET = {"quick": 60, "thorough": 700}
    CHUNK = 25
    RULE = ("a run is a history of 2-30 steps on 1-3 circuits (plain and parametric, several registers): contexts opened and left normally or by exceptions, new and "
            "reapplied operations, templates, nested and overlapping freezes, refused calls, interruptions, and edits (append, extend, remove, lock, unlock, reset, growing) in and out of "
            "contexts; non-trivial if a fault was injected or a call was refused in a context; distinct by program digest")
    REAL = "circuit, contexts, operations, registers"
    STUBS = "the user's blocks (raise exceptions as told by the program)"
    STATES = "(whether in a context, frozen, locked; step; number of operations (up to 5); outcome)"
    ASSUMPTIONS = ["an interrupted operation may be recorded or not, and if so possibly without the bits and conditions that its user gives afterwards",
                   "an interrupted or refused application of several operations may record a prefix of them"]
    LISTS = ("steps",)

    def generate(self, rng, idx, tier):
        circuits = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            circuits.append({"ql": gen.labels(rng), "n": gen.registers(rng, rng.choice([1, 2, 3, 4, 4])), "b": gen.registers(rng, rng.choice([0, 1, 2, 3, 3])), "par": rng.random() < 0.35})
        names = gen.swarm(rng, NAMES)
        steps = []
        for _ in range(rng.randint(1, 5)):
            c = rng.randrange(len(circuits))
            if rng.random() < 0.6:
                steps.append({"do": "unlock", "c": c})
            if rng.random() < 0.85:
                steps.append({"do": "context", "c": c, "steps": gen_steps(rng, names, circuits, 0, c, rng.randint(0, 9))})
            steps += gen_steps(rng, names, circuits, 0, None, rng.choice([0, 0, 1, 3]))
        return {"circuits": circuits, "steps": steps}

    def execute(self, prog, rec):
        _Run(prog, rec).run()


class _Run:
    def __init__(self, prog, rec):
        from dsim import lib

        self.prog, self.rec = prog, rec
        self.circuits = [lib.new_circuit(dict(s, named=True)) for s in prog["circuits"]]
        self.par = [s["par"] for s in prog["circuits"]]
        self.model = [[] for _ in self.circuits]  # (operation object, description)
        self.locked = [False] * len(self.circuits)
        self.pool = []  # operation objects made by the user, with what they were made of
        self.active = None
        self.frozen = 0
        self.freezers = []
        self.lingering = []  # freezes that are left later on, perhaps when another context is open
        self.regs = None

    def run(self):
        from dsim import lib

        self.steps(self.prog["steps"], "")
        while self.lingering:
            self.do_thaw({}, "at the end", "")
        lib.no_context_open("at the end")

    def steps(self, steps, path):
        for k, s in enumerate(steps):
            where = f"step {path}{k} ({s['do']})"
            n = None if self.active is None else min(5, len(self.model[self.active]))
            try:
                r = getattr(self, "do_" + s["do"])(s, where, f"{path}{k}.")
            finally:
                self.rec.steps += 1
                self.check(where)
            self.rec.log(where, r, [len(m) for m in self.model])
            self.rec.state(n, bool(self.frozen), self.active is not None and self.locked[self.active], s["do"], r, len(path))

    # ---- invariants

    def check(self, where):
        from dsim import lib
        from dsim.lib import L

        for i, c in enumerate(self.circuits):
            objs = list(c.circuit)
            want = self.model[i]
            if len(objs) != len(want) or any(x is not y for x, (y, _) in zip(objs, want)):
                raise Violation("recorded-operations", f"{where}: circuit {i} holds {objs}, expected {[d for _, d in want]}")
            lib.require_ops(c, [d for _, d in want], "recorded-operations", f"{where}: circuit {i}")
            if bool(c.is_locked()) != self.locked[i]:
                raise Violation("locked", f"{where}: circuit {i} is {'' if c.is_locked() else 'not '}locked")
        ctx = L.CircuitContext.active_context
        if (ctx is None) != (self.active is None) or (ctx is not None and ctx.circuit is not self.circuits[self.active]):
            raise Violation("active-context", f"{where}: the active context is {ctx}")
        if ctx is not None and bool(ctx.frozen) != bool(self.frozen):
            raise Violation("frozen", f"{where}: the context is {'' if ctx.frozen else 'not '}frozen")

    # ---- helpers

    def qubits(self):
        """Qubits that operations are made on: of the circuit being built, or of the first."""
        return list(self.circuits[self.active or 0].qubits)

    def bits(self):
        return list(self.circuits[self.active or 0].bits)

    def records(self):
        return self.active is not None and not self.frozen

    def fits(self, op):
        return max(op["q"]) < len(self.qubits()) and max((op.get("b") or []) + (op.get("c") or []), default=-1) < len(self.bits())

    def refused(self, out, what, where):
        self.rec.count("refused: " + what)
        if self.active is not None:
            self.rec.nontrivial = True
        if out.ok:
            raise Violation("not-refused", f"{where}: {what} was accepted")
        return "refused " + what

    def attempt(self, fault, fn):
        from dsim import faults

        return faults.attempt(fault, fn, self.rec, allow=(Exception,))

    def adopt_partial(self, i, want, where):
        """After an interruption: a prefix of what was to be recorded is there, the last perhaps incomplete.

        What has been recorded is kept; an incomplete last operation is removed.
        """
        from dsim import lib

        c = self.circuits[i]
        objs = list(c.circuit)
        old = self.model[i]
        new = objs[len(old):]
        if any(x is not y for x, (y, _) in zip(objs, old)) or len(objs) < len(old) or len(new) > len(want):
            raise Violation("recorded-operations", f"{where} (interrupted): circuit {i} holds {objs}, expected at most {want} after {[d for _, d in old]}")
        qubits, bits = list(c.qubits), list(c.bits)
        for k, (x, w) in enumerate(zip(new, want)):
            last = k == len(new) - 1
            d = lib.describe_op(x, qubits, bits, conds=not last)
            if last and (d[:3] != w[:3] or d[3] not in (None, w[3])):
                raise Violation("recorded-operations", f"{where} (interrupted): circuit {i} got {d}, expected {w}")
            if not last and not lib.same_ops([d], [w]):
                raise Violation("recorded-operations", f"{where} (interrupted): circuit {i} got {d}, expected {w}")
            if last:
                del c.circuit[len(objs) - 1]
            else:
                old.append((x, d))

    # ---- contexts

    def do_context(self, s, where, path):
        from dsim import lib
        from dsim.lib import L

        i = s["c"]
        if self.active is not None or self.locked[i]:
            return self.do_open(s, where, path)
        self.frozen = 0
        c = self.circuits[i]
        while any(j == i for j, _ in self.lingering):
            self.do_thaw({}, where, path)
        try:
            with c.context as reg:
                self.active = i
                self.check(where)
                lib.require(len(reg.q) == c.num_qubits and len(reg.c) == c.num_bits, "registers", f"{where}: got registers {reg}")
                self.regs = reg
                try:
                    self.steps(s["steps"], path)
                finally:
                    self.frozen = 0
            r = "left"
        except (BodyError, KeyboardInterrupt, StopIteration, GeneratorExit) as e:
            if not getattr(e, "injected", False):
                raise
            self.rec.fault("exception through a context")
            r = "left by " + type(e).__name__
        finally:
            if self.active == i:
                self.active = None
                self.locked[i] = True
        return r

    def do_open(self, s, where, path):
        i = s["c"]
        if self.active is None and not self.locked[i]:
            return None
        ctx = self.circuits[i].context

        def f():
            with ctx:
                raise Violation("not-refused", f"{where}: entered a context of circuit {i} while {self.active} is active / locked {self.locked[i]}")
        return self.refused(self.attempt(None, f), "second context" if self.active is not None else "context of a locked circuit", where)

    def do_freeze(self, s, where, path):
        from dsim.lib import L

        if self.active is None:
            def f():
                with L.CircuitContext.freeze:
                    pass
            return self.refused(self.attempt(None, f), "freeze without a context", where)
        if s["how"] == "again" and self.freezers:
            fr = self.freezers[-1]
        elif s["how"] == "class":
            fr = L.CircuitContext.freeze
        else:
            fr = L.CircuitContext.active_context.freeze
        self.freezers.append(fr)
        try:
            with fr:
                self.frozen += 1
                try:
                    self.check(where)
                    self.steps(s["steps"], path)
                finally:
                    self.frozen -= 1
        except (BodyError, KeyboardInterrupt, StopIteration, GeneratorExit) as e:
            if not getattr(e, "injected", False):
                raise
            self.rec.fault("exception through a freeze")
            if not s["catch"]:
                raise
        return "frozen"

    def do_linger(self, s, where, path):
        """Enters a freeze as, e.g., an ExitStack does, to leave it at some other time."""
        from dsim.lib import L

        if self.active is None or len(self.lingering) > 3:
            return None
        fr = L.CircuitContext.freeze if s["how"] == "class" else L.CircuitContext.active_context.freeze
        fr.__enter__()
        self.frozen += 1
        self.lingering.append((self.active, fr))
        return "frozen"

    def do_thaw(self, s, where, path):
        if not self.lingering:
            return None
        i, fr = self.lingering.pop(s.get("k", 0) % len(self.lingering))
        fr.__exit__(None, None, None)
        if i == self.active:
            self.frozen -= 1
            if self.frozen:
                self.rec.count("freezes left while others of the context are open")
        elif self.active is not None:
            self.rec.count("freezes left in another context")
        return "thawed"

    def do_raise(self, s, where, path):
        e = {"BodyError": BodyError, "KeyboardInterrupt": KeyboardInterrupt, "StopIteration": StopIteration, "GeneratorExit": GeneratorExit}[s["kind"]]("injected")
        if self.active is None:
            return None
        e.injected = True
        raise e

    def do_nothing(self, s, where, path):
        return None

    # ---- operations

    def variables(self, op):
        """Variables for an operation of the circuit being built, or None if that cannot work."""
        if not any(isinstance(x, dict) for x in op.get("p") or ()):
            return []
        if self.active is None or not self.par[self.active] or not hasattr(self.regs, "p"):
            return None
        return self.regs.p

    def held(self, value):
        from dsim.lib import L

        v = L.Variable("held")
        v.set(value)
        self.rec.count("variables that hold values")
        return v

    def do_op(self, s, where, path):
        from dsim import lib

        op = live = s["op"]
        if any(isinstance(x, dict) and "set" in x for x in op.get("p") or ()):
            op = dict(op, p=[x["set"] for x in op["p"]])
            live = dict(op, p=[self.held(x) for x in op["p"]]) if self.records() and not self.par[self.active] else op
        p = self.variables(op)
        if not self.fits(op) or p is None:
            return None
        q, b = self.qubits(), self.bits()
        if self.regs is not None and self.active is not None and s.get("of", 0) == self.active:
            if [id(x) for x in self.regs.q] == [id(x) for x in q] and [id(x) for x in self.regs.c] == [id(x) for x in b]:
                q, b = self.regs.q, self.regs.c
        fault = s.get("fault")
        if op["g"] == "UserY":
            lib.op_class("UserY")
        if self.records() and self.locked[self.active]:
            return self.refused(self.attempt(None, lambda: lib.apply_op(live, q, b, p)), "operation on a locked circuit", where)
        try:
            out = self.attempt(fault, lambda: lib.apply_op(live, q, b, p)) if fault else None
            obj = out.result if out else lib.apply_op(live, q, b, p)
        except IndexError:
            if self.active is not None and any(isinstance(x, dict) for x in op.get("p") or ()):
                return "no such variable"  # of a register that is frozen
            raise
        if out and not out.ok:
            if self.records():
                self.adopt_partial(self.active, [lib.expected(op)], where)
            return "interrupted"
        d = lib.expected(op)
        if self.records():
            self.model[self.active].append((obj, d))
        self.pool.append((obj, op))
        got = lib.describe_op(obj, list(q), list(b))
        if not lib.same_ops([got], [d]):
            raise Violation("operation", f"{where}: created {got}, expected {d}")
        return "recorded" if self.records() else "not recorded"

    def usable(self, k):
        """An operation object made before, if it can be described and is without conditions."""
        if not self.pool:
            return None, None
        obj, op = self.pool[k % len(self.pool)]
        return obj, op

    def do_again(self, s, where, path):
        from dsim import lib

        obj, op = self.usable(s["k"])
        if obj is None or op.get("c") or any(isinstance(x, dict) for x in op.get("p") or ()):
            return None
        q = self.qubits()
        n = len(op["q"])
        if s["moved"]:
            pos = []
            for x in s["q"] + [0, 1, 2, 3]:
                if x < len(q) and x not in pos:
                    pos.append(x)
            pos = pos[:n]
            if len(pos) < n:
                return None
            qs = [q[x] for x in pos]
            if gen.is_controlled(op["g"]):
                call = lambda: obj((qs[0],), (qs[1],))
            else:
                call = lambda: obj(tuple(qs))
        else:
            qs = list(obj.qubits)
            pos = [lib.index_is(q, x) for x in qs]
            call = obj
        if self.records() and (self.locked[self.active] or -1 in pos):
            return self.refused(self.attempt(None, call), "operation on a locked circuit" if self.locked[self.active] else "operation on foreign qubits", where)
        new = call()
        lib.require(new is not obj, "operation", f"{where}: reapplying gave the same operation object")
        d = [op["g"], list(lib.expected(op)[1]), pos, None, []]
        if self.records():
            self.model[self.active].append((new, d))
        lib.require(type(new) is type(obj) and all(a is b for a, b in zip(new.qubits, qs)), "operation", f"{where}: reapplying {obj} gave {new}")
        self.pool.append((new, dict(op, q=pos, b=None)))
        return "reapplied"

    def do_tweak(self, s, where, path):
        """A parameter of an operation is overwritten, or its qubits: no other operation may change."""
        from dsim import lib

        obj, op = self.usable(s["k"])
        if obj is not None and s.get("q"):
            home = next((i for i, m in enumerate(self.model) if any(o is obj for o, _ in m)), self.active or 0)
            q = list(self.circuits[home].qubits)
            pos = [x for x in s["q"] if x < len(q)][:len(op["q"])]
            if len(pos) < len(op["q"]) or home != (self.active or 0):
                return None
            qs = [q[x] for x in pos]
            lib.quiet(setattr, obj, "qubits", qs if s["k"] % 2 else tuple(qs))
            qs.clear()
            for m in self.model:
                for k, (o, d) in enumerate(m):
                    if o is obj:
                        m[k] = (o, d[:2] + [pos] + d[3:])
            self.pool = [(o, dict(x, q=pos) if o is obj else x) for o, x in self.pool]
            return "moved"
        if obj is None or not op.get("p") or any(isinstance(x, dict) for x in op["p"]) or not isinstance(obj.parameters, list):
            return None
        old = list(obj.parameters)
        obj.parameters[0] = s["p"]
        now = list(obj.parameters)
        if not lib_same(now, [s["p"]] + old[1:]) and not lib_same(now, old):
            raise Violation("operation", f"{where}: parameters {now} after the first of {old} was set to {s['p']}")
        for m in self.model:
            for k, (o, d) in enumerate(m):
                if o is obj:
                    m[k] = (o, [d[0], now] + d[2:])
        self.pool = [(o, dict(x, p=now) if o is obj else x) for o, x in self.pool]
        return "tweaked"

    def do_template(self, s, where, path):
        from dsim import lib

        j = s["c"]
        c = self.circuits[j]
        par = self.par[j]
        q, b = self.qubits(), self.bits()
        n, nb = c.num_qubits, c.num_bits
        nv = c.num_parameters
        qpos = [x for x in s["q"] if x < len(q)][:n]
        if len(qpos) < n or not n:
            return None
        bpos = None
        if s["b"] is not None and nb:
            bpos = [x for x in s["b"] if x < len(b)][:nb]
            if len(bpos) < nb:
                bpos = None
        ops = [d for _, d in self.model[j]]
        if bpos is None and any(d[0] == "Measurement" or d[4] for d in ops):
            return None
        if any(d[0] == "Barrier" for d in ops) and False:
            return None
        params = s["p"][:nv] if nv <= 3 else None
        if params is None:
            return None
        wrong = s["wrong"]
        qs, bs = [q[x] for x in qpos], None if bpos is None else [b[x] for x in bpos]
        if wrong == "q":
            qs = qs[:-1] if len(qs) > 1 else qs + qs
        elif wrong == "b":
            if not bs or len(bs) < 2:
                return None
            bs = bs[:-1]
        elif wrong == "p":
            if not par or not params:
                return None
            params = params[:-1]
        elif wrong:
            raise AssertionError(wrong)

        def call():
            if par:
                return c(params, qs, bs)
            return c(qs, bs)

        if self.active is None or j == self.active or wrong:
            what = "template without a context" if self.active is None else "template in its own context" if j == self.active else "template with wrong " + wrong
            return self.refused(self.attempt(None, call), what, where)
        if self.records() and self.locked[self.active] and ops:
            return self.refused(self.attempt(None, call), "template on a locked circuit", where)
        want = []
        for d in ops:
            p = [params[int(x[1])] if isinstance(x, tuple) else x for x in d[1]]
            want.append([d[0], p, [qpos[x] for x in d[2]], None if d[3] is None else [bpos[x] for x in d[3]],
                         sorted({bpos[x] for x in d[4]})])
        i = self.active
        out = self.attempt(s.get("fault"), call) if s.get("fault") else None
        if out is None:
            call()
        elif not out.ok:
            if self.records():
                self.adopt_partial(i, want, where)
            return "interrupted template"
        if self.records():
            objs = list(self.circuits[i].circuit)[len(self.model[i]):]
            if len(objs) != len(want):
                raise Violation("recorded-operations", f"{where}: a template of {len(want)} operations recorded {len(objs)}")
            self.model[i] += zip(objs, want)
        return f"template {min(len(want), 4)}"

    def do_bad(self, s, where, path):
        from dsim import lib
        from dsim.lib import L

        q = self.qubits()
        pos = [x for x in s["q"] if x < len(q)]
        qs = [q[x] for x in pos]
        what = s["what"]
        inside = self.active is not None
        if what == "too many" and len(qs) >= 2:
            f = lambda: L.ops.X(qs[:2])
        elif what == "too few" and qs:
            f = lambda: L.ops.SWAP(qs[:1])
        elif what == "foreign" and self.records():
            f = lambda: L.ops.Hadamard(L.Qubit("foreign"))
        elif what == "partly foreign" and self.records() and qs:
            two = [qs[0], L.Qubit("foreign")]
            if s["q"][0] % 2:
                two.reverse()
            f = [lambda: L.ops.SWAP(two), lambda: L.ops.CX(two[0], two[1]), lambda: L.ops.Measurement(two), lambda: L.ops.Barrier(two)][s["q"][1] % 4]
        elif what == "no qubits" and inside:
            f = lambda: L.ops.Hadamard()
        elif what == "parameters" and qs:
            f = lambda: L.ops.RX([0.1, 0.2], qs[0])
        elif what == "variable" and self.records() and not self.par[self.active] and qs:
            f = lambda: L.ops.RX(L.Variable("unset"), qs[0])
        elif what == "type" and inside:
            f = lambda: L.ops.Z(5)
        else:
            return None
        return self.refused(self.attempt(None, f), "operation: " + what, where)

    # ---- edits

    def can_append(self, i, obj):
        q = list(self.circuits[i].qubits)
        return not self.locked[i] and all(lib_index(q, x) >= 0 for x in obj.qubits)

    def described(self, i, obj):
        from dsim import lib

        return lib.describe_op(obj, list(self.circuits[i].qubits), list(self.circuits[i].bits))

    def do_append(self, s, where, path):
        i = s["c"]
        obj, op = self.usable(s["k"])
        if obj is None or (any(isinstance(x, dict) for x in op.get("p") or ())):
            return None
        c = self.circuits[i]
        if not self.can_append(i, obj):
            return self.refused(self.attempt(None, lambda: c.append(obj)), "append", where)
        d = self.described(i, obj)
        c.append(obj)
        self.model[i].append((obj, d))
        return "appended"

    def do_extend(self, s, where, path):
        i = s["c"]
        c = self.circuits[i]
        objs = [self.usable(k) for k in s["ks"]]
        if s.get("own") and 0 < len(self.model[i]) <= 12:
            # its own operations, once more
            if self.locked[i]:
                return self.refused(self.attempt(None, lambda: c.extend(c.circuit)), "extend", where)
            c.extend(c.circuit)
            self.model[i] += list(self.model[i])
            self.rec.count("circuits extended with their own operations")
            return "repeated"
        if not self.pool or any(isinstance(x, dict) for _, op in objs for x in op.get("p") or ()):
            return None
        objs = [o for o, _ in objs]
        good = 0
        while good < len(objs) and self.can_append(i, objs[good]):
            good += 1
        new = [(o, self.described(i, o)) for o in objs[:good]]
        if good == len(objs):
            c.extend(objs)
            self.model[i] += new
            return "extended"
        r = self.refused(self.attempt(None, lambda: c.extend(objs)), "extend", where)
        # a prefix may have been appended
        k = len(c.circuit) - len(self.model[i])
        self.model[i] += new[:max(0, k)]
        return r

    def do_remove(self, s, where, path):
        from dsim.lib import L

        i = s["c"]
        c = self.circuits[i]
        if not self.model[i] or s["absent"]:
            op = L.ops.X.__new__(L.ops.X)
            with_ctx = self.active
            if with_ctx is not None:
                return None
            op = L.ops.X(L.Qubit("other"))
            return self.refused(self.attempt(None, lambda: c.remove(op)), "remove", where)
        k = s["k"] % len(self.model[i])
        obj, d = self.model[i][k]
        ids = [id(o) for o, _ in self.model[i]]
        c.remove(obj)
        left = [id(o) for o in c.circuit]
        # the first one that is equal may be removed instead (as lists do)
        first = next(m for m, (_, x) in enumerate(self.model[i]) if x[:3] == d[:3])
        for m in (first, k):
            if left == ids[:m] + ids[m + 1:]:
                del self.model[i][m]
                return "removed"
        raise Violation("remove", f"{where}: removing {d} from {[x for _, x in self.model[i]]} left {list(c.circuit)}")

    def do_lock(self, s, where, path):
        self.circuits[s["c"]].lock()
        self.locked[s["c"]] = True

    def do_unlock(self, s, where, path):
        self.circuits[s["c"]].unlock()
        self.locked[s["c"]] = False

    def do_reset(self, s, where, path):
        i = s["c"]
        self.circuits[i].reset(keep_registers=s["keep"])
        self.model[i] = []
        self.locked[i] = False
        if not s["keep"]:
            c = self.circuits[i]
            if c.num_qubits or c.num_bits:
                raise Violation("reset", f"{where}: registers left after reset: {c}")
            c.add_qregister(2, "new q")
            c.add_cregister(1, "new c")
        return "reset"

    def do_grow(self, s, where, path):
        c = self.circuits[s["c"]]
        if c.num_qubits + c.num_bits > 9:
            return None
        q, b = list(c.qubits), list(c.bits)
        (c.add_qubit if s["what"] == "q" else c.add_bit)()
        # positions change if the first of several registers has grown
        q = [lib_index(c.qubits, x) for x in q]
        b = [lib_index(c.bits, x) for x in b]
        for k, (o, d) in enumerate(self.model[s["c"]]):
            move = lambda xs, to: [to[x] if isinstance(x, int) and x >= 0 else x for x in xs]
            d = [d[0], d[1], move(d[2], q), None if d[3] is None else move(d[3], b), sorted(move(d[4], b), key=str)]
            self.model[s["c"]][k] = (o, d)
        return "grown"


def lib_same(a, b):
    return len(a) == len(b) and all(x == y for x, y in zip(a, b))


def lib_index(items, x):
    from dsim import lib

    return lib.index_is(items, x)


PROP = C01()
