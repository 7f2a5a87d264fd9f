from dsim import gen, oracle
from dsim.core import Violation
from dsim.oracle import GATES
from dsim.props import Property
from dsim.props.c10 import gen_sched
from dsim.props.c12 import gen_ops
from dsim.props.c13 import BASE

USES = {
    "general": ["simulate", "simulate", "read", "copy", "sample", "expval", "matrices", "find", "reset bits", "ops"],
    "unitary": ["simulate", "density", "unitary", "unitary", "pack", "qasm", "qir", "copy", "read", "matrices", "little", "set state", "ops"],
    "final": ["simulate", "qir", "qir", "copy", "read", "sample"],
    "param": ["eval", "eval", "read", "copy", "eval unitary", "pack", "matrices", "ops"],
}
FREE = ["X", "Hadamard", "S", "RX", "Rotation", "CX", "CZ", "CHadamard", "CRX", "CRotation", "SWAP", "CSWAP", "CCX", "UserY"]


def gen_finished(rng):
    kind = rng.choice(["general", "general", "unitary", "unitary", "final", "param"])
    n = rng.randint(1, 3)
    if kind == "general":
        nb = rng.randint(0, 3)
        ops = gen.circuit_ops(rng, n, nb, rng.randint(0, 6), gen.swarm(rng, GATES), p_measure=0.3, p_cond=rng.choice([0, 0.3]), max_measured=4)
    elif kind == "unitary":
        nb = 0
        ops = gen_ops(rng, n, rng.randint(0, 6), p_user=0)
        for o in ops:
            o["p"] = [float(x) for x in o["p"]]
    elif kind == "final":
        nb = n
        ops = gen.circuit_ops(rng, n, 0, rng.randint(0, 5), gen.swarm(rng, GATES))
        for o in ops:
            o["p"] = [float(x) for x in o["p"]]
        ops.append({"g": "Measurement", "q": rng.sample(range(n), n), "b": rng.sample(range(n), n), "s": rng.randrange(6)})
    else:
        nb = 0
        ops = gen.circuit_ops(rng, n, 0, rng.randint(1, 4), ["RX", "RY", "RZ", "Rotation", "X", "CX", "Hadamard"])
        for o in ops:
            o["p"] = [{"v": rng.randrange(3)} if rng.random() < 0.7 else x for x in o["p"]]
    return {"kind": kind, "ql": gen.labels(rng), "n": gen.registers(rng, n), "b": gen.registers(rng, nb), "ops": ops, "par": kind == "param"}


def gen_use(rng, f, kinds):
    if rng.random() < 0.15:
        return {"use": "free", "op": {"g": rng.choice(FREE), "p": [gen.param(rng) for _ in range(3)]}, "on": rng.choice(["class", "instance"])}
    i = rng.choice(f)
    u = {"use": rng.choice(USES[kinds[i]]), "i": i, "seed": rng.choice([0, 1, rng.randrange(2**32)]), "p": [gen.param(rng) for _ in range(3)], "k": rng.randrange(8)}
    return u


class C03(Property):
    ID = "C03"
    RUNS = {"quick": 8000, "thorough": 200000}
    BUDGET = {"quick": 70, "thorough": 700}
    CHUNK = 20
    RULE = ("a run is one thread that builds 1-3 circuits (operations, measurements, freezes, templates) while it and up to 2 further threads use finished circuits under a "
            "seeded schedule (simulate in all forms, sample, unitary, matrices, packing, evaluation, exports, copies, reading), some uses interrupted; every result is "
            "compared with that of the same use before; all are non-trivial; distinct by program digest")
    REAL = "circuit, contexts, operations, simulator and its compiled kernels, exports, registers; real threads"
    STUBS = "thread scheduling, locks"
    STATES = "(use, whether in the thread that builds, frozen, gates of the used circuit)"
    ASSUMPTIONS = ["threads switch where CPython allows it in the library's Python code (compiled kernels are atomic)", "every finished circuit is used by one thread at a time "
                   "(except read-only uses)", "variables of an applied parametric circuit may keep values until the context ends", "samples are random; they are checked to be possible outcomes", "results are compared up to 1e-10"]
    LISTS = ("steps", "threads", "uses", "ops")

    def generate(self, rng, idx, tier):
        finished = [gen_finished(rng) for _ in range(rng.randint(1, 4))]
        kinds = [f["kind"] for f in finished]
        nt = rng.choice([0, 1, 1, 2])
        owner = [rng.randrange(nt + 1) for _ in finished]
        mine = [i for i, o in enumerate(owner) if o == 0]

        def body(depth):
            steps = []
            for _ in range(rng.randint(0, 5)):
                k = rng.random()
                if k < 0.4:
                    o = gen.circuit_ops(rng, 3, 2, 1, GATES, p_measure=0.2, p_cond=0.2)[0]
                    steps.append({"do": "op", "op": o})
                elif k < 0.7 and mine:
                    u = gen_use(rng, mine, kinds)
                    if rng.random() < 0.2:
                        u["fault"] = {"f": "interrupt", "k": gen.log_uniform(rng, 60)}
                    steps.append({"do": "use", "u": u})
                elif k < 0.8 and depth < 2:
                    steps.append({"do": "freeze", "steps": body(depth + 1)})
                elif k < 0.9 and mine:
                    steps.append({"do": "template", "i": rng.choice(mine), "p": [gen.param(rng) for _ in range(3)]})
                else:
                    steps.append({"do": "yield", "n": rng.choice([1, 3, 10])})
            return steps
        blocks = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < 0.2:
                blocks.append({"do": "yield", "n": rng.choice([1, 5])})
            blocks.append({"do": "block", "par": rng.random() < 0.2, "steps": body(0)})
            if mine and rng.random() < 0.4:
                blocks[-1]["share"] = rng.choice(mine)
        threads = []
        for t in range(nt):
            f = [i for i, o in enumerate(owner) if o == t + 1]
            ro = [i for i in range(len(finished)) if kinds[i] in ("unitary", "param")]
            uses = []
            for _ in range(rng.randint(1, 4)):
                if f:
                    uses.append(gen_use(rng, f, kinds))
                elif ro:
                    u = gen_use(rng, ro, kinds)
                    if u["use"] in ("unitary", "pack", "qasm", "qir", "copy", "eval", "eval unitary", "matrices", "free", "ops"):
                        uses.append(u)
            threads.append({"uses": uses})
        return {"finished": finished, "steps": blocks, "threads": threads, "sched": gen_sched(rng)}

    def execute(self, prog, rec):
        _Run(prog, rec).run()


class _Run:
    def __init__(self, prog, rec):
        from dsim import lib

        self.prog, self.rec = prog, rec
        self.fin = []
        for s in prog["finished"]:
            if not sum(s["n"]):
                s["n"] = [1]
            self.fin.append(lib.build(s))
        self.free = {}
        self.want = {}

    # ---- uses

    def key(self, u):
        import json

        return json.dumps({k: v for k, v in u.items() if k != "fault"}, sort_keys=True)

    def prepare(self, u):
        """Whatever is needed that would be recorded if it were made in a context."""
        from dsim import lib

        if u["use"] == "free" and self.key(u) not in self.free:
            g = u["op"]["g"]
            cls = lib.op_class(g)
            n = GATES.get(g, (0, 1))[0]
            self.free[self.key(u)] = cls if u["on"] == "class" and not n else (cls(u["op"]["p"][:n]) if n else cls())

    def apart(self, u, op):
        """Whether the matrix of an operation cannot depend on a context: those of controlled operations are of their circuit in its context."""
        return gen.is_controlled(type(op).__name__) <= all(b.get("share") != u["i"] for b in self.prog["steps"])

    def use(self, u):
        """Uses a finished circuit; returns something comparable."""
        import copy

        import numpy as np
        from dsim import lib
        from dsim.lib import L

        what = u["use"]
        arr = lambda x: None if x is None else np.array(x, dtype=complex)
        if what == "free":
            return [arr(self.free[self.key(u)].matrix)]
        spec = self.prog["finished"][u["i"]]
        circuit, objs = self.fin[u["i"]]
        if what in ("simulate", "density", "little"):
            lib.restore(list(circuit.bits), [None] * circuit.num_bits)
            r = lib.quiet(L.simulate, circuit, rng_seed=u["seed"], mixed_state=what == "density", little_endian=what == "little")
            return [lib.values(circuit.bits), arr(circuit.density_matrix if what == "density" else circuit.state),
                    [arr(o.state) for o, d in zip(objs, spec["ops"]) if d["g"] == "Measurement" and not d.get("c")]]
        if what in ("sample", "expval"):
            lib.restore(list(circuit.bits), [None] * circuit.num_bits)
            lib.quiet(L.simulate, circuit, rng_seed=u["seed"])
            ms = [(o, d) for o, d in zip(objs, spec["ops"]) if d["g"] == "Measurement" and not d.get("c")]
            if not ms:
                return []
            m, d = ms[u["k"] % len(ms)]
            before = arr(m.state)
            possible = oracle.joint(before, d["q"], sum(spec["n"]))
            for s in (m.sample(num_samples=3) if what == "sample" else []):
                if len(s) != len(d["q"]) or possible[tuple(int(x) for x in s)] < 1e-12:
                    raise Violation("impossible-sample", f"{s} sampled from {possible}")
            if what == "expval":
                e = m.expval(num_samples=4)
                if len(e) != len(d["q"]) or not all(0 <= x <= 1 for x in e):
                    raise Violation("impossible-sample", f"expectation values {e}")
            return [before, arr(m.state)]
        if what == "unitary":
            return [arr(L.build_unitary(circuit))]
        if what == "pack":
            op = L.create_operation(circuit, name="Packed")
            if circuit.parametric:
                # (an instance would be recorded, so that only the class can be used)
                return [op.matrix is None, op.num_parameters, op.num_qubits]
            return [arr(op.matrix), op.num_qubits]
        if what == "ops":
            # its operations, one by one: evaluated, copied, compared
            r = []
            for o in objs:
                x = o
                if isinstance(o, L.ops.ParametricOperation):
                    x = o.eval([u["p"][k % 3] for k in range(o.num_parameters)])
                    r.append([list(x.parameters), x is o, arr(x.matrix) if self.apart(u, x) else None])
                y = copy.deepcopy(x)
                # (its label, number of qubits and parameters)
                r.append([type(y).__name__, y == x, list(getattr(y, "parameters", [])), y.name, x.name, o.num_qubits, [] if spec["par"] else [o == z for z in objs[:3]]])
            return r
        if what == "matrices":
            r = []
            for o in objs:
                if type(o).__name__ not in ("Measurement",) and not any(isinstance(p, L.Variable) for p in getattr(o, "parameters", [])) and self.apart(u, o):
                    r.append(arr(o.matrix))
            return r
        if what == "qasm":
            if any(o["g"] == "UserY" for o in spec["ops"]):
                return []
            return [circuit.to_qasm()]
        if what == "qir":
            if any(o["g"] == "UserY" for o in spec["ops"]):
                return []
            external = any(o["g"] not in BASE for o in spec["ops"])
            return [circuit.to_qir(add_external=external or bool(u["k"] % 2))]
        if what == "copy":
            c = copy.deepcopy(circuit)
            return [lib.describe(c), c.num_qubits, c.num_bits, c.is_locked()]
        if what == "read":
            lib.restore(list(circuit.bits), [None] * circuit.num_bits)
            return [lib.describe(circuit), repr(circuit), circuit.num_qubits, circuit.num_bits, circuit.is_locked(), circuit.num_parameters, [] if spec["par"] else [repr(o) for o in objs],
                    [o.qubits is not None and len(o.qubits) for o in objs]]
        if what == "find":
            return [[circuit.find_qubit(q) for q in circuit.qubits], [circuit.find_bit(b) for b in circuit.bits],
                    [lib.index_is(circuit.qubits, circuit.get_qubit(q.label)) for q in circuit.qubits]]
        if what == "reset bits":
            for b in circuit.bits:
                b.reset()
            return [lib.values(circuit.bits)]
        if what == "set state":
            s = np.zeros(2**circuit.num_qubits, dtype=complex)
            s[u["k"] % len(s)] = 1j
            circuit.set_state(s, force=True)
            return [arr(circuit.state), arr(circuit.density_matrix)]
        if what == "eval":
            c = circuit.eval([[u["p"][(j + k) % 3] for k in range(3)] for j in range(len(objs))])
            return [lib.describe(c), lib.describe(circuit)]
        if what == "eval unitary":
            c = circuit.eval([[u["p"][(j + k) % 3] for k in range(3)] for j in range(len(objs))])
            return [arr(L.build_unitary(c))]
        raise AssertionError(what)

    @staticmethod
    def equal(a, b):
        import numpy as np

        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and np.allclose(a, b, atol=1e-10)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(_Run.equal(x, y) for x, y in zip(a, b))
        return a == b

    def checked(self, u, where, inside):
        from dsim import lib

        got = self.use(u)
        self.rec.count("use: " + u["use"])
        self.rec.steps += 1
        self.rec.state(u["use"], inside, [o["g"] for o in self.prog["finished"][u["i"]]["ops"]] if "i" in u else u["op"]["g"])
        if not self.equal(got, self.want[self.key(u)]):
            raise Violation("use-depends-on-context", f"{where}: {u['use']} of {self.prog['finished'][u['i']] if 'i' in u else u['op']} gives\n{got}\nbut on its own\n{self.want[self.key(u)]}")

    def all_uses(self, x):
        if isinstance(x, dict):
            if "use" in x:
                yield x
            for v in x.values():
                yield from self.all_uses(v)
        elif isinstance(x, list):
            for v in x:
                yield from self.all_uses(v)

    # ---- the run

    def run(self):
        from dsim import lib
        from dsim.sched import Scheduler

        self.rec.nontrivial = True
        for u in self.all_uses([self.prog["steps"], self.prog["threads"]]):
            self.prepare(u)
            self.want[self.key(u)] = self.use(u)
        sched = Scheduler(self.prog["sched"], self.rec)
        self.built = []
        sched.spawn(self.builder)
        for t, th in enumerate(self.prog["threads"]):
            sched.spawn(lambda t=t, th=th: [self.checked(u, f"thread {t + 1} use {k}", "thread") for k, u in enumerate(th["uses"])])
        try:
            sched.run()
        finally:
            self.rec.switches = sched.switches
        lib.no_context_open("at the end")
        for k, (c, want) in enumerate(self.built):
            self.recorded(c, want, f"block {k} at the end")
            if not c.is_locked():
                raise Violation("not-locked", f"block {k}: not locked at the end")
        for k, (spec, (c, objs)) in enumerate(zip(self.prog["finished"], self.fin)):
            if [id(o) for o in objs] != [id(o) for o in c.circuit] or not lib.same_ops(lib.describe(c), [lib.expected(o) for o in spec["ops"]]) or not c.is_locked():
                raise Violation("finished-changed", f"finished circuit {k} is now {c.circuit}")
        self.rec.log(sched.n, len(sched.switches), [len(w) for _, w in self.built])

    @staticmethod
    def recorded(c, want, where):
        from dsim import lib

        got = lib.describe(c)
        if not lib.same_ops(got, want):
            raise Violation("built-circuit-changed", f"{where}: the circuit being built holds {got}, expected {want}")

    def builder(self):
        from dsim import sched
        from dsim.lib import L

        for k, s in enumerate(self.prog["steps"]):
            where = f"block {k}"
            if s["do"] == "yield":
                for _ in range(s["n"]):
                    sched.point()
                continue
            c = (L.ParametricCircuit if s["par"] else L.Circuit)(3, 2)
            want = []
            self.built.append((c, want))
            if "share" in s:
                # it has the qubits of a finished circuit, too
                for q in self.fin[s["share"]][0].qubits:
                    c.add_qubit(q)
            with c.context as reg:
                self.body(c, reg, want, s["steps"], where, False)

    def body(self, c, reg, want, steps, where, frozen):
        from dsim import faults, lib, sched
        from dsim.lib import L
        from dsim.sched import Scheduler

        for k, s in enumerate(steps):
            w = f"{where}.{k} ({s['do']})"
            if s["do"] == "op":
                lib.apply_op(s["op"], reg.q, reg.c)
                if not frozen:
                    want.append(lib.expected(s["op"]))
            elif s["do"] == "yield":
                for _ in range(s["n"]):
                    sched.point()
            elif s["do"] == "freeze":
                with c.context.freeze:
                    self.body(c, reg, want, s["steps"], w, True)
                lib.require(bool(L.CircuitContext.active_context.frozen) == frozen, "frozen", f"{w}: context frozen {L.CircuitContext.active_context.frozen}")
            elif s["do"] == "template":
                spec = self.prog["finished"][s["i"]]
                if any(o["g"] == "Measurement" or o.get("c") for o in spec["ops"]):
                    continue
                f = self.fin[s["i"]][0]
                if spec["par"]:
                    f(s["p"][:f.num_parameters], list(reg.q)[:f.num_qubits])
                else:
                    f(list(reg.q)[:f.num_qubits])
                if not frozen:
                    for o in spec["ops"]:
                        want.append(lib.expected(dict(o, p=[s["p"][x["v"]] if isinstance(x, dict) else x for x in o.get("p") or ()])))
            else:
                u = s["u"]
                if u.get("fault"):
                    sc = Scheduler.current
                    sc.arm(u["fault"]["k"], faults.Interrupted())
                    try:
                        self.use(u)
                    except faults.Interrupted:
                        pass
                    finally:
                        if sc.disarm():
                            self.rec.fault("interruption")
                self.checked(u, w, "frozen" if frozen else "building")
            self.recorded(c, want, w)
            act = L.CircuitContext.active_context
            if act is None or act.circuit is not c:
                raise Violation("active-context", f"{w}: {act} is active")


PROP = C03()
