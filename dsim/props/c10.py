import random

from dsim import gen, oracle
from dsim.core import Violation
from dsim.oracle import GATES
from dsim.props import Property

SEEDS = [0, 0, 1, 2, 2**31, 2**32, 2**63, 2**64 - 1, 2**70]


def gen_sched(rng):
    k = rng.random()
    if k < 0.5:
        return {"strategy": "random", "p": rng.choice([0.03, 0.1, 0.3, 0.6]), "seed": rng.randrange(2**32)}
    if k < 0.8:
        return {"strategy": "pct", "depth": rng.choice([1, 2, 3, 5]), "length": rng.choice([30, 100, 300]), "seed": rng.randrange(2**32)}
    return {"strategy": "rr", "quantum": rng.choice([1, 2, 3, 7, 20]), "seed": rng.randrange(2**32)}


def random_circuit(rng, max_n=4):
    """A circuit whose measurements have much entropy."""
    n = gen.size(rng, range(1, max_n + 1), [5, 6, 7] if max_n > 2 else [3])
    nb = gen.size(rng, range(2, 6), [8, 12])
    names = gen.swarm(rng, GATES)
    ops = []
    for _ in range(rng.randint(2, 5)):
        ops += [{"g": rng.choice(["Hadamard", "RY"]), "p": [], "q": [q], "s": 0} for q in range(n)]
        for o in ops:
            if o["g"] == "RY" and not o["p"]:
                o["p"] = [1.5707963]
        ops += gen.circuit_ops(rng, n, nb, rng.randint(0, 3), names, p_cond=rng.choice([0, 0.3]))
        k = rng.randint(1, min(n, nb))
        ops.append({"g": "Measurement", "q": rng.sample(range(n), k), "b": rng.sample(range(nb), k), "s": rng.randrange(6)})
    return {"ql": gen.labels(rng), "n": gen.registers(rng, n), "b": gen.registers(rng, nb), "ops": ops}


def plain(x):
    import numpy as np

    return None if x is None else [[float(v.real), float(v.imag)] for v in np.asarray(x).ravel()]


def outcome(spec, seed, circuit=None):
    """Everything that a simulation determines: bits, state, measured states."""
    from dsim import lib
    from dsim.lib import L

    if circuit is None:
        circuit = lib.build(spec)
    circuit, objs = circuit
    lib.quiet(L.simulate, circuit, rng_seed=seed)
    return [lib.values(circuit.bits), plain(circuit.state), [plain(o.state) for o in objs if type(o).__name__ == "Measurement"]]


def differ(a, b):
    import numpy as np

    if a[0] != b[0]:
        return f"bits {a[0]} and {b[0]}"
    for what, x, y in [("states", a[1], b[1])] + [("measured states", x, y) for x, y in zip(a[2], b[2])]:
        if (x is None) != (y is None) or (x is not None and (len(x) != len(y) or not np.allclose(x, y, atol=1e-10))):
            return f"{what} {x} and {y}"
    return None


class C10(Property):
    ID = "C10"
    RUNS = {"quick": 4000, "thorough": 80000}
    BUDGET = {"quick": 60, "thorough": 700}
    CHUNK = 25
    RULE = ("a run is a circuit (1-4 qubits, repeated measurements of superpositions) and a seed, simulated in a fresh state, after other "
            "activity (other simulations, failed ones, samples, global generators drawn from or seeded), in a differently built equal circuit, "
            "among scheduled threads, and in another process with another hash seed; all are non-trivial; distinct by program digest")
    REAL = "circuit, operations, simulator and its compiled kernels, numpy generators; a second real process"
    STUBS = "thread scheduling; OS entropy of numpy generators"
    STATES = "(gates, seed class, bits measured)"
    ASSUMPTIONS = ["states are compared up to 1e-10, bits exactly", "60 seeds yield two different outcomes if none has a probability above 1/2 (up to 1e-17)"]
    LISTS = ("ops", "noise", "others", "threads")

    def generate(self, rng, idx, tier):
        spec = random_circuit(rng)
        noise = []
        for _ in range(rng.randint(0, 5)):
            k = rng.random()
            if k < 0.25:
                noise.append({"do": "simulate", "spec": random_circuit(rng, 3), "seed": rng.choice([None, 0, 5])})
            elif k < 0.4:
                noise.append({"do": "fail", "spec": random_circuit(rng, 3), "f": {"f": rng.choice(["alloc", "interrupt"]), "k": gen.log_uniform(rng, 60)}})
            elif k < 0.55:
                noise.append({"do": "global", "seed": rng.randrange(100), "draw": rng.randrange(5)})
            elif k < 0.7:
                noise.append({"do": "ids", "length": rng.randint(2, 5), "batch": rng.choice([10, 100, 1000])})
            elif k < 0.85:
                noise.append({"do": "same", "seed": rng.choice([None, 0, 3, 17])})
            else:
                noise.append({"do": "sample", "num": rng.randint(1, 3)})
        prog = {"spec": spec, "seed": rng.choice(SEEDS) if rng.random() < 0.5 else rng.randrange(2**32), "noise": noise,
                "again": rng.random() < 0.5, "n2": gen.registers(rng, sum(spec["n"])), "b2": gen.registers(rng, sum(spec["b"])),
                "process": rng.random() < 0.4, "many": rng.random() < 0.1}
        if rng.random() < 0.5:
            prog["threads"] = [{"spec": random_circuit(rng, 2), "seed": rng.choice([None, 0, 9]), "n": rng.randint(1, 2)} for _ in range(rng.randint(1, 3))]
            prog["sched"] = gen_sched(rng)
        return prog

    def answer(self, req):
        if req.get("noise"):
            outcome(req["noise"], None)
        return outcome(req["spec"], req["seed"])

    def execute(self, prog, rec):
        import numpy as np
        from dsim import faults, lib
        from dsim.lib import L
        from dsim.sched import Scheduler

        spec, seed = prog["spec"], prog["seed"]
        if sum(spec["n"]) == 0:
            return
        rec.nontrivial = True
        rec.steps += len(spec["ops"])
        main = lib.build(spec)
        ref = outcome(spec, seed, main)
        rec.log(ref[0])
        rec.state([o["g"] for o in spec["ops"]], seed in SEEDS, ref[0])
        random.seed(4711)
        np.random.seed(815)

        def glob():
            s = np.random.get_state()
            return random.getstate(), s[0], s[1].tobytes(), s[2:]

        def guarded(f, what):
            a = glob()
            r = f()
            if glob() != a:
                raise Violation("global-generator", f"{what} changed the state of a global random generator")
            return r

        def check(got, what):
            d = differ(ref, got)
            rec.count("repetitions " + what)
            rec.steps += len(spec["ops"])
            if d:
                raise Violation("not-reproducible", f"the same circuit simulated with seed {seed} again {what} gives other {d}")

        for k, x in enumerate(prog["noise"]):
            if x["do"] == "simulate":
                guarded(lambda: outcome(x["spec"], x["seed"]), "simulating") if sum(x["spec"]["n"]) else None
            elif x["do"] == "fail":
                if sum(x["spec"]["n"]):
                    c = lib.build(x["spec"])
                    guarded(lambda: faults.attempt(x["f"], lambda: outcome(x["spec"], 1, c), rec), "failing to simulate")
            elif x["do"] == "global":
                random.seed(x["seed"])
                np.random.seed(x["seed"])
                for _ in range(x["draw"]):
                    random.random()
                    np.random.random()
            elif x["do"] == "ids":
                L.IDCounter.reset(length=x["length"], batch=x["batch"])
            elif x["do"] == "same":
                guarded(lambda: outcome(spec, x["seed"], main), "simulating")
            else:
                for o in main[1]:
                    if type(o).__name__ == "Measurement" and o.state is not None:
                        guarded(lambda: o.sample(num_samples=x["num"]), "sampling")
        L.IDCounter.reset()
        check(guarded(lambda: outcome(spec, seed), "simulating"), "after other activity")
        if prog["again"] and not self.reads_old(spec):
            check(guarded(lambda: outcome(spec, seed, main), "simulating"), "in the same circuit")
        other = dict(spec, n=prog["n2"], b=prog["b2"])
        if sum(other["n"]) == sum(spec["n"]) and sum(other["b"]) == sum(spec["b"]):
            check(outcome(other, seed), "with other registers")
        if prog.get("threads"):
            sched = Scheduler(prog["sched"], rec)
            got = []
            mine = lib.build(spec)
            sched.spawn(lambda: got.append(outcome(spec, seed, mine)))
            for t in prog["threads"]:
                if sum(t["spec"]["n"]):
                    tc = lib.build(t["spec"])

                    def body(t=t, tc=tc):
                        for _ in range(t["n"]):
                            outcome(t["spec"], t["seed"], tc)
                    sched.spawn(body)
            try:
                sched.run()
            finally:
                rec.switches = sched.switches
            rec.log(sched.n, len(sched.switches))
            check(got[0], "among other threads")
        if prog["process"]:
            r = twin(prog["noise"]).ask({"spec": spec, "seed": seed, "noise": spec if len(prog["noise"]) % 2 else None})
            if isinstance(r, dict):
                raise Violation("not-reproducible", f"in another process: {r['error']}")
            check(r, "in another process")
        if prog["many"] and sum(len(o["q"]) for o in spec["ops"] if o["g"] == "Measurement") <= 9:
            dist = {}
            for b in oracle.trajectories(spec["ops"], sum(spec["n"]), [None] * sum(spec["b"]), limit=1 << 14):
                key = tuple(b.bits.values())
                dist[key] = dist.get(key, 0) + b.p
            if max(dist.values()) <= 0.5:
                seen = set()
                for s in range(60):
                    lib.restore(list(main[0].bits), [None] * main[0].num_bits)
                    seen.add(tuple(outcome(spec, s, main)[0]))
                rec.count("seed diversity checked")
                if len(seen) == 1:
                    raise Violation("seed-ignored", f"60 different seeds all give the bits {seen.pop()}")

    @staticmethod
    def reads_old(spec):
        from dsim.props.c08 import split_conditions

        return bool(split_conditions(spec["ops"], 0)[0]) or any(o.get("c") for o in spec["ops"] if o["g"] == "Measurement")


_twin = []


def twin(_):
    from dsim.twin import Twin

    if not _twin:
        _twin.append(Twin("C10", 4242))
    return _twin[0]


PROP = C10()
