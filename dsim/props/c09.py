import math

from dsim import gen, oracle
from dsim.core import Violation
from dsim.oracle import GATES
from dsim.props import Property
from dsim.props.c07 import gen_draws


class C09(Property):
    ID = "C09"
    GUARDED = 0.1
    RUNS = {"quick": 14000, "thorough": 150000}
    BUDGET = {"quick": 60, "thorough": 700}
    CHUNK = 25
    RULE = ("a run is a circuit (1-4 qubits) with measurements and a history of sampling and expectation values of any of "
            "them (also before any simulation and between simulations), with refused requests, adversarial draws and failures half-way; "
            "non-trivial if samples were drawn from a superposition or a fault was injected; distinct by program digest")
    REAL = "measurements, circuit, simulator and its compiled kernels, numpy"
    STUBS = "allocator of array data and bit generator of numpy (may fail or are scripted)"
    STATES = "(gates before the measurement, measured qubits, requested qubits, set of sampled outcomes)"
    ASSUMPTIONS = [
        "random draws lie in [1e-9, 1)",
        "frequencies are compared with binomial tail bounds of 1e-13",
    ]
    LISTS = ("ops", "steps")

    def generate(self, rng, idx, tier):
        n, nb = gen.size(rng, [1, 2, 2, 3, 3, 4], [5, 6, 7]), gen.size(rng, [1, 2, 3, 4], [6, 11])
        names = gen.swarm(rng, GATES)
        if "Hadamard" not in names:
            names += ["Hadamard", "RY"]
        ops = gen.circuit_ops(rng, n, nb, rng.randint(1, 9), names, p_measure=0.3, p_cond=rng.choice([0, 0.2]), p_nobits=rng.choice([0, 0.2]))
        if not any(o["g"] == "Measurement" for o in ops):
            k = rng.randint(1, min(n, nb))
            ops.append({"g": "Measurement", "q": rng.sample(range(n), k), "b": rng.sample(range(nb), k), "s": 1})
        steps = []
        faulty = rng.random() < 0.5
        stats = rng.random() < 0.25
        nm = sum(o["g"] == "Measurement" for o in ops)
        for k in range(rng.randint(2, 9)):
            x = rng.random()
            if (k == 0 and rng.random() < 0.8) or x < 0.15:
                steps.append({"do": "simulate", "seed": rng.randrange(10**6)})
                if rng.random() < 0.1:
                    # not supported together with measurements
                    steps.append({"do": "simulate", "seed": 1, rng.choice(["mixed_state", "little_endian"]): True})
                continue
            if x < 0.2:
                steps.append({"do": "edit", "m": rng.randrange(nm), "q": rng.sample(range(n), n), "seed": rng.randrange(10**6)})
                continue
            s = {"do": "sample" if x < 0.8 else "expval", "m": rng.randrange(nm)}
            r = rng.random()
            if r < 0.4:
                s["qubits"] = [rng.randrange(n) for _ in range(rng.choice([1, 1, 2, 3, n]))]
                if rng.random() < 0.7:
                    s["qubits"] = list(dict.fromkeys(s["qubits"]))
            elif r < 0.5:
                s["qubits"] = [rng.randrange(n) for _ in range(rng.randrange(2))] + [rng.choice([n, n + 1, n + 7, -1, -n, -n - 1])]
                rng.shuffle(s["qubits"])
            s["num"] = rng.choice([1, 1, 2, 5, 13])
            if stats:
                s["num"] = gen.size(rng, [250], [1025, 2049, 4100], 0.05)
            if s["do"] == "sample" and rng.random() < 0.3:
                s["bits"] = True
            if rng.random() < 0.1:
                del s["num"]  # the default
            elif not stats and rng.random() < 0.4:
                s["draws"] = gen_draws(rng)[1]
            if faulty and rng.random() < 0.5:
                f = {"f": rng.choice(["alloc", "interrupt"])}
                f["k"] = gen.log_uniform(rng, (2 if f["f"] == "alloc" else 6) * s.get("num", 1) + 2)
                s["fault"] = f
            steps.append(s)
        return {"ql": gen.labels(rng), "n": gen.registers(rng, n), "b": gen.registers(rng, nb), "ops": ops, "steps": steps}

    def execute(self, prog, rec):
        import numpy as np
        from dsim import faults, lib
        from dsim.lib import L

        n = sum(prog["n"])
        if n == 0:
            return
        circuit, objs = lib.build(prog)
        ms = [(dict(o), x, i) for i, (o, x) in enumerate(zip(prog["ops"], objs)) if o["g"] == "Measurement"]
        if not ms:
            return

        def look():
            return (
                None if circuit.state is None else circuit.state.tobytes(),
                [None if x.state is None else x.state.tobytes() for _, x, _ in ms],
                lib.values(circuit.bits), [tuple(map(id, x.bits)) if x.bits else None for _, x, _ in ms],
                [id(x) for x in circuit.circuit], circuit.is_locked(), [tuple(map(id, x.qubits)) for _, x, _ in ms],
            )

        for k, step in enumerate(prog["steps"]):
            where = f"step {k}"
            if step["do"] == "simulate":
                kw = {key: True for key in ("mixed_state", "little_endian") if step.get(key)}
                out = faults.attempt(None, lambda: lib.quiet(L.simulate, circuit, rng_seed=step["seed"], **kw), rec, allow=(Exception,) if kw else ())
                if kw:
                    rec.count("unsupported simulations " + ("refused" if not out.ok else "made"))
                    if out.ok:
                        # none of the measurements was made; look() needs a pure state
                        lib.quiet(L.simulate, circuit, rng_seed=step["seed"])
                rec.steps += len(objs)
                continue
            o, m, i = ms[step["m"] % len(ms)]
            if step["do"] == "edit":
                # another qubit is measured from now on (it might be skipped if it is conditioned)
                if not o.get("c"):
                    o["q"] = step["q"][:len(o["q"])]
                    qubits = list(circuit.qubits)
                    lib.quiet(setattr, m, "qubits", [qubits[q] for q in o["q"]])
                    lib.quiet(L.simulate, circuit, rng_seed=step["seed"])
                    rec.count("measurements of other qubits than before")
                continue
            kw = {}
            if "num" in step:
                kw["num_samples"] = step["num"]
            if step.get("bits"):
                kw["as_bitstring"] = True
            if "qubits" in step:
                kw["qubits"] = step["qubits"]
            before = look()
            state = None if m.state is None else m.state.copy()

            def call():
                f = m.sample if step["do"] == "sample" else m.expval
                if "draws" in step:
                    with faults.scripted_draws(step["draws"]) as script:
                        r = f(**kw)
                    if script.used:
                        rec.fault("adversarial draws")
                    return r
                return f(**kw)

            bad = any(not 0 <= q < n for q in step.get("qubits") or ())
            out = faults.attempt(step.get("fault"), call, rec, allow=(Exception,) if state is None or bad else ())
            now = look()
            if now != before:
                what = [w for w, x, y in zip(("state", "measured states", "bits", "measured bits", "operations", "lock", "qubits"), before, now) if x != y]
                raise Violation("sampling-disturbs", f"{where}: {step['do']} {'succeeded' if out.ok else f'failed with {out.error!r}'} and changed {what}")
            rec.log(where, out.ok, out.fired, out.result if out.ok else type(out.error).__name__)
            if state is None or bad:
                if out.ok:
                    raise Violation("not-refused", f"{where}: {step['do']}({kw}) of a measurement "
                                                   f"{'that was not simulated' if state is None else f'of {n} qubits'} returned {out.result}")
                rec.count("refused: " + ("not simulated" if state is None else "no such qubit"))
                continue
            if not out.ok:
                continue
            qubits = step.get("qubits", o["q"])
            dist = oracle.joint(state, qubits, n)
            if len(dist) > 1:
                rec.nontrivial = True
            num = step.get("num", 1 if step["do"] == "sample" else 1000)
            rec.steps += num
            rec.count(f"{step['do']}: samples", num)
            self.check(where, step, out.result, qubits, dist, num)
            rec.state([x["g"] for x in prog["ops"][:i]], o["q"], qubits, sorted(map(str, out.result))[:8] if step["do"] == "sample" else None)

    def check(self, where, step, r, qubits, dist, num):
        scripted = "draws" in step
        if step["do"] == "expval":
            if not isinstance(r, list) or len(r) != len(qubits):
                raise Violation("shape", f"{where}: expval of qubits {qubits} is {r!r}")
            for j, (q, v) in enumerate(zip(qubits, r)):
                p = sum(x for key, x in dist.items() if key[j] == 1)
                p0 = sum(x for key, x in dist.items() if key[j] == 0)
                c = v * num
                if abs(c - round(c)) > 1e-6:
                    raise Violation("expval", f"{where}: expectation value {v} is not a mean of {num} samples")
                lo, hi = oracle.binomial_bounds(num, min(1.0, p))
                if scripted:
                    lo, hi = 0, num
                if p < oracle.IMPOSSIBLE:
                    lo = hi = 0
                if p0 < oracle.IMPOSSIBLE:
                    lo = hi = num
                if not lo <= round(c) <= hi:
                    raise Violation("expval", f"{where}: expectation value {v} for qubit {q}, from {num} samples; the probability of 1 is {p:.6f}")
            return
        if not isinstance(r, list) or len(r) != num:
            raise Violation("shape", f"{where}: {num} samples of qubits {qubits} were requested, got {r!r}"[:300])
        counts = {}
        for s in r:
            if step.get("bits"):
                ok = isinstance(s, str) and len(s) == len(qubits) and set(s) <= {"0", "1"}
            else:
                ok = len(s) == len(qubits) and all(v in (0, 1) for v in s)
            if not ok:
                raise Violation("shape", f"{where}: sample {s!r} of qubits {qubits}")
            t = tuple(int(v) for v in s)
            counts[t] = counts.get(t, 0) + 1
        for t in sorted(set(counts) | set(dist)):
            c, p = counts.get(t, 0), min(1.0, dist.get(t, 0.0))
            if p < oracle.IMPOSSIBLE:
                if c:
                    raise Violation("impossible-sample", f"{where}: sample {t} of qubits {qubits} has the probability {p}")
            elif not scripted:
                lo, hi = oracle.binomial_bounds(num, p)
                if not lo <= c <= hi:
                    raise Violation("sample-frequency", f"{where}: {t} was sampled {c} times of {num}, with a probability of {p:.6f}")


PROP = C09()
