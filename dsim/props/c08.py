from dsim import gen, oracle
from dsim.core import Violation
from dsim.oracle import GATES
from dsim.props import Property
from dsim.props.c07 import check_result, gen_draws

import copy


def gen_ops(rng, n, nb, length):
    names = gen.swarm(rng, GATES)
    if "Hadamard" not in names:
        names += ["Hadamard", "RY"]
    ops = gen.circuit_ops(rng, n, nb, length, names, p_measure=rng.choice([0, 0.2, 0.4]),
                          p_cond=rng.choice([0, 0.3]), p_nobits=rng.choice([0, 0, 0.3]), max_measured=5)
    for op in ops:
        if op["g"] in ("X", "Y", "Z", "Hadamard") and rng.random() < 0.15:
            op.update(g="UserY", s=rng.choice([0, 2, 4]))
    return ops


def split_conditions(ops, nb):
    """Bits read by a condition before they are surely written; bits that are surely written."""
    read, written = set(), set()
    for op in ops:
        for c in op.get("c") or ():
            if c not in written:
                read.add(c)
        if op["g"] == "Measurement" and not op.get("c"):
            written.update(op.get("b") or ())
    return read, written


class C08(Property):
    ID = "C08"
    GUARDED = 0.1
    RUNS = {"quick": 16000, "thorough": 150000}
    BUDGET = {"quick": 60, "thorough": 700}
    CHUNK = 25
    RULE = ("a run is a history of simulations of 1-3 circuits (1-4 qubits), with changes of bit values, resets, edits and further "
            "operations and overwritten result arrays in between, and injected failures within simulations; it is "
            "non-trivial if a fault was injected or a circuit was simulated again; distinct by program digest")
    REAL = "circuit, operations, registers, simulator and its compiled kernels, numpy"
    STUBS = "allocator of array data, bit generator of numpy, matrix of a user-defined operation (all may fail or are scripted)"
    STATES = "(position of the step, its kind, fault and whether it fired, measured bits) per circuit"
    ASSUMPTIONS = [
        "an interruption that arrives when everything was done may leave the complete new state",
        "a skipped measurement may keep the state it measured in an earlier simulation",
    ]
    LISTS = ("ops", "steps", "circuits")

    def generate(self, rng, idx, tier):
        circuits = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            n, nb = gen.size(rng, [1, 2, 2, 3, 4], [5, 6, 7]), gen.size(rng, [0, 1, 2, 3], [5, 9, 12])
            circuits.append({"ql": gen.labels(rng), "n": gen.registers(rng, n), "b": gen.registers(rng, nb),
                             "ops": gen_ops(rng, n, nb, rng.randint(1, 10))})
        faulty = rng.random() < 0.7
        kinds = gen_kinds(rng)
        steps = []
        for _ in range(rng.randint(2, 8)):
            i = rng.randrange(len(circuits))
            c = circuits[i]
            n, nb = sum(c["n"]), sum(c["b"])
            k = rng.random()
            if k < 0.7:
                s = {"do": "simulate", "i": i}
                if rng.random() < 0.5:
                    s["draws"] = gen_draws(rng)[1]
                else:
                    s["seed"] = rng.choice([0, 1, rng.randrange(10**9)])
                if not any(o["g"] == "Measurement" for o in c["ops"]):
                    s["mixed"] = rng.random() < 0.3
                    s["little"] = rng.random() < 0.3
                elif rng.random() < 0.15:
                    s["unsupported"] = rng.choice(["mixed_state", "little_endian"])
                if faulty and rng.random() < 0.5:
                    s["fault"] = fault(rng, kinds, c)
                steps.append(s)
            elif k < 0.78 and nb:
                steps.append({"do": "bits", "i": i, "v": [rng.choice([None, 0, 1]) for _ in range(nb)]})
            elif k < 0.83:
                steps.append({"do": "edit", "i": i, "what": rng.choice(["parameter", "near", "near", "move", "remove"]), "k": rng.randrange(20), "v": gen.param(rng),
                              "e": rng.choice([1, -1]) * 10 ** -rng.uniform(3, 7), "q": rng.sample(range(n), n)})
            elif k < 0.87:
                steps.append({"do": "scribble", "i": i, "what": rng.choice(["state", "density", "measured"])})
            elif k < 0.93:
                c2 = gen_ops(rng, n, nb, rng.randint(1, 6))
                if any(o["g"] == "Measurement" for o in c2):
                    c["late"] = True
                steps.append({"do": "reset", "i": i, "ops": c2})
            else:
                steps.append({"do": "extend", "i": i, "ops": gen_ops(rng, n, nb, rng.randint(1, 4))})
        return {"circuits": circuits, "steps": steps}

    def execute(self, prog, rec):
        import numpy as np
        from dsim import faults, lib
        from dsim.lib import L

        class Circ:
            pass

        cs = []
        for spec in prog["circuits"]:
            if sum(spec["n"]) == 0:
                return
            c = Circ()
            c.spec = copy.deepcopy(spec)
            c.circuit, c.objs = lib.build(spec)
            c.ops = copy.deepcopy(spec["ops"])
            c.n = sum(spec["n"])
            c.sims = 0
            cs.append(c)

        def run(circuit, step):
            kw = dict(mixed_state=bool(step.get("mixed")), little_endian=bool(step.get("little")))
            if "draws" in step:
                with faults.scripted_draws(step["draws"]):
                    L.simulate(circuit, **kw)
            else:
                L.simulate(circuit, rng_seed=step["seed"], **kw)

        def snapshot(circuit):
            try:
                s = circuit.state
                s = None if s is None else s.copy()
            except L.CircuitError:
                s = "mixed"
            d = circuit.density_matrix
            return s, None if d is None else d.copy()

        def same(a, b):
            return all((x is None and y is None) or (isinstance(x, str) and isinstance(y, str))
                       or (isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and np.array_equal(x, y))
                       for x, y in zip(a, b))

        def twin(c, bits):
            t, objs = lib.build(dict(c.spec, ops=c.ops))
            lib.restore(list(t.bits), bits)
            return t, objs

        def simulate(c, step, where):
            measuring = any(o["g"] == "Measurement" for o in c.ops)
            if measuring and (step.get("mixed") or step.get("little")):
                step = dict(step, mixed=False, little=False)
            if measuring and step.get("unsupported"):
                old = snapshot(c.circuit)
                measured = [None if x.state is None else x.state.copy() for x in c.objs if type(x).__name__ == "Measurement"]
                values = lib.values(c.circuit.bits)
                out = faults.attempt(None, lambda: lib.quiet(L.simulate, c.circuit, rng_seed=1, **{step["unsupported"]: True}), rec, allow=(Exception,))
                if not out.ok:
                    rec.count("unsupported simulations refused")
                    if not same(old, snapshot(c.circuit)):
                        raise Violation("state-after-failure", f"{where}: the state changed in a simulation that failed with {out.error!r}: {old} -> {snapshot(c.circuit)}")
                    now = [x.state for x in c.objs if type(x).__name__ == "Measurement"]
                    for a, b in zip(measured, now):
                        if b is not None and not same([a], [b]) and b.shape != (1 << c.n,):
                            raise Violation("state-after-failure", f"{where}: a measured state is {b} after a simulation that failed with {out.error!r}")
                lib.restore(list(c.circuit.bits), values)
            bits = list(c.circuit.bits)
            before = lib.values(bits)
            f = step.get("fault")
            if f:
                old = snapshot(c.circuit)
                out = faults.attempt(f, lambda: run(c.circuit, step), rec)
                rec.log(where, f["f"], out.fired, out.ok)
                rec.state(where, f["f"], out.fired, out.ok)
                if out.ok:
                    rec.count("faults survived" if out.fired else "faults not reached")
                else:
                    now = snapshot(c.circuit)
                    if not same(old, now):
                        done = False
                        if f["f"] == "interrupt":
                            t, _ = twin(c, before)
                            lib.quiet(run, t, step)
                            done = same(snapshot(t), now)
                        if not done:
                            raise Violation("state-after-failure", f"{where}: the state changed in a simulation that failed with {out.error!r}: {old} -> {now}")
                    # repeating it succeeds
                    before = lib.values(bits)
                    lib.quiet(run, c.circuit, step)
            else:
                lib.quiet(run, c.circuit, step)
            if c.sims:
                rec.nontrivial = True
            c.sims += 1
            # the reference
            if not step.get("mixed") and not step.get("little"):
                check_result(lib, c.circuit, c.objs, c.ops, c.n, before, where, first=False)
            # a new circuit in which only the bits read before being written have the same values
            read, written = split_conditions(c.ops, len(bits))
            other = [before[i] if i in read else (1 - before[i] if before[i] is not None else 1) for i in range(len(bits))]
            t, tobjs = twin(c, other)
            lib.quiet(run, t, step)
            a, b = snapshot(c.circuit), snapshot(t)
            if not all((x is None) == (y is None) and (x is None or isinstance(x, str) or np.allclose(x, y, atol=1e-12)) for x, y in zip(a, b)):
                raise Violation("depends-on-history", f"{where}: state {a}, but {b} when the same circuit is simulated for the first time")
            va, vb = lib.values(bits), lib.values(t.bits)
            for i in written:
                if va[i] != vb[i]:
                    raise Violation("depends-on-history", f"{where}: bits {va}, but {vb} when the same circuit is simulated for the first time")
            for i in range(len(bits)):
                if i not in written and va[i] != before[i] and va[i] != vb[i]:
                    raise Violation("depends-on-history", f"{where}: bit {i} is {va[i]}, was {before[i]}, and {vb[i]} when simulated for the first time")
            for o, x, y in zip(c.ops, c.objs, tobjs):
                if o["g"] == "Measurement" and y.state is not None:
                    if x.state is None or not np.allclose(x.state, y.state, atol=1e-12):
                        raise Violation("depends-on-history", f"{where}: measured state {x.state}, but {y.state} when simulated for the first time")
                    # with the same draws, both are measured alike later on, too
                    s = []
                    for m in (x, y):
                        with faults.scripted_draws([0.3, 0.6, 1e-9]):
                            s.append(m.sample(num_samples=3))
                    if s[0] != s[1]:
                        raise Violation("depends-on-history", f"{where}: samples {s[0]}, but {s[1]} when simulated for the first time")
            rec.steps += 2 * len(c.ops)
            rec.log(where, va)
            rec.state(where, va, [o["g"] for o in c.ops])

        for k, step in enumerate(prog["steps"]):
            if step["i"] >= len(cs):
                continue
            c = cs[step["i"]]
            where = f"step {k} ({step['do']})"
            if step["do"] == "simulate":
                simulate(c, step, where)
            elif step["do"] == "bits":
                if len(step["v"]) == c.circuit.num_bits:
                    lib.restore(list(c.circuit.bits), step["v"])
            elif step["do"] == "scribble":
                rec.count("result arrays overwritten by the caller")
                try:
                    if step["what"] == "measured":
                        arrs = [o.state for o in c.objs if type(o).__name__ == "Measurement"]
                    else:
                        arrs = [c.circuit.state if step["what"] == "state" else c.circuit.density_matrix]
                except L.CircuitError:
                    arrs = []
                for a in arrs:
                    if a is not None:
                        a[...] = 0.5
            elif step["do"] == "edit":
                what, i = step["what"], step["k"]
                if what in ("parameter", "near"):
                    par = [(o, x) for o, x in zip(c.ops, c.objs) if o.get("p") and not o["g"].startswith("User")]
                    if par:
                        o, x = par[i % len(par)]
                        j = i % len(o["p"])
                        x.parameters[j] = o["p"][j] = step["v"] if what == "parameter" else o["p"][j] + step["e"]
                        rec.count("operations edited between simulations")
                elif c.ops:
                    i %= len(c.ops)
                    o = c.ops[i]
                    if what == "move":
                        if len(o["q"]) <= len(step["q"]) and max(step["q"]) < c.n:
                            o["q"] = step["q"][:len(o["q"])]
                            lib.quiet(setattr, c.objs[i], "qubits", [c.circuit.qubits[x] for x in o["q"]])
                    else:
                        i = next(j for j, x in enumerate(c.ops) if (x["g"], x["q"], x.get("p")) == (o["g"], o["q"], o.get("p")))
                        c.circuit.remove(c.objs[i])
                        del c.ops[i], c.objs[i]
                    rec.count("operations edited between simulations")
            elif step["do"] == "reset":
                before = list(c.circuit.bits)
                c.circuit.reset()
                if any(v is not None for v in lib.values(c.circuit.bits)) or any(b.value is not None for b in before):
                    raise Violation("reset-keeps-bits", f"{where}: bits {lib.values(c.circuit.bits)} after a reset")
                lib.require(len(c.circuit.circuit) == 0, "reset-keeps-operations", f"{where}: operations left after a reset")
                c.ops = copy.deepcopy(step["ops"])
                c.objs = lib.fill(c.circuit, c.ops)
            else:
                c.circuit.unlock()
                c.ops += copy.deepcopy(step["ops"])
                c.objs += lib.fill(c.circuit, step["ops"])


def gen_kinds(rng):
    return rng.choice([["alloc"], ["interrupt"], ["callback"], ["warnings"], ["alloc", "interrupt", "callback", "warnings"]])


def fault(rng, kinds, c):
    from dsim import faults

    n = len(c["ops"])
    f = faults.gen_fault(rng, kinds)
    if "k" in f:
        f["k"] = gen.log_uniform(rng, {"alloc": 2 * n + 3, "interrupt": 10 * n + 8, "callback": 3}[f["f"]])
    return f


PROP = C08()
