import math

from dsim import gen, oracle
from dsim.core import Violation
from dsim.oracle import GATES, PLAIN_CONTROLLED
from dsim.props import Property

NEXT_TO_1 = 1 - 2**-53
DRAWS = [1e-9, 1e-6, 0.1, 0.2499, 0.25, 0.4999, 0.5, 0.5001, 0.75, 0.9, 1 - 1e-6, 1 - 1e-9, NEXT_TO_1]
# gates after which amplitudes that should be 0 are exactly 0
EXACT = ["X", "Y", "Z", "S", "CX", "CY", "CZ", "SWAP", "CSWAP", "CCX", "Identity"]


def gen_draws(rng, exact=False):
    """Exact: outcomes that should be impossible are, so that even a draw of 0 must not choose them."""
    k = rng.random()
    if exact and k < 0.5:
        return "extreme", [rng.choice([0.0, 0.0, NEXT_TO_1, 0.5]) for _ in range(rng.randint(1, 4))]
    if k < 0.2:
        return "stuck", [rng.choice(DRAWS)]
    if k < 0.4:
        return "alternating", rng.choice([[1e-9, 1 - 1e-9], [1 - 1e-9, 1e-9], [1e-9, 1e-9, 1 - 1e-9]])
    if k < 0.7:
        return "extreme", [rng.choice(DRAWS) for _ in range(rng.randint(2, 9))]
    return "arbitrary", [rng.uniform(1e-9, 1 - 1e-9) for _ in range(rng.randint(3, 9))]


def check_result(lib, circuit, objs, ops, n, before, where, first=True):
    """The simulated circuit is on one of the trajectories of the reference. Returns those."""
    import numpy as np

    got_state = circuit.state
    got_bits = lib.values(circuit.bits)
    lib.require(got_state is not None, "no-state", f"{where}: no state after a simulation")
    got_state = np.asarray(got_state)
    lib.require(got_state.shape == (1 << n,), "state-shape", f"{where}: state has shape {got_state.shape}")
    lib.require(not np.isnan(got_state).any(), "state-nan", f"{where}: state has undefined entries: {got_state}")
    lib.require(abs(np.linalg.norm(got_state) - 1) < 1e-8, "state-norm", f"{where}: norm {np.linalg.norm(got_state)}")
    seen = []

    def on_measure(i, state):
        m = objs[i].state
        if state is None:  # skipped; keeps what a previous simulation measured
            return m is None if first else True
        ok = m is not None and oracle.close(np.asarray(m), state)
        seen.append((i, ok))
        return ok

    br = oracle.trajectories(ops, n, before, on_measure)
    if not br:
        bad = max((i for i, ok in seen), default=None)
        raise Violation("measured-state", f"{where}: the state kept by measurement {bad} is not the one before it in any trajectory")
    fit = [b for b in br if [b.bits[i] for i in range(len(got_bits))] == got_bits]
    if not fit:
        raise Violation("bits", f"{where}: bits are {got_bits}, possible are {sorted({tuple(str(v) for v in b.bits.values()) for b in br})}")
    good = [b for b in fit if not b.faint and oracle.close(got_state, b.state)] or [b for b in fit if b.faint]
    if not good:
        raise Violation("state", f"{where}: state {np.round(got_state, 6).tolist()}, "
                                 f"expected {np.round(fit[0].state, 6).tolist()} for the bits {got_bits}")
    return good


class C07(Property):
    ID = "C07"
    GUARDED = 0.1
    RUNS = {"quick": 12000, "thorough": 120000}
    BUDGET = {"quick": 60, "thorough": 700}
    CHUNK = 25
    RULE = ("a run is a generated circuit (1-5, at times up to 8 qubits in 1-3 registers, up to 14 operations with measurements, "
            "conditions and preset bits) simulated several times with seeded or adversarial random draws; it is "
            "non-trivial if a measurement was executed, an operation was skipped by its condition, or "
            "adversarial draws were injected; distinct by the digest of the whole program")
    REAL = "circuit, operations, registers, simulator and its compiled kernels, numpy generator distributions"
    STUBS = "bit generator of numpy (scripted draws, or a real one with seeds from the simulation)"
    STATES = "(sequence of gate names with their conditions, values of all bits after the simulation)"
    ASSUMPTIONS = [
        "random draws lie in [1e-9, 1), those of 0 are for circuits without rounding errors only",
        "outcomes with a probability below 1e-24 count as impossible; states are compared up to 1e-8, and not after outcomes with a probability below 1e-10",
        "frequencies are compared with exact binomial tail bounds of 1e-13",
    ]
    LISTS = ("ops", "sims")

    def generate(self, rng, idx, tier):
        kind = rng.choice(["trajectory"] * 5 + ["unitary"] * 3 + ["stats"])
        n = rng.choice([1, 2, 2, 3, 3, 4, 5]) if kind != "stats" else rng.choice([1, 2, 3])
        if kind == "trajectory" and tier == "thorough":
            n = rng.choice([n, n, 6, 7])
        elif kind != "stats" and rng.random() < 0.03:
            n = rng.choice([6, 7, 8])
        nb = rng.choice([0, 1, 2, 3]) if kind == "unitary" else rng.choice([1, 2, 3, 4])
        names = gen.swarm(rng, GATES)
        if kind != "unitary" and "Hadamard" not in names:
            names += ["Hadamard", "RY"]
        exact = kind == "trajectory" and rng.random() < 0.1
        if exact:
            names = [x for x in EXACT if x in GATES]
        p_cond = rng.choice([0, 0.2, 0.5])
        if kind == "unitary":
            ops = gen.circuit_ops(rng, n, nb, rng.randint(1, 14), names, p_cond=p_cond)
        else:
            ops = gen.circuit_ops(rng, n, nb, rng.randint(2, 14 if kind == "trajectory" else 8), names,
                                  p_measure=rng.choice([0.2, 0.4]), p_cond=p_cond,
                                  p_nobits=rng.choice([0, 0, 0.2]), max_measured=6 if kind == "trajectory" else 4)
        if rng.random() < 0.3 and not exact:
            gen.userise(rng, ops, rng.choice([0.15, 0.5]))
        prog = {
            "kind": kind, "ql": gen.labels(rng), "n": gen.registers(rng, n), "b": gen.registers(rng, nb), "ops": ops,
            "init": [rng.choice([None, None, 0, 1]) for _ in range(nb)] if rng.random() < 0.5 else None,
        }
        if kind == "stats":
            prog["count"] = 300 if tier == "quick" else 1500
            prog["seed0"] = rng.choice([None, rng.randrange(10**6)])
        elif kind == "trajectory":
            prog["sims"] = []
            for _ in range(rng.randint(1, 4)):
                if rng.random() < 0.6:
                    k, d = gen_draws(rng, exact)
                    prog["sims"].append({"draws": d, "kind": k})
                else:
                    prog["sims"].append({"seed": rng.choice([None, 0, 1, rng.randrange(10**9)])})
        return prog

    def execute(self, prog, rec):
        from dsim import faults, lib
        from dsim.lib import L

        n = sum(prog["n"])
        if n == 0:
            return
        circuit, objs = lib.build(prog)
        bits = list(circuit.bits)
        init = prog["init"] or [None] * len(bits)
        lib.restore(bits, init)
        ops = prog["ops"]
        shape = [(o["g"], tuple(o.get("c") or ())) for o in ops]
        rec.steps += len(ops)
        if prog["kind"] == "unitary":
            self.unitary(prog, rec, circuit, ops, n, init)
        elif prog["kind"] == "trajectory":
            for k, sim in enumerate(prog["sims"]):
                before = lib.values(bits)
                if "draws" in sim:
                    with faults.scripted_draws(sim["draws"]) as script:
                        lib.quiet(L.simulate, circuit)
                    if script.used:
                        rec.fault("adversarial draws: " + sim["kind"])
                else:
                    lib.quiet(L.simulate, circuit, rng_seed=sim["seed"])
                fit = check_result(lib, circuit, objs, ops, n, before, f"simulation {k}", first=k == 0)
                rec.count("measurements executed", sum(1 for t in fit[0].trace if t[1] is not None))
                rec.count("measurements skipped", sum(1 for t in fit[0].trace if t[1] is None))
                if fit[0].trace:
                    rec.nontrivial = True
                rec.state(shape, lib.values(bits))
                rec.log(k, lib.values(bits), [t[2] for t in fit[0].trace] if len(fit) == 1 else len(fit))
                rec.steps += len(ops)
        else:
            self.stats(prog, rec, circuit, ops, n, init, shape)

    def unitary(self, prog, rec, circuit, ops, n, init):
        import numpy as np
        from dsim import lib
        from dsim.lib import L

        done = [o for o in ops if not any(init[c] == 0 for c in o.get("c") or ())]
        if len(done) != len(ops):
            rec.nontrivial = True
            rec.count("operations skipped by conditions", len(ops) - len(done))
        want = oracle.unitary(done, n)[:, 0]
        for mixed in (False, True) if n <= 4 else (False,):
            for little in (False, True):
                L.simulate(circuit, mixed_state=mixed, little_endian=little)
                w = oracle.reverse_qubits(want, n) if little else want
                got = circuit.density_matrix if mixed else circuit.state
                if mixed:
                    w = np.outer(w, w.conj())
                if not oracle.close(np.asarray(got), w):
                    raise Violation("state", f"simulate(mixed_state={mixed}, little_endian={little}) gives\n"
                                             f"{np.round(got, 6).tolist()}\nexpected\n{np.round(w, 6).tolist()}")
                rec.count(f"simulations, {'mixed' if mixed else 'pure'} {'little' if little else 'big'}-endian")
                rec.steps += len(ops)
        if lib.values(circuit.bits) != init:
            raise Violation("bits", f"bits changed from {init} to {lib.values(circuit.bits)} without measurement")
        rec.state([(o["g"], tuple(o.get("c") or ())) for o in ops], init)
        rec.log(np.round(want, 6).tolist())

    def stats(self, prog, rec, circuit, ops, n, init, shape):
        from dsim import lib
        from dsim.lib import L

        bits = list(circuit.bits)
        dist = {}
        for b in oracle.trajectories(ops, n, init):
            key = tuple(b.bits[i] for i in range(len(bits)))
            dist[key] = dist.get(key, 0.0) + b.p
        total = prog["count"]
        counts = {}
        for k in range(total):
            lib.restore(bits, init)
            seed = None if prog["seed0"] is None else prog["seed0"] + k
            lib.quiet(L.simulate, circuit, rng_seed=seed)
            v = tuple(lib.values(bits))
            counts[v] = counts.get(v, 0) + 1
        rec.steps += total * len(ops)
        rec.count("simulations for frequencies", total)
        rec.nontrivial = True
        for v in sorted(set(counts) | set(dist), key=str):
            p, c = min(1.0, dist.get(v, 0.0)), counts.get(v, 0)
            if p < 1e-12:
                if c:
                    raise Violation("impossible-outcome", f"bits {v} occurred {c} times in {total} simulations; the probability is 0")
                continue
            lo, hi = oracle.binomial_bounds(total, p)
            if not lo <= c <= hi:
                raise Violation("frequency", f"bits {v} occurred {c} times in {total} simulations, with a probability of {p:.6f} (expected {lo}..{hi})")
            rec.state(shape, v)
        rec.log(sorted(counts.items(), key=str))


PROP = C07()
