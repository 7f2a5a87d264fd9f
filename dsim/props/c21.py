import random

from dsim import gen, oracle
from dsim.core import Violation
from dsim.props import Property
from dsim.props.c07 import gen_draws

KINDS = ["random", "random", "basis", "uniform", "sparse", "ghz", "product", "faint", "circuit"]
ODD = ["complex64", "float64", "list", "readonly", "strided", "reversed"]
WRONG = ["2d", "size 3", "size 6", "empty", "no such qubit"]


def make_state(spec):
    """A normalised state vector, from the numbers in the program only."""
    import numpy as np

    n, rng = spec["n"], random.Random(spec["seed"])
    size = 1 << n
    a = np.zeros(size, dtype=complex)
    kind = spec["kind"]
    amplitude = lambda: complex(rng.gauss(0, 1), rng.gauss(0, 1))
    if kind == "basis":
        a[rng.randrange(size)] = rng.choice([1, -1, 1j])
    elif kind == "uniform":
        a[:] = [rng.choice([1, -1, 1j, -1j]) for _ in range(size)]
    elif kind == "sparse":
        for i in rng.sample(range(size), min(size, 3)):
            a[i] = amplitude()
    elif kind == "ghz":
        i = rng.randrange(size)
        a[i], a[size - 1 - i] = 1, rng.choice([1, 1j, 2, 0.3])
    elif kind == "product":
        a = np.ones(1, dtype=complex)
        for _ in range(n):
            a = np.kron(a, rng.choice([[1, 0], [0, 1], [1, 1], [1, -1j], [amplitude(), amplitude()]]))
    elif kind == "faint":
        a[:] = [amplitude() * rng.choice([1, 1e-4, 1e-8]) for _ in range(size)]
    elif kind == "circuit":
        a[0] = 1
        for _ in range(3 * n):
            o = gen.gate_op(rng, n, list(oracle.GATES))
            a = oracle.apply(a, oracle.matrix(o["g"], o.get("p", ())), o["q"], n)
    else:
        a[:] = [amplitude() for _ in range(size)]
    return a / np.linalg.norm(a)


class C21(Property):
    ID = "C21"
    GUARDED = 0.1
    RUNS = {"quick": 30000, "thorough": 600000}
    BUDGET = {"quick": 60, "thorough": 700}
    CHUNK = 50
    RULE = ("a run is a history of draws of single qubits from one to three state vectors of 1-7 qubits, collapsing or not, in either "
            "bit order, with seeded, shared, adversarial or failing generators, failing allocations, refused calls and arrays that cannot "
            "be collapsed; it is non-trivial if a qubit in superposition was drawn or a fault was injected; distinct by program digest")
    REAL = "sample_qubit and its compiled kernels, numpy generator distributions"
    STUBS = "bit generator of numpy (scripted draws, or a real one with seeds from the simulation), generators that fail, allocator of array data"
    STATES = "(kind and number of qubits of the state, qubit, bit order, collapsing or not, outcome, what failed)"
    ASSUMPTIONS = [
        "states are normalised, and random draws lie in [1e-9, 1), or are 0 for states without rounding errors",
        "outcomes with a probability below 1e-24 count as impossible; states are compared up to 1e-8",
        "arrays of another type or layout may be refused or handled",
        "frequencies are compared with binomial tail bounds of 1e-13",
    ]
    LISTS = ("steps",)

    def generate(self, rng, idx, tier):
        states = [{"n": rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7]), "kind": rng.choice(KINDS), "seed": rng.randrange(10**6)}
                  for _ in range(rng.choice([1, 1, 2, 3]))]
        if tier == "thorough" and rng.random() < 0.1:
            states[0]["n"] = rng.choice([8, 9, 10])
        steps = []
        p_fault = rng.choice([0, 0.2, 0.4])
        p_odd = rng.choice([0, 0, 0.2])
        for _ in range(rng.randint(1, 12)):
            i = rng.randrange(len(states))
            s = {"do": "draw", "s": i, "q": rng.randrange(states[i]["n"])}
            if rng.random() < 0.7:
                s["collapse"] = rng.random() < 0.5
            if rng.random() < 0.6:
                s["little"] = rng.random() < 0.6
            if rng.random() < 0.15:
                s["positional"] = True
            x = rng.random()
            if x < 0.08:
                s.update(do="stats", num=150, seed=rng.randrange(10**6))
                steps.append(s)
                continue
            if x < 0.16:
                s.update(do="twice", seed=rng.randrange(10**6))
                steps.append(s)
                continue
            if x < 0.22:
                s["restart"] = True
            if rng.random() < 0.5:
                s["draws"] = gen_draws(rng, states[i]["kind"] in ("basis", "ghz", "sparse"))[1]
                if states[i]["kind"] == "faint":
                    s["draws"] = [min(x, 1 - 1e-9) for x in s["draws"]]
            else:
                s["rng"] = rng.randrange(3)
            if rng.random() < p_fault:
                s["fault"] = rng.choice([{"f": "alloc", "k": rng.randint(1, 3)}, {"f": "callback", "k": rng.randint(1, 2)}, {"f": "warnings"}])
            if rng.random() < p_odd:
                s["array"] = rng.choice(ODD + WRONG)
                if s["array"] == "no such qubit":
                    s["q"] = rng.choice([states[i]["n"], states[i]["n"] + rng.randrange(70), -1, -states[i]["n"], -states[i]["n"] - 1, -2 * states[i]["n"], -rng.randint(1, 70), 63, 64, 2**31, 2**32, 2**63, 2**64, -2**32, -2**64])
                    if 0 <= s["q"] < states[i]["n"]:
                        s["q"] = states[i]["n"]
            steps.append(s)
        return {"states": states, "seeds": [rng.randrange(10**6) for _ in range(3)], "steps": steps}

    def execute(self, prog, rec):
        import numpy as np
        from dsim import faults
        from dsim.lib import L

        sample_qubit = L.sample_qubit
        states = []
        for spec in prog["states"]:
            # in the middle of a larger array, the rest of which nobody may touch
            a = make_state(spec)
            whole = np.full(3 * len(a), 0.123 + 4.5j)
            whole[len(a):2 * len(a)] = a
            states.append((spec, whole, whole[len(a):2 * len(a)]))
        rngs = [np.random.default_rng(s) for s in prog["seeds"]]

        class Failing(np.random.Generator):
            pass

        for name in ("uniform", "random", "integers", "choice", "binomial", "bytes"):
            def method(self, *a, _f=getattr(np.random.Generator, name), **k):
                faults.FaultyCallbacks.hit()
                return _f(self, *a, **k)
            setattr(Failing, name, method)

        for k, s in enumerate(prog["steps"]):
            where = f"step {k}"
            spec, whole, state = states[s["s"]]
            n, size = spec["n"], len(state)
            little, collapse = s.get("little", False), s.get("collapse", True)
            if s.get("restart"):
                state[:] = make_state(spec)
            before = state.copy()
            odd = s.get("array")
            q = s["q"]
            target = n - 1 - q if little else q
            p = None if odd == "no such qubit" else oracle.prob_one(before, target, n)
            p0 = None if p is None else oracle.prob(before, target, n)[0]
            if p is not None and 1e-10 < p < 1 - 1e-10:
                rec.nontrivial = True
            rec.steps += 1

            def call(array, r):
                if s.get("positional"):
                    return sample_qubit(q, array, r, collapse, little)
                kw = {}
                if "collapse" in s:
                    kw["collapse_state"] = collapse
                if "little" in s:
                    kw["little_endian"] = little
                return sample_qubit(q, array, r, **kw)

            def what():
                return (f"{where}: drawing qubit {q} of {n} ({spec['kind']}) with collapse_state={collapse}, little_endian={little}"
                        + (f" from an array of kind '{odd}'" if odd else ""))

            def possible(r):
                if isinstance(r, bool) or r not in (0, 1):
                    raise Violation("outcome", f"{what()} gave {r!r}")
                if (p if r else p0) < oracle.IMPOSSIBLE:
                    raise Violation("impossible-outcome", f"{what()} gave {r}, the probability of 1 is {p}")

            def after(r, array, kind="state"):
                want = oracle.collapse(before, target, r, n) if collapse else before
                if collapse:
                    want = want / np.linalg.norm(want)
                if not (oracle.close(array, want) if collapse else np.array_equal(array, want)):
                    raise Violation(kind, f"{what()} gave {r} and left\n{np.round(array, 6).tolist()}\nexpected\n{np.round(want, 6).tolist()}")

            if s["do"] == "stats":
                g = np.random.default_rng(s["seed"])
                c = 0
                for _ in range(s["num"]):
                    a = before.copy()
                    r = call(a, g)
                    possible(r)
                    c += r
                after(r, a)
                lo, hi = oracle.binomial_bounds(s["num"], min(1.0, p))
                if not lo <= c <= hi:
                    raise Violation("frequency", f"{what()} gave 1 in {c} of {s['num']} draws, the probability is {p:.6f}")
                rec.count("draws for frequencies", s["num"])
                rec.log(where, c)
                continue
            if s["do"] == "twice":
                a, b = before.copy(), before.copy()
                r1, r2 = call(a, np.random.default_rng(s["seed"])), call(b, np.random.default_rng(s["seed"]))
                if r1 != r2 or not np.array_equal(a, b):
                    raise Violation("not-reproducible", f"{what()} with the same seed gave {r1} and {r2}")
                possible(r1)
                after(r1, a)
                rec.log(where, r1)
                continue

            array = state
            if odd == "complex64":
                array = before.astype(np.complex64)
            elif odd == "float64":
                array = np.sqrt(np.abs(before) ** 2)
            elif odd == "list":
                array = before.tolist()
            elif odd == "readonly":
                array = before.copy()
                array.flags.writeable = False
            elif odd == "strided":
                array = np.repeat(before, 2)[::2]
            elif odd == "reversed":
                array = before[::-1].copy()[::-1]
            elif odd == "2d":
                array = np.stack([before, before])
            elif odd == "size 3":
                array = np.array([0.6, 0, 0.8], dtype=complex)
            elif odd == "size 6":
                array = np.full(6, 6**-0.5, dtype=complex)
            elif odd == "empty":
                array = np.zeros(0, dtype=complex)
            kept = array.copy() if odd and odd != "no such qubit" else None

            fault = s.get("fault")
            script = None
            if "draws" in s:
                script = faults._Scripted(s["draws"])
                g = np.random.Generator(script)
            else:
                g = rngs[s["rng"]]
            if fault and fault["f"] == "callback":
                g = Failing(g.bit_generator if script is None else script)
            refusable = odd is not None
            out = faults.attempt(fault, lambda: call(array, g), rec, allow=(Exception,) if refusable else ())
            if script is not None and script.used:
                rec.fault("adversarial draws")
            if not (whole[:size] == 0.123 + 4.5j).all() or not (whole[2 * size:] == 0.123 + 4.5j).all():
                raise Violation("outside", f"{what()} changed memory outside of the state")
            rec.log(where, out.ok, out.fired, out.result if out.ok else type(out.error).__name__)
            rec.state(spec["kind"], n, q, little, collapse, out.result if out.ok else None, odd, fault and fault["f"], out.fired)
            if odd in WRONG and out.ok:
                raise Violation("not-refused", f"{what()} gave {out.result}")
            if not out.ok:
                same = np.array_equal(state, before) and (kept is None or np.array_equal(array, kept))
                if not same:
                    raise Violation("failed-draw", f"{what()} failed with {out.error!r} and changed the state")
                rec.count("refused draws" if not out.fired else "failed draws")
                continue
            if out.fired and fault["f"] == "callback":
                raise Violation("swallowed", f"{what()} gave {out.result} although the generator failed")
            if odd:
                possible(out.result) if odd != "float64" else None
                if not np.array_equal(state, before):
                    raise Violation("other-state", f"{what()} changed another state")
                if not collapse and not np.array_equal(array, kept):
                    raise Violation("state", f"{what()} changed the array")
                if collapse and odd != "float64":
                    want = oracle.collapse(before, target, out.result, n)
                    if not oracle.close(np.asarray(array), want / np.linalg.norm(want), 1e-4 if odd == "complex64" else 1e-8):
                        raise Violation("state", f"{what()} gave {out.result} and left\n{np.round(array, 6).tolist()}\nexpected\n{np.round(want, 6).tolist()}")
                rec.count("draws from unusual arrays")
                continue
            possible(out.result)
            after(out.result, state)
            rec.count("draws, " + ("collapsing" if collapse else "not collapsing") + (", little-endian" if little else ""))


PROP = C21()
