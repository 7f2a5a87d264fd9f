import random

from dsim import gen, oracle
from dsim.core import Violation
from dsim.oracle import GATES
from dsim.props import Property


def make_array(spec, n):
    """An array that describes (or fails to describe) a state of n qubits."""
    import numpy as np

    r = random.Random(spec["seed"])
    size = 1 << n

    def vec(k):
        if spec.get("real"):
            return np.array([r.gauss(0, 1) for _ in range(k)])
        return np.array([complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(k)])

    shape = spec.get("shape", "ok")
    if spec["kind"] == "pure":
        k = {"ok": size, "short": size - 1, "long": size + 1, "double": 2 * size, "column": size}[shape]
        v = vec(k)
        if spec.get("basis"):
            v = np.zeros(k, dtype=v.dtype)
            v[r.randrange(k)] = 1
        v = v / np.linalg.norm(v)
        if shape == "column":
            v = v.reshape(-1, 1)
    else:
        k = {"ok": size, "short": size - 1, "long": size + 1, "double": 2 * size, "column": size}[shape]
        v = np.zeros((k, k), dtype=complex)
        w = [r.random() + 0.05 for _ in range(r.randint(1, 3))]
        for x in w:
            a = vec(k)
            a = a / np.linalg.norm(a)
            v = v + x / sum(w) * np.outer(a, a.conj())
        if spec.get("real"):
            v = v.real.copy()
        if shape == "column":
            v = v[:, :1].copy() if size > 1 else v
    scale = spec.get("scale", 1)
    v = v * {"i": 1j, "-i": -1j}.get(scale, scale)
    layout = spec.get("layout")
    if layout == "fortran":
        v = np.asfortranarray(v)
    elif layout == "strided":
        big = np.zeros(tuple(2 * s for s in v.shape), dtype=v.dtype)
        big[tuple(slice(None, None, 2) for _ in v.shape)] = v
        v = big[tuple(slice(None, None, 2) for _ in v.shape)]
    elif layout == "readonly":
        v.flags.writeable = False
    return v


def make_like(m, how, seed):
    """A state that resembles the present one."""
    import numpy as np

    r = random.Random(seed)
    size = len(m)
    u = np.eye(size, dtype=complex)
    if how == "phases":
        u = np.diag([r.choice([1, -1, 1j, -1j]) for _ in range(size)])
    elif how == "phase":
        u = u * r.choice([-1, 1j])
    elif how == "permuted":
        u = u[r.sample(range(size), size)]
    elif how == "near" and size > 1:
        a, b = r.sample(range(size), 2)
        e = 10 ** -r.uniform(5.5, 7.5)
        u[[a, b, a, b], [a, b, b, a]] = [np.cos(e), np.cos(e), np.sin(e), -np.sin(e)]
    elif how == "conjugate":
        m = m.conj()
    return u @ m if m.ndim == 1 else u @ m @ u.conj().T


class C17(Property):
    ID = "C17"
    GUARDED = 0.1
    RUNS = {"quick": 36000, "thorough": 250000}
    BUDGET = {"quick": 60, "thorough": 700}
    CHUNK = 50
    RULE = ("a run is a history of simulations (pure, mixed, either endianness, measuring), set states (pure, mixed, of wrong shape or norm, forced or not, normalised or not, "
            "arrays of any layout), added qubits and reads of either representation, with failures injected into them; non-trivial if a fault was injected or a request refused; distinct by program digest")
    REAL = "circuit, operations, simulator and its compiled kernels, numpy"
    STUBS = "allocator of array data (may fail); bit generator seeded by the simulation"
    STATES = "(kind of the latest state, last two steps, which representations were read since)"
    ASSUMPTIONS = ["norms that are wrong are wrong by at least 1 %", "states are compared up to 1e-9",
                   "an interruption of setting a state may leave the complete old or the complete new one"]
    LISTS = ("ops", "steps")

    def generate(self, rng, idx, tier):
        n = gen.size(rng, [1, 1, 2, 2, 3], [4, 5, 6])
        nb = rng.choice([0, 1, 2])
        measuring = nb and rng.random() < 0.3
        ops = gen.circuit_ops(rng, n, nb, rng.randint(0, 8), gen.swarm(rng, GATES), p_measure=0.3 if measuring else 0)
        if any(o["g"] == "Measurement" for o in ops):
            measuring = True
        else:
            measuring = False
        if rng.random() < 0.2:
            gen.userise(rng, ops, 0.3)
        steps = []
        faulty = rng.random() < 0.6
        for _ in range(rng.randint(2, 10)):
            k = rng.random()
            if k < 0.25:
                s = {"do": "simulate", "seed": rng.randrange(1000)}
                if not measuring:
                    s.update(mixed=rng.random() < 0.5, little=rng.random() < 0.3)
            elif k < 0.6:
                a = {"kind": rng.choice(["pure", "mixed"]), "seed": rng.randrange(10**6)}
                if rng.random() < 0.2:
                    a["shape"] = rng.choice(["short", "long", "double", "column"])
                if rng.random() < 0.35:
                    a["scale"] = rng.choice([0.5, 2, 1.02, 0.98, 1e-3, 1e3, 0, -1, "i", "-i"])
                if rng.random() < 0.4:
                    a["layout"] = rng.choice(["fortran", "strided", "readonly"])
                if rng.random() < 0.3:
                    a["real"] = True
                if rng.random() < 0.2:
                    a["basis"] = True
                if rng.random() < 0.25:
                    a["like"] = rng.choice(["phases", "phases", "phase", "permuted", "conjugate", "same", "near", "near"])
                s = {"do": "set", "a": a, "force": rng.random() < 0.6, "norm": rng.random() < 0.4, "plain": rng.random() < 0.5}
            elif k < 0.95:
                s = {"do": "read", "what": rng.choice(["state", "density"])}
            else:
                s = {"do": "qubit"}
            if faulty and s["do"] != "qubit" and rng.random() < 0.35:
                f = rng.choice(["alloc", "interrupt"])
                s["fault"] = {"f": f, "k": gen.log_uniform(rng, 40 if s["do"] == "simulate" else 6)}
            steps.append(s)
        return {"ql": gen.labels(rng), "n": gen.registers(rng, n), "b": gen.registers(rng, nb), "ops": ops, "steps": steps}

    def execute(self, prog, rec):
        import numpy as np
        from dsim import faults, lib
        from dsim.lib import L

        n = sum(prog["n"])
        if n == 0:
            return
        circuit, objs = lib.build(prog)
        ops = prog["ops"]
        model = None  # latest state, as a vector or a matrix

        def matches(m, where, read):
            """Whether what the circuit shows is m; ``read``: which representations are looked at first."""
            for what in read:
                if what == "state":
                    try:
                        s = circuit.state
                    except L.CircuitError:
                        if m is None or m.ndim == 1:
                            return f"asking for the state is refused, although {'none was set' if m is None else 'it is pure'}"
                        continue
                    if m is None:
                        if s is not None:
                            return f"state {s} without any simulation"
                    elif m.ndim == 2:
                        return f"state vector {s} of a mixed state"
                    elif s is None or not oracle.close(np.asarray(s), m, 1e-9):
                        return f"state {s}, expected {m}"
                else:
                    d = circuit.density_matrix
                    if m is None:
                        if d is not None:
                            return f"density matrix {d} without any simulation"
                        continue
                    w = m if m.ndim == 2 else np.outer(m, m.conj())
                    if d is None or not oracle.close(np.asarray(d), w, 1e-9):
                        return f"density matrix {d}, expected {w}"
            return None

        def require(m, where, read=("state", "density")):
            e = matches(m, where, read)
            if e:
                raise Violation("state-density", f"{where}: {e}")

        for k, step in enumerate(prog["steps"]):
            where = f"step {k} ({step['do']})"
            rec.steps += 1
            f = step.get("fault")
            if step["do"] == "qubit":
                circuit.add_qubit()
                first = len(next(iter(circuit.qregisters.values()))) - 1
                ops = [dict(o, q=[q + (q >= first) for q in o["q"]]) for o in ops]
                n += 1
                continue
            if step["do"] == "read":
                out = faults.attempt(f, lambda: circuit.state if step["what"] == "state" else circuit.density_matrix, rec, allow=(L.CircuitError,))
                if out.ok or not out.fired:
                    require(model, where, (step["what"],))
                rec.log(where, out.ok)
                continue
            if step["do"] == "simulate":
                kw = dict(mixed_state=bool(step.get("mixed")), little_endian=bool(step.get("little")))
                if any(o["g"] == "Measurement" for o in ops):
                    kw = {}
                old = lib.values(circuit.bits)
                tw, _ = lib.build(dict(prog, ops=ops, n=[len(r) for r in circuit.qregisters.values()]))
                lib.restore(list(tw.bits), old)
                lib.quiet(L.simulate, tw, rng_seed=step["seed"], **kw)
                new = np.array(tw.density_matrix if kw.get("mixed_state") else tw.state)
                if not any(o["g"] == "Measurement" or o.get("c") for o in ops):
                    w = oracle.unitary(ops, n)[:, 0]
                    w = oracle.reverse_qubits(w, n) if kw["little_endian"] else w
                    if not oracle.close(new, np.outer(w, w.conj()) if kw["mixed_state"] else w, 1e-9):
                        raise Violation("simulated-state", f"{where}: {new}, expected {w}")
                out = faults.attempt(f, lambda: lib.quiet(L.simulate, circuit, rng_seed=step["seed"], **kw), rec)
                refused = False
            else:
                a = make_array(step["a"], n)
                if step["a"].get("like") and model is not None and len(model) == 1 << n:
                    a = make_like(model, step["a"]["like"], step["a"]["seed"])
                options = dict(force=step["force"], normalize=step["norm"])
                if step.get("plain"):
                    options = {k: v for k, v in options.items() if v}
                copy = np.array(a)
                with np.errstate(all="ignore"):
                    size = 1 << n
                    ok = a.shape in ((size,), (size, size))
                    norm = (np.linalg.norm(a) if a.ndim == 1 else np.trace(a)) if ok else 1
                    new = np.array(a)
                    if step["norm"]:
                        ok = ok and abs(norm) > 1e-9
                        new = new / norm if ok else new
                    else:
                        ok = ok and abs(norm - 1) < 1e-9
                    if model is not None and not step["force"]:
                        ok = False
                    out = faults.attempt(f, lambda: lib.quiet(circuit.set_state, a, **options), rec, allow=(Exception,) if not ok else ())
                if np.asarray(a).tobytes() != copy.tobytes():
                    raise Violation("array-changed", f"{where}: set_state changed the array passed in")
                if out.ok and not ok:
                    raise Violation("not-refused", f"{where}: set_state({step}) was not refused")
                refused = not ok
                if refused:
                    rec.nontrivial = True
                    rec.count("refused states")
            # either representation first
            read = ("state", "density") if k % 2 else ("density", "state")
            if out.ok:
                model = new
                require(model, where, read)
            elif f and f["f"] == "interrupt" and not refused and matches(model, where, read) and not matches(new, where, read):
                model = new
            else:
                require(model, where + (" (refused)" if refused else f" (failed with {out.error!r})"), read)
            if step["do"] != "simulate" and isinstance(a, np.ndarray) and a.flags.owndata:
                a.flags.writeable = True
            if step["do"] != "simulate" and isinstance(a, np.ndarray) and a.flags.writeable and a.size:
                # the array is the caller's own
                a[...] = a.ravel()[::-1].reshape(a.shape) if k % 3 else 3
                require(model, where + ", the array passed in having been overwritten", read)
            rec.log(where, out.ok, None if model is None else np.round(model, 6).tolist())
            rec.state(None if model is None else model.ndim, [s["do"] + str(s.get("what")) for s in prog["steps"][max(0, k - 2):k + 1]], refused, f and f["f"], out.ok)


PROP = C17()
