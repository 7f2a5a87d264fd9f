import copy

from dsim import gen, oracle
from dsim.core import Violation
from dsim.oracle import GATES, ONE, PLAIN_CONTROLLED
from dsim.props import Property

SUPPORTED = ONE + PLAIN_CONTROLLED


def gen_ops(rng, n, length, p_user=0.1):
    ops = gen.circuit_ops(rng, n, 0, length, gen.swarm(rng, SUPPORTED))
    for o in ops:
        if o["g"] in ("X", "Y", "Z", "S") and rng.random() < p_user:
            o.update(g="UserY", s=rng.choice([0, 2, 4]))
    if n > 2:
        for o in ops:
            if rng.random() < p_user / 2:  # (becomes one with two controls)
                o["q"] = rng.sample(range(n), 3)
                gen.userise(rng, [o], 1)
    if rng.random() < p_user * 2:
        gen.userise(rng, [o for o in ops if o["g"] != "UserY"], 0.3)
    return ops


class C12(Property):
    ID = "C12"
    GUARDED = 0.1
    RUNS = {"quick": 16000, "thorough": 200000}
    BUDGET = {"quick": 60, "thorough": 700}
    CHUNK = 25
    RULE = ("a run is a history of edits (operations added, removed, re-parametrised, moved to other qubits, resets, new registers) of 1-2 circuits (1-4 "
            "qubits), with unitaries, packed operations and simulations in between, returned matrices overwritten by the caller, and failures injected into "
            "computations; non-trivial if a fault was injected, a matrix overwritten or a circuit edited after its unitary was computed; distinct by program digest")
    REAL = "circuit, operations, unitary builder, simulator and its compiled kernels, numpy"
    STUBS = "allocator of array data, matrix of a user-defined operation (may fail)"
    STATES = "(gates and qubits of the circuit when its unitary was computed, fault)"
    ASSUMPTIONS = ["circuits of single-qubit operations and controlled non-parametric ones only (others are not supported by the unitary builder)",
                   "matrices are compared up to 1e-9"]
    LISTS = ("ops", "steps", "circuits")

    def generate(self, rng, idx, tier):
        circuits, sizes = [], []
        for i in range(rng.choice([1, 1, 2])):
            n = gen.size(rng, [1, 1, 2, 2, 3, 4], [5, 6]) if i == 0 else rng.choice([1, 2, 3])
            circuits.append({"ql": gen.labels(rng), "n": gen.registers(rng, n), "b": [], "ops": gen_ops(rng, n, rng.randint(0, 8))})
            sizes.append(n)
        steps = []
        faulty = rng.random() < 0.6
        for _ in range(rng.randint(2, 10)):
            i = rng.randrange(len(circuits))
            n = sizes[i]
            k = rng.random()
            if k < 0.4:
                s = {"do": "unitary", "i": i}
                if faulty and rng.random() < 0.5:
                    f = rng.choice(["alloc", "interrupt", "callback"])
                    s["fault"] = {"f": f, "k": gen.log_uniform(rng, {"alloc": 40, "interrupt": 80, "callback": 3}[f])}
                steps.append(s)
            elif k < 0.5:
                s = {"do": "pack", "i": i, "on": rng.choice(["class", "instance"])}
                if faulty and rng.random() < 0.5:
                    f = rng.choice(["alloc", "interrupt"])
                    s["fault"] = {"f": f, "k": gen.log_uniform(rng, 60)}
                steps.append(s)
            elif k < 0.56:
                steps.append({"do": "simulate", "i": i})
            elif k < 0.60:
                m = rng.randint(2, 5)
                t, *ctl = rng.sample(range(m), rng.randint(2, m))
                if rng.random() < 0.15:
                    steps.append({"do": "refused", "m": m, "t": t, "ctl": ctl, "what": rng.choice(["overlap", "beyond", "targets"]), "k": rng.randint(0, 2)})
                s = {"do": "controlled", "m": rng.choice([m, None]), "t": t, "ctl": ctl, "p": [gen.param(rng) for _ in range(3)], "s": rng.randrange(4),
                     "layout": rng.choice(["C", "F"])}
                if faulty and rng.random() < 0.4:
                    f = rng.choice(["alloc", "interrupt"])
                    s["fault"] = {"f": f, "k": gen.log_uniform(rng, 60)}
                steps.append(s)
            elif k < 0.63:
                m = rng.choice([1, 2, 3, 3, 4, 5])
                ops = gen.circuit_ops(rng, m, 0, rng.randint(1, 4), gen.swarm(rng, [g for g in GATES if GATES[g][1] <= m]))
                gen.userise(rng, ops, 0.2)
                s = {"do": "matrices", "ql": gen.labels(rng), "n": gen.registers(rng, m), "ops": ops, "frozen": rng.random() < 0.3, "other": rng.randint(0, 3), "scribble": rng.random() < 0.3}
                if faulty and rng.random() < 0.4:
                    s["fault"] = {"f": rng.choice(["alloc", "interrupt"]), "k": gen.log_uniform(rng, 60)}
                steps.append(s)
            elif k < 0.68:
                steps.append({"do": "scribble", "what": rng.choice(["last", "last", "op", "class"]), "i": i, "k": rng.randrange(20)})
            elif k < 0.76:
                steps.append({"do": "add", "i": i, "ops": gen_ops(rng, n, rng.randint(1, 3))})
            elif k < 0.82:
                steps.append({"do": "remove", "i": i, "k": rng.randrange(20)})
            elif k < 0.88:
                steps.append({"do": "parameter", "i": i, "k": rng.randrange(20), "v": gen.param(rng), "near": rng.choice([0, 0, 1, -1]) * 10 ** -rng.uniform(3, 7)})
            elif k < 0.92:
                steps.append({"do": "move", "i": i, "k": rng.randrange(20), "q": rng.randrange(n), "all": rng.sample(range(7), 7)})
            elif k < 0.95:
                steps.append({"do": "reset", "i": i, "ops": gen_ops(rng, n, rng.randint(1, 4))})
            elif k < 0.98 and n < 4:
                steps.append({"do": "qubit", "i": i})
                sizes[i] += 1
            elif sizes[0] == 1:
                steps.append({"do": "nest", "ops": gen_ops(rng, 2, rng.randint(0, 2), 0), "q": rng.randrange(2)})
        steps.append({"do": "unitary", "i": rng.randrange(len(circuits))})
        return {"circuits": circuits, "steps": steps}

    def execute(self, prog, rec):
        import numpy as np
        from dsim import faults, lib
        from dsim.lib import L

        class Circ:
            pass

        cs = []
        for spec in prog["circuits"]:
            c = Circ()
            c.circuit, c.objs = lib.build(spec)
            c.ops = copy.deepcopy(spec["ops"])
            c.n = sum(spec["n"])
            if not c.n:
                return
            c.edited = False
            cs.append(c)
        last = None

        def compare(got, want, where, what):
            if not isinstance(got, np.ndarray) or not oracle.close(got, want, 1e-9):
                raise Violation("unitary", f"{where}: {what} is\n{np.round(got, 6).tolist()}\nexpected\n{np.round(want, 6).tolist()}")

        def read_matrices(step, where):
            """Matrices of operations read in the context of their circuit, in that of another one, and in none."""
            circuit = lib.new_circuit({"n": step["n"], "b": [], "ql": step.get("ql")})

            def read(o, obj, where, order):
                q = sorted(o["q"]) if order else o["q"]
                m = len(q)
                want = oracle.apply(np.eye(1 << m, dtype=complex), oracle.matrix(o["g"], o["p"]), [q.index(x) for x in o["q"]], m)
                out = faults.attempt(step.get("fault"), lambda: obj.matrix, rec)
                got = out.result if out.ok else obj.matrix
                compare(got, want, where, f"the matrix of {o['g']} on {o['q']}")
                if step["scribble"]:
                    rec.nontrivial = True
                    got[...] = 7
                    compare(obj.matrix, want, where, f"the matrix of {o['g']} on {o['q']}, the one returned before having been overwritten,")
                rec.count("matrices of operations")

            objs = []
            with circuit.context as reg:
                for o in step["ops"]:
                    obj = lib.apply_op(o, reg.q)
                    objs.append(obj)
                    # in the context, those of controlled operations are for the qubits in the order that they have in the circuit
                    if step["frozen"]:
                        with circuit.context.freeze:
                            read(o, obj, where + " (frozen context)", isinstance(obj, L.ops.ControlledOperation))
                    read(o, obj, where + " (in the context)", isinstance(obj, L.ops.ControlledOperation))
            rec.state("matrices", sum(step["n"]), [(o["g"], o["q"]) for o in step["ops"]])
            for o, obj in zip(step["ops"], objs):
                read(o, obj, where, False)
            if step["other"]:
                other = L.Circuit(step["other"])
                with other.context:
                    for o, obj in zip(step["ops"], objs):
                        read(o, obj, where + " (in another context)", False)
                lib.require(not other.circuit, "unitary", f"{where}: reading matrices applied operations")
            lib.require(len(circuit.circuit) == len(objs), "unitary", f"{where}: reading matrices applied operations")
            if all(o["g"] in SUPPORTED or o["g"].startswith("User") for o in step["ops"]):
                n = sum(step["n"])
                compare(L.build_unitary(circuit), oracle.unitary(step["ops"], n), where, "the unitary after reading matrices")

        for k, step in enumerate(prog["steps"]):
            where = f"step {k} ({step['do']})"
            do = step["do"]
            if step.get("i", 0) >= len(cs):
                continue
            c = cs[step.get("i", 0)]
            rec.steps += 1
            if do == "unitary":
                want = oracle.unitary(c.ops, c.n)
                f = step.get("fault")
                rec.state(c.n, [(o["g"], o["q"]) for o in c.ops], f and f["f"])
                if c.edited:
                    rec.nontrivial = True
                before = lib.fingerprint(c.circuit)
                out = faults.attempt(f, lambda: L.build_unitary(c.circuit), rec)
                if out.ok:
                    compare(out.result, want, where, "the unitary")
                lib.require(lib.fingerprint(c.circuit) == before, "circuit-changed", f"{where}: the circuit changed")
                if f:
                    got = L.build_unitary(c.circuit)
                    compare(got, want, where, "the unitary computed after a failure")
                    out = faults.Outcome(got)
                last = out.result
                c.edited = True
                rec.count("unitaries")
                rec.log(where, np.round(want[:, 0], 6).tolist())
            elif do == "pack":
                want = oracle.unitary(c.ops, c.n)
                op = L.create_operation(c.circuit, name="Packed")
                obj = op() if step["on"] == "instance" else op
                out = faults.attempt(step.get("fault"), lambda: obj.matrix, rec)
                m = out.result if out.ok else obj.matrix
                compare(m, want, where, "the matrix of the packed operation")
                m[...] = 3
                compare(obj.matrix, want, where, "the matrix of the packed operation, the one returned before having been overwritten,")
                compare(L.build_unitary(c.circuit), want, where, "the unitary after packing the circuit")
                rec.count("packed operations")
                rec.nontrivial = True
            elif do == "simulate":
                L.simulate(c.circuit)
                want = oracle.unitary(c.ops, c.n)[:, 0]
                compare(np.asarray(c.circuit.state), want, where, "the simulated state")
                compare(L.build_unitary(c.circuit)[:, 0], np.asarray(c.circuit.state), where, "the first column of the unitary")
            elif do == "controlled":
                n = step["m"] or max([step["t"]] + step["ctl"]) + 1
                if n <= max([step["t"]] + step["ctl"]):
                    continue
                u = oracle.matrix("Rotation", step["p"])
                want = oracle.apply(np.eye(1 << n, dtype=complex), oracle.controlled(u, len(step["ctl"])), step["ctl"] + [step["t"]], n)
                arg = np.asfortranarray(u) if step["layout"] == "F" else u.copy()
                ctl, t = step["ctl"], step["t"]
                if step["s"] % 2 and len(ctl) == 1:
                    ctl = ctl[0]
                if step["s"] > 1:
                    t = [t]
                out = faults.attempt(step.get("fault"), lambda: L.build_controlled_unitary(ctl, t, arg, step["m"]), rec)
                got = out.result if out.ok else L.build_controlled_unitary(ctl, t, arg, step["m"])
                compare(got, want, where, f"the controlled unitary of {ctl}, {t} of {step['m']}")
                compare(arg, u, where, "the matrix passed in")
                if isinstance(got, np.ndarray) and got.flags.writeable:
                    got[...] = 5
                compare(arg, u, where, "the matrix passed in, the result having been overwritten,")
                rec.count("controlled unitaries")
            elif do == "refused":
                m, t, ctl = step["m"], step["t"], list(step["ctl"])
                if not ctl or m <= max([t] + ctl):
                    continue
                if step["what"] == "overlap":
                    ctl.insert(step["k"], t)
                elif step["what"] == "beyond":
                    m = max(max([t] + ctl) - step["k"], 1)
                else:
                    t = [t, ctl.pop()]
                    if not ctl:
                        continue
                out = faults.attempt(None, lambda: L.build_controlled_unitary(ctl, t, np.eye(2, dtype=complex), m), rec, allow=(ValueError, NotImplementedError))
                lib.require(not out.ok, "not-refused", f"{where}: a controlled unitary ({ctl}, {t} of {m}) was made: {out.result}")
                rec.count("controlled unitaries refused")
            elif do == "matrices":
                read_matrices(step, where)
            elif do == "scribble":
                if step["what"] == "last":
                    a = last
                elif step["what"] == "class":
                    a = lib.op_class(["X", "Hadamard", "Z", "S", "CX", "CHadamard"][step["k"] % 6]).matrix
                else:
                    a = c.objs[step["k"] % len(c.objs)].matrix if c.objs else None
                if a is not None:
                    rec.nontrivial = True
                    a[...] = 0.25
                    rec.count("returned matrices overwritten")
            elif do == "add":
                c.circuit.unlock()
                c.objs += lib.fill(c.circuit, step["ops"])
                c.ops += copy.deepcopy(step["ops"])
            elif do == "remove":
                if c.ops:
                    j = step["k"] % len(c.ops)
                    # the first operation equal to the given one is removed
                    j = next(i for i, x in enumerate(c.ops) if (x["g"], x["q"], x["p"]) == (c.ops[j]["g"], c.ops[j]["q"], c.ops[j]["p"]))
                    c.circuit.remove(c.objs[j])
                    del c.objs[j], c.ops[j]
            elif do == "parameter":
                par = [i for i, x in enumerate(c.ops) if x["p"] and not x["g"].startswith("User")]
                if par:
                    j = par[step["k"] % len(par)]
                    p = c.ops[j]["p"]
                    m = step["k"] % len(p)
                    p[m] = p[m] + step["near"] if step.get("near") else step["v"]
                    c.objs[j].parameters[m] = p[m]
            elif do == "move":
                if c.ops:
                    j = step["k"] % len(c.ops)
                    to = [x for x in step["all"] if x < c.n][:len(c.ops[j]["q"])]
                    lib.quiet(setattr, c.objs[j], "qubits", [c.circuit.qubits[x] for x in to])
                    c.ops[j]["q"] = to
            elif do == "reset":
                c.circuit.reset()
                c.ops = copy.deepcopy([o for o in step["ops"] if max(o["q"]) < c.n])
                c.objs = lib.fill(c.circuit, c.ops)
            elif do == "qubit":
                c.circuit.add_qubit(qreg_label=None if step.get("new") is None else step["new"])
                # appended to the first register, so that the positions of the others move
                first = len(next(iter(c.circuit.qregisters.values()))) - 1
                for o in c.ops:
                    o["q"] = [q + (q >= first) for q in o["q"]]
                c.n += 1
            elif do == "nest":
                c = cs[0]
                if c.n != 1:
                    continue
                op = L.create_operation(c.circuit, name="Inner")
                outer = L.Circuit(2)
                with outer.context as reg:
                    for o in step["ops"]:
                        lib.apply_op(o, reg.q)
                    op(reg.q[step["q"]])
                u = oracle.apply(oracle.unitary(step["ops"], 2), oracle.unitary(c.ops, 1), [step["q"]], 2)
                compare(L.build_unitary(outer), u, where, "the unitary of a circuit with a packed operation")
                L.simulate(outer)
                compare(np.asarray(outer.state), u[:, 0], where, "the state of a circuit with a packed operation")


PROP = C12()
