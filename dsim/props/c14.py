import copy
import re

from dsim import gen, oracle
from dsim.core import Violation
from dsim.oracle import GATES
from dsim.props import Property

QASM = {
    "Identity": "id", "X": "x", "Y": "y", "Z": "z", "Hadamard": "h", "S": "s", "T": "t", "RX": "rx", "RY": "ry", "RZ": "rz",
    "Rotation": "rot", "CX": "cx", "CY": "cy", "CZ": "cz", "CHadamard": "ch", "CRX": "crx", "CRY": "cry", "CRZ": "crz",
    "CRotation": "crot", "SWAP": "swap", "CSWAP": "cswap", "CCX": "ccx",
}
GATE = {v: k for k, v in QASM.items()}
DEFINED = ("rot", "swap", "cswap")  # gates that are not in (all versions of) the standard library and have a definition
LABELS = ["a", "b", "reg_one", "q1", "q0", "c0", "z9", "data", "q", "anc"]


def parse(text):
    """(declarations, operations, definitions) of an OpenQASM 2.0 program."""
    lines = [x.strip() for x in text.split("\n")]
    lines = [x for x in lines if x]
    if lines[:2] != ["OPENQASM 2.0;", 'include "qelib1.inc";']:
        raise Violation("header", f"the export starts with {lines[:2]}")
    decls, ops, defs = [], [], []
    for x in lines[2:]:
        if x.startswith("//") or re.match(r"gate\s", x):
            defs.append(x)
            continue
        m = re.fullmatch(r"(qreg|creg)\s+(\S+)\[(\d+)\];", x)
        if m:
            if ops:
                raise Violation("syntax", f"register declared after operations: {x!r}")
            decls.append((m[1], m[2], int(m[3])))
            continue
        m = re.fullmatch(r"([a-z_]\w*)(?:\(([^()]*)\))?\s+(.+);", x)
        args = [re.fullmatch(r"(\w+)\[(\d+)\]", a.strip()) for a in m[3].split(",")] if m else [None]
        if not m or None in args:
            raise Violation("syntax", f"cannot be parsed: {x!r}")
        try:
            params = [float(p) for p in m[2].split(",")] if m[2] is not None else []
        except ValueError:
            raise Violation("syntax", f"bad parameters: {x!r}")
        ops.append((m[1], params, [(a[1], int(a[2])) for a in args]))
    return decls, ops, defs


def definition(text):
    """(name, matrix for three parameter values, parameters) of a gate definition."""
    import ast
    import math

    import numpy as np

    name = r"[a-z]\w*"
    m = re.fullmatch(rf"gate\s+({name})\s*(?:\(([^()]*)\))?\s+({name}(?:\s*,\s*{name})*)\s*{{(.*)}}", text)
    if not m:
        raise Violation("definition", f"not a gate definition: {text!r}")
    formal = [x.strip() for x in (m[2] or "").split(",") if x.strip()]
    qubits = [x.strip() for x in m[3].split(",")]
    values = [0.7, -1.1, 2.3][:len(formal)]
    names = dict(zip(formal, values), pi=math.pi, sin=math.sin, cos=math.cos)

    def value(expr):
        allowed = (ast.Expression, ast.BinOp, ast.UnaryOp, ast.Name, ast.Constant, ast.Load, ast.operator, ast.unaryop, ast.Call)
        tree = ast.parse(expr.strip().replace("^", "**"), mode="eval")
        if any(not isinstance(x, allowed) or (isinstance(x, ast.Name) and x.id not in names) for x in ast.walk(tree)):
            raise Violation("definition", f"bad expression {expr!r} in {text!r}")
        return float(eval(compile(tree, "qasm", "eval"), {"__builtins__": {}}, names))

    u = np.eye(1 << len(qubits), dtype=complex)
    *body, rest = m[4].split(";")
    if rest.strip():
        raise Violation("definition", f"unterminated operation {rest!r} in {text!r}")
    for x in body:
        b = re.fullmatch(rf"\s*({name})\s*(?:\((.*)\))?\s+({name}(?:\s*,\s*{name})*)\s*", x)
        targets = [t.strip() for t in b[3].split(",")] if b else []
        if not b or any(t not in qubits for t in targets) or len(set(targets)) != len(targets):
            raise Violation("definition", f"bad operation {x!r} in {text!r}")
        g = GATE.get(b[1])
        params = [value(e) for e in b[2].split(",")] if b[2] else []
        if g is None or GATES[g] != (len(params), len(targets)):
            raise Violation("definition", f"unknown operation {x!r} in {text!r}")
        u = np.stack([oracle.apply(c, oracle.matrix(g, params), [qubits.index(t) for t in targets], len(qubits)) for c in u.T], axis=1)
    return m[1], u, values


class C14(Property):
    ID = "C14"
    RUNS = {"quick": 40000, "thorough": 300000}
    BUDGET = {"quick": 60, "thorough": 700}
    CHUNK = 50
    RULE = ("a run is a history of edits of a circuit with 1-4 labelled registers (all supported gates, packed and unsupported operations, registers and qubits added, "
            "operations removed, moved and re-parametrised, resets) with exports in all forms in between, interrupted or refused; non-trivial if a fault was "
            "injected, an export refused or the circuit edited after an export; distinct by program digest")
    REAL = "circuit, operations, registers and their OpenQASM transpilers"
    STUBS = "none (interruptions are injected at the points at which signals can arrive)"
    STATES = "(register sizes, gates and qubits at the time of an export, options, outcome)"
    ASSUMPTIONS = ["register labels are valid OpenQASM identifiers, different from each other", "conditions are not exported and left out",
                   "which gates the standard library defines is left open: only rotations and swaps must be defined on request"]
    LISTS = ("ops", "steps")
    known_definitions = ()

    def known(self, finding):
        self.known_definitions += (finding["definition"],)

    def generate(self, rng, idx, tier):
        n, nb = rng.randint(1, 5), rng.randint(0, 3)
        names = gen.swarm(rng, GATES)
        prog = {"ql": gen.labels(rng), "n": gen.registers(rng, n, 4), "b": gen.registers(rng, nb), "ops": gen.circuit_ops(rng, n, 0, rng.randint(0, 8), names)}
        labels = rng.sample(LABELS, len(LABELS))
        if rng.random() < 0.6:
            prog["labels"] = [labels.pop() for _ in prog["n"]]
            prog["blabels"] = [labels.pop() for _ in prog["b"]]
        steps = []
        faulty = rng.random() < 0.4
        for _ in range(rng.randint(2, 10)):
            k = rng.random()
            if k < 0.5:
                s = {"do": "export", "kw": {}}
                if rng.random() < 0.5:
                    s["kw"]["reg_labels"] = rng.random() < 0.8
                if rng.random() < 0.3:
                    s["kw"]["gate_definitions"] = rng.random() < 0.8
                if faulty and rng.random() < 0.5:
                    s["fault"] = {"f": "interrupt", "k": gen.log_uniform(rng, 80)}
            elif k < 0.65:
                s = {"do": "add", "ops": gen.circuit_ops(rng, n, 0, rng.randint(1, 3), names)}
            elif k < 0.7:
                s = {"do": "packed", "name": rng.choice(["Foo", "BAR2", None]), "k": rng.randint(1, 3), "seed": rng.randrange(1000)}
            elif k < 0.74:
                s = {"do": "unsupported", "what": rng.choice(["Measurement", "Barrier", "UserY"])}
            elif k < 0.8:
                s = {"do": "remove", "k": rng.randrange(20)}
            elif k < 0.85:
                s = {"do": "parameter", "k": rng.randrange(20), "v": gen.param(rng), "near": rng.choice([0, 0, 1, -1]) * 10 ** -rng.uniform(3, 13)}
            elif k < 0.9 and labels:
                s = {"do": "register", "size": rng.randrange(3), "kind": rng.choice("qc"), "label": labels.pop()}
            elif k < 0.95:
                s = {"do": "qubit", "r": rng.randrange(5)}
            elif k < 0.96:
                s = {"do": "reset"}
            elif k < 0.98:
                s = {"do": "operation", "k": rng.randrange(20), "how": rng.choice(["bare", "mapped", "default"])}
            elif k < 0.985:
                s = {"do": "parametric", "g": rng.choice([g for g in GATES if GATES[g][0] and GATES[g][1] == 1]), "v": rng.random() < 0.8}
            else:
                s = {"do": "export", "kw": {"version": rng.choice(["3.0", "1.0"])}}
            steps.append(s)
        steps.append({"do": "export", "kw": {"reg_labels": rng.random() < 0.5}})
        prog["steps"] = steps
        return prog

    def execute(self, prog, rec):
        from dsim import faults, lib
        from dsim.lib import L

        circuit = L.Circuit()
        ql, cl = prog.get("labels"), prog.get("blabels")
        if ql is not None and (len(ql) != len(prog["n"]) or len(cl) != len(prog["b"])):
            return
        for i, s in enumerate(prog["n"]):
            circuit.add_qregister(s, ql[i] if ql else None)
        for i, s in enumerate(prog["b"]):
            circuit.add_cregister(s, cl[i] if cl else None)
        if not sum(prog["n"]):
            return
        # the model: registers [label, [qubits]], operations [name, params, qubits]
        qregs = [[ql[i] if ql else f"qreg{i}", list(circuit.qregisters[ql[i] if ql else f"qreg{i}"])] for i in range(len(prog["n"]))]
        cregs = [[cl[i] if cl else f"creg{i}", s] for i, s in enumerate(prog["b"])]
        lib.require(list(circuit.qregisters) == [r[0] for r in qregs] and list(circuit.cregisters) == [r[0] for r in cregs],
                    "registers", lambda: f"registers are {list(circuit.qregisters)}, {list(circuit.cregisters)}")
        ops, objs = [], []
        exported = False

        def qubits():
            return [q for r in qregs for q in r[1]]

        def add(new):
            q = qubits()
            circuit.unlock()
            objs.extend(lib.fill(circuit, new))
            ops.extend([QASM[o["g"]], list(o["p"]), [q[i] for i in o["q"]]] for o in new)

        add(prog["ops"])
        for k, step in enumerate(prog["steps"]):
            where = f"step {k} ({step['do']})"
            do = step["do"]
            rec.steps += 1
            if do == "add":
                add([o for o in step["ops"] if max(o["q"]) < len(qubits())])
            elif do == "packed":
                m = min(step["k"], len(qubits()))
                inner, _ = lib.build({"n": m, "b": 0, "ops": [{"g": "X", "q": [m - 1]}]})
                cls = L.create_operation(inner, name=step["name"])
                target = [qubits()[(step["seed"] + j) % len(qubits())] for j in range(m)]
                circuit.unlock()
                with circuit.context:
                    objs.append(cls(target if m > 1 else target[0]))
                ops.append([(step["name"] or "CustomOperation").lower(), [], target])
            elif do == "unsupported":
                circuit.unlock()
                with circuit.context as reg:
                    objs.append(lib.op_class(step["what"])([reg.q[0]]))
                ops.append([None, [], [qubits()[0]]])
            elif do == "remove":
                if objs:
                    j = step["k"] % len(objs)
                    j = next(i for i, x in enumerate(objs) if type(x).__name__ == type(objs[j]).__name__ and ops[i] == ops[j])
                    circuit.remove(objs[j])
                    del objs[j], ops[j]
            elif do == "parameter":
                par = [i for i, x in enumerate(ops) if x[1]]
                if par:
                    j = par[step["k"] % len(par)]
                    p = ops[j][1]
                    m = step["k"] % len(p)
                    p[m] = p[m] + step["near"] if step.get("near") else step["v"]
                    objs[j].parameters[m] = p[m]
            elif do == "register":
                if step["kind"] == "q":
                    circuit.add_qregister(step["size"], step["label"])
                    qregs.append([step["label"], list(circuit.qregisters[step["label"]])])
                else:
                    circuit.add_cregister(step["size"], step["label"])
                    cregs.append([step["label"], step["size"]])
            elif do == "qubit":
                r = qregs[step["r"] % len(qregs)]
                q = L.Qubit("new")
                circuit.add_qubit(q, r[0])
                r[1].append(q)
            elif do == "reset":
                circuit.reset()
                ops.clear()
                objs.clear()
            elif do == "operation":
                if objs and ops[step["k"] % len(objs)][0] in GATE:
                    j = step["k"] % len(objs)
                    name, params, qs = ops[j]
                    if step["how"] == "bare":
                        op = type(objs[j])(list(params)) if params else type(objs[j])()
                        text, at = op.to_qasm() + " q[0]", [("q", 0)]
                    elif step["how"] == "mapped":
                        every = qubits()
                        text = objs[j].to_qasm({q: (f"m{i % 2}", i) for i, q in enumerate(every)})
                        at = [(f"m{i % 2}", i) for x in qs for i, q in enumerate(every) if q is x]
                    else:
                        text, at = objs[j].to_qasm(), [("q", i) for i in range(len(qs))]
                    got = parse(f'OPENQASM 2.0;\ninclude "qelib1.inc";\n{text};')[1]
                    want = [(name, [float(x) for x in params], at)]
                    lib.require(got == want, "operations", f"{where}: {step['how']}: the operation is exported as {text!r}, expected {want}")
                    rec.count("exports of operations")
            elif do == "parametric":
                par = L.ParametricCircuit(1)
                g = step["g"]
                with par.context as reg:
                    lib.op_class(g)([reg.p[i] if step["v"] else 0.5 for i in range(GATES[g][0])], reg.q[0])
                before = lib.fingerprint(par)
                out = faults.attempt(None, par.to_qasm, rec, allow=(L.CircuitError,))
                lib.require(lib.fingerprint(par) == before, "export-changes-circuit", f"{where}: the circuit changed")
                if step["v"]:
                    lib.require(not out.ok, "not-refused", f"{where}: a circuit with variables was exported")
                    rec.count("refused exports")
                elif out.ok:
                    lib.require(parse(out.result)[1] == [(QASM[g], [0.5] * GATES[g][0], [("q", 0)])], "operations", f"{where}: exported {out.result}")
            else:
                if exported:
                    rec.nontrivial = True
                exported = True
                kw = step["kw"]
                bad = "version" in kw or any(o[0] is None for o in ops)
                before = lib.fingerprint(circuit)
                f = step.get("fault")
                out = faults.attempt(f, lambda: circuit.to_qasm(**kw), rec, allow=(NotImplementedError,) if bad else ())
                lib.require(lib.fingerprint(circuit) == before, "export-changes-circuit", f"{where}: the circuit changed")
                rec.log(where, out.result if out.ok else type(out.error).__name__)
                rec.state([len(r[1]) for r in qregs], [r[1] for r in cregs], [o[0] for o in ops], sorted(kw.items()), out.ok)
                if bad:
                    lib.require(not out.ok, "not-refused", f"{where}: exported {kw} an unsupported operation or version as {out.result}")
                    rec.count("refused exports")
                    continue
                if f and not out.ok:
                    out = faults.Outcome(circuit.to_qasm(**kw))
                rec.count("exports")
                self.check(where, out.result, kw, qregs, cregs, ops)

    def check(self, where, text, kw, qregs, cregs, ops):
        decls, got, defs = parse(text)
        self.check_definitions(where, text, [x for x in defs if not x.startswith("//")], kw.get("gate_definitions"), [o[0] for o in ops])
        labels = kw.get("reg_labels", False)

        def names(prefix, regs):
            if labels:
                return [r[0] for r in regs]
            return [prefix] if len(regs) == 1 else [f"{prefix}{i}" for i in range(len(regs))]

        qn = names("q", qregs)
        want = [("qreg", n, len(r[1])) for n, r in zip(qn, qregs)] + [("creg", n, r[1]) for n, r in zip(names("c", cregs), cregs)]
        if decls != want:
            raise Violation("registers", f"{where}: declared are {decls}, expected {want}")
        at = {id(q): (n, i) for n, r in zip(qn, qregs) for i, q in enumerate(r[1])}
        wops = [(o[0], [float(p) for p in o[1]], [at[id(q)] for q in o[2]]) for o in ops]
        if got != wops:
            raise Violation("operations", f"{where}: exported {got}, expected {wops}")

    def check_definitions(self, where, text, defs, asked, used):
        names = [re.match(r"gate\s+(\w*)", x)[1] for x in defs]
        if not asked:
            if defs:
                raise Violation("definition", f"{where}: definitions {defs} were not asked for")
            return
        if len(set(names)) != len(names) or set(names) - set(used) or set(DEFINED) & set(used) - set(names):
            raise Violation("definition", f"{where}: defined are {names}, used are {used}")
        if defs and re.search(r"^[qc]reg", text, re.M) and max(text.index(x) for x in defs) > re.search(r"^[qc]reg", text, re.M).start():
            raise Violation("definition", f"{where}: gates are defined after registers are declared:\n{text}")
        for name, x in zip(names, defs):
            if x in self.known_definitions:
                continue
            _, u, values = definition(x)
            if name not in GATE:
                continue
            w = oracle.matrix(GATE[name], values) if len(values) == GATES[GATE[name]][0] else u * 0
            if u.shape != w.shape or not oracle.same_up_to_phase(u, w):
                raise Violation("definition", f"{where}: {x!r} does not define {GATE[name]}")


PROP = C14()
