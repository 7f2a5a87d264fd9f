import collections
import copy
import math
import re

from dsim import gen, oracle
from dsim.core import Violation
from dsim.oracle import GATES
from dsim.props import Property

BASE = ["Identity", "X", "Y", "Z", "Hadamard", "S", "T", "RX", "RY", "RZ", "CX", "CZ"]
EXTREME = [20.0, -1000.1, 1e22, 1e300, -1e-300, 5e-324, 1 / 3, 0.1 + 0.2, 2.0**53 + 2, math.nextafter(1, 2), -math.nextafter(math.pi, 4)]
EXTERNAL = [g for g in GATES if g not in BASE]


def corrupt(text, c):
    """Damages a text; returns None if that is not possible."""
    lines = text.split("\n")
    k = c["at"] % max(1, len(lines))
    if c["how"] == "truncate":
        return text[:c["at"] % len(text)]
    if c["how"] == "drop line":
        del lines[k]
    elif c["how"] == "repeat line":
        lines.insert(k, lines[k])
    elif c["how"] == "swap lines":
        j = c["at2"] % len(lines)
        lines[j], lines[k] = lines[k], lines[j]
    elif c["how"] == "zeros":
        # a lost block of a file
        i = c["at"] % len(text)
        return text[:i] + "\0" * min(c["at2"] % 64 + 1, len(text) - i) + text[i + c["at2"] % 64 + 1:]
    elif c["how"] == "letters":
        i = c["at"] % len(text)
        return text[:i] + "xq%(,"[c["at2"] % 5] + text[i + 1:]
    elif c["how"] == "dead block":
        # operations that are never reached
        ends = [i for i, l in enumerate(lines) if l.strip() == "ret void"]
        calls = [l for l in lines if l.startswith("  call void @__quantum__qis__")]
        if len(ends) != 1 or not calls:
            return None
        lines.insert(ends[0] + 1, "\ndead:\n" + calls[c["at"] % len(calls)] + "\n  ret void")
    elif c["how"] == "rename":
        i = lines[k].find("__quantum__")
        if i < 0:
            return None
        lines[k] = lines[k].replace("__quantum__qis__", "__quantum__qis__un")
    elif c["how"] == "unknown":
        # a valid text with an operation that nobody knows
        called = re.findall(r"call void @(__quantum__qis__\w+)\(", text)
        if not called:
            return None
        name = called[c["at"] % len(called)]
        return re.sub(rf"\b{name}\b", name.replace("__qis__", "__qis__un"), text)
    return "\n".join(lines)


class C13(Property):
    ID = "C13"
    RUNS = {"quick": 9000, "thorough": 100000}
    BUDGET = {"quick": 60, "thorough": 700}
    CHUNK = 25
    RULE = ("a run is a circuit (1-6, at times up to 112 qubits and up to 4, at times 104 bits in several registers, all supported operations and final measurements) that is exported and imported in "
            "text and bitcode, again after interruptions, exported again from what was imported, and imported from damaged texts (torn, lines lost, repeated or "
            "swapped, blocks of zeros); non-trivial if a fault was injected or it has at least three different operations; distinct by program digest")
    REAL = "circuit, operations, QIR compiler and loader, PyQIR with LLVM"
    STUBS = "the medium between export and import (damages texts as told by the program)"
    STATES = "(gates and qubits of the circuit, form, damage and its outcome)"
    ASSUMPTIONS = ["damage does not invent digits (an index of millions of qubits would be created as asked for)", "only texts are damaged, since LLVM does not promise to "
                   "survive damaged bitcode", "parameters of external operations are floats"]
    LISTS = ("ops", "meas", "steps")

    def generate(self, rng, idx, tier):
        n, nb = rng.randint(1, 6), rng.choice([0, 1, 2, 3, 4])
        if rng.random() < 0.12:
            # indices of several digits
            n, nb = rng.choice([(12, nb), (n, 13), (25, 12), (112, 3), (11, 104)])
        ext = rng.random() < 0.6
        names = gen.swarm(rng, BASE + (EXTERNAL if ext else []))
        ops = gen.circuit_ops(rng, n, 0, rng.randint(0, 12), names)
        for o in ops:
            if o["g"] in EXTERNAL:
                o["p"] = [float(p) for p in o["p"]]
            if rng.random() < 0.1:
                o["p"] = [rng.choice(EXTREME) for _ in o["p"]]
        meas = []
        if nb and rng.random() < 0.7:
            qs, bs = rng.sample(range(n), n), rng.sample(range(nb), nb)
            again = rng.random() < 0.3
            for _ in range(rng.choice([1, 1, 2, 3, 5])):
                k = rng.choice([1, 1, 2])
                if again:
                    # measured again, and stored in the same bits
                    qs, bs = rng.sample(range(n), n), rng.sample(range(nb), nb)
                if len(qs) >= k and len(bs) >= k:
                    meas.append({"g": "Measurement", "q": [qs.pop() for _ in range(k)], "b": [bs.pop() for _ in range(k)], "s": rng.randrange(6)})
        steps = []
        faulty = rng.random() < 0.6
        for _ in range(rng.randint(1, 4)):
            s = {"do": "trip", "bitcode": rng.random() < 0.4, "via": rng.choice(["from_qir", "load", "into"])}
            if s["via"] == "into" and rng.random() < 0.6:
                # a circuit of any kind, with other numbers of qubits and bits
                s["host"] = {"ql": gen.labels(rng), "n": gen.registers(rng, rng.choice([1, 2, 3, 5])), "b": gen.registers(rng, rng.choice([0, 0, 1, 3])), "par": rng.random() < 0.2, "locked": rng.random() < 0.5}
            if faulty:
                if rng.random() < 0.4:
                    s["fault"] = {"f": "interrupt", "k": gen.log_uniform(rng, 150)}
                if rng.random() < 0.4:
                    s["fault2"] = {"f": "interrupt", "k": gen.log_uniform(rng, 200)}
            steps.append(s)
            if faulty and rng.random() < 0.6:
                how = rng.choice(["truncate", "drop line", "repeat line", "swap lines", "zeros", "letters", "rename", "unknown", "dead block"])
                steps.append({"do": "damage", "c": {"how": how, "at": rng.randrange(10**6), "at2": rng.randrange(10**6)}})
            if rng.random() < 0.15:
                steps.append({"do": "unsupported", "what": rng.choice(["mid", "Barrier", "UserY"] + ([] if ext else ["SWAP"]))})
        return {"ql": gen.labels(rng), "n": gen.registers(rng, n), "b": gen.registers(rng, nb), "ops": ops, "meas": meas, "ext": ext, "steps": steps}

    def execute(self, prog, rec):
        from dsim import faults, lib
        from dsim.lib import L
        from dwave.gate.qir import load_qir_bitcode, load_qir_string

        n = sum(prog["n"])
        if not n:
            return
        ops, meas = prog["ops"], prog["meas"]
        if not prog["ext"]:
            ops = [o for o in ops if o["g"] in BASE]
        circuit, objs = lib.build(dict(prog, ops=ops + meas))
        want = [lib.expected(o) for o in ops if o["g"] != "Identity"]
        mq, mb = [q for m in meas for q in m["q"]], [b for m in meas for b in m["b"]]
        if mq:
            want.append(["Measurement", [], mq, mb, []])
        wq = 1 + max((q for o in want for q in o[2]), default=-1)
        wb = 1 + max(mb, default=-1)
        if len({o["g"] for o in ops}) >= 3:
            rec.nontrivial = True
        rec.steps += len(want)

        def check(c, where, prefix=()):
            lib.no_context_open(where)
            if not isinstance(c, L.Circuit):
                raise Violation("import", f"{where}: got {c!r}")
            got = lib.describe(c)
            if not lib.same_ops(got, list(prefix) + want):
                raise Violation("round-trip", f"{where}: got {got}, expected {list(prefix) + want}")
            if not prefix and (c.num_qubits, c.num_bits) != (wq, wb):
                raise Violation("round-trip", f"{where}: {c.num_qubits} qubits and {c.num_bits} bits, expected {wq} and {wb}")

        def export(c, bitcode, f, where):
            before = lib.fingerprint(c)
            out = faults.attempt(f, lambda: c.to_qir(add_external=prog["ext"], bitcode=bitcode), rec)
            lib.require(lib.fingerprint(c) == before, "export-changes-circuit", f"{where}: the circuit changed")
            lib.no_context_open(where)
            if not out.ok:
                out = faults.Outcome(c.to_qir(add_external=prog["ext"], bitcode=bitcode))
                lib.require(lib.fingerprint(c) == before, "export-changes-circuit", f"{where}: the circuit changed")
            return out.result

        ref = {}
        for k, step in enumerate(prog["steps"]):
            where = f"step {k} ({step['do']})"
            if step["do"] == "trip":
                bc = step["bitcode"]
                data = export(circuit, bc, step.get("fault"), where)
                if not isinstance(data, bytes if bc else str):
                    raise Violation("export", f"{where}: exported {data!r}")
                if ref.setdefault(bc, data) != data:
                    raise Violation("export-unstable", f"{where}: the export differs from an earlier one:\n{ref[bc]}\n{data}")
                load = load_qir_bitcode if bc else load_qir_string
                prefix, hosts = (), []

                def imp():
                    if step["via"] == "from_qir":
                        return L.Circuit.from_qir(data, bitcode=bc)
                    if step["via"] == "load":
                        return load(data)
                    host = step.get("host")
                    c = lib.new_circuit(host) if host else L.Circuit(n, sum(prog["b"]))
                    with c.context as reg:
                        L.ops.Y(reg.q[0])
                    if host and not host["locked"]:
                        c.unlock()
                    hosts.append((c, list(c.qubits), list(c.bits)))
                    r = load(data, c)
                    lib.require(r is c, "import", f"{where}: loading into a circuit returned another one")
                    return c

                if step["via"] == "into":
                    prefix = (["Y", [], [0], None, []],)
                out = faults.attempt(step.get("fault2"), imp, rec)
                lib.no_context_open(where)
                c = out.result if out.ok else imp()
                check(c, where, prefix)
                if prefix:
                    # new qubits and bits are added behind those that were there, as needed
                    h, q, b = hosts[-1]
                    same = all(x is y for x, y in zip(h.qubits, q)) and all(x is y for x, y in zip(h.bits, b))
                    if not same or (h.num_qubits, h.num_bits) != (max(len(q), wq), max(len(b), wb)):
                        raise Violation("import", f"{where}: a circuit of {len(q)} qubits and {len(b)} bits has {h.num_qubits} and {h.num_bits} afterwards, needed are {wq} and {wb}")
                rec.count("round trips, " + ("bitcode" if bc else "text"))
                rec.state([(o["g"], o["q"]) for o in ops + meas], bc, step["via"])
                if not prefix:
                    again = export(c, bc, None, where)
                    check(L.Circuit.from_qir(again, bitcode=bc), where + " (second generation)")
                rec.log(where, len(data), lib.describe(c))
            elif step["do"] == "unsupported":
                c, _ = lib.build(dict(prog, ops=ops + meas))
                before = None
                c.unlock()
                with c.context as reg:
                    if step["what"] == "mid":
                        if not meas:
                            continue
                        L.ops.X(reg.q[0])
                    elif step["what"] == "SWAP":
                        if n < 2:
                            continue
                        L.ops.SWAP(reg.q[0], ) if False else L.ops.SWAP([reg.q[0], reg.q[1]])
                    else:
                        lib.op_class(step["what"])([reg.q[0]])
                before = lib.fingerprint(c)
                out = faults.attempt(None, lambda: c.to_qir(add_external=prog["ext"]), rec, allow=(Exception,))
                lib.require(not out.ok, "not-refused", f"{where}: exported although unsupported ({step['what']}): {out.result}")
                lib.require(lib.fingerprint(c) == before, "export-changes-circuit", f"{where}: the circuit changed")
                rec.count("refused exports")
            else:
                text = export(circuit, False, None, where)
                bad = corrupt(text, step["c"])
                if bad is None or bad == text:
                    continue
                rec.fault("damaged text: " + step["c"]["how"])
                out = faults.attempt(None, lambda: L.Circuit.from_qir(bad), rec, allow=(Exception,))
                lib.no_context_open(where)
                rec.log(where, out.ok)
                rec.state([o["g"] for o in ops], step["c"]["how"], out.ok)
                if not out.ok:
                    rec.count("damage refused")
                    continue
                rec.count("damage accepted")
                self.intact(lib, out.result, step["c"]["how"], want, where)

    def intact(self, lib, c, how, want, where):
        got = lib.describe(c)
        for g in got:
            name, params, qubits, bits, conds = g
            if name == "Measurement":
                ok = bool(qubits) and bits is not None and len(bits) == len(qubits) and min(bits) >= 0 and min(qubits) >= 0
            else:
                ok = name in GATES and (len(params), len(qubits)) == GATES[name] and min(qubits) >= 0 and all(isinstance(p, float) for p in params)
            if not ok:
                raise Violation("damaged-operation", f"{where}: importing a damaged text gives {g}")
        # nothing is left of the entry point if the text ends before it: that is a valid, empty module
        if how in ("truncate",) and got and not lib.same_ops(got, want):
            raise Violation("truncated-accepted", f"{where}: a truncated text was imported as {got}, the whole has {want}")
        if how == "dead block" and not lib.same_ops(got, want):
            raise Violation("damaged-operation", f"{where}: a text with operations after its end was imported as {got}, without them it is {want}")
        if how == "unknown":
            raise Violation("not-refused", f"{where}: a text with an unknown operation was imported as {got}, the original has {want}")
        if how in ("swap lines", "repeat line"):
            extra = collections.Counter(self.flat(got)) - collections.Counter(self.flat(want))
            if sum(extra.values()) > (how == "repeat line") or set(extra) - set(self.flat(want)):
                raise Violation("damaged-operation", f"{where}: a text with {how} was imported as {got}, the original has {want}")
        if how == "drop line":
            flat = self.flat(want)
            it = iter(flat)
            if not all(any(x == y for y in it) for x in self.flat(got)):
                raise Violation("damaged-operation", f"{where}: operations of a text with a lost line, {got}, do not occur in that order in {want}")

    @staticmethod
    def flat(ops):
        r = []
        for o in ops:
            if o[0] == "Measurement":
                r += [("Measurement", q, b) for q, b in zip(o[2], o[3])]
            else:
                r.append((o[0], tuple(o[1]), tuple(o[2])))
        return r


PROP = C13()
