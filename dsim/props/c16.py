import re
import struct

from dsim import gen
from dsim.core import Violation
from dsim.props import Property

# name in QIR: (parameters, qubits)
BASE = {"x": (0, 1), "y": (0, 1), "z": (0, 1), "h": (0, 1), "s": (0, 1), "t": (0, 1), "rx": (1, 1), "ry": (1, 1), "rz": (1, 1), "cx": (0, 2), "cz": (0, 2)}
CALLED = {"cx": "cnot"}


class C16(Property):
    ID = "C16"
    RUNS = {"quick": 20000, "thorough": 200000}
    BUDGET = {"quick": 60, "thorough": 700}
    CHUNK = 25
    RULE = ("a run is a history of 3-25 calls on 1-3 modules (with separate or shared contexts and various attributes): instructions of all kinds (also external ones, ones that "
            "cannot be executed, and ones that may fail when executed) added to any block, external functions, returns, strict and lenient compilations, recompilations, reads of "
            "text and bitcode, and resets, with instructions failing and interruptions at any point of compilations; non-trivial if a compilation was refused or failed, or "
            "was made again after changes; distinct by program digest")
    REAL = "QIR modules and instructions, PyQIR with LLVM"
    STUBS = "instructions whose execution may fail as told by the program"
    STATES = "(instructions by kind and block, external functions, compiled or not, call, outcome)"
    ASSUMPTIONS = ["external functions are not redefined without a full reset, and their instructions are made right before they are added",
                   "if a module is changed after a compilation, the text may be the old one until it is compiled again", "resets are not interrupted"]
    LISTS = ("steps",)

    def generate(self, rng, idx, tier):
        nmod = rng.choice([1, 1, 1, 2, 3])
        modules = []
        for _ in range(nmod):
            modules.append({"n": rng.choice([1, 2, 3, 3]), "b": rng.choice([0, 1, 2, 2]), "shared": rng.random() < 0.5,
                            "kw": rng.choice([{}, {}, {"qir_major_version": 2}, {"dynamic_qubit_management": True}, {"dynamic_result_management": True, "qir_minor_version": 3}])})
        names = gen.swarm(rng, list(BASE))
        faulty = rng.random() < 0.6
        steps = []
        for _ in range(rng.randint(3, 25)):
            m = rng.randrange(nmod)
            n, b = modules[m]["n"], modules[m]["b"]
            k = rng.random()
            s = {"m": m}
            if k < 0.3:
                g = rng.choice([x for x in names if BASE[x][1] <= n] or ["x"])
                s.update(do="add", g=g, p=[gen.param(rng) for _ in range(BASE[g][0])], q=rng.sample(range(n), BASE[g][1]), block=rng.choice(["body"] * 6 + ["measurements"]),
                         fails=rng.random() < 0.5)
            elif k < 0.38 and b:
                s.update(do="measure", q=rng.randrange(n), r=rng.randrange(b), out=rng.random() < 0.7)
            elif k < 0.46:
                s.update(do="declare", f=rng.choice(["banana", "swap", "ch", "Pear"]), np=rng.choice([0, 0, 1, 2]), nq=rng.choice([0, 1, 1, 2]), nr=rng.choice([0, 0, 0, 1]),
                         ret=rng.choice([None, None, None, "DOUBLE", "INT64", "BOOL_"]))
            elif k < 0.56:
                s.update(do="external", f=rng.randrange(4), p=[float(gen.param(rng)) for _ in range(2)], q=[rng.randrange(n) for _ in range(2)], r=rng.randrange(max(1, b)), block=rng.choice(["body", "body", "measurements"]))
            elif k < 0.6:
                s.update(do="bad", what=rng.choice(["unknown operation", "invalid", "args", "arity", "external", "block", "block"]))
            elif k < 0.64:
                s.update(do="return", r=rng.choice([None, None, 0, 1]), force=rng.random() < 0.6)
            elif k < 0.68:
                s.update(do="unbad")
            elif k < 0.8:
                s.update(do="compile", force=rng.random() < 0.7, strict=rng.random() < 0.75)
            elif k < 0.92:
                s.update(do="read", what=rng.choice(["qir", "qir", "bitcode"]))
            else:
                s.update(do="reset", rm=rng.random() < 0.3)
            if faulty and s["do"] in ("compile", "read") and rng.random() < 0.45:
                s["fault"] = rng.choice([{"f": "callback", "k": gen.log_uniform(rng, 8)}, {"f": "interrupt", "k": gen.log_uniform(rng, 150)}])
            steps.append(s)
        for m in range(nmod):
            steps.append({"m": m, "do": "unbad"})
            steps.append({"m": m, "do": "compile", "force": True, "strict": True})
            steps.append({"m": m, "do": "read", "what": "bitcode"})
        return {"modules": modules, "steps": steps}

    def execute(self, prog, rec):
        _Run(rec, prog).run(prog)


_cls = []


def sim_instruction():
    if not _cls:
        from dwave.gate.qir.instructions import Instruction

        from dsim.faults import FaultyCallbacks

        class SimInstruction(Instruction):
            def execute(self, builder):
                FaultyCallbacks.hit()
                super().execute(builder)
                FaultyCallbacks.hit()

        _cls.append(SimInstruction)
    return _cls[0]


class _Mod:
    pass


def number(text):
    """A double of an LLVM text."""
    return struct.unpack(">d", bytes.fromhex(text[2:]))[0] if text.startswith("0x") else float(text)


def entry_points(text):
    """Texts of the entry points: functions that are defined."""
    return re.findall(r"^define .*?^}", text, re.M | re.S)


def calls(text):
    """The operations called in a function, in order, as (name, arguments)."""
    r = []
    for name, args in re.findall(r"call \S+ @__quantum__(qis__\w+?__body|rt__\w+)\((.*?)\)$", text, re.M):
        nums = []
        for a in re.findall(r"(?:%(?:Qubit|Result)\* (?:nonnull )?(?:inttoptr \(i64 (\d+) to|(null)))|(double [-\w.+]+)|(i8\* null)", args):
            nums.append(int(a[0]) if a[0] else 0 if a[1] else number(a[2].split()[1]) if a[2] else "null")
        r.append((re.sub(r"^qis__|__body$", "", name), nums))
    return r


def normal(text):
    """A module's text without what may differ between equal modules: the order of declarations."""
    lines = [x.rstrip() for x in text.split("\n") if x.strip() and not x.startswith(("; ModuleID", "source_filename"))]
    return [x for x in lines if not x.startswith("declare")], sorted(x for x in lines if x.startswith("declare"))


class _Run:
    def __init__(self, rec, prog):
        import pyqir
        from dwave.gate.qir.compiler import BaseModule

        self.rec = rec
        self.BaseModule = BaseModule
        self.ctx = pyqir.Context()
        self.mods = []
        for k, s in enumerate(prog["modules"]):
            m = _Mod()
            m.spec, m.name = s, f"mod{k}"
            m.mod = self.make(m, self.ctx if s["shared"] else None)
            self.clear(m)
            m.compiled = None  # model at the last compilation, while that is current
            m.unsure = False  # whether a recompilation was interrupted
            m.stale = []  # texts that may be shown instead of the present one
            self.mods.append(m)

    def make(self, m, ctx=None):
        s = m.spec
        return self.BaseModule(m.name, s["n"], s["b"], context=ctx, **s["kw"]) if ctx is not None else self.BaseModule(m.name, s["n"], s["b"], **s["kw"])

    def clear(self, m):
        m.instr = {"body": [], "measurements": [], "output": []}
        m.ext = {}
        m.ret = None

    # ---- a module made anew from the model

    def instruction(self, mod, d, sim=None):
        from dwave.gate.qir.instructions import InstrType, Instruction

        cls = sim or Instruction
        k = d[0]
        if k == "base":
            return cls(InstrType.BASE, d[1], list(d[2]) + [mod.qubits[q] for q in d[3]])
        if k == "measure":
            return cls(InstrType.MEASUREMENT, "mz", (mod.qubits[d[1]], mod.results[d[2]]))
        if k == "out":
            return cls(InstrType.OUTPUT, "out", [mod.results[d[1]]])
        if k == "external":
            return mod.get_external_instruction(d[1], list(d[2]) + [mod.qubits[q] for q in d[3]] + [mod.results[r] for r in d[4]])
        raise AssertionError(d)

    def declare(self, mod, f, t):
        types = [mod.Types.DOUBLE] * t[0] + [mod.Types.QUBIT] * t[1] + [mod.Types.RESULT] * t[2]
        if t[3]:
            mod.add_external_function(f, types, getattr(mod.Types, t[3]))
        else:
            mod.add_external_function(f, types)

    def expected_calls(self, m):
        r = [("rt__initialize", ["null"])]
        for block in ("body", "measurements", "output"):
            for d in m.instr[block]:
                if d[0] == "base":
                    r.append((CALLED.get(d[1], d[1]), [float(x) for x in d[2]] + list(d[3])))
                elif d[0] == "measure":
                    r.append(("mz", [d[1], d[2]]))
                elif d[0] == "out":
                    r.append(("rt__result_record_output", [d[1], "null"]))
                elif d[0] == "external":
                    r.append((d[1], [float(x) for x in d[2]] + list(d[3]) + list(d[4])))
        return r

    def fresh(self, m):
        """Text of a fresh module with what was added; it is compiled just once."""
        mod = self.make(m)
        for f, t in m.ext.items():
            self.declare(mod, f, t)
        for block, ds in m.instr.items():
            for d in ds:
                mod.add_instruction(block, self.instruction(mod, d))
        if m.ret is not None:
            mod.set_return(mod.results[m.ret])
        mod.compile(strict=False)
        return mod.qir

    def bad(self, m):
        return any(d[0] == "bad" for ds in m.instr.values() for d in ds)

    # ---- judging

    def judge_text(self, m, text, where, form="text"):
        if not isinstance(text, str):
            raise Violation("module", f"{where}: the {form} is {text!r}")
        n = len(entry_points(text))
        if n != 1:
            raise Violation("module", f"{where}: the {form} has {n} entry points:\n{text}")
        got = calls(text)
        want = self.expected_calls(m)
        if got != want:
            raise Violation("module", f"{where}: the {form} of {m.name} calls {got}, expected {want}")
        declared = sorted(re.findall(r"^declare (\S+) @__quantum__qis__(\w+?)__body\((.*?)\)", text, re.M))
        for f, t in m.ext.items():
            w = ({None: "void", "DOUBLE": "double", "INT64": "i64", "BOOL_": "i1"}[t[3]], f, ", ".join(["double"] * t[0] + ["%Qubit*"] * t[1] + ["%Result*"] * t[2]))
            if declared.count(w) != 1 or sum(x[1] == f for x in declared) != 1:
                raise Violation("module", f"{where}: the {form} of {m.name} declares {declared}, expected {w}")
        flags = {k: {"true": 1, "false": 0}.get(v) if v in ("true", "false") else int(v) for k, v in re.findall(r'!{i32 \d+, !"(\w+)", i\d+ (\w+)}', text)}
        want = {**{"qir_major_version": 1, "qir_minor_version": 0, "dynamic_qubit_management": 0, "dynamic_result_management": 0}, **{k: int(v) for k, v in m.spec["kw"].items()}}
        if {k: flags.get(k) for k in want} != want:
            raise Violation("module", f"{where}: the {form} of {m.name} has the attributes {flags}, expected {want}")
        ref = self.fresh(m)
        if normal(text) != normal(ref):
            raise Violation("module", f"{where}: the {form} of {m.name} is\n{text}\nThat of a fresh module:\n{ref}")

    def judge(self, m, what, data, where):
        """The text or bitcode shown for a module; older ones are allowed if it was not compiled again."""
        if what == "bitcode":
            import pyqir

            if not isinstance(data, bytes):
                raise Violation("module", f"{where}: the bitcode is {data!r}")
            data = str(pyqir.Module.from_bitcode(pyqir.Context(), data))
        if self.bad(m) or m.stale:
            # not necessarily compiled from what is there now
            if any(len(entry_points(data)) == 1 and calls(data) == calls(x) for x in m.stale):
                return "old"
            if self.bad(m):
                raise Violation("module", f"{where}: shows\n{data}\nalthough it cannot be compiled")
        self.judge_text(m, data, where, what)
        return "present"

    # ---- steps

    def run(self, prog):
        for k, s in enumerate(prog["steps"]):
            m = self.mods[s["m"]] if s["m"] < len(self.mods) else None
            if m is None:
                continue
            where = f"step {k} ({s['do']})"
            self.rec.steps += 1
            r = getattr(self, "do_" + s["do"])(m, s, where)
            self.rec.log(where, r, m.compiled is not None)
            self.rec.state([[d[:2] for d in ds] for ds in m.instr.values()], sorted(m.ext), m.compiled is not None, s["do"], r)

    def changed(self, m):
        """The text shown may be the old one now."""
        if m.compiled is not None and m.compiled not in m.stale:
            m.stale.append(m.compiled)

    def add(self, m, block, d, instr):
        m.mod.add_instruction(block, instr)
        m.instr[block].append(d)
        self.changed(m)
        return d[0]

    def do_add(self, m, s, where):
        d = ("base", s["g"], tuple(s["p"]), tuple(s["q"]))
        return self.add(m, s["block"], d, self.instruction(m.mod, d, sim_instruction() if s["fails"] else None))

    def do_measure(self, m, s, where):
        d = ("measure", s["q"], s["r"])
        self.add(m, "measurements", d, self.instruction(m.mod, d))
        if s["out"]:
            d = ("out", s["r"])
            self.add(m, "output", d, self.instruction(m.mod, d))

    def do_declare(self, m, s, where):
        if s["f"] in m.ext:
            return None
        t = (s["np"], s["nq"], s["nr"], s.get("ret"))
        self.changed(m)
        self.declare(m.mod, s["f"], t)
        m.ext[s["f"]] = t
        return "declared"

    def do_external(self, m, s, where):
        if not m.ext:
            return None
        f = sorted(m.ext)[s["f"] % len(m.ext)]
        np, nq, nr, _ = m.ext[f]
        if nr and not m.spec["b"]:
            return None
        d = ("external", f, tuple(s["p"][:np]), tuple(s["q"][:nq]), tuple([s["r"] % max(1, m.spec["b"])] * nr))
        return self.add(m, s["block"], d, self.instruction(m.mod, d))

    def do_bad(self, m, s, where):
        from dsim import faults
        from dwave.gate.qir.instructions import InstrType, Instruction

        what = s["what"]
        q = m.mod.qubits
        if what == "unknown operation":
            i = Instruction(InstrType.BASE, "no_such_operation", [q[0]])
        elif what == "invalid":
            i = Instruction(InstrType.INVALID, "x", [q[0]])
        elif what == "arity":
            i = Instruction(InstrType.BASE, "x", [])
        else:
            if what == "args":
                f = lambda: Instruction(InstrType.BASE, "x", ["q"])
            elif what == "external":
                f = lambda: m.mod.get_external_instruction("not_declared", [q[0]])
            else:
                f = lambda: m.mod.add_instruction("no such block", Instruction(InstrType.BASE, "x", [q[0]]))
            out = faults.attempt(None, f, self.rec, allow=(Exception,))
            self.refused(out, what, where)
            return "refused"
        return self.add(m, "body", ("bad", what), i)

    def refused(self, out, what, where):
        self.rec.count("refused")
        self.rec.nontrivial = True
        if out.ok:
            raise Violation("not-refused", f"{where}: {what} was accepted")

    def do_unbad(self, m, s, where):
        """Everything is taken back if it contains what cannot be compiled."""
        if self.bad(m):
            m.mod.reset()
            self.clear(m)
            m.compiled, m.stale, m.unsure = None, [], False
            return "reset"
        if m.ret is not None:
            m.mod.set_return(force=True)
            m.ret = None
            self.changed(m)
            return "return taken back"

    def do_return(self, m, s, where):
        from dsim import faults

        r = s["r"]
        if r is not None:
            if not m.spec["b"]:
                return None
            r %= m.spec["b"]
        v = None if r is None else m.mod.results[r]
        out = faults.attempt(None, lambda: m.mod.set_return(v, force=s["force"]) if v is not None else m.mod.set_return(force=s["force"]), self.rec, allow=(ValueError,))
        if m.ret is not None and not s["force"]:
            self.refused(out, "replacing a return", where)
            return "refused"
        if not out.ok:
            raise out.error
        m.ret = r
        self.changed(m)

    def do_compile(self, m, s, where):
        from dsim import faults

        was = m.compiled is not None
        args = {}
        if s["force"]:
            args["force"] = True
        if not s["strict"]:
            args["strict"] = False
        out = faults.attempt(s.get("fault"), lambda: m.mod.compile(**args), self.rec, allow=(Exception,))
        if was and not s["force"]:
            self.refused(out, "compiling twice without force", where)
            return "refused"
        if not out.ok and not out.fired and not s["force"] and m.unsure and m.stale:
            # a recompilation that was interrupted early may have left what was compiled before
            return "still compiled"
        return self.compiled(m, out, s["strict"], where)

    def compiled(self, m, out, strict, where):
        if out.fired and not out.ok:
            self.rec.nontrivial = True
            self.failed(m, True)
            return "failed"
        if self.bad(m) or (m.ret is not None and strict):
            self.refused(out, "compiling what cannot be compiled", where)
            self.failed(m)
            return "refused"
        if not out.ok:
            raise out.error
        if m.stale:
            self.rec.nontrivial = True
        m.stale = []
        m.unsure = False
        m.compiled = "?"
        text = m.mod.qir
        self.judge_text(m, text, where)
        m.compiled = text
        self.rec.count("compilations")
        return "compiled"

    def failed(self, m, fired=False):
        # the module may show what was compiled before, or try again; or it may just have been done
        self.changed(m)
        m.unsure = m.unsure or m.compiled is not None
        m.compiled = None
        if fired and not self.bad(m):
            m.stale.append(self.fresh(m))
            m.unsure = True

    def do_read(self, m, s, where):
        from dsim import faults

        what = s["what"]
        out = faults.attempt(s.get("fault"), lambda: getattr(m.mod, what), self.rec, allow=(Exception,))
        if out.ok:
            r = self.judge(m, what, out.result, where)
            if r == "present":
                m.compiled = m.mod.qir
                m.stale = []
            return r
        if out.fired:
            self.failed(m, True)
            return "failed"
        if m.compiled is None and (self.bad(m) or m.ret is not None):
            self.failed(m)
            self.rec.count("refused")
            return "refused"
        raise out.error

    def do_reset(self, m, s, where):
        if s["rm"]:
            m.mod.reset()
            self.clear(m)
        else:
            m.mod.reset(rm_instructions=False)
        m.compiled, m.stale, m.unsure = None, [], False


PROP = C16()
