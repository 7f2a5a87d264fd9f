import re

from dsim import gen
from dsim.core import Violation
from dsim.props import Property

LABELS = ["a", "b", "", 0, 1, "qreg0", "qreg1", "creg0", "creg1", "tuple", "cb0", "cb1"]
READS = ["views", "numbers", "find", "get"]


class C06(Property):
    ID = "C06"
    RUNS = {"quick": 30000, "thorough": 500000}
    BUDGET = {"quick": 60, "thorough": 700}
    CHUNK = 50
    RULE = ("a run is a history of 3-30 calls on 1-2 circuits of both classes: registers added with and without labels (also falsy, duplicate, colliding with automatic "
            "ones, unhashable, or failing when hashed) and sizes, qubits and bits (new ones, the user's own and of user-defined classes, or ones already in the circuit or of the "
            "wrong type) added to present, new, frozen or unspecified registers, look-ups, operations applied, bit values and labels changed, "
            "simulations, resets of both kinds and deep copies, with the views read after every or only some steps, callbacks failing in any call, identifiers used up, "
            "and reads interrupted at any point; non-trivial if a fault was injected or a call refused; distinct by program digest")
    REAL = "circuits, registers (compiled), qubits, bits, identifier generator, operations, simulator (compiled)"
    STUBS = "user-defined qubits, bits and labels whose hash and equality fail as told by the program"
    STATES = "(sizes of the registers, call, outcome)"
    ASSUMPTIONS = ["registers are changed through the circuit only (besides freezing them)", "views taken before a change are not looked at",
                   "a register that an addition would make may stay behind if the addition fails by an injected fault (not if it is refused)"]
    LISTS = ("steps",)

    def generate(self, rng, idx, tier):
        labels = gen.swarm(rng, LABELS)
        sides = rng.choice(["q", "b", "qb", "qb", "qb"])
        faulty = rng.random() < 0.5
        lazy = rng.random() < 0.4
        user = rng.choice([0, 0, 0.3, 0.8])
        ncirc = rng.choice([1, 1, 1, 2])
        circuits = [{"par": rng.random() < 0.2, "n": rng.choice([None, None, 0, 1, 2, 3]), "b": rng.choice([None, None, 0, 1, 2])} for _ in range(ncirc)]
        steps = []
        for _ in range(rng.randint(3, 30)):
            t = rng.choice(sides)
            k = rng.random()
            s = {"c": rng.randrange(ncirc), "t": t}
            if k < 0.17:
                s.update(do="register", n=rng.choice([0, 0, 1, 2, 3, -1]), label=rng.choice(labels + [None, None, None]))
                if rng.random() < 0.04:
                    s["bad"] = rng.choice(["label", "size"])
            elif k < 0.5:
                s.update(do="add", x=rng.choice(["new", "new", "own", "own", "own", "own", "bad"]), i=rng.randrange(6), label=rng.choice(labels + [None, None, "present", "present"]),
                         r=rng.randrange(4), user=rng.random() < user)
                if s["x"] == "bad":
                    s["i"] = rng.randrange(7)
                elif rng.random() < 0.03:
                    s["badlabel"] = True
            elif k < 0.6:
                s.update(do="read", what=rng.choice(READS))
            elif k < 0.66:
                s.update(do="value", i=rng.randrange(6), v=rng.choice([None, 0, 0, 1]))
            elif k < 0.7:
                s.update(do="label", i=rng.randrange(6), v=rng.choice(["0", "1", "2", "x", 0, ""]))
            elif k < 0.78:
                s.update(do="apply", i=rng.randrange(8), foreign=rng.random() < 0.3)
            elif k < 0.84:
                s.update(do="simulate", i=rng.randrange(8), j=rng.randrange(8))
            elif k < 0.93:
                s.update(do="reset", keep=rng.random() < 0.4)
            elif k < 0.96:
                s.update(do="deepcopy")
            else:
                s.update(do="freeze", r=rng.randrange(4))
            if faulty and rng.random() < 0.3:
                if s["do"] in ("register", "add") and rng.random() < 0.3:
                    s["fault"] = {"f": "ids", "k": rng.randrange(4)}
                elif s["do"] == "read" and rng.random() < 0.6:
                    s["fault"] = gen_interrupt(rng)
                elif s["do"] in ("register", "add", "read", "label"):
                    s["fault"] = {"f": "callback", "k": gen.log_uniform(rng, 10)}
            s["look"] = not lazy or rng.random() < 0.3
            steps.append(s)
        return {"circuits": circuits, "steps": steps}

    def execute(self, prog, rec):
        _Run(rec).run(prog)


def gen_interrupt(rng):
    return {"f": "interrupt", "k": gen.log_uniform(rng, 150)}


_cls = {}


def _classes():
    if not _cls:
        from dsim.faults import FaultyCallbacks
        from dsim.lib import L

        class UserQubit(L.Qubit):
            def __hash__(self):
                FaultyCallbacks.hit()
                return super().__hash__()

            def __eq__(self, o):
                FaultyCallbacks.hit()
                return super().__eq__(o)

        class UserBit(L.Bit):
            def __hash__(self):
                FaultyCallbacks.hit()
                return super().__hash__()

            def __eq__(self, o):
                FaultyCallbacks.hit()
                return super().__eq__(o)

        class Label:
            def __init__(self, n):
                self.n = n

            def __hash__(self):
                FaultyCallbacks.hit()
                return 5

            def __eq__(self, o):
                FaultyCallbacks.hit()
                return isinstance(o, Label) and o.n == self.n

            def __repr__(self):
                return f"Label({self.n})"

            def __deepcopy__(self, memo):
                return self

        _cls.update(UserQubit=UserQubit, UserBit=UserBit, Label=Label)
        _cls["labels"] = {"cb0": Label(0), "cb1": Label(1), "tuple": ("t", 1)}
    return _cls


class _Model:
    """A circuit and what it should hold: for 'q' and 'b', an ordered list of [label, items, frozen]."""

    def __init__(self, circuit):
        self.circuit = circuit
        self.regs = {"q": [], "b": []}
        self.seen = {"q": [], "b": []}  # items ever added

    def items(self, t):
        return [x for r in self.regs[t] for x in r[1]]

    def reg(self, t, label):
        for r in self.regs[t]:
            if r[0] is label or (type(r[0]) is type(label) and not hasattr(label, "n") and r[0] == label):
                return r
        return None


class _Run:
    def __init__(self, rec):
        self.rec = rec
        self.cls = _classes()
        self.own = {}
        self.models = []
        self.used_up = False  # (once per run: the identifiers would be given out again)

    # ---- access by side

    def view(self, m, t):
        return m.circuit.qubits if t == "q" else m.circuit.bits

    def registers(self, m, t):
        return m.circuit.qregisters if t == "q" else m.circuit.cregisters

    def number(self, m, t):
        return m.circuit.num_qubits if t == "q" else m.circuit.num_bits

    def find(self, m, t, x, label=None):
        f = m.circuit.find_qubit if t == "q" else m.circuit.find_bit
        return f(x) if label is None else f(x, label)

    def get(self, m, t, label, reg=None, all=False):
        f = m.circuit.get_qubit if t == "q" else m.circuit.get_bit
        return f(label, reg, all)

    def add(self, m, t, *a, **k):
        return (m.circuit.add_qubit if t == "q" else m.circuit.add_bit)(*a, **k)

    def label(self, l):
        return self.cls["labels"].get(l, l) if isinstance(l, str) else l

    def item(self, t, i, user):
        """An item made by the user."""
        from dsim.lib import L

        key = (t, i, user)
        if key not in self.own:
            base = {"q": "Qubit", "b": "Bit"}[t]
            # (labels may coincide with those of other items)
            self.own[key] = (self.cls["User" + base] if user else getattr(L, base))(str(i % 3))
        return self.own[key]

    # ---- invariants

    def check(self, where, full=True):
        for n, m in enumerate(self.models):
            for t in "qb":
                self.check_side(n, m, t, where, full)

    def check_side(self, n, m, t, where, full):
        def fail(what, got, want):
            raise Violation("circuit-registers", f"{where}: circuit {n}: {what} is {got}, expected {want}")

        regs = list(self.registers(m, t).items())
        want = m.regs[t]
        name = {"q": "qubits", "b": "bits"}[t]
        if [k for k, _ in regs] != [r[0] for r in want]:
            fail(f"registers of {name}", [k for k, _ in regs], [r[0] for r in want])
        for (k, r), (_, items, _f) in zip(regs, want):
            got = list(r)
            if len(got) != len(items) or any(x is not y for x, y in zip(got, items)):
                fail(f"register {k!r} of {name}", got, items)
        items = m.items(t)
        v = self.view(m, t)
        got = list(v)
        if len(got) != len(items) or len(v) != len(items) or any(x is not y for x, y in zip(got, items)):
            fail(name, got, items)
        if self.number(m, t) != len(items):
            fail(f"number of {name}", self.number(m, t), len(items))
        if not full:
            return
        for i, x in enumerate(items):
            if v.index(x) != i or x not in v or v[i] is not x:
                fail(f"position of {x!r}", v.index(x), i)
        for ri, (k, its, _f) in enumerate(want):
            for j, x in enumerate(its):
                for by in (None, False, True):
                    g = self.find(m, t, x, by)
                    w = (k if by else ri, j)
                    if len(g) != 2 or g[0] != w[0] or g[1] != w[1]:
                        fail(f"place of {x!r}", g, w)
        self.check_labels(m, t, fail)
        for x in self.outside(m, t):
            if x in v:
                fail(f"{x!r} in {name}", True, False)
            self.refused(lambda: self.find(m, t, x), ValueError, where, f"finding {x!r}, not in circuit {n},")
        # all different
        ids = {}
        for x in items:
            if x.id in ids:
                fail(f"identifier of {x!r}", x.id, "a unique one")
            ids[x.id] = x

    def outside(self, m, t):
        inside = {id(x) for x in m.items(t)}
        r = [x for (tt, _, _), x in sorted(self.own.items()) if tt == t and id(x) not in inside]
        r += [x for x in m.seen[t] if id(x) not in inside]
        return r[:4]

    def check_labels(self, m, t, fail):
        every = m.items(t)
        scopes = [(None, every)] + [(r[0], r[1]) for r in m.regs[t]]
        labels = []
        for x in every + self.outside(m, t):
            if x.label not in labels:
                labels.append(x.label)
        for l in labels + ["no such label"]:
            for reg, its in scopes:
                want = [x for x in its if x.label == l]
                try:
                    one = self.get(m, t, l, reg)
                    many = list(self.get(m, t, l, reg, True))
                except ValueError:
                    if want:
                        fail(f"item labelled {l!r} of register {reg!r}", "not found", want)
                    continue
                if not want or one is not want[0]:
                    fail(f"item labelled {l!r} of register {reg!r}", one, want[:1])
                if len(many) != len(want) or any(x is not y for x, y in zip(many, want)):
                    fail(f"items labelled {l!r} of register {reg!r}", many, want)

    def refused(self, fn, error, where, what):
        try:
            r = fn()
        except error:
            return
        raise Violation("not-refused", f"{where}: {what} returned {r!r}")

    # ---- steps

    def run(self, prog):
        from dsim.lib import L

        for n, spec in enumerate(prog["circuits"]):
            cls = L.ParametricCircuit if spec["par"] else L.Circuit
            m = _Model(cls(spec["n"], spec["b"]) if spec["b"] is not None else (cls(spec["n"]) if spec["n"] is not None else cls()))
            if spec["n"] is None and spec["b"] is not None:
                m.circuit = cls(num_bits=spec["b"])
            self.models.append(m)
            for t, k in (("q", spec["n"]), ("b", spec["b"])):
                if k is not None:
                    self.adopt(m, t, k, None, f"circuit {n}")
        self.check("start")
        for k, s in enumerate(prog["steps"]):
            m = self.models[s["c"]] if s["c"] < len(self.models) else None
            if m is None:
                continue
            where = f"step {k} ({s['do']})"
            self.rec.steps += 1
            r = getattr(self, "do_" + s["do"])(m, s["t"], s, where)
            if s.get("look", True):
                self.check(where)
            self.rec.log(where, r, [len(x[1]) for x in m.regs[s["t"]]])
            self.rec.state([len(x[1]) for x in m.regs[s["t"]]], s["do"], s.get("x"), r)
        self.check("end")

    def adopt(self, m, t, k, label, where):
        """A register of new items was added."""
        regs = list(self.registers(m, t).items())
        if len(regs) != len(m.regs[t]) + 1:
            raise Violation("circuit-registers", f"{where}: there are {len(regs)} registers after adding one to {len(m.regs[t])}")
        key, reg = regs[-1]
        if label is not None and key is not label and (key != label or type(key) is not type(label)):
            raise Violation("circuit-registers", f"{where}: new register is labelled {key!r}, not {label!r}")
        if label is None and not re.fullmatch(f"{t.replace('b', 'c')}reg[0-9]+", str(key)):
            raise Violation("circuit-registers", f"{where}: new register is labelled {key!r}")
        items = list(reg)
        if len(items) != max(0, k):
            raise Violation("circuit-registers", f"{where}: new register of {k} has {len(items)}")
        for i, x in enumerate(items):
            self.fresh(x, t, where, len(m.items(t)) + i)
        m.regs[t].append([key, items, False])
        m.seen[t] += items

    def fresh(self, x, t, where, number):
        from dsim.lib import L

        if not isinstance(x, L.Qubit if t == "q" else L.Bit):
            raise Violation("circuit-registers", f"{where}: new item {x!r}")
        if t == "b" and x.value is not None:
            raise Violation("circuit-registers", f"{where}: new bit has value {x.value}")
        if x.label != str(number):
            raise Violation("circuit-registers", f"{where}: new item number {number} is labelled {x.label!r}")
        for y in list(self.own.values()) + [y for m in self.models for tt in "qb" for y in m.seen[tt]]:
            if x is y or x.id == y.id:
                raise Violation("circuit-registers", f"{where}: new item {x!r} is not new")

    def attempt(self, s, fn):
        from dsim import faults
        from dsim.lib import L

        f = s.get("fault")
        if f and f["f"] == "ids" and self.used_up:
            f = None
        if f and f["f"] == "ids":
            self.used_up = True
            # only a few identifiers are left
            L.IDCounter.reset(length=35, batch=1)
            spare = []
            while True:
                try:
                    spare.append(L.Qubit("x"))
                except ValueError:
                    break
                if len(spare) > 1000:
                    break
            # take them anew, but for the last ones
            L.IDCounter.reset(length=35, batch=1)
            for _ in range(max(0, len(spare) - f["k"])):
                L.Qubit("x")
            try:
                out = faults.attempt(None, fn, self.rec, allow=(Exception,))
            finally:
                L.IDCounter.reset(length=self.length(), batch=1000)
            if isinstance(out.error, ValueError) and s.get("n", 1) > f["k"] and s.get("x", "new") == "new":
                out.fired = True
                self.rec.fault("identifiers used up")
            return out
        return faults.attempt(f, fn, self.rec, allow=(Exception,))

    def length(self):
        """A length of identifiers that was not used in this run."""
        return 9

    def expect(self, out, error, where, what):
        self.rec.count("refused")
        self.rec.nontrivial = True
        if out.ok:
            raise Violation("not-refused", f"{where}: {what} was accepted")
        if not out.fired and not isinstance(out.error, error):
            raise Violation("refused-differently", f"{where}: {what}: {type(out.error).__name__}: {out.error}")
        return "refused"

    def unfailing(self, out, where):
        if not out.ok and not out.fired:
            raise Violation("refused", f"{where}: {type(out.error).__name__}: {out.error}")
        return out.ok

    def leftover(self, m, t, label, where, out):
        """A failed addition may have left an empty register behind."""
        regs = list(self.registers(m, t).items())
        if out.fired and len(regs) == len(m.regs[t]) + 1:
            key, reg = regs[-1]
            if len(reg) == 0:
                m.regs[t].append([key, [], False])

    def do_register(self, m, t, s, where):
        add = m.circuit.add_qregister if t == "q" else m.circuit.add_cregister
        label = self.label(s["label"])
        n = s["n"]
        if s.get("bad") == "label":
            out = self.attempt(s, lambda: add(n, label=["unhashable"]))
            return self.expect(out, TypeError, where, "an unhashable label")
        if s.get("bad") == "size":
            out = self.attempt(s, lambda: add(1.5, label=label))
            return self.expect(out, (TypeError, ValueError), where, "a size of 1.5")
        out = self.attempt(s, (lambda: add(label=label)) if n == 0 else (lambda: add(n)) if label is None else (lambda: add(n, label)))
        if label is not None and m.reg(t, label) is not None:
            return self.expect(out, ValueError, where, f"a second register {label!r}")
        if out.ok:
            self.adopt(m, t, n, label, where)
            return "added"
        if label is None and isinstance(out.error, ValueError) and any(r[0] == f"{t.replace('b', 'c')}reg{len(m.regs[t])}" for r in m.regs[t] if isinstance(r[0], str)):
            return "automatic label taken"
        self.unfailing(out, where)
        if label is not None and hasattr(label, "n"):
            # the label failed; whether the register was added may depend on when
            regs = list(self.registers(m, t).items())
            if len(regs) > len(m.regs[t]):
                self.adopt(m, t, n, label, where)
        return "failed"

    def do_add(self, m, t, s, where):
        from dsim.lib import L

        label = s["label"]
        if label == "present":
            label = m.regs[t][s["r"] % len(m.regs[t])][0] if m.regs[t] else None
        else:
            label = self.label(label)
        args = [] if label is None else [label]
        if s["x"] == "bad":
            x = ["x", 0, "", self.item("b" if t == "q" else "q", s["i"], False), L.Qubit if t == "q" else L.Bit, 1.5, [self.item(t, 0, False)]][s["i"]]
            out = self.attempt(s, lambda: self.add(m, t, x, *args))
            return self.expect(out, TypeError, where, f"adding {x!r}")
        x = self.item(t, s["i"], s.get("user", False)) if s["x"] == "own" else None
        if x is not None and any(x is y for y in m.items(t)):
            out = self.attempt(s, lambda: self.add(m, t, x, *args))
            return self.expect(out, ValueError, where, "adding one that is in the circuit")
        if s.get("badlabel"):
            out = self.attempt(s, lambda: self.add(m, t, x, ["unhashable"]))
            return self.expect(out, TypeError, where, "an unhashable label")
        reg = m.reg(t, label) if label is not None else (m.regs[t][0] if m.regs[t] else None)
        if x is None and not args:
            out = self.attempt(s, lambda: self.add(m, t))
        else:
            out = self.attempt(s, lambda: self.add(m, t, x, *args))
        if reg is not None and reg[2]:
            return self.expect(out, L.RegisterError, where, "adding to a frozen register")
        if not self.unfailing(out, where):
            self.leftover(m, t, label, where, out)
            # (added before the failure)
            regs = list(self.registers(m, t).values())
            for r, mine in zip(regs, m.regs[t]):
                if len(r) == len(mine[1]) + 1 and hasattr(label, "n"):
                    raise Violation("circuit-registers", f"{where}: failed with {out.error!r}, but was added")
            return "failed"
        if reg is None:
            regs = list(self.registers(m, t).items())
            if len(regs) != len(m.regs[t]) + 1:
                raise Violation("circuit-registers", f"{where}: there are {len(regs)} registers after adding to a new one besides {len(m.regs[t])}")
            key, _ = regs[-1]
            if label is not None and key is not label and (key != label or type(key) is not type(label)):
                raise Violation("circuit-registers", f"{where}: new register is labelled {key!r}, not {label!r}")
            reg = [key, [], False]
            m.regs[t].append(reg)
        k = [r is reg for r in m.regs[t]].index(True)
        if x is None:
            got = list(list(self.registers(m, t).values())[k])
            if len(got) != len(reg[1]) + 1:
                raise Violation("circuit-registers", f"{where}: register {reg[0]!r} has {len(got)} items after adding one to {len(reg[1])}")
            x = got[-1]
            self.fresh(x, t, where, len(m.items(t)))
        reg[1].append(x)
        m.seen[t].append(x)
        return "added"

    def do_read(self, m, t, s, where):
        what = s["what"]
        items = m.items(t)

        def views():
            return [x.id for x in self.view(m, t)] == [x.id for x in items]

        def numbers():
            return self.number(m, t) == len(items)

        def find():
            return [self.find(m, t, x)[1] for x in items] == [j for r in m.regs[t] for j in range(len(r[1]))]

        def get():
            return all(self.get(m, t, x.label) is not None for x in items)

        out = self.attempt(s, {"views": views, "numbers": numbers, "find": find, "get": get}[what])
        if self.unfailing(out, where) and not out.result:
            raise Violation("circuit-registers", f"{where}: {what} of {t} disagree with the registers {items}")
        return what if out.ok else "failed"

    def do_value(self, m, t, s, where):
        items = m.items("b") + [x for (tt, _, _), x in sorted(self.own.items()) if tt == "b"]
        if items:
            x = items[s["i"] % len(items)]
            if s["v"] is None:
                x.reset()
            else:
                x.set(s["v"], force=True)

    def do_label(self, m, t, s, where):
        items = m.items(t)
        if items:
            items[s["i"] % len(items)].label = s["v"]

    def do_freeze(self, m, t, s, where):
        if m.regs[t]:
            r = m.regs[t][s["r"] % len(m.regs[t])]
            self.registers(m, t)[r[0]].freeze()
            r[2] = True

    def do_apply(self, m, t, s, where):
        """Operations are accepted on the present qubits only."""
        from dsim.lib import L

        c = m.circuit
        inside = m.items("q")
        outside = self.outside(m, "q")
        pool = outside if s["foreign"] else inside
        if not pool:
            return None
        x = pool[s["i"] % len(pool)]
        c.unlock()
        n = len(c.circuit)
        with c.context as reg:
            if len(reg.q) != len(inside) or any(a is not b for a, b in zip(reg.q, inside)):
                raise Violation("circuit-registers", f"{where}: the context has the qubits {list(reg.q)}, expected {inside}")
            bits = m.items("b")
            if len(reg.c) != len(bits) or any(a is not b for a, b in zip(reg.c, bits)):
                raise Violation("circuit-registers", f"{where}: the context has the bits {list(reg.c)}, expected {bits}")
            try:
                L.ops.X(x)
                ok = True
            except ValueError:
                ok = False
        c.unlock()
        if ok == s["foreign"] or len(c.circuit) != n + ok:
            raise Violation("circuit-registers", f"{where}: operation on {x!r} {'accepted' if ok else 'refused'}; there are {len(c.circuit)} operations after {n}")
        return "accepted" if ok else "refused"

    def do_simulate(self, m, t, s, where):
        """Measures a qubit into a bit."""
        from dsim import faults
        from dsim.lib import L, quiet

        q, b = m.items("q"), m.items("b")
        if not q or len(q) > 6 or m.circuit.parametric:
            return None
        m.circuit.reset()
        with m.circuit.context as reg:
            L.ops.X(reg.q[0])
            if b:
                L.ops.Measurement(reg.q[s["i"] % len(q)]) | reg.c[s["j"] % len(b)]
        with faults.scripted_draws([0.5]):
            quiet(L.simulate, m.circuit)
        if b:
            want = int(s["i"] % len(q) == 0)
            if b[s["j"] % len(b)].value != want:
                raise Violation("circuit-registers", f"{where}: measured {b[s['j'] % len(b)].value} instead of {want}")
        m.circuit.unlock()
        return "simulated"

    def do_reset(self, m, t, s, where):
        bits = m.items("b")
        if s["keep"] and s.get("fault"):
            m.circuit.reset()
        else:
            m.circuit.reset(keep_registers=s["keep"])
        if not s["keep"]:
            m.regs = {"q": [], "b": []}
        elif any(b.value is not None for b in bits):
            raise Violation("circuit-registers", f"{where}: bits {bits} still have values")
        if len(m.circuit.circuit) or m.circuit.is_locked():
            raise Violation("circuit-registers", f"{where}: the circuit is not empty and unlocked")
        return s["keep"]

    def do_deepcopy(self, m, t, s, where):
        """Continues with a copy, which has to agree with itself and with the original."""
        import copy

        new = _Model(copy.deepcopy(m.circuit))
        for tt in "qb":
            regs = list(self.registers(new, tt).items())
            if [k for k, _ in regs] != [r[0] for r in m.regs[tt]]:
                raise Violation("circuit-registers", f"{where}: the copy has the registers {[k for k, _ in regs]}")
            for (k, r), old in zip(regs, m.regs[tt]):
                items = list(r)
                if [x.id for x in items] != [x.id for x in old[1]] or [x.label for x in items] != [x.label for x in old[1]]:
                    raise Violation("circuit-registers", f"{where}: register {k!r} of the copy has {items} instead of {old[1]}")
                new.regs[tt].append([k, items, r.frozen])
                new.seen[tt] += items
        self.own = {}  # (copies of these are equal to them)
        self.models[[x is m for x in self.models].index(True)] = new
        if len(self.models) > 1:
            self.models = [new]
        return "copied"


PROP = C06()
