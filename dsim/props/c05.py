import fractions
import operator

from dsim import gen
from dsim.core import Violation
from dsim.props import Property

KINDS = ["Register", "QuantumRegister", "ClassicalRegister", "SelfIncrementingRegister"]
# set operations of registers
SETS = {"==": operator.eq, "!=": operator.ne, "<=": operator.le, "<": operator.lt, ">=": operator.ge, ">": operator.gt,
        "|": operator.or_, "&": operator.and_, "-": operator.sub, "^": operator.xor, "disjoint": lambda a, b: a.isdisjoint(b)}


def gen_item(rng, pool):
    """An item by description; equal descriptions are the same item."""
    k = rng.choice(pool)
    n = rng.randrange(8)
    if k == "int":
        return ["int", rng.choice([n, n, n, -1, 17, 100])]
    if k == "num":
        return ["num", rng.choice(["float", "frac", "numpy", "half"]), n]
    return [k, n]


def gen_range(rng):
    return [rng.choice([0, 0, 0, 1, 3, -2]), rng.choice([0, 1, 3, 5, 5, -1]), rng.choice([1, 1, 1, 2, -1])]


class C05(Property):
    ID = "C05"
    RUNS = {"quick": 30000, "thorough": 700000}
    BUDGET = {"quick": 60, "thorough": 700}
    CHUNK = 50
    RULE = ("a run is a history of 3-25 calls on 1-4 registers of all classes (created from all kinds of iterables, added to one by one and in bulk, copied, concatenated, "
            "sliced, frozen, looked up permissively, indexed beyond the end) whose items are integers, other numbers, strings, tuples, qubits, bits and variables that get "
            "and lose values, and objects with colliding hashes, with hash, equality or iteration failing at any call; non-trivial if a fault was injected or a call "
            "refused; distinct by program digest")
    REAL = "registers (compiled), qubits, bits, variables"
    STUBS = "items whose hash and equality, and sequences whose iteration, fail as told by the program"
    STATES = "(contents of the register by kind of item, call, outcome)"
    ASSUMPTIONS = ["numbers are finite, real and smaller than 2**60", "None and iterators are not added", "whether copies of a frozen register are frozen is left open"]
    LISTS = ("steps", "items")

    def generate(self, rng, idx, tier):
        pool = gen.swarm(rng, ["int", "int", "str", "tuple", "qubit", "bit", "bit", "var", "cb", "cb", "num"])
        steps = []
        faulty = rng.random() < 0.5
        nreg = 0

        def items(k):
            return [gen_item(rng, pool) for _ in range(k)]

        for _ in range(rng.randint(3, 25)):
            k = rng.random()
            r = rng.randrange(nreg) if nreg else 0
            if nreg == 0 or (k < 0.06 and nreg < 5):
                s = {"do": "new", "kind": rng.choice(KINDS + ["Register"] * 3), "how": rng.choice(["list", "list", "tuple", "generator", "range", "register", "none", "set of one"]),
                     "items": items(rng.choice([0, 1, 2, 4])), "range": gen_range(rng), "r": r}
                nreg += 1
            elif k < 0.3:
                s = {"do": "add", "r": r, "items": items(1), "how": "one"}
            elif k < 0.45:
                s = {"do": "add", "r": r, "items": items(rng.randint(0, 4)), "how": rng.choice(["list", "tuple", "register", "sequence", "unhashable", "range"]), "r2": rng.randrange(nreg),
                     "range": gen_range(rng)}
            elif k < 0.55:
                s = {"do": "lookup", "r": r, "items": items(1), "permissive": rng.random() < 0.5}
            elif k < 0.6:
                s = {"do": "contains", "r": r, "items": items(1)}
            elif k < 0.7:
                s = {"do": "slice", "r": r, "s": [rng.choice([None, 0, 1, 2, -1, -2, 5, -9]), rng.choice([None, 0, 1, 2, 3, -1, 9, -9]), rng.choice([None, None, 1, 2, -1, -2])]}
                nreg += 1
            elif k < 0.78:
                s = {"do": "copy", "r": r, "how": rng.choice(["copy", "copy.copy", "deepcopy", "constructor", "constructor 2"])}
                nreg += 1
            elif k < 0.86:
                s = {"do": "plus", "r": r, "r2": rng.randrange(nreg)}
                nreg += 1
            elif k < 0.87:
                s = {"do": "freeze", "r": r}
            elif k < 0.91:
                s = {"do": "sets", "r": r, "r2": rng.randrange(nreg), "items": items(rng.randint(0, 3)), "other": rng.choice(["register", "register", "set", "equal"]),
                     "op": rng.choice(list(SETS))}
                nreg += 1
            elif k < 0.97:
                s = {"do": "value", "i": rng.choice([["bit", rng.randrange(8)], ["var", rng.randrange(8)]]), "v": rng.choice([None, 0, 1, 1, 2, 3])}
            else:
                s = {"do": "beyond", "r": r, "i": rng.randrange(9)}
            if faulty and rng.random() < 0.3:
                s["fault"] = {"f": "callback", "k": gen.log_uniform(rng, 12)}
            steps.append(s)
        return {"steps": steps}

    def execute(self, prog, rec):
        _Run(rec).run(prog)


def _classes():
    from collections.abc import Sequence

    from dsim.faults import FaultyCallbacks

    class Item:
        """Hashes collide, so that equality matters; both may fail."""

        def __init__(self, n):
            self.n = n

        def __hash__(self):
            FaultyCallbacks.hit()
            return self.n % 2

        def __eq__(self, o):
            FaultyCallbacks.hit()
            return isinstance(o, Item) and o.n == self.n

        def __repr__(self):
            return f"Item({self.n})"

    class Seq(Sequence):
        """A sequence whose iteration may fail."""

        def __init__(self, items):
            self.items = items

        def __len__(self):
            return len(self.items)

        def __getitem__(self, i):
            FaultyCallbacks.hit()
            return self.items[i]

    return Item, Seq


_cls = []


class _Run:
    def __init__(self, rec):
        if not _cls:
            _cls.extend(_classes())
        self.Item, self.Seq = _cls
        self.rec = rec
        self.made = {}
        self.regs = []  # [register, list of keys]

    # ---- items

    def item(self, d):
        """The object of a description."""
        from dsim.lib import L

        kind, *a = d
        if kind in ("int", "str", "tuple", "num"):
            n = a[-1]
            if kind == "int":
                return n
            if kind == "str":
                return "abcdefgh"[n] * 2
            if kind == "tuple":
                return (n, "t")
            import numpy as np

            return {"float": float, "frac": fractions.Fraction, "numpy": np.int64, "half": lambda x: x + 0.5}[a[0]](n)
        key = (kind, *a)
        if key not in self.made:
            self.made[key] = {"qubit": lambda: L.Qubit(a[0]), "bit": lambda: L.Bit(a[0]), "var": lambda: L.Variable(f"v{a[0]}"), "cb": lambda: self.Item(a[0])}[kind]()
        return self.made[key]

    def key(self, x):
        """What makes an item equal to another one for a register; does not call the item's own functions."""
        import numbers

        from dsim.lib import L

        if isinstance(x, self.Item):
            return ("cb", x.n)
        if isinstance(x, L.Qubit):
            return ("qubit", x.id)
        if isinstance(x, L.Bit):
            return ("bit", x.id)
        if isinstance(x, L.Variable):
            return ("var", x.name)
        if isinstance(x, numbers.Number):
            return ("num", float(x))
        return (type(x).__name__, x)

    def absent(self, have):
        for d in (["int", 0], ["int", 1], ["int", 3], ["int", -1], ["str", 0], ["num", "half", 1], ["num", "float", 2]):
            if self.key(self.item(d)) not in have:
                yield self.item(d)
        for (kind, n), x in sorted(self.made.items(), key=lambda e: str(e[0])):
            if self.key(x) not in have:
                yield x

    # ---- invariants

    def check(self, i, where):
        reg, model = self.regs[i]
        K = self.key

        def fail(what, got, want):
            raise Violation("register", f"{where}: register {i} ({type(reg).__name__}): {what} is {got}, expected {want} (items: {model})")

        if len(reg) != len(model):
            fail("length", len(reg), len(model))
        got = [K(x) for x in reg]
        if got != model:
            fail("iteration", got, model)
        if [K(x) for x in reg.data] != model:
            fail("data", reg.data, model)
        if [K(reg[j]) for j in range(len(model))] != model:
            fail("indexing", [reg[j] for j in range(len(model))], model)
        if [K(reg[-j - 1]) for j in range(len(model))] != model[::-1]:
            fail("negative indexing", [reg[-j - 1] for j in range(len(model))], model[::-1])
        if [K(x) for x in reversed(reg)] != model[::-1]:
            fail("reversed iteration", list(reversed(reg)), model[::-1])
        for j, x in enumerate(list(reg)):
            if reg.index(x) != j:
                fail(f"index of {x!r}", reg.index(x), j)
            if x not in reg:
                fail(f"membership of {x!r}", False, True)
            if reg.count(x) != 1:
                fail(f"count of {x!r}", reg.count(x), 1)
        for x in self.absent(model):
            if x in reg or reg.count(x) != 0:
                fail(f"membership of {x!r}", True, False)
            try:
                j = reg.index(x)
            except ValueError:
                continue
            fail(f"index of {x!r}", j, "an error")
        if type(reg).__name__ != "SelfIncrementingRegister":
            for j in (len(model), -len(model) - 1):
                try:
                    x = reg[j]
                except IndexError:
                    continue
                fail(f"item {j}", x, "an error")
        if [1, 2] in reg:
            fail("membership of an unhashable object", True, False)
        for j, (r, _) in enumerate(self.regs[:i]):
            if r is reg:
                fail("identity", f"that of register {j}", "another object")

    # ---- steps

    def run(self, prog):
        from dsim import lib

        for k, s in enumerate(prog["steps"]):
            where = f"step {k} ({s['do']})"
            self.rec.steps += 1
            n = len(self.regs)
            if s["do"] not in ("new", "value") and s.get("r", 0) >= n or s.get("r2", 0) >= max(1, n):
                continue
            kinds = [m[0] for m in self.regs[s["r"]][1]] if "r" in s and n else None
            r = getattr(self, "do_" + s["do"])(s, where)
            for i in range(len(self.regs)):
                self.check(i, where)
            self.rec.log(where, r, [len(m) for _, m in self.regs])
            self.rec.state(kinds, s["do"], s.get("how"), r)

    def attempt(self, s, fn, allow=(Exception,)):
        from dsim import faults

        return faults.attempt(s.get("fault"), fn, self.rec, allow=allow)

    def expect(self, out, error, where, what):
        """Judges a call that is to be refused with one of some errors."""
        self.rec.count("refused")
        self.rec.nontrivial = True
        if out.ok:
            raise Violation("not-refused", f"{where}: {what} was accepted")
        if not out.fired and not isinstance(out.error, error):
            raise Violation("refused-differently", f"{where}: {what}: {type(out.error).__name__}: {out.error}")
        return "refused"

    def unfailing(self, out, where):
        """A call that must not fail unless a fault was injected."""
        if not out.ok and not out.fired:
            raise Violation("refused", f"{where}: {type(out.error).__name__}: {out.error}")
        return out.ok

    def unique(self, items):
        r = []
        for x in items:
            if self.key(x) not in r:
                r.append(self.key(x))
        return r

    def adopt(self, reg, want, s):
        self.regs.append([reg, want])

    def do_new(self, s, where):
        from dsim.lib import L

        cls = getattr(L, s["kind"])
        items = [self.item(d) for d in s["items"]]
        want = self.unique(items)
        how = s["how"]
        if how == "range":
            arg, want = range(*s["range"]), [("num", float(i)) for i in range(*s["range"])]
        elif how == "register" and self.regs:
            reg, model = self.regs[s["r"] % len(self.regs)]
            arg, want = reg, list(model)
        elif how == "none":
            arg, want = None, []
        elif how == "tuple":
            arg = tuple(items)
        elif how == "set of one":
            arg = set(items[:1])
            want = want[:1]
        elif how == "generator":
            arg = (x for x in self.Seq(items))
        else:
            arg = items
        out = self.attempt(s, lambda: cls() if arg is None else cls(arg))
        if self.unfailing(out, where):
            self.adopt(out.result, want, s)
            return len(want)
        self.adopt(L.Register(), [], s)
        return "failed"

    def prefix(self, i, old, new, where):
        """After a failure: what has been added is a prefix of what was to be added."""
        reg = self.regs[i][0]
        got = [self.key(x) for x in reg]
        if len(got) < len(old) or got != (old + new)[:len(got)]:
            raise Violation("prefix", f"{where}: after a failed addition of {new} to {old} the register holds {got}")
        self.regs[i][1] = got

    def do_add(self, s, where):
        from dsim.lib import L

        i = s["r"]
        reg, model = self.regs[i]
        items = [self.item(d) for d in s["items"]]
        how = s["how"]
        bad = None
        if how == "one":
            if isinstance(items[0], tuple):
                items = list(items[0])
                arg = s_arg = tuple(items)
            else:
                arg = items[0]
        elif how == "register":
            other = self.regs[s["r2"]][0]
            arg, items = other, list(other)
        elif how == "range":
            arg = range(*s["range"])
            items = list(arg)
        elif how == "tuple":
            arg = tuple(items)
        elif how == "sequence":
            arg = self.Seq(items)
        elif how == "unhashable":
            arg = items + [[1]]
            bad = TypeError
        else:
            arg = items
        keys = [self.key(x) for x in items]
        good = []
        for x in keys:
            if x in model + good:
                bad = ValueError
                break
            good.append(x)
        out = self.attempt(s, lambda: reg.add(arg))
        if reg.frozen:
            return self.expect(out, L.RegisterError, where, "adding to a frozen register")
        if bad is None:
            if self.unfailing(out, where):
                self.regs[i][1] = model + good
                return len(good)
            self.prefix(i, model, good, where)
            return "failed"
        r = self.expect(out, bad, where, f"adding {items} to {model}")
        if out.fired:
            self.prefix(i, model, good, where)
        elif how == "one" and len(items) == 1:
            pass
        else:
            self.prefix(i, model, good, where)
        return r

    def do_lookup(self, s, where):
        from dsim.lib import L

        i = s["r"]
        reg, model = self.regs[i]
        x = self.item(s["items"][0])
        k = self.key(x)
        perm = s["permissive"]
        out = self.attempt(s, lambda: reg.index(x, permissive=True) if perm else reg.index(x))
        if k in model:
            if self.unfailing(out, where) and out.result != model.index(k):
                raise Violation("register", f"{where}: index of {x!r} is {out.result}, expected {model.index(k)}")
            return "found"
        if not perm:
            return self.expect(out, ValueError, where, f"looking up {x!r}, not in the register,")
        if reg.frozen:
            return self.expect(out, L.RegisterError, where, "adding to a frozen register by a lookup")
        if self.unfailing(out, where):
            if out.result != len(model):
                raise Violation("register", f"{where}: index of {x!r} is {out.result}, expected {len(model)}")
            self.regs[i][1] = model + [k]
            return "added"
        self.prefix(i, model, [k], where)
        return "failed"

    def do_contains(self, s, where):
        reg, model = self.regs[s["r"]]
        x = self.item(s["items"][0])
        out = self.attempt(s, lambda: (x in reg, reg.count(x)))
        want = self.key(x) in model
        if self.unfailing(out, where) and (out.result[0] is not want or out.result[1] != want):
            raise Violation("register", f"{where}: membership and count of {x!r} are {out.result}")

    def do_slice(self, s, where):
        from dsim.lib import L

        reg, model = self.regs[s["r"]]
        if isinstance(reg, L.SelfIncrementingRegister):
            self.adopt(L.Register(), [], s)
            return None
        sl = slice(*s["s"])
        out = self.attempt(s, lambda: reg[sl])
        if self.unfailing(out, where):
            self.same_class(out.result, reg, where)
            self.adopt(out.result, model[sl], s)
        else:
            self.adopt(L.Register(), [], s)

    def same_class(self, new, reg, where):
        if type(new) is not type(reg):
            raise Violation("class", f"{where}: got a {type(new).__name__} from a {type(reg).__name__}")

    def do_copy(self, s, where):
        import copy

        from dsim.lib import L

        reg, model = self.regs[s["r"]]
        how = s["how"]
        f = {"copy": reg.copy, "copy.copy": lambda: copy.copy(reg), "deepcopy": lambda: copy.deepcopy(reg), "constructor": lambda: type(reg)(reg),
             "constructor 2": lambda: L.Register(reg)}[how]
        out = self.attempt(s, f)
        if self.unfailing(out, where):
            if how != "constructor 2":
                self.same_class(out.result, reg, where)
            self.adopt(out.result, list(model), s)
        else:
            self.adopt(L.Register(), [], s)

    def do_plus(self, s, where):
        from dsim.lib import L

        (a, ma), (b, mb) = self.regs[s["r"]], self.regs[s["r2"]]
        out = self.attempt(s, lambda: a + b)
        r = None
        if set(ma) & set(mb):
            r = self.expect(out, ValueError, where, "concatenating overlapping registers")
        elif self.unfailing(out, where):
            self.same_class(out.result, a, where)
            self.adopt(out.result, ma + mb, s)
            return len(ma + mb)
        self.adopt(L.Register(), [], s)
        return r

    def do_sets(self, s, where):
        from dsim.lib import L

        reg, model = self.regs[s["r"]]
        if s["other"] == "register":
            other, keys = self.regs[s["r2"]]
        elif s["other"] == "equal":
            other, keys = L.Register(list(reg)[::-1]), model
        else:
            other = {self.item(d) for d in s["items"]}
            keys = [self.key(x) for x in other]
        fn = SETS[s["op"]]
        want = fn(set(model), set(keys))
        out = self.attempt(s, lambda: fn(reg, other))
        if not self.unfailing(out, where) or isinstance(want, bool):
            if out.ok and out.result is not want:
                raise Violation("register", f"{where}: {model} {s['op']} {keys} is {out.result}")
            self.adopt(L.Register(), [], s)
            return None
        got = [self.key(x) for x in out.result]
        self.same_class(out.result, reg, where)
        if set(got) != want or len(got) != len(want):
            raise Violation("register", f"{where}: {model} {s['op']} {keys} is {got}")
        self.adopt(out.result, got, s)
        return len(got)

    def do_freeze(self, s, where):
        reg = self.regs[s["r"]][0]
        reg.freeze()
        if not reg.frozen:
            raise Violation("register", f"{where}: not frozen")

    def do_value(self, s, where):
        x = self.item(s["i"])
        if s["v"] is None:
            x.reset()
        elif s["i"][0] == "bit":
            x.set(s["v"], force=True)
        else:
            x.set(s["v"])

    def do_beyond(self, s, where):
        from dsim.lib import L

        i = s["r"]
        reg, model = self.regs[i]
        j = s["i"]
        if not isinstance(reg, L.SelfIncrementingRegister) or j < len(model):
            return None
        new = [("var", str(x)) for x in range(len(model), j + 1)]
        if set(new) & set(model):
            return None
        out = self.attempt(s, lambda: reg[j])
        if reg.frozen:
            return self.expect(out, (IndexError, L.RegisterError), where, "indexing beyond the end of a frozen register")
        if self.unfailing(out, where):
            if self.key(out.result) != new[-1]:
                raise Violation("register", f"{where}: item {j} is {out.result!r}")
            self.regs[i][1] = model + new
            return "grown"
        self.prefix(i, model, new, where)


PROP = C05()
