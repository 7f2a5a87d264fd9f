import copy
import pickle

from dsim import gen
from dsim.core import Violation
from dsim.props import Property

LABELS = [0, 1, 2, "a", "b", "q0", "", ["tuple", 1], None, 1.5]
# values that a bit may be set to, by description
TRUTHY = {"0": 0, "1": 1, "2": 2, "-1": -1, "false": False, "true": True, "zero": 0.0, "half": 0.5, "empty": "", "text": "0", "list": [], "numpy 0": 0, "numpy 1": 1, "none": None}
COPIES = ["copy", "deep", "pickle"]
NUMBERS = [0, 1, 0.5, -2, 0.0, 1e300, ["complex", 1, -2], ["text", "x"]]


class C22(Property):
    ID = "C22"
    RUNS = {"quick": 50000, "thorough": 600000}
    BUDGET = {"quick": 50, "thorough": 700}
    CHUNK = 50
    RULE = ("a run is a history of 3-25 calls on up to eight qubits, bits and variables and copies of them (values set, forced, refused and reset, labels changed, measurements "
            "stored), with values whose conversion fails, comparisons that fail and interruptions; non-trivial if a fault was injected or a call refused; distinct by program digest")
    REAL = "qubits, bits, variables, circuits and simulator (measurements stored in bits)"
    STUBS = "values whose truth or equality fails as told by the program"
    STATES = "(kind and value of each object, call, outcome)"
    ASSUMPTIONS = ["bits and variables are not compared with each other", "one thread at a time", "the labels of variables do not change"]
    LISTS = ("steps",)

    def generate(self, rng, idx, tier):
        steps, n = [], 0
        faulty = rng.random() < 0.6
        for _ in range(rng.randint(3, 25)):
            k = rng.random()
            if n == 0 or (k < 0.2 and n < 8):
                s = {"do": "new", "kind": rng.choice("QBBBVV"), "label": rng.choice(LABELS)}
                n += 1
                if rng.random() < 0.2 and n < 7:
                    # copies of an object that was not looked at yet
                    s["early"] = [rng.choice(COPIES) for _ in range(rng.randint(1, 2))]
                    n += len(s["early"])
            elif k < 0.5:
                s = {"do": "set", "i": rng.randrange(n), "b": rng.choice(sorted(TRUTHY) + ["fails"] * 2), "v": rng.choice(NUMBERS), "force": rng.choice([None, None, False, True])}
            elif k < 0.6:
                s = {"do": "reset", "i": rng.randrange(n)}
            elif k < 0.68:
                s = {"do": "label", "i": rng.randrange(n), "label": rng.choice(LABELS)}
            elif k < 0.78 and n < 8:
                s = {"do": "copy", "i": rng.randrange(n), "how": rng.choice(COPIES)}
                n += 1
            elif k < 0.88:
                s = {"do": "measure", "i": rng.randrange(n), "one": rng.random() < 0.5, "cond": rng.random() < 0.4}
            else:
                s = {"do": "compare", "i": rng.randrange(n), "with": rng.choice(["0", "1", "2", "half", "true", "none", "text", "object", "fails"])}
            if faulty and s["do"] in ("set", "reset", "label", "compare") and rng.random() < 0.4:
                s["fault"] = {"f": "interrupt", "k": gen.log_uniform(rng, 25)}
            steps.append(s)
        return {"steps": steps}

    def execute(self, prog, rec):
        _Run(rec).run(prog)


def make_copy(x, how):
    if how == "pickle":
        return pickle.loads(pickle.dumps(x))
    return copy.deepcopy(x) if how == "deep" else copy.copy(x)


def label_of(d):
    return tuple(d) if isinstance(d, list) else d


class Fails:
    """Neither true nor false, equal to nothing: asking fails."""

    __hash__ = object.__hash__

    def __bool__(self):
        from dsim.faults import Boom

        raise Boom("injected failure of a truth value")

    def __eq__(self, o):
        from dsim.faults import Boom

        raise Boom("injected failure of a comparison")


def value_of(name):
    if name == "fails":
        return Fails()
    if name == "object":
        return object()
    v = TRUTHY[name]
    if name.startswith("numpy"):
        import numpy as np

        return np.int64(v)
    return list(v) if isinstance(v, list) else v


def number(v):
    if isinstance(v, list):
        return complex(*v[1:]) if v[0] == "complex" else v[1]
    return v


class _Run:
    def __init__(self, rec):
        self.rec = rec
        self.objs = []  # [object, kind, label or name, value, id, hash]
        self.known = {}  # the objects as keys: number of the first one of that identity
        self.members = set()

    def run(self, prog):
        for k, s in enumerate(prog["steps"]):
            where = f"step {k} ({s['do']})"
            if s["do"] != "new" and s["i"] >= len(self.objs):
                continue
            self.rec.steps += 1
            r = getattr(self, "do_" + s["do"])(s, where)
            self.check(where)
            self.rec.state([(o[1], repr(o[3])) for o in self.objs], s["do"], s.get("b"), r)
            self.rec.log(where, r, [(o[1], repr(o[2]), repr(o[3])) for o in self.objs])

    def fail(self, where, i, what, got, want):
        raise Violation("identity" if what != "value" else "value", f"{where}: object {i} ({self.objs[i][1]}): {what} is {got!r}, expected {want!r}")

    def check(self, where):
        for i, (x, kind, label, value, ident, h) in enumerate(self.objs):
            if kind == "V":
                if x.name != label:
                    self.fail(where, i, "name", x.name, label)
            else:
                if type(x.label) is not type(label) or x.label != label:
                    self.fail(where, i, "label", x.label, label)
                if x.id != ident:
                    self.fail(where, i, "id", x.id, ident)
            if kind != "Q" and (type(x.value) is not type(value) or x.value != value):
                self.fail(where, i, "value", x.value, value)
            if hash(x) != h:
                self.fail(where, i, "hash", hash(x), h)
            if kind == "B" and bool(x) is not (value is None or bool(value)):
                self.fail(where, i, "truth", bool(x), value)
            repr(x)
            if x not in self.members or self.known.get(x) != self.first(i):
                self.fail(where, i, "entry in a dictionary", self.known.get(x), self.first(i))
            for j, o in enumerate(self.objs):
                if o[1] == kind or "Q" in (kind, o[1]):
                    want = o[1] == kind and o[4] == ident
                    if (x == o[0]) is not want or (x != o[0]) is want:
                        self.fail(where, i, f"equality with {j}", not want, want)

    def first(self, i):
        return next(j for j, o in enumerate(self.objs) if (o[1], o[4]) == (self.objs[i][1], self.objs[i][4]))

    def attempt(self, s, fn, allow=()):
        from dsim import faults

        out = faults.attempt(s.get("fault"), fn, self.rec, allow=allow)
        if out.fired or not out.ok:
            self.rec.nontrivial = True
        return out

    # ---- steps

    def adopt(self, x, kind, label, value, ident):
        self.objs.append([x, kind, label, value, ident, hash(x)])
        i = len(self.objs) - 1
        if self.first(i) == i:
            self.known[x] = i
        self.members.add(x)

    def do_new(self, s, where):
        from dsim.lib import L

        label = label_of(s["label"])
        if s["kind"] == "V":
            x = L.Variable(label)
            copies = [make_copy(x, how) for how in s.get("early", ())]
            for y in [x] + copies:
                self.adopt(y, "V", str(label), None, str(label))
        else:
            x = {"Q": L.Qubit, "B": L.Bit}[s["kind"]](label)
            copies = [make_copy(x, how) for how in s.get("early", ())]
            if not isinstance(x.id, str) or any(x.id == o[4] for o in self.objs if o[1] != "V"):
                raise Violation("identity", f"{where}: id {x.id!r}")
            for y in [x] + copies:
                self.adopt(y, s["kind"], label, None, x.id)

    def settle(self, out, i, new, where):
        """After a call that was to change the value: it did, or, if interrupted, perhaps did not."""
        o = self.objs[i]
        if out.ok or (out.fired and o[0].value is not None and type(o[0].value) is type(new) and o[0].value == new) or (out.fired and new is None and o[0].value is None):
            o[3] = new

    def do_set(self, s, where):
        from dsim.faults import Boom

        i = s["i"]
        o = self.objs[i]
        if o[1] == "Q":
            return None
        if o[1] == "V":
            v = number(s["v"])
            self.settle(self.attempt(s, lambda: o[0].set(v)), i, v, where)
            return "set"
        v = value_of(s["b"])
        force = s["force"]
        out = self.attempt(s, lambda: o[0].set(v) if force is None else o[0].set(v, force=force), allow=(ValueError, Boom))
        refused = o[3] is not None and not force
        if s["b"] == "fails" or refused:
            if out.ok:
                raise Violation("not-refused", f"{where}: setting a bit of value {o[3]} to {s['b']} was accepted")
            self.rec.count("refused")
            if not out.fired and not isinstance(out.error, (Boom,) * (s["b"] == "fails") + (ValueError,) * refused):
                raise Violation("refused-differently", f"{where}: {out.error!r}")
            return "refused"
        if not out.ok and not out.fired:
            raise Violation("refused", f"{where}: setting a bit of value {o[3]} to {s['b']}: {out.error!r}")
        self.settle(out, i, int(bool(v)), where)
        return "set"

    def do_reset(self, s, where):
        o = self.objs[s["i"]]
        if o[1] != "Q":
            self.settle(self.attempt(s, o[0].reset), s["i"], None, where)

    def do_label(self, s, where):
        o = self.objs[s["i"]]
        if o[1] == "V":
            return None
        label = label_of(s["label"])
        out = self.attempt(s, lambda: setattr(o[0], "label", label))
        if out.ok or (out.fired and type(o[0].label) is type(label) and o[0].label == label):
            o[2] = label

    def do_copy(self, s, where):
        x, kind, label, value, ident, _ = self.objs[s["i"]]
        new = make_copy(x, s["how"])
        if new is x or type(new) is not type(x):
            raise Violation("identity", f"{where}: the copy is {new!r}")
        self.adopt(new, kind, label, value, ident)

    def do_measure(self, s, where):
        """A measurement is stored in a bit, whatever value it had."""
        from dsim import lib
        from dsim.lib import L

        o = self.objs[s["i"]]
        if o[1] != "B":
            return None
        c = L.Circuit(1)
        c.add_cregister(0, "r")
        c.add_bit(o[0])
        with c.context as reg:
            if s["cond"]:
                L.ops.X(reg.q[0]).conditional(reg.c[0])
            if s["one"]:
                L.ops.X(reg.q[0])
            L.ops.Measurement(reg.q[0]) | reg.c[0]
        lib.quiet(L.simulate, c, rng_seed=3)
        # a condition that holds no value counts as given
        flip = s["cond"] and (o[3] is None or o[3] == 1)
        o[3] = int(s["one"]) ^ int(flip)
        if c.bits[0] is not o[0]:
            raise Violation("identity", f"{where}: the bit of the circuit is {c.bits[0]!r}")
        if not s["one"] and s["cond"]:
            self.rec.count("conditions on bits set by hand")
        return "measured"

    def do_compare(self, s, where):
        from dsim.faults import Boom

        o = self.objs[s["i"]]
        v = value_of(s["with"])
        want = o[1] != "Q" and o[3] is not None and s["with"] != "fails" and bool(o[3] == v)
        out = self.attempt(s, lambda: (o[0] == v, o[0] != v), allow=(Boom,))
        if out.ok and s["with"] != "fails" and out.result != (want, not want):
            raise Violation("equality", f"{where}: {o[1]} of value {o[3]!r} compared with {v!r}: {out.result}")
        if not out.ok and not out.fired and s["with"] != "fails":
            raise Violation("equality", f"{where}: comparing with {v!r}: {out.error!r}")


PROP = C22()
