import copy

from dsim import gen, oracle
from dsim.core import Violation
from dsim.oracle import GATES, ONE, PARAMETRIC, PLAIN_CONTROLLED
from dsim.props import Property

PACKABLE = set(ONE) | set(PLAIN_CONTROLLED)


def gen_params(rng, k, nv):
    """Values and, if a parametric circuit is being built, variables."""
    r = [{"v": rng.randrange(nv)} if nv and rng.random() < 0.6 else gen.param(rng) for _ in range(k)]
    if not nv and rng.random() < 0.1:
        r = [{"set": x} for x in r]  # another variable, that holds this value
    return r


def plain(params):
    return [x["set"] if isinstance(x, dict) and "set" in x else x for x in params]


class C11(Property):
    ID = "C11"
    RUNS = {"quick": 24000, "thorough": 500000}
    BUDGET = {"quick": 60, "thorough": 700}
    CHUNK = 25
    RULE = ("a run defines 2-5 circuits (plain and parametric, 1-4 qubits and 0-3 bits in 1-3 registers), each built of gates with numbers and variables, conditions, "
            "measurements, operations packed from circuits and applications of other circuits (to any depth, frozen, failing with wrong counts, or interrupted), in "
            "contexts that are left normally or by an exception; in between, circuits are evaluated, packed into operations, edited and simulated and bits hold values; "
            "non-trivial if a circuit was applied within another one, evaluated or packed; distinct by program digest")
    REAL = "circuits, contexts, operations, registers, packed operations, unitary builder, simulator"
    STUBS = "none (exceptions, interruptions and warnings raised as errors are injected)"
    STATES = "(operations of the circuit applied, kinds of its arguments, operations present before, outcome)"
    ASSUMPTIONS = ["applied to qubits of the circuit being built, all different", "if a circuit with conditions is applied without bits, the conditions are not looked at",
                   "an application that is interrupted, or left by a warning raised as error, may leave the operations it had recorded, in order",
                   "variables of an applied circuit may keep their values until the context ends", "matrices of packed operations: single-qubit and singly controlled plain gates only"]
    LISTS = ("steps", "body", "circuits")

    def generate(self, rng, idx, tier):
        m = rng.choice([2, 2, 3, 4, 5])
        circuits = []
        for i in range(m):
            circuits.append({"ql": gen.labels(rng), "par": rng.random() < 0.45, "n": gen.registers(rng, gen.size(rng, [1, 1, 2, 2, 3, 4], [5, 7, 11], 0.01)), "b": gen.registers(rng, rng.choice([0, 0, 1, 1, 2, 3])),
                             "nv": rng.choice([0, 1, 1, 2, 3]) if rng.random() < 0.98 else 12})
            if not circuits[-1]["par"]:
                circuits[-1]["nv"] = 0
            if i and rng.random() < 0.2:
                # has some of the qubits and bits of another one
                j = rng.randrange(i)
                share = {"j": j}
                for t in "qb"[:rng.choice([1, 2])]:
                    mine, others = sum(circuits[-1][{"q": "n"}.get(t, t)]), list(range(sum(circuits[j][{"q": "n"}.get(t, t)])))
                    rng.shuffle(others)
                    share[t] = [others.pop() if others and rng.random() < 0.8 else None for _ in range(mine)]
                circuits[-1]["share"] = share
        names = gen.swarm(rng, list(GATES) + PARAMETRIC)
        if rng.random() < 0.3:
            names = gen.swarm(rng, sorted(PACKABLE))
        if rng.random() < 0.04:
            # the order of many variables is not that of their names
            circuits[0].update(par=True, nv=12)
            names = gen.swarm(rng, sorted(PACKABLE & set(PARAMETRIC)))
        p_meas, p_cond = rng.choice([0, 0.15]), rng.choice([0, 0.15, 0.4])
        faulty = rng.random() < 0.5
        npacked = 0
        steps = []

        def body(i, length, depth=0):
            c = circuits[i]
            n, nb = sum(c["n"]), sum(c["b"])
            r = []
            for _ in range(length):
                k = rng.random()
                if k < 0.4 or (i == 0 and k < 0.8):
                    op = gen.circuit_ops(rng, n, nb, 1, names, p_meas, p_cond, 0.2)[0]
                    if op.get("p"):
                        op["p"] = gen_params(rng, len(op["p"]), c["nv"])
                    r.append({"do": "op", "op": op})
                elif k < 0.8:
                    j = rng.randrange(m) if rng.random() < 0.15 else rng.randrange(i) if i else 0
                    t = circuits[j]
                    tn, tb = sum(t["n"]), sum(t["b"])
                    s = {"do": "apply", "j": j, "q": rng.sample(range(n), min(n, tn)), "b": rng.sample(range(nb), min(nb, tb)) if tb and rng.random() < 0.85 else None,
                         "p": gen_params(rng, t["nv"], c["nv"]), "s": rng.randrange(12)}
                    if rng.random() < 0.25:
                        s["values"] = [rng.choice([None, 0, 0, 1]) for _ in range(sum(c["b"]))]
                    if rng.random() < 0.12:
                        s["wrong"] = rng.choice(["q-", "q+", "b-", "b+", "p-", "p+"])
                    elif faulty and rng.random() < 0.15:
                        s["fault"] = rng.choice([{"f": "interrupt", "k": gen.log_uniform(rng, 400)}, {"f": "warnings"}])
                    r.append(s)
                elif k < 0.86 and npacked:
                    r.append({"do": "packed", "k": rng.randrange(npacked), "q": rng.sample(range(n), n), "p": gen_params(rng, 12, c["nv"]), "s": rng.randrange(6)})
                elif k < 0.92 and depth < 2:
                    r.append({"do": "freeze", "body": body(i, rng.randint(1, 2), depth + 1)})
                elif k < 0.95 and faulty:
                    r.append({"do": "raise"})
                elif c["nv"]:
                    r.append({"do": "grow", "v": rng.randrange(c["nv"])})
            return r

        for i in range(m):
            steps.append({"do": "build", "i": i, "body": body(i, rng.randint(1, 6)), "after": rng.random() < 0.2})
            for _ in range(rng.choice([0, 0, 1, 2])):
                i2 = rng.randrange(i + 1)
                k = rng.random()
                if k < 0.25:
                    steps.append({"do": "eval", "i": i2, "how": rng.choice(["explicit", "explicit", "values", "values", "mixed", "none", "short"]), "p": [[gen.param(rng) for _ in range(12)] for _ in range(8)],
                                  "inplace": rng.random() < 0.2})
                elif k < 0.32:
                    steps.append({"do": "opeval", "i": i2, "k": rng.randrange(10), "inplace": rng.random() < 0.5, "p": rng.choice([None, [gen.param(rng) for _ in range(rng.choice([3, 3, 2, 1]))]]),
                                  "set": [gen.param(rng) if rng.random() < 0.6 else None for _ in range(3)]})
                elif k < 0.45:
                    steps.append({"do": "pack", "i": i2, "name": rng.random() < 0.9})
                    npacked += 1
                elif k < 0.66 and npacked:
                    steps.append({"do": "matrix", "k": rng.randrange(npacked), "p": [[gen.param(rng) for _ in range(12)] for _ in range(rng.choice([1, 2]))]})
                elif k < 0.7:
                    steps.append({"do": "mutate", "i": i2, "k": rng.randrange(10), "v": gen.param(rng)})
                elif k < 0.78:
                    steps.append({"do": "build", "i": i2, "body": body(i2, rng.randint(1, 3))})
                elif k < 0.84:
                    steps.append({"do": "reset", "i": i2})
                elif k < 0.92:
                    steps.append({"do": "outside", "i": i2})
                else:
                    steps.append({"do": "bits", "i": i2, "v": [rng.choice([None, 0, 1]) for _ in range(3)]})
            if rng.random() < 0.3:
                steps.append({"do": "simulate", "i": i})
        return {"circuits": circuits, "steps": steps}

    def execute(self, prog, rec):
        _Run(rec, prog).run(prog)


class _Raised(Exception):
    pass


def canon(op):
    """An operation's description as data, to be compared with what is recorded."""
    return [op["g"], op["p"], op["q"], op["b"], op["c"]]


class _Run:
    def __init__(self, rec, prog):
        from dsim import lib

        self.rec = rec
        self.spec = prog["circuits"]
        self.c = []
        for s in self.spec:
            self.c.append(self.sharing(s) if "share" in s else lib.new_circuit(s))
        self.model = [[] for _ in self.c]  # operations: {"g", "p", "q", "b", "c"}; c: positions, or None if not to be looked at
        self.p = [None] * len(self.c)  # parameter registers
        self.nv = [0] * len(self.c)
        self.packed = []  # [class, circuit, its number of qubits and parameters]
        self.active = None

    def sharing(self, spec):
        """A circuit that has qubits and bits of another one."""
        from dsim.lib import L

        c = L.ParametricCircuit() if spec["par"] else L.Circuit()
        share = spec["share"]
        other = self.c[share["j"]] if share["j"] < len(self.c) else c
        q, b = list(share.get("q", [])), list(share.get("b", []))
        for k, size in enumerate(spec["n"]):
            c.add_qregister(0, f"q{k}")
            for _ in range(size):
                x = q.pop(0) if q else None
                c.add_qubit(None if x is None or x >= other.num_qubits else other.qubits[x], f"q{k}")
        for k, size in enumerate(spec["b"]):
            c.add_cregister(0, f"c{k}")
            for _ in range(size):
                x = b.pop(0) if b else None
                c.add_bit(None if x is None or x >= other.num_bits else other.bits[x], f"c{k}")
        self.rec.count("circuits that share qubits or bits")
        return c

    # ---- invariants

    def check(self, where):
        from dsim import lib
        from dsim.lib import L

        for i, c in enumerate(self.c):
            self.check_ops(c, self.model[i], where, f"circuit {i}", self.p[i])
            if c.num_parameters != self.nv[i]:
                raise Violation("parameters", f"{where}: circuit {i} has {c.num_parameters} parameters instead of {self.nv[i]}")
            if self.active is None and self.p[i] is not None:
                vals = [v.value for v in self.p[i]]
                if any(v is not None for v in vals):
                    raise Violation("values-kept", f"{where}: variables of circuit {i} have the values {vals}")
        if self.active is None:
            lib.no_context_open(where)
        elif L.CircuitContext.active_context is None or L.CircuitContext.active_context.circuit is not self.c[self.active]:
            raise Violation("active-context", f"{where}: {L.CircuitContext.active_context} is active")

    def check_ops(self, c, model, where, what, variables=None):
        from dsim import lib
        from dsim.lib import L

        got = lib.describe(c)
        want = [canon(o) for o in model]
        ok = len(got) == len(want)
        for g, o in zip(got, model):
            w = [o["g"], [("var", str(x["v"])) if isinstance(x, dict) else x for x in o["p"]], o["q"], o["b"], o["c"]]
            if o["c"] is None:
                g, w = g[:4], w[:4]
                ok = ok and lib.same_ops([g + [[]]], [w + [[]]])
            else:
                ok = ok and lib.same_ops([g], [w[:4] + [sorted(set(o["c"]))]])
        if not ok:
            raise Violation("substitution", f"{where}: {what} holds {got}, expected {want}")
        if variables is not None:
            for obj, o in zip(c.circuit, model):
                for x, w in zip(getattr(obj, "parameters", None) or [], o["p"]):
                    if isinstance(w, dict) and x is not variables[w["v"]]:
                        raise Violation("substitution", f"{where}: {what}: parameter {x!r} of {obj} is not variable {w['v']} of the circuit")

    # ---- substitution

    def expand(self, j, qpos, bpos, params):
        r = []
        for o in self.model[j]:
            conds = o["c"]
            if conds and conds is not None:
                conds = [bpos[x] for x in conds] if bpos is not None else None
            r.append({**o, "p": [copy.deepcopy(params[x["v"]]) if isinstance(x, dict) else x for x in o["p"]], "q": [qpos[x] for x in o["q"]],
                      "b": [bpos[x] for x in o["b"]] if bpos is not None and o["b"] is not None else None, "c": conds})
        return r

    # ---- steps

    def run(self, prog):
        from dsim.lib import quiet

        for k, s in enumerate(prog["steps"]):
            if s.get("i", 0) >= len(self.c):
                continue
            where = f"step {k} ({s['do']})"
            self.rec.steps += 1
            r = quiet(getattr(self, "do_" + s["do"]), s, where)
            quiet(self.check, where)
            self.rec.log(where, r, [len(x) for x in self.model])

    def do_build(self, s, where):
        from dsim import faults

        i = s["i"]
        c = self.c[i]
        c.unlock()
        try:
            with c.context as reg:
                self.active = i
                self.reg = reg
                if self.spec[i]["par"]:
                    self.p[i] = reg.p
                self.body(i, s["body"], where, False)
        except _Raised:
            self.rec.fault("exception through a context")
        finally:
            self.active = None
        if not c.is_locked():
            raise Violation("locked", f"{where}: circuit {i} is not locked")
        if self.p[i] is not None and s.get("after") and faults.attempt(None, lambda: self.p[i][self.nv[i]], self.rec, allow=(Exception,)).ok:
            raise Violation("parameters", f"{where}: the finished circuit {i} got another parameter")

    def body(self, i, body, where, frozen):
        from dsim.lib import L

        for k, s in enumerate(body):
            w = f"{where}.{k} ({s['do']})"
            self.rec.steps += 1
            if s["do"] == "raise":
                raise _Raised
            if s["do"] == "freeze":
                with L.CircuitContext.freeze:
                    self.body(i, s["body"], w, True)
                continue
            r = getattr(self, "in_" + s["do"])(i, s, w, frozen)
            self.check(w)
            self.rec.log(w, r)

    def variables(self, i, params):
        """Parameters to be passed, or None if there are no such variables."""
        if any(isinstance(x, dict) and "set" in x for x in params):
            if self.spec[i]["par"]:
                return plain(params)
            r = []
            for x in params:
                if isinstance(x, dict):
                    from dsim.lib import L
                    r.append(L.Variable("held"))
                    r[-1].set(x["set"])
                    self.rec.count("variables that hold values")
                else:
                    r.append(x)
            return r
        if any(isinstance(x, dict) for x in params):
            if self.p[i] is None:
                return None
            try:
                r = [self.p[i][x["v"]] if isinstance(x, dict) else x for x in params]
            except IndexError:
                return None  # (frozen at its size)
            finally:
                self.nv[i] = len(self.p[i])
            return r
        return list(params)

    def in_grow(self, i, s, where, frozen):
        self.variables(i, [{"v": s["v"]}])

    def in_op(self, i, s, where, frozen):
        from dsim import lib

        op = s["op"]
        c = self.c[i]
        if max(op["q"]) >= c.num_qubits or max((op.get("b") or []) + (op.get("c") or []), default=-1) >= c.num_bits:
            return None
        live = self.variables(i, op.get("p") or [])
        if live is None:
            return None
        lib.apply_op(dict(op, p=live), self.reg.q, self.reg.c, self.p[i])
        if not frozen:
            self.model[i].append({"g": op["g"], "p": plain(op.get("p") or []), "q": list(op["q"]),
                                  "b": (None if op.get("b") is None else list(op["b"])) if op["g"] == "Measurement" else None, "c": sorted(set(op.get("c") or ()))})

    def in_packed(self, i, s, where, frozen):
        if not self.packed:
            return None
        cls, j, n, nv, name = self.packed[s["k"] % len(self.packed)]
        q = [x for x in s["q"] if x < self.c[i].num_qubits][:n]
        if len(q) < n or self.depends(j, i):
            return None
        params = self.variables(i, s["p"][:nv])
        if params is None or len(params) < nv:
            return None
        qs = [self.reg.q[x] for x in q]
        if n == 1 and s["s"] % 2:
            qs = qs[0]
        if nv:
            params = params[0] if nv == 1 and s["s"] % 3 == 0 else params
            obj = cls(params, qs) if s["s"] < 3 else cls(params, qubits=qs)
        else:
            obj = cls(qs) if s["s"] < 3 else cls(qubits=qs)
        if type(obj).__name__ != name:
            raise Violation("packed", f"{where}: operation is called {type(obj).__name__} instead of {name}")
        if not frozen:
            self.model[i].append({"g": name, "p": plain(s["p"][:nv]), "q": q, "b": None, "c": [], "k": s["k"] % len(self.packed)})
        self.rec.nontrivial = True
        return "packed"

    def depends(self, j, i):
        """Whether circuit j holds operations packed from circuit i."""
        if i == j:
            return True
        return any("k" in o and self.depends(self.packed[o["k"]][1], i) for o in self.model[j])

    def in_apply(self, i, s, where, frozen):
        from dsim import faults, lib
        from dsim.lib import L

        j = s["j"]
        if j >= len(self.c):
            return None
        c, t = self.c[i], self.c[j]
        n, nb = t.num_qubits, t.num_bits
        q = [x for x in s["q"] if x < c.num_qubits][:n]
        if len(q) < n or i != j and self.depends(j, i):
            return None  # (or circuit i would hold an operation that is packed from itself)
        b = None
        if s["b"] is not None and nb:
            b = [x for x in s["b"] if x < c.num_bits]
            b = b[:nb] if len(b) >= nb else None
        p = s["p"][:self.nv[j]]
        if len(p) < self.nv[j]:
            return None
        params = self.variables(i, p)
        if params is None:
            return None
        p = plain(p)
        for bit, v in zip(self.reg.c, s.get("values", [])):
            bit.reset()
            if v is not None:
                bit.set(v)
        qs, bs = [self.reg.q[x] for x in q], None if b is None else [self.reg.c[x] for x in b]
        style = s["s"]
        wrong = s.get("wrong")
        if wrong == "q-":
            qs = qs[:-1]
        elif wrong == "q+":
            qs = qs + [qs[0]]
        elif wrong in ("b-", "b+"):
            if not bs or (wrong == "b-" and len(bs) == 1):
                return None
            bs = bs[:-1] if wrong == "b-" else bs + [bs[0]]
        elif wrong:
            if not self.spec[j]["par"] or (wrong == "p-" and not params):
                return None
            params = params[:-1] if wrong == "p-" else params + [0.5]
        # arguments of all forms
        if style % 3 == 0 and len(qs) == 1:
            qs = qs[0]
        elif style % 3 == 1:
            qs = tuple(qs)
        elif style % 3 == 2 and b is not None and not wrong:
            bs = bs[0] if len(bs) == 1 else tuple(bs)
        if b == list(range(c.num_bits)) and style % 4 == 0 and not wrong:
            bs = self.reg.c
        if q == list(range(c.num_qubits)) and style % 4 == 1 and not wrong:
            qs = self.reg.q
        if style % 4 == 2:
            params = tuple(params)

        def call():
            args = [params] if self.spec[j]["par"] else []
            if bs is None and style % 2:
                return t(*args, qs)
            if style == 5:
                return t(*args, qubits=qs, bits=bs)
            return t(*args, qs, bs)

        before = len(self.c[i].circuit)
        if i == j or wrong:
            out = faults.attempt(None, call, self.rec, allow=(Exception,))
            self.rec.count("refused")
            if out.ok:
                raise Violation("not-refused", f"{where}: applying circuit {j} {'in its own context' if i == j else 'with wrong ' + wrong} was accepted")
            return "refused"
        self.rec.nontrivial = True
        new = self.expand(j, q, b, p)
        out = faults.attempt(s.get("fault"), call, self.rec)
        self.rec.state([(o["g"], o["q"]) for o in self.model[j]], [type(x) is dict for x in p], b is None, min(before, 5), frozen, out.ok)
        if frozen:
            return "frozen"
        if out.ok:
            self.model[i] += new
            self.rec.count("circuits applied")
            return "applied"
        # what was recorded of it is a prefix, of which the last operation may be incomplete
        objs = list(c.circuit)[before:]
        got = [lib.describe_op(o, list(c.qubits), list(c.bits)) for o in objs]
        if len(got) > len(new):
            raise Violation("substitution", f"{where}: failed with {out.error!r} having recorded {got}, expected a part of {new}")
        new = new[:len(got)]
        if new:
            new[-1]["c"] = None if new[-1]["c"] is None else got[-1][4] if got[-1][4] in ([], sorted(set(new[-1]["c"]))) else new[-1]["c"]
            new[-1]["b"] = got[-1][3] if got[-1][3] is None else new[-1]["b"]
        self.model[i] += new
        return "failed"

    def do_eval(self, s, where):
        from dsim import faults, lib

        i = s["i"]
        c = self.c[i]
        if not self.spec[i]["par"]:
            return None
        model = self.model[i]
        how = s["how"]
        values, params = None, None
        if how in ("values", "mixed") and self.p[i] is not None:
            values = [s["p"][-1][k] for k in range(self.nv[i])] if self.nv[i] <= 3 else None
        has_var = [any(isinstance(x, dict) for x in o["p"]) for o in model]
        if how in ("explicit", "mixed", "short"):
            if len(model) > len(s["p"]):
                return None
            params = []
            for k, o in enumerate(model):
                x = s["p"][k][:len(o["p"])]
                params.append(x if o["p"] and not (how == "mixed" and k % 2) else None)
        if how == "short":
            if not any(has_var):
                return None
            params = params[:has_var.index(True)]
        want, fails = [], False
        for k, o in enumerate(model):
            o = copy.deepcopy(o)
            ps = None
            if params:
                if k >= len(params):
                    fails = True
                    break
                ps = params[k]
            for m, x in enumerate(o["p"]):
                if isinstance(x, dict):
                    if ps:
                        o["p"][m] = ps[m]
                    elif values is not None:
                        o["p"][m] = values[x["v"]]
                    else:
                        fails = True
            want.append(o)
        inplace = s["inplace"]
        before = lib.fingerprint(c)
        if values is not None:
            for x, v in zip(list(self.p[i]), values):
                x.set(v)
        try:
            out = faults.attempt(None, lambda: c.eval(params, inplace=True) if inplace else c.eval(params) if params is not None else c.eval(), self.rec, allow=(Exception,))
        finally:
            if values is not None:
                for x in list(self.p[i]):
                    x.reset()
        self.rec.nontrivial = True
        self.rec.count("circuits evaluated")
        if fails:
            if out.ok:
                raise Violation("not-refused", f"{where}: evaluating circuit {i} without values of all variables was accepted")
            self.same(before, lib.fingerprint(c), where)
            return "refused"
        if not out.ok:
            raise out.error
        if inplace:
            if out.result is not c:
                raise Violation("eval", f"{where}: evaluating circuit {i} in place gave another circuit")
            self.model[i] = want
            return "in place"
        if out.result is c:
            raise Violation("eval", f"{where}: evaluating circuit {i} gave the circuit itself")
        new = out.result
        self.check_ops(new, want, where, f"the evaluated circuit {i}")
        self.same(before, lib.fingerprint(c), where)
        if (new.num_qubits, new.num_bits) != (c.num_qubits, c.num_bits):
            raise Violation("eval", f"{where}: the evaluated circuit has {new.num_qubits} qubits and {new.num_bits} bits")
        # it is independent of the circuit
        for o in new.circuit:
            if getattr(o, "parameters", None):
                o.parameters[0] = 77.5
        new.reset()
        self.same(before, lib.fingerprint(c), where)
        return "evaluated"

    def do_opeval(self, s, where):
        """Evaluates a single operation, with parameters or with the values that some of its variables have."""
        from dsim import faults, lib
        from dsim.lib import L

        i = s["i"]
        c = self.c[i]
        able = [k for k, o in enumerate(self.model[i]) if any(isinstance(x, dict) for x in o["p"])]
        if not able or self.p[i] is None:
            return None
        k = able[s["k"] % len(able)]
        op, o = c.circuit[k], self.model[i][k]
        want, fails = list(o["p"]), False
        for m, x in enumerate(want):
            if isinstance(x, dict):
                v = s["set"][x["v"] % 3]
                if s["p"]:
                    if m < len(s["p"]):
                        want[m] = s["p"][m]
                    else:
                        fails = True
                elif v is not None:
                    want[m] = v
                else:
                    fails = True
        before, others = lib.fingerprint(c), [x for x in c.circuit]
        for m, x in enumerate(self.p[i]):
            if s["set"][m % 3] is not None:
                x.set(s["set"][m % 3])
        try:
            out = faults.attempt(None, lambda: op.eval(s["p"], inplace=True) if s["inplace"] else op.eval(s["p"]) if s["p"] else op.eval(), self.rec, allow=(Exception,))
        finally:
            for x in self.p[i]:
                x.reset()
        self.rec.nontrivial = True
        self.rec.count("operations evaluated")
        if fails:
            if out.ok:
                raise Violation("not-refused", f"{where}: evaluating {op} without values of all variables was accepted: {out.result}")
            self.same(before, lib.fingerprint(c), where)
            return "refused"
        if not out.ok:
            raise out.error
        if (out.result is op) != s["inplace"]:
            raise Violation("eval", f"{where}: evaluating an operation ({s['inplace']} in place) gave {'itself' if out.result is op else 'a copy'}")
        got = list(out.result.parameters)
        if got != want or type(out.result) is not type(op) or list(out.result.qubits) != list(op.qubits):
            raise Violation("eval", f"{where}: evaluating {op} gave {out.result}, expected parameters {want}")
        if s["inplace"]:
            o["p"] = want
        else:
            out.result.parameters[0] = 55.5
            self.same(before, lib.fingerprint(c), where)
        return "evaluated"

    def same(self, a, b, where):
        if a != b:
            raise Violation("circuit-changed", f"{where}: the circuit was changed from {a[1]} to {b[1]} (or otherwise)")

    def do_pack(self, s, where):
        from dsim.lib import L

        i = s["i"]
        c = self.c[i]
        name = f"Packed{len(self.packed)}"
        cls = L.create_operation(c, name) if s["name"] else L.create_operation(c)
        if not s["name"]:
            name = "CustomOperation"
        if not (isinstance(cls, type) and issubclass(cls, L.ops.Operation) and cls.__name__ == name):
            raise Violation("packed", f"{where}: packing circuit {i} gave {cls}")
        n, nv = c.num_qubits, self.nv[i]
        if cls.num_qubits != n or (nv and cls.num_parameters != nv):
            raise Violation("packed", f"{where}: the operation has {cls.num_qubits} qubits, expected {n}, or {nv} parameters")
        self.packed.append((cls, i, n, nv, name))
        self.rec.nontrivial = True
        self.rec.count("circuits packed")

    def matrix_of(self, o, params=()):
        """Matrix of an operation of a model, with variables given by values; None if not supported."""
        if "k" in o:
            _, j, n, nv, _ = self.packed[o["k"]]
            if n != 1 or nv != self.nv[j]:
                return None
        p = [params[x["v"]] if isinstance(x, dict) else x for x in o["p"]]
        if "k" in o:
            return self.unitary(j, p)
        if o["g"] not in PACKABLE or o["c"] or o["c"] is None:
            return None
        return oracle.matrix(o["g"], p)

    def unitary(self, i, params):
        import numpy as np

        n = self.c[i].num_qubits
        u = np.eye(1 << n, dtype=complex)
        for o in self.model[i]:
            m = self.matrix_of(o, params)
            if m is None:
                return None
            u = oracle.apply(u, m, o["q"], n)
        return u

    def do_matrix(self, s, where):
        import numpy as np

        if not self.packed:
            return None
        k = s["k"] % len(self.packed)
        cls, j, n, nv, name = self.packed[k]
        if nv != self.nv[j] or nv > 3:
            return None
        objs = []
        for p in s["p"]:
            want = self.unitary(j, p)
            if want is None:
                return None
            objs.append((cls(p[:nv]) if self.c[j].parametric else cls(), want, p))
        for obj, want, p in objs + objs[:1]:
            got = obj.matrix
            if not oracle.close(np.asarray(got), want, 1e-9):
                raise Violation("packed", f"{where}: matrix of {name} with parameters {p[:nv]} is\n{np.round(got, 6).tolist()}\nexpected\n{np.round(want, 6).tolist()}")
        for count in (nv - 1, nv + 1):
            if nv and count >= 0:
                from dsim import faults

                if faults.attempt(None, lambda: cls([0.5] * count), self.rec, allow=(Exception,)).ok:
                    raise Violation("not-refused", f"{where}: {name} with {count} parameters was accepted")
        self.rec.count("matrices of packed operations")
        return "matrix"

    def do_mutate(self, s, where):
        """The user changes a parameter of one recorded operation; nothing else changes."""
        i = s["i"]
        with_p = [k for k, o in enumerate(self.model[i]) if o["p"]]
        if with_p:
            k = with_p[s["k"] % len(with_p)]
            self.c[i].circuit[k].parameters[0] = s["v"]
            self.model[i][k]["p"][0] = s["v"]
            return "changed"

    def do_reset(self, s, where):
        self.c[s["i"]].reset()
        self.model[s["i"]] = []

    def do_outside(self, s, where):
        from dsim import faults

        t = self.c[s["i"]]
        args = [[0.5] * self.nv[s["i"]]] if self.spec[s["i"]]["par"] else []
        out = faults.attempt(None, lambda: t(*args, list(t.qubits)), self.rec, allow=(Exception,))
        self.rec.count("refused")
        if out.ok:
            raise Violation("not-refused", f"{where}: applying circuit {s['i']} outside of any context was accepted")
        return "refused"

    def do_bits(self, s, where):
        from dsim import lib

        lib.restore(list(self.c[s["i"]].bits)[:3], s["v"])

    def do_simulate(self, s, where):
        """The state is that of all substituted operations."""
        import numpy as np

        from dsim.lib import L

        i = s["i"]
        c = self.c[i]
        n = c.num_qubits
        if c.parametric:
            return None
        state = oracle.zero(n)
        for o in self.model[i]:
            if o["g"] == "Measurement" or o["c"] or o["c"] is None:
                return None
            m = self.matrix_of(o) if "k" in o else oracle.matrix(o["g"], o["p"])
            if m is None:
                return None
            state = oracle.apply(state, m, o["q"], n)
        L.simulate(c)
        if not oracle.close(np.asarray(c.state), state):
            raise Violation("simulation", f"{where}: state of circuit {i} is {np.round(c.state, 6).tolist()}, expected {np.round(state, 6).tolist()}")
        self.rec.count("simulations")
        return "simulated"


PROP = C11()
