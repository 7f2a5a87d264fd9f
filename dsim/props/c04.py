import math

from dsim import gen
from dsim.core import Violation
from dsim.props import Property
from dsim.props.c10 import gen_sched

_total = {}


def total(length):
    """How many identifiers there are from a length on, found by using them all up in one thread."""
    from dsim.lib import L

    if length not in _total:
        L.IDCounter.reset(length=length, batch=1000)
        ids = []
        while len(ids) <= 100_000:
            try:
                ids.append(L.Qubit("x").id)
            except ValueError:
                break
        # all combinations of the characters, from this length on, have been given out
        chars = len(set("".join(ids)))
        want = sum(math.comb(chars, n) for n in range(length, chars + 1))
        if len(set(ids)) < min(want, 100_000):
            raise Violation("refused", f"creating a qubit failed after {len(set(ids))} identifiers of {length} and more of {chars} characters, of which there are {want}")
        _total[length] = len(ids)
    return _total[length]


class C04(Property):
    ID = "C04"
    RUNS = {"quick": 6000, "thorough": 150000}
    BUDGET = {"quick": 60, "thorough": 700}
    CHUNK = 20
    RULE = ("a run is 1-5 threads under a seeded schedule that create qubits, bits, and circuits with some, and refresh the identifier generator, with batches of 1-50 or "
            "the default, and lengths at the end of which identifiers run out, at times followed by up to 100000 qubits; creations may be interrupted; non-trivial if there are several threads, an interruption, "
            "or identifiers ran out; distinct by program digest")
    REAL = "identifier generator, qubits, bits, circuits, registers; real threads"
    STUBS = "thread scheduling, locks"
    STATES = "(identifier length, batch size, outcomes in the order of their ends)"
    ASSUMPTIONS = ["the generator is reset only before threads start", "copies of a qubit share its identifier and are not counted as created",
                   "how many identifiers exist is found by using them up in a single thread; these have to be all combinations of their characters, of the first and all greater lengths"]
    LISTS = ("steps", "threads", "before")

    def generate(self, rng, idx, tier):
        end = rng.random() < 0.6
        length = rng.choice([35, 35, 36, 34]) if end else rng.choice([None, 1, 2, 3, 4])
        batch = rng.choice([1, 1, 2, 3, 5, 20, 50, None])
        threads = []
        many = 40 if length == 35 else 6
        shared = rng.choice([0, 0, 1, 2])
        # the generator's life before
        before = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            before.append({"length": rng.choice([length, length, None, 2, 35]), "batch": rng.choice([batch, 1, 7, None]), "n": rng.choice([0, 1, 3, 20])})
        for _ in range(rng.choice([1, 2, 2, 3, 4, 5])):
            steps = []
            for _ in range(rng.randint(1, 10)):
                k = rng.random()
                if k < 0.6:
                    s = {"do": "create", "what": rng.choice("QB"), "n": rng.choice([1, 1, 2, rng.randint(1, many)])}
                elif k < 0.75:
                    s = {"do": "circuit", "n": rng.randint(0, 3), "b": rng.randint(0, 2)}
                elif k < 0.85:
                    s = {"do": "add", "what": rng.choice("QB")}
                elif k < 0.9 and shared:
                    s = {"do": "read", "i": rng.randrange(shared)}
                else:
                    s = {"do": "refresh"}
                if rng.random() < 0.25:
                    s["drop"] = True
                if rng.random() < 0.12:
                    s["interrupt"] = gen.log_uniform(rng, 30)
                steps.append(s)
            threads.append({"steps": steps})
        if not end and rng.random() < 0.008:
            return {"long": rng.choice([10_000, 70_000, 100_000]), "length": length, "batch": batch, "shared": 0, "before": before, "threads": threads[:1], "sched": gen_sched(rng)}
        return {"length": length, "batch": batch, "shared": shared, "before": before, "threads": threads, "sched": gen_sched(rng)}

    def execute(self, prog, rec):
        from dsim import faults
        from dsim.lib import L
        from dsim.sched import Scheduler

        n_max = total(prog["length"]) if (prog["length"] or 0) >= 34 else None
        for k, b in enumerate(prog.get("before", ())):
            L.IDCounter.reset(length=b["length"], batch=b["batch"])
            ids = set()
            for _ in range(b["n"]):
                try:
                    ids.add(L.Qubit("before").id)
                except ValueError:
                    ids.add(len(ids))
            if len(ids) != b["n"]:
                raise Violation("duplicate", f"{b['n']} qubits have only {len(ids)} identifiers after reset {k}")
        L.IDCounter.reset(length=prog["length"], batch=prog["batch"])
        sched = Scheduler(prog["sched"], rec)
        clock = [0]
        made = []  # items
        gone = []  # identifiers of items that do not exist any more
        begun = []  # [time, number of identifiers that a call might have taken]
        failures = []  # times of calls that failed as there were no identifiers
        outcomes = []
        after = []
        if len(prog["threads"]) > 1:
            rec.nontrivial = True
        # items whose identifiers are first looked at by the threads
        shared = [(L.Qubit if k % 2 else L.Bit)("shared") for k in range(prog.get("shared", 0) if n_max is None or n_max > 10 else 0)]
        made.extend(shared)
        begun.append([0, len(shared)])
        seen = []

        # an interrupted call may lose the identifiers of the batch that it was making
        slack = prog["batch"] or 1000

        def tick():
            clock[0] += 1
            return clock[0]

        def call(fn, k, s, where):
            """A call that takes up to k identifiers; fn returns the items made."""
            rec.steps += 1
            b = [tick(), k]
            begun.append(b)
            failed_before = bool(failures)
            try:
                if s.get("interrupt"):
                    sched.arm(s["interrupt"], faults.Interrupted())
                try:
                    items = fn()
                finally:
                    if s.get("interrupt") and sched.disarm():
                        rec.fault("interruption")
            except faults.Interrupted:
                outcomes.append("i")
                b[1] = k + slack
                return None
            except ValueError as e:
                if n_max is None:
                    raise Violation("refused", f"{where}: failed although there are identifiers left: {e}")
                failures.append(tick())
                outcomes.append("f")
                rec.count("creations refused")
                return None
            if failed_before and k == 1 and items:
                after.append(where)
            b[1] = len(items)
            if s.get("drop"):
                # nothing but the identifiers is kept
                gone.extend(x.id for x in items)
            else:
                made.extend(items)
            outcomes.append(len(items))
            return items

        def thread(tid, steps):
            circuit = L.Circuit()
            for i, s in enumerate(steps):
                where = f"thread {tid} step {i} ({s['do']})"
                if s["do"] == "create":
                    for _ in range(s["n"]):
                        call(lambda: [(L.Qubit if s["what"] == "Q" else L.Bit)("x")], 1, s, where)
                elif s["do"] == "circuit":
                    def f():
                        c = L.Circuit(s["n"], s["b"])
                        items = list(c.qubits) + list(c.bits)
                        if len(items) != s["n"] + s["b"]:
                            raise Violation("lost", f"{where}: got {items}")
                        return items
                    call(f, s["n"] + s["b"], s, where)
                elif s["do"] == "add":
                    def f():
                        (circuit.add_qubit if s["what"] == "Q" else circuit.add_bit)()
                        return [(circuit.qubits if s["what"] == "Q" else circuit.bits)[-1]]
                    if not s.get("interrupt"):
                        call(f, 1, s, where)
                elif s["do"] == "read":
                    if s["i"] < len(shared):
                        seen.append((shared[s["i"]], shared[s["i"]].id, where))
                else:
                    call(lambda: (L.IDCounter.refresh(), [])[1], 0, s, where)

        for tid, t in enumerate(prog["threads"]):
            sched.spawn(lambda tid=tid, t=t: thread(tid, t["steps"]))
        try:
            sched.run()
        finally:
            rec.switches = sched.switches
        rec.log(sched.n, len(sched.switches), outcomes)
        rec.state(prog["length"], prog["batch"], outcomes)
        for x, ident, where in seen:
            if ident != x.id:
                raise Violation("identifier", f"{where}: the identifier of {x} was {ident!r}")
        ids = {}
        for x in made:
            if not isinstance(x.id, str) or not x.id:
                raise Violation("identifier", f"{x} has the identifier {x.id!r}")
            if x.id in ids and ids[x.id] is not x:
                raise Violation("duplicate", f"{x} and {ids[x.id]} have the same identifier")
            ids[x.id] = x
        if len(set(map(id, made))) != len(made):
            raise Violation("duplicate", "the same item was made twice")
        for x in gone:
            if not isinstance(x, str) or not x:
                raise Violation("identifier", f"an item had the identifier {x!r}")
            if x in ids:
                raise Violation("duplicate", f"the identifier {x} of {ids[x] or 'an item that is gone'} was given out before")
            ids[x] = None
        for k in range(prog.get("long", 0)):
            x = L.Qubit("long").id
            if x in ids:
                raise Violation("duplicate", f"the identifier {x} of the qubit made after {len(ids)} was given out before")
            ids[x] = None
        if failures:
            rec.nontrivial = True
            # a failing call needs that all identifiers may have been taken by calls that began before it ended
            for t in failures:
                used = sum(k for b, k in begun if b < t)
                if used < n_max:
                    raise Violation("refused", f"a creation failed although at most {used} of {n_max} identifiers had been used")
        if n_max is not None and len(made) + len(gone) > n_max:
            raise Violation("duplicate", f"{len(made) + len(gone)} items made with {n_max} identifiers")
        if n_max is not None:
            # it keeps failing once there are none, and gives all out before
            lost = sum(slack if o == "i" else 5 for o in outcomes if o in ("i", "f"))
            rest = 0
            while True:
                try:
                    x = L.Qubit("rest")
                except ValueError:
                    break
                if x.id in ids:
                    raise Violation("duplicate", f"{x} and {ids[x.id]} have the same identifier")
                ids[x.id] = x
                rest += 1
                if failures and not any(s.get("interrupt") for t in prog["threads"] for s in t["steps"]) and not any(s["do"] == "circuit" for t in prog["threads"] for s in t["steps"]):
                    raise Violation("revived", "an identifier was given out after creating had failed")
            if len(ids) + lost < n_max:
                raise Violation("refused", f"only {len(ids)} of {n_max} identifiers can be used")
            for _ in range(3):
                try:
                    x = L.Bit("more")
                except ValueError:
                    continue
                raise Violation("revived", f"{x} was made after all identifiers had been used")


PROP = C04()
