import importlib
import json
from pathlib import Path

ALL = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C21", "C22"]


KNOWN = Path(__file__).resolve().parents[2] / "known_findings.json"


def load(prop_id):
    """The property, told of its known findings (in every process)."""
    prop = importlib.import_module(f"dsim.props.{prop_id.lower()}").PROP
    if prop.findings is None:
        prop.findings = [f for f in json.loads(KNOWN.read_text())["findings"] if f["property"] == prop_id] if KNOWN.is_file() else []
        for f in prop.findings:
            prop.known(f)
    return prop


class Property:
    """Base of all properties: seeded generation of programs, and their execution under faults."""

    ID = None
    findings = None
    RUNS = {"quick": 2000, "thorough": 40000}
    BUDGET = {"quick": 60, "thorough": 600}
    CHUNK = 10
    RULE = ""
    REAL = ""
    STUBS = ""
    STATES = ""
    ASSUMPTIONS = []
    LISTS = ("steps", "faults")  # program entries that are shrunk

    def generate(self, rng, idx, tier):
        raise NotImplementedError

    def execute(self, program, rec):
        raise NotImplementedError

    def reset(self):
        """Puts the library's process-wide state back to the start, before every run."""
        from dsim import lib

        lib.reset_globals()

    def known(self, finding):
        """Told of a known finding of this property, so that it is not reported again."""
        raise NotImplementedError

    # ---- minimisation

    def shrinks(self, program, viol):
        """Yields lists of smaller candidate programs, most aggressive first."""
        import copy

        def lists(node, path=()):
            if isinstance(node, dict):
                for k, v in sorted(node.items()):
                    if k in self.LISTS and isinstance(v, list):
                        yield path + (k,)
                    yield from lists(v, path + (k,))
            elif isinstance(node, list):
                for i, v in enumerate(node):
                    if isinstance(v, (dict, list)):
                        yield from lists(v, path + (i,))

        def get(p, path):
            for k in path:
                p = p[k]
            return p

        if program.get("sched") and program["sched"]["strategy"] != "explicit" and viol.get("switches"):
            c = copy.deepcopy(program)
            c["sched"] = {"strategy": "explicit", "switches": viol["switches"]}
            yield [c]
        paths = list(lists(program))
        for div in (2, 4, 8, 16, 10**9):
            for path in paths:
                try:
                    lst = get(program, path)
                except (KeyError, IndexError, TypeError):
                    continue
                n = len(lst)
                if n == 0 or (div != 10**9 and n < div):
                    continue
                size = max(1, n // div)
                cands = []
                for i in range(0, n, size):
                    c = copy.deepcopy(program)
                    del get(c, path)[i:i + size]
                    cands.append(c)
                # later steps first: the violation is usually at the end
                yield cands
        if program.get("sched", {}).get("strategy") == "explicit":
            sw = program["sched"]["switches"]
            for size in {max(1, len(sw) // 2), max(1, len(sw) // 4), 1}:
                cands = []
                for i in range(0, len(sw), size):
                    c = copy.deepcopy(program)
                    del c["sched"]["switches"][i:i + size]
                    cands.append(c)
                yield cands
        yield from self.simplify(program)

    def simplify(self, program):
        """Further property-specific simplifications (lists of candidates)."""
        return ()
