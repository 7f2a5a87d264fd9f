"""Basics shared by all simulations: violations, the per-run recorder and deterministic digests."""

import hashlib
import json


class Violation(Exception):
    """The code under test broke a property. ``kind`` is a short stable class of the violation."""

    def __init__(self, kind, message, **info):
        super().__init__(f"{kind}: {message}")
        self.kind = kind
        self.message = message
        self.info = info


class SimAbort(BaseException):
    """Unwinds simulated threads when a run is over."""


class Recorder:
    """Everything observed in one run. Neither draws random numbers nor reads clocks."""

    def __init__(self):
        self.counters = {}
        self.states = set()
        self.events = []
        self._h = hashlib.sha256()
        self.nontrivial = False
        self.steps = 0

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def fault(self, kind, n=1):
        """A fault was actually injected."""
        self.count("fault:" + kind, n)
        self.nontrivial = True

    def state(self, *key):
        """A state (or interleaving) of the system, by the measure that the property defines."""
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=6).hexdigest())

    def log(self, *event):
        s = repr(event)
        self._h.update(s.encode() + b"\n")
        if len(self.events) < 400:
            self.events.append(s if len(s) < 400 else s[:400] + "...")

    def digest(self):
        return self._h.hexdigest()[:16]


def dumps(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


def program_digest(p):
    return hashlib.sha256(dumps(p).encode()).hexdigest()[:16]
