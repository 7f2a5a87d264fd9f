"""Fault injection other than scheduling: allocations, random draws, warnings, failing callbacks."""

import contextlib
import warnings

import numpy as np

_native = None


def native():
    global _native
    if _native is None:
        import dsim_native

        _native = dsim_native
    return _native


# ---- random draws: the lowest seam through which entropy reaches numpy generators

_entropy = [0]


def patch_entropy():
    import numpy.random.bit_generator as bg

    def randbits(k):
        # a different but reproducible seed every time; reset at the start of every run
        _entropy[0] += 1
        x = (_entropy[0] * 0x9E3779B97F4A7C15F39CC0605CEDC835) ^ (_entropy[0] << 77)
        return x & ((1 << k) - 1)

    bg.randbits = randbits
    real = np.random.default_rng

    def default_rng(seed=None):
        return _scripted[0] if _scripted[0] is not None else real(seed)

    np.random.default_rng = default_rng


_scripted = [None]


@contextlib.contextmanager
def scripted_draws(draws):
    """Whoever makes a generator while this is active gets the given draws, cyclically."""
    bg = _Scripted(draws)
    _scripted[0] = np.random.Generator(bg)
    try:
        yield bg
    finally:
        _scripted[0] = None


def set_entropy(seed):
    _entropy[0] = (int(seed) & 0xFFFFFFFF) << 20


class _Scripted:
    def __init__(self, draws):
        import threading

        self.capsule = native().scripted([float(x) for x in draws])
        self.lock = threading.RLock()

    @property
    def used(self):
        return native().script_pos(self.capsule)


# ---- allocations


@contextlib.contextmanager
def failing_allocation(k, rec=None):
    """Makes the k-th allocation of array data fail (k < 1: none; counts only)."""
    n = native()
    n.install()
    info = {"count": 0, "failed": 0}
    n.arm(k if k >= 1 else -1)
    try:
        yield info
    finally:
        info["count"], info["failed"] = n.disarm()
        n.uninstall()
        if rec is not None and info["failed"]:
            rec.fault("allocation failure", info["failed"])


@contextlib.contextmanager
def guarded_arrays(side, rec=None):
    """Array data lies between pages whose access ends the process (with its end or its start at one of
    them), and holds NaNs before it is written."""
    n = native()
    n.guard(1 if side == "start" else 0)
    try:
        yield
    finally:
        k = n.unguard()
        if rec is not None and k:
            rec.count("guarded arrays", k)


@contextlib.contextmanager
def warning_errors():
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        yield


class Boom(Exception):
    """Raised by harness callbacks (hash, equality, iterators) as told by the program."""


class FaultyCallbacks:
    """Counts calls of harness callbacks while armed and makes the k-th one raise."""

    k = -1
    n = 0
    fired = False

    @classmethod
    def arm(cls, k):
        cls.k, cls.n, cls.fired = k, 0, False

    @classmethod
    def disarm(cls):
        cls.k = -1
        return cls.fired

    @classmethod
    def hit(cls):
        if cls.k >= 0:
            cls.n += 1
            if cls.n == cls.k:
                cls.fired = True
                raise Boom("injected callback failure")


# ---- calls under faults


class Interrupted(KeyboardInterrupt):
    """An injected asynchronous interruption."""


class Outcome:
    """Of a call under a fault: ``result``, or the exception in ``error``; ``fired``: whether the fault
    was injected at all."""

    def __init__(self, result=None, error=None, fired=False):
        self.result, self.error, self.fired = result, error, fired

    @property
    def ok(self):
        return self.error is None


def attempt(fault, fn, rec, allow=()):
    """Calls ``fn()`` under a fault: {"f": "alloc", "k": n}, {"f": "interrupt", "k": n},
    {"f": "warnings"}, {"f": "callback", "k": n}, or None.

    Exceptions are returned if a fault was injected, or if they are of the types in ``allow`` (refusals),
    and propagate otherwise.
    """
    from dsim.core import SimAbort, Violation
    from dsim.sched import Interrupt

    kind = fault["f"] if fault else None
    fired = False
    try:
        if kind == "alloc":
            info = {"failed": 0}
            try:
                with failing_allocation(fault["k"], rec) as info:
                    r = fn()
            finally:
                fired = bool(info["failed"])
        elif kind == "interrupt":
            it = Interrupt(fault["k"], Interrupted())
            try:
                with it:
                    r = fn()
            finally:
                fired = it.fired
                if fired:
                    rec.fault("interruption")
        elif kind == "callback":
            FaultyCallbacks.arm(fault["k"])
            try:
                r = fn()
            finally:
                fired = FaultyCallbacks.disarm()
                if fired:
                    rec.fault("callback failure")
        elif kind == "warnings":
            try:
                with warning_errors():
                    r = fn()
            except Warning as e:
                rec.fault("warning raised as error")
                return Outcome(error=e, fired=True)
        else:
            r = fn()
    except (Violation, SimAbort):
        raise
    except BaseException as e:
        if fired or isinstance(e, allow):
            return Outcome(error=e, fired=fired)
        raise
    return Outcome(result=r, fired=fired)


def gen_fault(rng, kinds, hi=60):
    """A fault specification; positions are as likely to be early as late."""
    from dsim.gen import log_uniform

    kind = rng.choice(kinds)
    f = {"f": kind}
    if kind in ("alloc", "interrupt", "callback"):
        f["k"] = log_uniform(rng, hi)
    return f
