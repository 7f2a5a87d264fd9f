"""Deterministic scheduling of real threads, and asynchronous interruptions.

Simulated threads are real threads of which exactly one runs at any time: each waits for its own baton.
The points at which another thread may take over (or an asynchronous exception may arrive) are those at
which CPython itself allows that (entering a function, after a call returned, jumping backwards), within
the files of the code under test and wherever a harness object calls :func:`point`. They are intercepted
by tracing opcodes. ``threading.Lock`` and ``threading.RLock`` are replaced (before the code under test is
imported) by locks that block in the simulation only, so that blocking and deadlocks are simulated too; the
other synchronisation objects of ``threading`` and ``queue`` are made of them.
"""

import _thread
import dis
import os
import random
import sys
import threading
import time

from dsim.core import SimAbort, Violation

REAL_LOCK = _thread.allocate_lock
REAL_GET_IDENT = _thread.get_ident

_library_dirs = ()
_is_library = {}
_points = {}

_CALLS = {"CALL", "CALL_FUNCTION_EX", "CALL_KW", "PRECALL"}


def set_library(directory):
    global _library_dirs
    _library_dirs = (os.path.realpath(directory) + "/dwave/",)
    _is_library.clear()


def is_library(code):
    r = _is_library.get(code)
    if r is None:
        r = _is_library[code] = os.path.realpath(code.co_filename).startswith(_library_dirs)
    return r


def _code_points(code):
    """Offsets that directly follow a call -> offset of that call; offsets of backward jumps."""
    r = _points.get(code)
    if r is None:
        after, back, prev = {}, set(), None
        for ins in dis.get_instructions(code):
            if ins.opname == "CACHE":
                continue
            if prev is not None and prev.opname in _CALLS:
                after[ins.offset] = prev.offset
            if ins.opname.startswith("JUMP_BACKWARD") and "NO_INTERRUPT" not in ins.opname:
                back.add(ins.offset)
            prev = ins
        r = _points[code] = (after, back)
        # an interruption arrives within the call, i.e., is handled where the call is; points at which
        # that would be different cannot be used to raise it
        entries = dis._parse_exception_table(code)
        where = lambda off: next(((e.target, e.depth, e.lasti) for e in entries if e.start <= off < e.end), None)
        _no_raise[code] = {off for off, call in after.items() if where(off) != where(call)}
        # nor those between a call (that might acquire something) and the try statement after it
        instructions = [ins for ins in dis.get_instructions(code) if ins.opname != "CACHE"]
        for i, ins in enumerate(instructions):
            if ins.offset in after:
                for nxt in instructions[i:i + 4]:
                    if where(nxt.offset) not in (None, where(ins.offset)):
                        _no_raise[code].add(ins.offset)
                        break
                    if nxt.opname not in ("POP_TOP", "STORE_FAST", "STORE_NAME", "STORE_GLOBAL", "STORE_DEREF", "NOP"):
                        break
    return r


_no_raise = {}
_grace = 0


def _tracer(on_point):
    """A trace function that calls ``on_point(frame)`` at every point within the library."""

    def global_trace(frame, event, arg):
        code = frame.f_code
        if event != "call" or not is_library(code):
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        after, back = _code_points(code)
        last = -1

        def local_trace(frame, event, arg):
            nonlocal last
            if event == "opcode":
                off = frame.f_lasti
                prev, last = last, off
                if off in back or after.get(off, -2) == prev:
                    guarded(frame)
            return local_trace

        guarded(frame)
        return local_trace

    def guarded(frame):
        try:
            on_point(frame)
        except BaseException:
            # raising ends the tracing of this thread; while others are traced, CPython 3.12 crashes if
            # a frame of this one still asks for opcode events
            while frame is not None:
                if frame.f_trace_opcodes:
                    frame.f_trace_opcodes = False
                frame = frame.f_back
            raise

    return global_trace


def _protected(frame):
    """Whether no interruption can be raised: at the end of the block of a with or try statement, and
    within the enter or exit machinery of a with statement (or the import system), or when a lock was just
    acquired other than by a with statement."""
    global _grace
    if _grace > 0:
        _grace -= 1
        return True
    if frame.f_lasti in _no_raise.get(frame.f_code, ()):
        return True
    while frame is not None:
        name = frame.f_code.co_name
        if name in ("__enter__", "__exit__", "__del__", "_find_and_load", "_call_with_frames_removed"):
            return True
        frame = frame.f_back
    return False


class Interrupt:
    """Raises an exception at the k-th point in the library passed while active (one-shot)."""

    def __init__(self, k, exc):
        self.k = k
        self.exc = exc
        self.n = 0
        self.fired = False

    def _on_point(self, frame):
        if self.fired or _protected(frame):
            return
        self.n += 1
        if self.n == self.k:
            self.fired = True
            raise self.exc

    def __enter__(self):
        global _grace
        _grace = 0
        self._old = sys.gettrace()
        sys.settrace(_tracer(self._on_point))
        return self

    def __exit__(self, *_):
        sys.settrace(self._old)


# --------------------------------------------------------------------------------------------------


class Scheduler:
    """Runs thread bodies, deciding at every point who continues.

    ``spec``: {"strategy": "random", "p": probability of a switch, "seed": n}
              {"strategy": "pct", "depth": d, "length": estimated points, "seed": n}
              {"strategy": "rr", "quantum": q}
              {"strategy": "explicit", "switches": [[point, thread], ...]}
    The switches taken are recorded in ``self.switches``, in the form used by "explicit".
    """

    current = None  # the running scheduler

    def __init__(self, spec, rec, max_points=200_000):
        self.spec = spec
        self.rec = rec
        self.max_points = max_points
        self.rng = random.Random(spec.get("seed", 0))
        self.n = 0
        self.switches = []
        self.threads = []
        self.running = None
        self.abort = None
        self.main = REAL_LOCK()
        self.main.acquire()
        self.by_ident = {}
        self.trace_hash = 0
        s = spec["strategy"]
        if s == "explicit":
            self.explicit = {n: t for n, t in spec["switches"]}
        elif s == "pct":
            self.change_points = set(self.rng.sample(range(1, max(2, spec["length"])), min(spec["depth"], max(1, spec["length"] - 1))))

    # ---- called from the thread that holds the baton

    def point(self, what=None):
        t = self.running
        if t is None or REAL_GET_IDENT() != t.ident:
            return
        if self.abort is not None:
            raise SimAbort()
        self.n += 1
        if self.n > self.max_points:
            self._fail(Violation("livelock", f"no end after {self.max_points} scheduling points"))
            raise SimAbort()
        nxt = self._choose(t)
        if nxt is not t:
            self._switch(t, nxt)

    def _traced(self, frame):
        t = self.running
        if t is not None and t.interrupt is not None and REAL_GET_IDENT() == t.ident and not _protected(frame):
            t.interrupt[0] -= 1
            if t.interrupt[0] <= 0:
                exc = t.interrupt[1]
                t.interrupt = None
                raise exc
        self.point()

    def arm(self, k, exc):
        """Makes the k-th point that the running thread passes in the library raise an exception."""
        self.running.interrupt = [k, exc]

    def disarm(self):
        """Returns whether the exception has been raised."""
        t = self.running
        fired = t.interrupt is None
        t.interrupt = None
        if fired:
            sys.settrace(_tracer(self._traced))
        return fired

    def _runnable(self):
        return [t for t in self.threads if t.state == "ready"]

    def _choose(self, t):
        s = self.spec["strategy"]
        if s == "explicit":
            want = self.explicit.get(self.n)
            if want is None:
                return t
            c = self.threads[want] if want < len(self.threads) else t
            return c if c.state == "ready" else t
        if s == "random":
            if self.rng.random() >= self.spec["p"]:
                return t
            return self.rng.choice(self._runnable())
        if s == "rr":
            if self.n % self.spec["quantum"]:
                return t
            r = self._runnable()
            return r[(r.index(t) + 1) % len(r)] if t in r else r[0]
        # pct: run the highest priority; at change points the running thread drops to the lowest
        if self.n in self.change_points:
            t.prio = -self.n
        return max(self._runnable(), key=lambda x: x.prio)

    def _forced(self):
        """The next thread when the running one cannot continue."""
        r = self._runnable()
        if not r:
            return None
        if self.spec["strategy"] == "explicit":
            want = self.explicit.get(self.n)
            for t in r:
                if t.tid == want:
                    return t
            return r[0]
        if self.spec["strategy"] == "pct":
            return max(r, key=lambda x: x.prio)
        if self.spec["strategy"] == "rr":
            return r[0]
        return self.rng.choice(r)

    def _switch(self, t, nxt):
        self.switches.append([self.n, nxt.tid])
        self.trace_hash = hash((self.trace_hash, self.n, nxt.tid))
        self.running = nxt
        nxt.baton.release()
        if t is not None and t.state != "done":
            t.baton.acquire()
            if self.abort is not None:
                raise SimAbort()

    def block(self, lock):
        """The running thread waits for a lock."""
        t = self.running
        t.state = "blocked"
        t.waits_for = lock
        self.n += 1
        nxt = self._forced()
        if nxt is None:
            self._fail(Violation("deadlock", "all threads wait for locks: " + ", ".join(
                f"{x.tid}" for x in self.threads if x.state == "blocked")))
            raise SimAbort()
        self._switch(t, nxt)

    def give_way(self):
        """The running thread waits for some time, or for another one to do something."""
        t = self.running
        if self.abort is not None:
            raise SimAbort()
        self.n += 1
        if self.n > self.max_points:
            self._fail(Violation("livelock", f"no end after {self.max_points} scheduling points"))
            raise SimAbort()
        t.prio = -self.n
        others = [x for x in self._runnable() if x is not t]
        if others:
            if self.spec["strategy"] == "explicit":
                want = self.explicit.get(self.n)
                nxt = next((x for x in others if x.tid == want), others[0])
            elif self.spec["strategy"] == "pct":
                nxt = max(others, key=lambda x: x.prio)
            else:
                nxt = self.rng.choice(others)
            self._switch(t, nxt)

    def unblock(self, lock):
        for t in self.threads:
            if t.state == "blocked" and t.waits_for is lock:
                t.state = "ready"
                t.waits_for = None

    def _fail(self, exc):
        if self.abort is None:
            self.abort = exc

    def fail(self, exc):
        """Ends the run with an exception (from the thread that holds the baton)."""
        self._fail(exc)
        raise SimAbort()

    # ---- threads

    class _Thread:
        def __init__(self, tid, body):
            self.tid, self.body = tid, body
            self.baton = REAL_LOCK()
            self.baton.acquire()
            self.state = "ready"
            self.waits_for = None
            self.ident = None
            self.prio = 0
            self.interrupt = None

    def spawn(self, body):
        self.threads.append(self._Thread(len(self.threads), body))

    def _thread_main(self, t):
        t.baton.acquire()
        t.ident = REAL_GET_IDENT()
        try:
            if self.abort is None:
                sys.settrace(_tracer(self._traced))
                try:
                    t.body()
                finally:
                    sys.settrace(None)
        except SimAbort:
            pass
        except BaseException as e:
            self._fail(e)
        finally:
            sys.settrace(None)
            t.state = "done"
            if self.abort is None:
                self.n += 1
                nxt = self._forced()
                if nxt is None and any(x.state == "blocked" for x in self.threads):
                    self._fail(Violation("deadlock", "threads wait for a lock that nobody will release"))
                elif nxt is not None:
                    self.switches.append([self.n, nxt.tid])
                    self.running = nxt
                    nxt.baton.release()
                    return
            if self.abort is not None:
                for x in self.threads:
                    if x.state != "done":
                        x.state = "ready"
                        self.running = x
                        x.baton.release()
                        return
            self.running = None
            self.main.release()

    def run(self):
        if not self.threads:
            return
        global _grace
        _grace = 0
        order = list(range(len(self.threads)))
        self.rng.shuffle(order)
        for t, p in zip(self.threads, order):
            t.prio = p + 1
        Scheduler.current = self
        try:
            for t in self.threads:
                _thread.start_new_thread(self._thread_main, (t,))
            first = self.explicit.get(0, 0) if self.spec["strategy"] == "explicit" else self.rng.randrange(len(self.threads))
            first = min(first, len(self.threads) - 1)
            self.switches.append([0, first])
            self.running = self.threads[first]
            self.threads[first].baton.release()
            self.main.acquire()
        finally:
            Scheduler.current = None
        self.rec.count("scheduling points", self.n)
        self.rec.count("thread switches", len(self.switches))
        if self.abort is not None:
            raise self.abort


def point(what=None):
    """A point at which another simulated thread may take over (used by harness objects)."""
    s = Scheduler.current
    if s is not None:
        s.point(what)


class SimLock:
    """Replaces threading.Lock; blocks in the simulation, and reports self-deadlocks."""

    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        global _grace
        r = self._acquire(blocking, timeout)
        if r:
            _grace = 2
        return r

    def _acquire(self, blocking=True, timeout=-1):
        s = Scheduler.current
        me = REAL_GET_IDENT()
        in_sim = s is not None and s.running is not None and s.running.ident == me
        if in_sim:
            s.point()
        while self._owner is not None:
            if self._reentrant and self._owner == me:
                break
            if not blocking or (timeout is not None and timeout >= 0):
                if in_sim:
                    s.give_way()
                if self._owner is None and blocking:
                    break
                return False  # simulated time passes at once
            if not in_sim:
                raise Violation("deadlock", "a thread waits for a lock that is never released")
            s.block(self)
        self._owner = me
        self._count += 1
        return True

    def release(self):
        global _grace
        _grace = 0
        if self._owner is None or (self._reentrant and self._owner != REAL_GET_IDENT()):
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            s = Scheduler.current
            if s is not None:
                s.unblock(self)
                if s.abort is None:
                    s.point()

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self._acquire()
        return self

    def __exit__(self, *_):
        self.release()

    def __reduce_ex__(self, _):
        raise TypeError("cannot pickle '_thread.lock' object")  # nor can it be copied

    # as used by threading.Condition
    def _is_owned(self):
        return self._owner == REAL_GET_IDENT() if self._reentrant else self._owner is not None

    def _release_save(self):
        saved = self._count
        self._count = 1
        self.release()
        return saved

    def _acquire_restore(self, saved):
        self._acquire()
        self._count = saved


class SimRLock(SimLock):
    _reentrant = True


_REAL_SLEEP = time.sleep


def _sim_sleep(seconds):
    """Simulated time passes at once, but others may run."""
    s = Scheduler.current
    if s is not None and s.running is not None and s.running.ident == REAL_GET_IDENT():
        s.give_way()
    else:
        _REAL_SLEEP(seconds)


def patch_threading():
    """Must be called before the code under test is imported.

    Conditions, semaphores, events, barriers and queues of the standard library are made of these locks.
    """
    for module, name, new in (
        (threading, "Lock", SimLock), (threading, "RLock", SimRLock), (threading, "_allocate_lock", SimLock),
        (_thread, "allocate_lock", SimLock), (_thread, "allocate", SimLock), (_thread, "RLock", SimRLock),
        (time, "sleep", _sim_sleep),
    ):
        setattr(module, name, new)
