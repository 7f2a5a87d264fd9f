"""Runs simulations of one property in worker processes, minimises and reports violations."""

import json
import os
import random
import selectors
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from pathlib import Path

from dsim import build
from dsim.core import dumps, program_digest

VERIF = build.VERIF
RUN_TIMEOUT = 40.0


class HarnessError(Exception):
    pass


def worker_env(build_dir, hashseed="0"):
    env = build._clean_env()
    env.update(
        PYTHONPATH=f"{build_dir}:{VERIF}", PYTHONHASHSEED=hashseed, OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", DSIM_BUILD=str(build_dir),
    )
    if os.environ.get("DSIM_DEBUG"):
        env["DSIM_DEBUG"] = "1"
    return env


class Worker:
    count = 0

    def __init__(self, prop_id, build_dir, hashseed="0"):
        Worker.count += 1
        self.scratch = os.path.join(tempfile.gettempdir(), f"dsim-{os.getpid()}-{Worker.count}")
        self.p = subprocess.Popen(
            [build.PYTHON, "-m", "dsim.worker", prop_id, str(build_dir)], cwd=str(VERIF),
            env=dict(worker_env(build_dir, hashseed), DSIM_SCRATCH=self.scratch), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=None if os.environ.get("DSIM_DEBUG") else subprocess.DEVNULL, start_new_session=True)
        self.fd = self.p.stdout.fileno()
        os.set_blocking(self.fd, False)
        self.buf = b""
        self.current = None  # run number being executed
        self.pending = []
        self.task = None
        self.since = time.monotonic()
        self.ready = False

    def send(self, task):
        self.task = task
        self.pending = [i["n"] for i in task["items"]]
        self.since = time.monotonic()
        self.p.stdin.write((dumps(task) + "\n").encode())
        self.p.stdin.flush()

    def read(self):
        """Returns (messages, eof)."""
        eof = False
        while True:
            try:
                d = os.read(self.fd, 1 << 20)
            except BlockingIOError:
                break
            if not d:
                eof = True
                break
            self.buf += d
        *lines, self.buf = self.buf.split(b"\n")
        return [json.loads(x) for x in lines], eof

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.p.wait()
        shutil.rmtree(self.scratch, ignore_errors=True)
        for f in (self.p.stdin, self.p.stdout):
            try:
                f.close()
            except OSError:
                pass


def run_one(prop_id, build_dir, item, task, timeout=RUN_TIMEOUT, hashseed="0"):
    """Executes a single run in a fresh process. Returns its result; crashes and hangs are results too."""
    w = Worker(prop_id, build_dir, hashseed)
    sel = selectors.DefaultSelector()
    sel.register(w.fd, selectors.EVENT_READ)
    try:
        w.send(dict(task, id=0, items=[item]))
        end = time.monotonic() + timeout + 30
        began = False
        while time.monotonic() < end:
            if not sel.select(timeout=1.0):
                continue
            msgs, eof = w.read()
            for m in msgs:
                if "begin" in m:
                    began = True
                    end = time.monotonic() + timeout
                elif m.get("n") == item["n"]:
                    return m
            if eof:
                if not began:
                    raise HarnessError(f"worker ended before the run with status {w.p.wait()}")
                return dict(n=item["n"], ok=False, kind="process-crash",
                            message=f"the process ended with status {w.p.wait()} during the run",
                            program=item.get("program"), counters={}, states=[], digest="", info={}, died=True)
        if not began:
            raise HarnessError("worker did not start in time")
        return dict(n=item["n"], ok=False, kind="no-progress", message=f"the run did not end within {timeout} s",
                    program=item.get("program"), counters={}, states=[], digest="", info={}, died=True)
    finally:
        sel.close()
        w.kill()


class Batch:
    """Executes runs 0..n-1 of a property on several workers; stops at the first violation."""

    def __init__(self, prop_id, build_dir, seed, tier, workers, total, budget, chunk, hashseed="0", stop=True, keep=None):
        self.prop_id, self.build_dir, self.seed, self.tier = prop_id, build_dir, seed, tier
        self.nworkers, self.total, self.budget, self.chunk = workers, total, budget, chunk
        self.hashseed, self.stop, self.keep = hashseed, stop, keep
        self.results = {} if keep else None
        self.counters, self.states, self.programs, self.digests = {}, set(), set(), set()
        self.done = 0
        self.nontrivial = set()
        self.violation = None
        self.samples = []
        self.steps = 0

    def _task(self, items, tid):
        return dict(id=tid, seed=self.seed, tier=self.tier, items=items, want_program=self.done < 3)

    def _absorb(self, r):
        if r.get("error"):
            raise HarnessError(f"run {r['n']} of {self.prop_id} failed in the harness:\n{r['error']}")
        self.done += 1
        for k, v in r["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.states.update(r["states"])
        self.steps += r.get("steps", 0)
        self.programs.add(r["program_digest"])
        self.digests.add(r["digest"])
        if r["nontrivial"]:
            self.nontrivial.add(r["program_digest"])
        if r.get("program") is not None and r["ok"] and len(self.samples) < 2:
            self.samples.append({"run": r["n"], "program": r["program"], "events": r.get("events", [])[:40]})
        if self.keep:
            self.results[r["n"]] = (r["ok"], r.get("kind"), r["digest"], r["program_digest"])
        if not r["ok"] and self.violation is None:
            self.violation = r

    def run(self):
        t0 = time.monotonic()
        queue = [list(range(i, min(i + self.chunk, self.total))) for i in range(0, self.total, self.chunk)]
        queue.reverse()
        sel = selectors.DefaultSelector()
        workers = []

        def start():
            w = Worker(self.prop_id, self.build_dir, self.hashseed)
            workers.append(w)
            sel.register(w.fd, selectors.EVENT_READ, w)

        def drop(w):
            sel.unregister(w.fd)
            workers.remove(w)
            w.kill()

        tid = 0
        try:
            for _ in range(self.nworkers):
                start()
            starved = 0
            while True:
                over = time.monotonic() - t0 > self.budget or (self.violation is not None and self.stop)
                for w in workers:
                    if w.ready and w.task is None and queue and not over:
                        tid += 1
                        w.send(self._task([dict(n=i) for i in queue.pop()], tid))
                busy = [w for w in workers if w.task is not None]
                if not busy and (over or not queue):
                    break
                for key, _ in sel.select(timeout=0.5):
                    w = key.data
                    msgs, eof = w.read()
                    for m in msgs:
                        w.since = time.monotonic()
                        if m.get("ready"):
                            w.ready = True
                        elif "begin" in m:
                            w.current = m["begin"]
                        elif "done" in m:
                            w.task, w.pending, w.current = None, [], None
                        else:
                            w.pending.remove(m["n"])
                            w.current = None
                            self._absorb(m)
                    if eof:
                        if not w.ready:
                            starved += 1
                            if starved > 3:
                                raise HarnessError(f"workers do not start (exit status {w.p.wait()})")
                        rest, cur = w.pending, w.current
                        drop(w)
                        self._lost(rest, cur, queue)
                        start()
                now = time.monotonic()
                for w in list(workers):
                    if self.violation is not None and self.stop:
                        break
                    if w.task is not None and w.current is not None and now - w.since > RUN_TIMEOUT:
                        rest, cur = w.pending, w.current
                        drop(w)
                        self._lost(rest, cur, queue)
                        start()
                if self.violation is not None and self.stop:
                    break
        finally:
            for w in workers:
                w.kill()
            sel.close()
        self.wall = time.monotonic() - t0
        return self

    def _lost(self, rest, cur, queue):
        """A worker ended or hung: repeat the run it was in on its own, and the others elsewhere."""
        if cur is not None:
            r = run_one(self.prop_id, self.build_dir, dict(n=cur), dict(seed=self.seed, tier=self.tier), timeout=2 * RUN_TIMEOUT)
            if r.get("died"):
                r["program"] = None
                r["program_digest"] = f"run-{cur}"
                r["nontrivial"] = True
            self._absorb(r)
            rest = [i for i in rest if i != cur]
        if rest:
            queue.append(rest)


# --------------------------------------------------------------------------------------------------


def minimise(prop, prop_id, build_dir, viol, budget):
    """Shrinks the program of a violation as long as a violation of the same kind remains."""
    best = viol
    end = time.monotonic() + budget
    tried = 0

    def attempt(cands):
        """Runs candidates in one process; returns the first that still fails."""
        nonlocal tried
        i = 0
        while i < len(cands) and time.monotonic() < end:
            part = cands[i:i + 16]
            w = Worker(prop_id, build_dir)
            try:
                w.send(dict(id=0, seed=0, tier="quick", items=[dict(n=k, program=c) for k, c in enumerate(part)]))
                last, eof, n_done, current = time.monotonic(), False, 0, None
                while not eof and time.monotonic() - last < 15 and n_done < len(part):
                    msgs, eof = w.read()
                    for m in msgs:
                        last = time.monotonic()
                        if "begin" in m:
                            current = m["begin"]
                        if "n" in m:
                            current = None
                            n_done += 1
                            tried += 1
                            if m.get("kind") == best["kind"]:
                                return m
                            if m.get("dirty"):
                                eof = True
                    if not msgs:
                        time.sleep(0.005)
                if current is not None and best.get("died"):
                    # the process died, or does not get on
                    if best["kind"] == ("process-crash" if eof else "no-progress"):
                        tried += 1
                        return dict(best, program=part[current], message=best["message"])
            finally:
                w.kill()
            i += max(n_done, 1)
        return None

    improved = True
    while improved and time.monotonic() < end:
        improved = False
        for cands in prop.shrinks(best["program"], best):
            size = len(dumps(best["program"]))
            cands = [c for c in cands if len(dumps(c)) < size or c.get("sched") != best["program"].get("sched")]
            m = attempt(cands)
            if m is not None:
                best = m
                improved = True
                break
            if time.monotonic() > end:
                break
    best["minimise_runs"] = tried
    return best


def replay_path(prop_id, viol):
    d = VERIF / "replays"
    d.mkdir(exist_ok=True)
    return d / f"{prop_id}-{program_digest(viol['program'])}.json"


def write_replay(prop_id, seed, viol, key, path):
    path.write_text(json.dumps({
        "property": prop_id, "seed": seed, "run": viol.get("n"), "kind": viol["kind"], "message": viol["message"],
        "digest": viol["digest"], "sources": key, "program": viol["program"], "switches": viol.get("switches"),
        "events": viol.get("events", []), "where": viol.get("where"), "info": viol.get("info"),
    }, indent=1))
