import json
import os
import shutil
import subprocess
import sys
from pathlib import Path

from dsim import gen
from dsim.core import Violation
from dsim.props import Property

SCRIPT = "dwave/gate/simulator/operation_generation.py"
FILES = ("dwave/gate/simulator/ops.h", "dwave/gate/simulator/ops.pxd")
ERRORS = ("enospc", "eio", "emfile", "shorterr", "shortonce", "lost")
CRASHES = ("crash", "crashafter", "tear")
BENIGN = ("short", "eintr")
LEFT = ("none", "empty", "prefix", "flip", "garbage", "longer", "other", "right")


class C15(Property):
    ID = "C15"
    RUNS = {"quick": 1000, "thorough": 40000}
    BUDGET = {"quick": 60, "thorough": 700}
    CHUNK = 5
    RULE = ("a run is a sequence of 1-6 runs of the generator in a scratch directory over what is there: nothing, a complete output, or damaged ones (empty, prefix, a byte "
            "flipped, other contents, longer); file operations fail, write short or end the process, at any number of points, or the generator is interrupted at any line; "
            "the last runs are made without faults; non-trivial if a fault fired or files were left; distinct by program digest")
    REAL = "the generator script (CPython, cgen, numpy) and the file system"
    STUBS = "open, write, close, rename, unlink, fsync, ftruncate in the scratch directory through a shim that may fail them"
    STATES = "(state of either file, file operation and fault, exit status)"
    ASSUMPTIONS = ["the disk keeps what it acknowledged, but may find only when a file is synchronised or closed, and then report, that written data are lost", "runs of the generator do not overlap"]
    LISTS = ("steps", "plan")

    def generate(self, rng, idx, tier):
        kinds = gen.swarm(rng, list(ERRORS + CRASHES + BENIGN))
        steps = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 5])):
            s = {"hash": rng.choice([0, 0, 1])}
            k = rng.random()
            if k < 0.75:
                at = set()
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    at.add(rng.randrange(6) if rng.random() < 0.8 else gen.log_uniform(rng, 60))
                s["plan"] = [[n, rng.choice(kinds)] for n in sorted(at)]
            elif k < 0.9:
                s["interrupt"] = gen.log_uniform(rng, 6000)
            steps.append(s)
        left = [rng.choice(LEFT) if rng.random() < 0.5 else "none" for _ in FILES]
        return {"left": left, "where": rng.random(), "steps": steps, "last": {"hash": rng.choice([0, 1]), "exec": rng.random() < 0.03, "seed": rng.randrange(2**32)}}

    def execute(self, prog, rec):
        world().run(prog, rec)

    def reset(self):
        pass


class World:
    """A scratch directory with the generator, and the processes that run it."""

    def __init__(self):
        build = Path(os.environ["DSIM_BUILD"])
        # removed by the process that started this one
        self.root = Path(os.environ["DSIM_SCRATCH"])
        self.root.mkdir(mode=0o700)
        self.tree = self.root / "tree"
        for p in sorted((build / "dwave").rglob("*")):
            rel = p.relative_to(build).as_posix()
            if p.is_file() and p.suffix in (".py", ".pyx", ".pxd", ".h") and rel not in FILES:
                (self.tree / rel).parent.mkdir(parents=True, exist_ok=True)
                shutil.copyfile(p, self.tree / rel)
        self.log = self.root / "log"
        self.base = {p for p in self.tree.rglob("*")}
        self.env = dict(os.environ, LD_PRELOAD=str(build / "fsfault.so"), DSIM_FS_ROOT=str(self.tree), PYTHONDONTWRITEBYTECODE="1")
        self.env.pop("PYTHONPATH", None)
        self.zygotes = {}
        self.reference = [(build / f).read_bytes() for f in FILES]
        self.clear()

    def clear(self):
        for p in sorted(self.tree.rglob("*"), reverse=True):
            if p not in self.base:
                p.unlink() if not p.is_dir() else p.rmdir()

    def start(self, h):
        if h not in self.zygotes:
            z = subprocess.Popen([sys.executable, str(Path(__file__).resolve().parent.parent / "zygote.py"), SCRIPT], cwd=self.tree,
                                 env=dict(self.env, PYTHONHASHSEED=str(h * 7919)), stdin=subprocess.PIPE, stdout=subprocess.PIPE)
            assert json.loads(z.stdout.readline())["ready"]
            self.zygotes[h] = z
        return self.zygotes[h]

    def generator(self, s):
        """Runs the generator; returns (exit status, file operations, whether it was interrupted)."""
        for f in (self.log, Path(str(self.log) + ".interrupt")):
            if f.exists():
                f.unlink()
        plan = ",".join(f"{n}:{k}" for n, k in s.get("plan", []))
        if s.get("exec"):
            env = dict(self.env, PYTHONHASHSEED=str(s["seed"]), DSIM_FS_PLAN=plan, DSIM_FS_LOG=str(self.log))
            st = subprocess.run([sys.executable, SCRIPT], cwd=self.tree, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=80).returncode
        else:
            z = self.start(s["hash"])
            z.stdin.write((json.dumps({"plan": plan, "log": str(self.log), "interrupt": s.get("interrupt")}) + "\n").encode())
            z.stdin.flush()
            st = json.loads(z.stdout.readline())["status"]
        ops = [x.split() for x in self.log.read_text().splitlines()] if self.log.exists() else []
        return st, ops, Path(str(self.log) + ".interrupt").exists()

    def leave(self, what, i, where):
        p, ref = self.tree / FILES[i], self.reference[i]
        k = int(where * len(ref))
        data = {"none": None, "empty": b"", "prefix": ref[:k], "flip": ref[:k] + bytes([ref[k] ^ 1]) + ref[k + 1:], "garbage": b"x" * len(ref), "longer": ref + ref[k:],
                "other": b"/* another version */\n", "right": ref}[what]
        if data is not None:
            p.write_bytes(data)

    def states(self):
        r = []
        for f, ref in zip(FILES, self.reference):
            p = self.tree / f
            if not p.exists():
                r.append("missing")
            else:
                d = p.read_bytes()
                r.append("complete" if d == ref else "empty" if not d else "prefix" if ref.startswith(d) else "other")
        return r

    def run(self, prog, rec):
        self.clear()
        for i, what in enumerate(prog["left"]):
            if what != "none":
                rec.count("left:" + what)
                rec.nontrivial = True
            self.leave(what, i, prog["where"])
        steps = prog["steps"] + [prog["last"]]
        for k, s in enumerate(steps):
            st, ops, interrupted = self.generator(s)
            fired = [f for _, _, f in ops if f != "-"]
            for f in fired:
                rec.fault(f)
            if interrupted:
                rec.fault("interrupt")
            state = self.states()
            rec.steps += max(1, len(ops))
            rec.log(k, st, ops, state)
            rec.state(state, [(o, f) for _, o, f in ops], st)
            what = f"run {k} of the generator ({'file operations: ' + ', '.join(f'{o} {f}' for _, o, f in ops) if fired else 'interrupted' if interrupted else 'no faults'})"
            if st == 0:
                rec.count("successful runs")
                if state != ["complete", "complete"]:
                    raise Violation("incomplete", f"{what} reports success, but ops.h and ops.pxd are {state}")
            else:
                rec.count("failed runs")
                if not interrupted and all(f in BENIGN for f in fired):
                    raise Violation("failed", f"{what} fails with status {st} although nothing that it cannot get over happened")


_world = []


def world():
    if not _world:
        _world.append(World())
    return _world[0]


PROP = C15()
