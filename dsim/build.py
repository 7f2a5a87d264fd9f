"""Builds the code under test from /repo's present working tree, outside /repo.

Every check works on a copy of the sources in ``/verif/.build/<hash of the sources>``: the kernel
sources are generated there by the project's own script and the extensions are compiled there. The
shared objects that may lie around in /repo are never used. The small native parts of the simulator
(failing allocator and scripted random generator, file-fault shim) are compiled next to it.
"""

import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("DSIM_REPO", "/repo"))
CACHE = VERIF / ".build"
PYTHON = "/opt/venv/bin/python"
NATIVE = Path(__file__).resolve().parent / "native"

SKIP_SUFFIX = {".so", ".cpp", ".c", ".pyc", ".o", ".html"}
GENERATED = {"dwave/gate/simulator/ops.h", "dwave/gate/simulator/ops.pxd"}


class BuildError(Exception):
    pass


def _files():
    for name in ("setup.py", "pyproject.toml"):
        p = REPO / name
        if p.is_file():
            yield name, p
    for p in sorted((REPO / "dwave").rglob("*")):
        rel = p.relative_to(REPO).as_posix()
        if not p.is_file() or p.suffix in SKIP_SUFFIX or "__pycache__" in p.parts or rel in GENERATED:
            continue
        yield rel, p


def _clean_env():
    env = {k: v for k, v in os.environ.items()
           if k not in ("PYTHONPATH", "CFLAGS", "CXXFLAGS", "LDFLAGS", "LD_PRELOAD", "PYTHONHASHSEED")}
    env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    return env


def _run(cmd, cwd, env):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode:
        raise BuildError(f"{' '.join(map(str, cmd))} exited with {r.returncode}:\n{r.stdout[-4000:]}")


def _native(into):
    env = _clean_env()
    inc = subprocess.check_output(
        [PYTHON, "-c", "import numpy,sysconfig;print(numpy.get_include());print(sysconfig.get_paths()['include']);print(sysconfig.get_config_var('EXT_SUFFIX'))"],
        env=env, text=True).split("\n")
    _run(["gcc", "-O1", "-shared", "-fPIC", f"-I{inc[0]}", f"-I{inc[1]}", "-o", str(into / ("dsim_native" + inc[2])),
          str(NATIVE / "dsim_native.c")], into, env)
    _run(["gcc", "-O1", "-shared", "-fPIC", "-o", str(into / "fsfault.so"), str(NATIVE / "fsfault.c"), "-ldl"], into, env)


def ensure():
    """Returns (directory with the built package and natives, hash of the sources)."""
    h = hashlib.sha256()
    h.update(sys.version.encode())
    contents = []
    for rel, p in _files():
        data = p.read_bytes()
        contents.append((rel, data))
        h.update(rel.encode() + b"\0" + hashlib.sha256(data).digest())
    for p in sorted(NATIVE.iterdir()):
        h.update(p.read_bytes())
    h.update(Path(__file__).read_bytes())
    key = h.hexdigest()[:20]
    CACHE.mkdir(parents=True, exist_ok=True)
    final = CACHE / key
    with open(CACHE / ".lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if (final / ".done").is_file():
            os.utime(final / ".done")
            return final, key
        if final.exists():
            shutil.rmtree(final)
        tmp = Path(tempfile.mkdtemp(prefix="tmp-", dir=CACHE))
        try:
            for rel, data in contents:
                (tmp / rel).parent.mkdir(parents=True, exist_ok=True)
                (tmp / rel).write_bytes(data)
            env = _clean_env()
            _run([PYTHON, "dwave/gate/simulator/operation_generation.py"], tmp, env)
            _native(tmp)
            _run([PYTHON, "setup.py", "-q", "build_ext", "--inplace", "--force", "-j", "4"], tmp, dict(env, CFLAGS="-O1"))
            for d in ("build",):
                if (tmp / d).is_dir():
                    shutil.rmtree(tmp / d)
            (tmp / ".done").write_text(time.strftime("%F %T"))
            os.rename(tmp, final)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
        # keep the most recent builds, and those that may be in use
        old = sorted((p for p in CACHE.iterdir() if (p / ".done").is_file() and p != final),
                     key=lambda p: (p / ".done").stat().st_mtime, reverse=True)
        for n, p in enumerate(old):
            if n >= 4 and (n >= 60 or time.time() - (p / ".done").stat().st_mtime > 3600):
                shutil.rmtree(p, ignore_errors=True)
    return final, key


if __name__ == "__main__":
    t = time.time()
    print(*ensure(), f"{time.time() - t:.1f} s")
