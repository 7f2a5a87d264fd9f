"""Confirms planted bugs in scratch copies of /repo and runs the checks against them.

usage: planted.py [--checks-only | --no-checks] [--all-checks] [id...]

For each /verif/seeded/<id>: the patch applies, the tree builds, the stable tests pass, demo.sh exits 0
without and nonzero with the patch; then whether the check of its property reports a violation.
"""

import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
ENV = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}


def sh(cmd, cwd="/", timeout=1200, env=None):
    r = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout, env=env or ENV)
    return r.returncode, r.stdout


def main(argv):
    opts = {a for a in argv if a.startswith("-")}
    ids = [a for a in argv if not a.startswith("-")] or sorted(p.name for p in (VERIF / "seeded").iterdir())
    tmp = Path(tempfile.mkdtemp(prefix="planted-"))
    copy = tmp / "repo"
    bad = []
    try:
        subprocess.check_call(["cp", "-a", "/repo", str(copy)])
        for name in ("build.sh", "test.sh"):
            s = Path("/opt/vp", name).read_text().replace("/opt/vp/build.sh", str(tmp / "build.sh"))
            s = re.sub(r"/repo\b", str(copy), s).replace("unset PYTHONPATH", f"export PYTHONPATH={copy}; unset DSIM_NOTHING")
            (tmp / name).write_text(s)
        stable = set(json.loads(Path("/opt/vp/BASELINE.json").read_text())["stable"])
        for i in ids:
            d = VERIF / "seeded" / i
            prop = json.loads((d / "meta.json").read_text())["property"]
            res = []
            demo = tmp / "demo"
            shutil.rmtree(demo, ignore_errors=True)
            shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
            if "--checks-only" not in opts:
                rc, out = sh(["bash", str(tmp / "build.sh")])
                if rc:
                    res.append("NO-BUILD-BEFORE")
                    print(out[-2000:])
                rc, out = sh(["bash", str(demo / "demo.sh")], cwd=copy, timeout=300)
                if rc:
                    res.append(f"DEMO-FAILS-UNPATCHED {out[-1500:]}")
            rc, out = sh(["git", "apply", str(d / "patch.diff")], cwd=copy)
            if rc:
                res.append("NO-APPLY " + out)
            if "--checks-only" not in opts:
                rc, out = sh(["bash", str(tmp / "test.sh"), str(tmp / "out.json")])
                missing = stable - set(json.loads((tmp / "out.json").read_text())["passed"])
                if missing:
                    res.append(f"TESTS {sorted(missing)[:6]} ({len(missing)})")
                rc, out = sh(["bash", str(tmp / "build.sh")])
                if rc:
                    res.append("NO-BUILD " + out[-1500:])
                rc, out = sh(["bash", str(demo / "demo.sh")], cwd=copy, timeout=300)
                if not rc:
                    res.append(f"DEMO-PASSES-PATCHED {out[-500:]}")
            hit = ""
            if "--no-checks" not in opts:
                props = [p for p in json.loads((VERIF / "MANIFEST.json").read_text())["checks"]]
                todo = [prop] if "--all-checks" not in opts else [prop] + sorted({p["property"] for p in props} - {prop})
                for p in todo:
                    rc, out = sh([sys.executable, str(VERIF / "check.py"), p], cwd=VERIF, env=dict(ENV, DSIM_REPO=str(copy)))
                    v = next((x for x in out.split("\n") if x.startswith("violation in")), "")
                    if rc != 1 and p == prop:
                        res.append(f"MISSED rc={rc} {out[-300:] if rc != 0 else ''}")
                    hit += f" {p}:{rc} {v[:170]}"
            print(f"{i} [{prop}]", "ok" if not res else "; ".join(res), hit, flush=True)
            if res:
                bad.append(i)
            sh("git checkout -q -- . && git clean -q -fd", cwd=copy)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print("bad:", bad)
    return 1 if bad else 0


sys.exit(main(sys.argv[1:]))
