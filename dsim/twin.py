"""A further process of the system: answers requests with functions of a property module.

Started by simulations that need another process (with another hash seed). It only answers requests, one
at a time, so that its timing cannot matter.
"""

import json
import os
import subprocess
import sys


class Twin:
    def __init__(self, prop_id, hashseed, env=None):
        from dsim import build

        e = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        e.update(env or {})
        self.p = subprocess.Popen([build.PYTHON, "-m", "dsim.twin", prop_id], env=e, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def ask(self, request):
        self.p.stdin.write((json.dumps(request) + "\n").encode())
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            return {"error": f"process ended with status {self.p.wait()}"}
        return json.loads(line)


def main():
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    from dsim.props import load

    prop = load(sys.argv[1])
    for line in sys.stdin:
        try:
            r = prop.answer(json.loads(line))
        except Exception as e:
            r = {"error": f"{type(e).__name__}: {e}"}
        print(json.dumps(r), file=out)


if __name__ == "__main__":
    main()
