"""Runs a script many times, each in a forked process, with the file-fault shim loaded (C15).

Started with LD_PRELOAD; reads one JSON command per line and answers with the exit status. The
children run the script as the main program, as `python script` would in the present directory.
"""

import gc
import json
import os
import runpy
import signal
import sys


def child(script, cmd):
    os.environ["DSIM_FS_PLAN"] = cmd["plan"]
    os.environ["DSIM_FS_LOG"] = cmd["log"]
    sys.path[0] = os.path.dirname(script)
    sys.argv = [script]
    code = 0
    left = cmd.get("interrupt")
    if left is not None:
        def local(frame, event, arg):
            nonlocal left
            if event == "line":
                left -= 1
                if left == 0:
                    sys.settrace(None)
                    with open(cmd["log"] + ".interrupt", "w"):
                        pass
                    raise KeyboardInterrupt
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.endswith(os.path.basename(script)) else None

        sys.settrace(tracer)
    try:
        runpy.run_path(script, run_name="__main__")
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except BaseException:
        code = 1
    sys.settrace(None)
    gc.collect()  # as when the interpreter ends, errors of what is only now closed go unseen
    os._exit(code & 255)


def main():
    import cgen  # noqa: F401
    import numpy  # noqa: F401
    out = os.fdopen(os.dup(1), "w", buffering=1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    script = sys.argv[1]
    print(json.dumps({"ready": True}), file=out)
    for line in sys.stdin:
        cmd = json.loads(line)
        pid = os.fork()
        if pid == 0:
            child(script, cmd)
        signal.signal(signal.SIGALRM, lambda *a: os.kill(pid, signal.SIGKILL))
        signal.alarm(60)
        _, st = os.waitpid(pid, 0)
        signal.alarm(0)
        print(json.dumps({"status": os.waitstatus_to_exitcode(st)}), file=out)


if __name__ == "__main__":
    main()
