"""Worker process: executes runs of one property, one JSON task per line on stdin."""

import json
import os
import random
import resource
import sys


def main():
    prop_id, build_dir = sys.argv[1], sys.argv[2]
    out = os.fdopen(os.dup(1), "w", buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("DSIM_DEBUG"):
        os.dup2(devnull, 2)

    # a runaway run must not take the sandbox along
    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))

    import numpy  # noqa: F401  (with real locks)
    import pyqir  # noqa: F401

    from dsim import faults, sched

    sched.patch_threading()
    faults.patch_entropy()
    sched.set_library(build_dir)
    import dwave.gate

    base = os.path.realpath(build_dir) + "/"
    import dwave.gate.registers.cyregister as cy
    import dwave.gate.simulator.simulator as sim

    for m in (dwave.gate, cy, sim):
        if not os.path.realpath(m.__file__).startswith(base):
            raise SystemExit(f"harness error: {m.__file__} is not from {base}")
    import warnings

    warnings.simplefilter("ignore")
    warm_up()

    from dsim.props import load

    prop = load(prop_id)
    print(json.dumps({"ready": True}), file=out)
    for line in sys.stdin:
        task = json.loads(line)
        for item in task["items"]:
            print(json.dumps({"begin": item["n"]}), file=out)
            res = execute(prop, item, task)
            print(json.dumps(res), file=out)
            if res.get("dirty"):
                return
        print(json.dumps({"done": task["id"]}), file=out)


def warm_up():
    """Does everything that the library does once per process, so that the first run is like any other."""
    import importlib
    import pkgutil

    import dwave.gate

    from dsim import lib

    for m in pkgutil.walk_packages(dwave.gate.__path__, "dwave.gate."):
        if not m.name.endswith(("operation_generation", "__main__")):
            try:
                importlib.import_module(m.name)
            except Exception:
                pass
    # CPython 3.12 delivers opcode events only after a first request
    def opcodes(frame, event, arg):
        frame.f_trace_opcodes = True
        return opcodes

    sys.settrace(opcodes)
    (lambda: None)()
    sys.settrace(None)

    lib.L.ops
    for name in list(lib.GATES) + ["Measurement", "Barrier"]:
        for attr in ("num_qubits", "num_control", "num_target", "num_parameters", "matrix", "decomposition"):
            try:
                getattr(getattr(lib.L.ops, name), attr)
            except Exception:
                pass


def make_program(prop, seed, idx, tier):
    rng = random.Random(f"{prop.ID}:{seed}:{idx}")
    program = prop.generate(rng, idx, tier)
    share = getattr(prop, "GUARDED", 0)
    if share:
        rng = random.Random(f"guard:{prop.ID}:{seed}:{idx}")
        if rng.random() < share:
            program["guard"] = rng.choice(("end", "start"))
    return program


_MALFORMED = (TypeError, AttributeError, IndexError, ValueError, KeyError)


def _from_library(e):
    """Whether an exception passed through the code under test, or is due to a malformed answer."""
    if isinstance(e, _MALFORMED):
        return True
    tb = e.__traceback__
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if "dwave/gate/" in name:
            return True
        tb = tb.tb_next
    return False


def execute(prop, item, task):
    import gc
    import traceback

    from dsim import faults
    from dsim.core import Recorder, Violation, dumps, program_digest

    program = item.get("program")
    res = {"n": item["n"]}
    rec = Recorder()
    try:
        if program is None:
            program = make_program(prop, task["seed"], item["n"], task["tier"])
        # programs are exactly what can be stored in a replay file
        program = json.loads(dumps(program))
        res["program_digest"] = program_digest(program)
        if task.get("want_program"):
            res["program"] = program
        faults.set_entropy(int(res["program_digest"][:8], 16))
        prop.reset()
        gc.disable()
        try:
            if program.get("guard"):
                with faults.guarded_arrays(program["guard"], rec):
                    prop.execute(program, rec)
            else:
                prop.execute(program, rec)
            res["ok"] = True
        finally:
            gc.enable()
    except Violation as v:
        res.update(ok=False, kind=v.kind, message=v.message, info=v.info, program=program, dirty=True)
        res["where"] = traceback.format_exc(limit=-6)
    except BaseException as e:
        if program is not None and _from_library(e):
            # not an answer the property allows, but an error of (or a malformed answer from) the
            # code under test
            kind = "unexpected-error:" + type(e).__name__
            res.update(ok=False, kind=kind, message=f"{type(e).__name__}: {e}", info={}, program=program, dirty=True)
            res["where"] = traceback.format_exc(limit=-8)
        else:
            res.update(ok=False, error=traceback.format_exc(), program=program, dirty=True)
    switches = getattr(rec, "switches", None)
    if switches is not None and not res.get("ok"):
        res["switches"] = switches
    res["counters"] = rec.counters
    res["states"] = sorted(rec.states)
    res["nontrivial"] = bool(rec.nontrivial)
    res["digest"] = rec.digest()
    res["steps"] = rec.steps
    if not res.get("ok") or task.get("want_program"):
        res["events"] = rec.events
    return res


if __name__ == "__main__":
    main()
