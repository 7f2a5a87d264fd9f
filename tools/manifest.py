"""Writes MANIFEST.json from the implemented property modules (run by hand after adding one)."""
import json
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF))
from dsim.props import ALL, load  # noqa: E402

TECH = "deterministic simulation with fault injection: seeded search over {}"
OVER = {
    "C01": "programs of contexts, freezes, templates and edits with failing calls and interruptions, against a reference model",
    "C02": "thread schedules (simulated scheduler), exceptions and interruptions, against a model of the context slot",
    "C03": "thread schedules and nested uses of finished circuits, compared with results in isolation",
    "C04": "thread schedules of identifier generation up to exhaustion",
    "C05": "histories of register calls with failing callbacks, against a sequence model",
    "C06": "histories of register, qubit and bit additions and resets with refused and failing calls, against a model",
    "C07": "circuits and scripted random draws, against an independent trajectory oracle",
    "C08": "histories of simulations with failing allocations, warnings, callbacks and interruptions, against an oracle",
    "C09": "histories of sampling with scripted draws, failures and interruptions, against joint Born probabilities",
    "C10": "processes, hash seeds, thread schedules and prior activity; results must be identical",
    "C11": "nestings of template applications and evaluations with refused calls and exceptions, against a substitution model",
    "C12": "edit histories with failing and interrupted computations, against independent matrices",
    "C13": "export/import histories with interruptions and torn or corrupted texts, against the circuits",
    "C14": "edit and export histories with interruptions and failures, against an independent QASM reader",
    "C15": "failing, short and killed file operations and leftovers (system-call shim), against fault-free output",
    "C16": "module call histories with failing and interrupted compilations, against fresh modules",
    "C21": "histories of draws with scripted and failing generators, failing allocations and refused arrays, against the Born rule",
    "C22": "histories of values set, refused and forced, failing conversions and comparisons, and interruptions, against a model",
    "C17": "histories of states set and simulated with failures, against a model of the latest state",
}
NOTE = ("Exploration: every run's program, schedule, random draws and faults follow from VERIF_SEED and are replayable; nothing is proven beyond the runs made. "
        "Trusts the oracles in dsim/ (own gate matrices, trajectories, models), CPython, numpy and the compilers used for the build. {}")
NA = {
    "C18": "A pure function of its parameters: no state, schedule, time, I/O, randomness or failure for a simulation to decide. (The checks of C07 and C12 compare simulations and unitaries with independently defined gates.)",
    "C19": "A pure function of its arguments: nothing nondeterministic or stateful for a simulation to control. (C12 compares unitaries of controlled operations with an independent oracle.)",
    "C20": "A descriptor without state, I/O, time or concurrency; its behaviour is a function of class and instance.",
}
LEVEL = {}

checks, na = [], []
for pid in ALL:
    try:
        p = load(pid)
    except ModuleNotFoundError as e:
        if e.name != f"dsim.props.{pid.lower()}":
            raise
        na.append({"property": pid, "reason": "check under construction"})
        continue
    checks.append({
        "property": pid, "quick_cmd": f"python3 check.py {pid}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {pid}",
        "evidence_file": f"evidence/{pid}.json", "technique": TECH.format(OVER[pid]), "level": "exploration",
        "level_note": NOTE.format("Assumes: " + "; ".join(p.ASSUMPTIONS) + "." if p.ASSUMPTIONS else "").strip(),
    })
na += [{"property": k, "reason": v} for k, v in NA.items()]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams (system calls, allocations, thread switches, random draws, callbacks) are taken from outside. See DESIGN.md."}
(VERIF / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
