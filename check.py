#!/opt/venv/bin/python
"""check.py ID                 runs the check of a property (VERIF_SEED, VERIF_TIER)
check.py --replay FILE        executes the program of a replay file again; exit 1 if it fails as recorded
check.py --setup              builds the code under test and the simulator
check.py --selftest           proves determinism of the simulations (see DESIGN.md)
"""
import sys
import os

PYTHON = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") and os.path.exists(PYTHON):
    os.execv(PYTHON, [PYTHON, os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dsim.cli import main

sys.exit(main(sys.argv[1:]))
