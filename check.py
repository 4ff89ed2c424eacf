#!/opt/venv/bin/python
"""check.py <PROPERTY> [--replay FILE]: deterministic simulation of one property."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from dst import env
env.reexec_if_needed()
from dst import run
if __name__ == "__main__":
    rc = run.main(sys.argv[1:])
    sys.stdout.flush()
    sys.exit(rc)
