#!/opt/venv/bin/python
# encoding: utf-8
"""
python run.py C01 [quick|thorough] [--replay FILE]

Runs one check against the working tree of /repo (never a copy, never an installed package).
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")

if __name__ == "__main__":
    want = {
        "PYTHONHASHSEED": "0",
        "PYTHONDONTWRITEBYTECODE": "1",
        # bytecode lying about in /repo must not stand in for the sources
        "PYTHONPYCACHEPREFIX": "/nonexistent-pycache",
        "LC_ALL": "C.UTF-8",
        "TZ": "UTC",
    }
    if any(os.environ.get(k) != v for k, v in want.items()):
        os.environ.update(want)
        os.execv(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv)
    sys.path[:0] = [HERE, REPO]
    os.chdir(HERE)
    pid = sys.argv[1]
    from mc import harness

    sys.exit(harness.main("checks." + pid.lower(), sys.argv[2:]))
