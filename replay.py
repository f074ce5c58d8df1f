#!/usr/bin/env python3
"""Runs a recorded violation against /repo's current tree: replay.py FILE."""
import json
import os
import shutil
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check  # noqa: E402

d = json.load(open(sys.argv[1]))
os.makedirs(check.ROOT + "/build", exist_ok=True)
work = tempfile.mkdtemp(dir=check.ROOT + "/build")
try:
    out, show = check.reproduce(check.build_replay(work), (d["entry"], d["params"]), d)
    print("\n".join(show))
    print(out or "not reproduced")
finally:
    shutil.rmtree(work, ignore_errors=True)
sys.exit(1 if out else 0)
