"""Runs the random actions given on standard input; one process of the reproducibility check of C23."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from d_data import *
jobs = json.loads(sys.stdin.read())
out = []
for key, plan in jobs:
    r, err = call(lambda: run_actions(key, plan))
    out.append(dict(r=r if err == "" else [], err=err))
print("\nOUT " + json.dumps(out))
