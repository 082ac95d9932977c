"""Runs searches in this process as the host configured it and prints what they deliver, in order.
usage: hostdrv.py REPO < JSON list of [kind, dtype, rows]"""
import hashlib
import json
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
import numpy as np  # noqa: E402
from srg import solver, sorter  # noqa: E402
from srg.srg import SRG, Question, NoSolution  # noqa: E402


def one(kind, dtype, rows):
    a = np.array(rows, dtype=dtype)
    if kind == 'solve':
        return [np.asarray(m).tolist() for m in solver.solve(SRG(a))]
    if kind == 'report':
        return [np.asarray(m).tolist() for m in sorter.sort(solver.solve(SRG(a)))]
    if kind == 'advance':
        return [np.asarray(s.current_matrix).tolist() for s in solver.advance(SRG(a))]
    try:
        return [np.asarray(r).tolist() for r in solver.solve_question(Question.from_matrix(a))]
    except NoSolution:
        return []


out = []
for kind, dtype, rows in json.load(sys.stdin):
    r = one(kind, dtype, rows)
    out.append([len(r), hashlib.sha256(json.dumps(r).encode()).hexdigest()])
print(json.dumps(out))
