"""Regenerates sim/prefixes.json: library lines needed from prefixes of known graphs.
Only used to choose affordable workloads (and, times a large factor, as C14's step bound).
Run by hand: /opt/venv/bin/python -m sim.measure [wide]"""
import json
import os
import random
import sys
from multiprocessing import Pool

from . import core, graphs, ref, sched, work
from .core import Choices, Ctx, Violation, arr

ONE, TREE, PER = 400_000, 300_000, 70


def one(job):
    name, seed = job
    core.install_seams()
    rng = random.Random(seed)
    p, A = graphs.catalogue()[name]
    v = p[0]
    out = []
    for n in range(PER):
        lab = rng.randrange(1 << 30)
        r = rng.random()
        R = rng.randrange(2, v) if r < 0.6 else max(2, v - 1 - int(rng.expovariate(0.25))) if r < 0.9 else 2 + int(rng.expovariate(0.4)) % (v - 2)
        M = ref.canonical_labelling(A, random.Random(lab))[:R]
        try:
            ref.next_rows(M, *p, limit=20000)
        except ref.TooBig:
            continue
        inst = core.Inst()
        lines = tree = None
        with inst:
            try:
                lines = sched.run_alone(Ctx(Choices(1)), lambda t: list(inst.advance(arr(M))), max_steps=ONE).steps
            except Violation:
                continue
            try:
                ref.tree_cost(M, *p, limit=4000)
                tree = sched.run_alone(Ctx(Choices(1)), lambda t: list(inst.solve(arr(M))), max_steps=TREE).steps
            except (ref.TooBig, Violation):
                pass
        out.append([name, lab, R, lines, tree])
    return out


def rich():
    """Starting points with real branching: several rows fit at some step."""
    out = {'cand': [], 'params': []}
    for name, lab, R, lines, tree in work.measured():
        if lines > 60000:
            continue
        p, M = work.start(['graph', name, lab, R])
        try:
            n = len(list(ref.next_rows(M, *p, limit=20000)))
        except ref.TooBig:
            continue
        if n >= 3:
            out['cand'].append([['graph', name, lab, R], lines, n])
    for p, s, n in work.costs():
        if s > 100000:
            continue
        front, w = [ref.seed_rows(*p)], 0
        while front:
            new = []
            for M in front:
                if len(M) < p[0]:
                    r = list(ref.next_rows(M, *p))
                    w = max(w, len(r))
                    new += [M + (x,) for x in r]
            front = new
        if w >= 2:
            out['params'].append([list(p), s, w])
    with open(os.path.join(os.path.dirname(__file__), 'rich.json'), 'w') as f:
        f.write(json.dumps(out) + '\n')


def forks():
    """Starting points from which the search really branches within a row (most rows follow by propagation alone)."""
    core.install_seams()
    jobs = [(['graph', n, lab, R], one, tree) for n, lab, R, one, tree in work.measured()] + \
           [(['seed', *p], s, s) for p, s, n in work.costs()]
    jobs = [j for j in jobs if j[1] and j[1] <= 60000 or j[2] and j[2] <= 60000]
    with Pool(8) as pool:
        res = [x for x in pool.imap(fork_one, jobs, chunksize=20) if x]
    with open(os.path.join(os.path.dirname(__file__), 'forks.json'), 'w') as f:
        f.write('[\n' + ',\n'.join(json.dumps(x, separators=(',', ':')) for x in res) + '\n]\n')
    print(len(res), 'starts with branching')


def fork_one(job):
    start, one, tree = job
    p, M = work.start(start)
    inst = core.Inst()
    out = []
    with inst:
        m = sys.modules[inst.solver.__name__]
        real, n = m.fork_enum, [0]

        def counted(*a):
            n[0] += 1
            return real(*a)
        m.fork_enum = counted
        for lines, f in ((one, inst.advance), (tree, inst.solve)):
            n[0] = 0
            if lines and lines <= 60000:
                try:
                    k = len(list(f(arr(M))))
                except inst.NoSolution:
                    k = 0
                out.append([lines, n[0], k] if n[0] else None)
            else:
                out.append(None)
    return [start, *out] if any(out) else None


def wide():
    """Whole searches with a wide level.  Hours; sim/wide.json was put together from several such sweeps."""
    core.install_seams()
    jobs = [['graph', n, lab, R] for n in sorted(graphs.catalogue()) for lab in range(6) for R in range(2, graphs.catalogue()[n][0][0] - 2)] + \
           [['seed', *p] for v in range(5, 46) for p in ref.feasible(v)]
    with Pool(8) as pool:
        res = [x for x in pool.imap_unordered(wide_one, jobs) if x]
    with open(os.path.join(os.path.dirname(__file__), 'wide.json'), 'w') as f:
        f.write('[\n' + ',\n'.join(json.dumps(x, separators=(',', ':')) for x in sorted(res, key=lambda x: x[1])) + '\n]\n')


def wide_one(start):
    """[start, library calls, graphs, widest level]; the graphs are compared with the reference's."""
    p, M = work.start(start)
    try:
        want = len(ref.completions(M, *p, limit=200_000))
    except ref.TooBig:
        return None
    inst = core.Inst()
    try:
        with inst, core.budget(60_000_000) as left:
            width, done, level = 0, 0, [arr(M)]
            while level:
                new = [x.current_matrix for P in level for x in inst.advance(P)]
                done += sum(x.shape[0] == x.shape[1] for x in new)
                level = [x for x in new if x.shape[0] < x.shape[1]]
                width = max(width, len(level))
            lines = 60_000_000 - left[0]
    except core.OverBudget:
        return None
    assert done == want, (start, done, want)
    return [start, lines, done, width] if width >= 30 else None


if __name__ == '__main__':
    if sys.argv[1:] == ['wide']:
        sys.exit(wide())
    jobs = [(n, i) for i, n in enumerate(sorted(graphs.catalogue())) if graphs.catalogue()[n][0][0] >= 8]
    jobs.sort(key=lambda j: -graphs.catalogue()[j[0]][0][0])
    with Pool(8) as pool:
        res = [x for part in pool.imap(one, jobs, chunksize=1) for x in part]
    res.sort()
    with open(os.path.join(os.path.dirname(__file__), 'prefixes.json'), 'w') as f:
        f.write('[\n' + ',\n'.join(json.dumps(x, separators=(',', ':')) for x in res) + '\n]\n')
    print(len(res), 'prefixes', sum(1 for x in res if x[4]), 'with tree')
    rich()
    forks()
