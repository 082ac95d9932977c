"""C13: relabelling preserves the graph under any tie-breaking, interleaving and repetition."""
import random

from .. import core, faults, graphs, ref, runner, sched, work
from ..core import Violation, arr, rows_of

PROP = 'C13'
RUNS = {'quick': 1200, 'thorough': 40000}
RULE = ('a run = 1-8 relabellings of known strongly regular graphs under random vertex orders, integer types and memory layouts, with the tie '
        'order of the unstable sort drawn anew for every call and array, in one thread or interleaved at every line, some interrupted at seeded '
        'instructions and repeated, some applied to their own result; each result must be the matrix of an isomorphic graph with canonical '
        'first rows and the input unchanged; distinct by the hash of the log; non-trivial = a graph with ties to break was relabelled')
STATES = 'distinct (graph, result) pairs'
REAL = ['srg.sorter.maximize and everything it uses', 'numpy']
STUB = ['the order numpy gives to equal entries in an unstable sort', 'thread scheduler', 'the source of failures']
ASSUMPTIONS = ['isomorphism is decided by sim/ref.py (refinement with backtracking)']

_names = None


def names(big):
    return [n for n in work.small_graphs(64 if big else 36)]


def scenario(rng, tier, i):
    big = rng.random() < 0.15
    pool = sorted(graphs.large()) if rng.random() < 0.06 else names(big)
    threads = rng.choice([0, 0, 2, 3])
    n = rng.choice([1, 2, 4, 8])
    if pool[0] in graphs.large():
        n, threads = rng.choice([1, 2]), rng.choice([0, 0, 0, 2])
    def call():
        return [rng.choice(pool), rng.randrange(1 << 30), rng.choice(['int8', 'int8', 'int16', 'int32', 'int64']),
                rng.choice(['plain', 'plain', 'fortran', 'readonly', 'view']), rng.randrange(1 << 30),
                rng.choice([0, 0, 1, 2]), rng.choice(['random', 'random', 'random', 'cat', 'canonical', 'host'])]
    sc = {'calls': [call() for _ in range(max(n, threads))], 'threads': threads, 'gran': rng.choice(['line', 'line', 'opcode']),
          'policy': rng.choice([['geo', 1], ['geo', 5], ['geo', 40]]), 'opt': rng.choice([-1, -1, 1]), 'faults': []}
    sc['scribble'] = not threads and rng.random() < 0.4
    if threads and rng.random() < 0.4:
        sc['same'] = True        # every thread relabels the same input object
    if rng.random() < 0.5:
        sc['faults'] = [[rng.randrange(len(sc['calls'])), faults.spot(rng), faults.kind(rng)] for _ in range(rng.choice([1, 1, 3]))]
    return sc


def build(call):
    name, perm, dtype, layout = call[:4]
    p, A = graphs.get(name)
    M = ref.canonical_labelling(A, random.Random(perm)) if call[6] == 'canonical' else A if call[6] == 'cat' else work.permuted(A, perm)
    a = arr(M, dtype)
    if layout == 'fortran':
        a = core.np.asfortranarray(a)
    elif layout == 'readonly':
        a.setflags(write=False)
    elif layout == 'view':
        b = core.np.zeros((len(M) * 2, len(M) * 2), dtype)
        b[::2, ::2] = a
        a = b[::2, ::2]
    return a, M


def check(call, got, a, M, where, ctx):
    work.check_result(['maximize', call[0], call[1]], got, where)
    if rows_of(a) != M:
        raise Violation('input-changed', f'{where}{call[0]}: the graph passed in was modified')
    ctx.state(call[0], got)
    ctx.count('relabellings')


def relabel(inst, a, times):
    for _ in range(1 + times):
        a = inst.sorter.maximize(a)
    return rows_of(a)


class Ties:
    """Per-thread tie orders, so that a schedule does not change what another thread sees."""

    def __init__(self):
        self.by = {}
        self.main = core.Ties(0)

    def order(self, arr):
        t = sched.current()
        return self.by.get(t.idx if t else None, self.main).order(arr)


def execute(sc, ctx):
    core.OPTIMIZE['level'] = sc['opt']
    inst = core.Inst()
    ties = Ties()
    built = [build(c) for c in sc['calls']]
    if sc.get('same'):
        built = [built[0]] * len(built)
        sc = dict(sc, calls=[sc['calls'][0][:4] + c[4:6] + [sc['calls'][0][6]] for c in sc['calls']])
    core.TIES['fired'] = 0

    def arm(c, idx=None):
        core.TIES['rng'] = None if c[6] == 'host' and not sc['threads'] else ties
        r = core.Ties(c[4])
        if idx is None:
            ties.main = r
        else:
            ties.by[idx] = r
    if sc['threads']:
        sim = sched.Sim(ctx, policy=tuple(sc['policy']))

        def fn(j):
            def go(task):
                out = []
                for n in range(j, len(sc['calls']), sc['threads']):
                    arm(sc['calls'][n], task.idx)
                    task.pause(n)
                    with core.library(f'thread {j}'):
                        out.append((n, relabel(inst, built[n][0], sc['calls'][n][5])))
                return out
            return go
        with inst:
            for j in range(sc['threads']):
                sim.add(f't{j}', fn(j), gran=sc['gran'])
            for t in sim.run():
                if t.error is not None:
                    raise t.error
                for n, got in t.result:
                    check(sc['calls'][n], got, *built[n], 'interleaved: ', ctx)
    else:
        with inst:
            for n, c in enumerate(sc['calls']):
                arm(c)
                fl = [(f[1], f[2]) for f in sc['faults'] if f[0] == n]
                if fl:
                    t = sched.run_alone(ctx, lambda t: relabel(inst, built[n][0], c[5]), (), sc['gran'], trail=True)
                    if t.error is not None:
                        raise Violation('unexpected-exception', f'{c[0]}: {type(t.error).__name__}: {str(t.error)[:200]} at {core.library_frame(t.error)}')
                    steps, trail = t.steps, t.trail
                    for x, kind in fl:
                        arm(c)
                        t = sched.run_alone(ctx, lambda t: relabel(inst, built[n][0], c[5]), [(faults.at(x, steps, trail), kind)], sc['gran'])
                        if t.error is None:
                            check(c, t.result, *built[n], f'with {kind} inside: ', ctx)
                        elif not core.caused_by_injection(t.error):
                            raise t.error
                        if rows_of(built[n][0]) != built[n][1]:
                            raise Violation('input-changed', f'{c[0]}: modified by an interrupted relabelling')
                with core.library(f'relabelling {c[0]}'):
                    got = relabel(inst, built[n][0], c[5])
                check(c, got, *built[n], '', ctx)
                ctx.log.add(c[0], hash_of(got))
                if sc.get('scribble'):      # the result belongs to the caller, who may write into it
                    with core.library(f'relabelling {c[0]}'):
                        r = inst.sorter.maximize(built[n][0])
                    check(c, rows_of(r), *built[n], 'again: ', ctx)
                    if r.flags.writeable and not core.np.shares_memory(r, built[n][0]):
                        r[...] = 0
                        arm(c)
                        with core.library(f'relabelling {c[0]}'):
                            got = relabel(inst, built[n][0], 0)
                        check(c, got, *built[n], 'again, after the first result was overwritten: ', ctx)
                        ctx.count('overwritten')
    core.TIES['rng'] = None
    if core.TIES['fired']:
        ctx.count('fault.tie-order', core.TIES['fired'])
        ctx.key = ctx.log.digest()


def hash_of(rows):
    return core.derive(rows)


def shrink(sc):
    if sc['threads']:
        yield dict(sc, threads=0)
    for l in runner.shrink_list(sc['faults']):
        yield dict(sc, faults=l)
    if not sc['faults']:
        for l in runner.shrink_list(sc['calls']):
            if l:
                yield dict(sc, calls=l)
    for n, c in enumerate(sc['calls']):
        for j, d in ((2, 'int8'), (3, 'plain'), (5, 0), (6, 'cat')):
            if c[j] != d:
                yield dict(sc, calls=sc['calls'][:n] + [c[:j] + [d] + c[j + 1:]] + sc['calls'][n + 1:])
        for s in ('multipartite2x2', 'paley5', 'lattice3'):
            if c[0] != s and s in graphs.catalogue():
                yield dict(sc, calls=sc['calls'][:n] + [[s] + c[1:]] + sc['calls'][n + 1:])
    if sc['opt'] != -1:
        yield dict(sc, opt=-1)
