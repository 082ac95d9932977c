"""C02: the enumeration is complete however it is scheduled, lost, repeated and restarted."""
import random

from .. import core, farm, graphs, ref, runner, work
from ..core import Violation, arr, rows_of

PROP = 'C02'
RUNS = {'quick': 1100, 'thorough': 12000}
RULE = ('a run = one simulated search farm (coordinator with journal, 1-4 workers running the real search, unreliable '
        'network, crashes, torn journal, clock jumps) over the whole tree of a parameter set or prefix, or over a bounded '
        'number of partial graphs of a large one, or one whole search with levels of up to thousands of partial graphs; every accepted result is compared with the reference enumeration; '
        'non-trivial = at least 3 results accepted; distinct by the hash of the event log')
STATES = 'distinct partial graphs extended'
REAL = ['srg.solver, srg.srg and all helpers (one fresh copy of the modules per worker process)', 'numpy']
STUB = ['network', 'disk of the coordinator', 'clocks', 'worker processes (module copies in one process)',
        'coordinator (part of the workload, not of the library)']
ASSUMPTIONS = ['reference model sim/ref.py']


def _dive(rng, spec, limit):
    """A random partial graph below the start (valid, usually a dead end later)."""
    p, M = work.start(spec)
    depth = rng.randrange(0, max(1, p[0] - len(M)))
    for _ in range(depth):
        try:
            rows = ref.next_rows(M, *p, limit=limit)
        except ref.TooBig:
            return None
        if not rows or len(M) + 1 >= p[0]:
            break
        M = M + (rng.choice(rows),)
    return p, M


def scenario(rng, tier, i):
    full = rng.random() < 0.5
    big = tier == 'thorough' and rng.random() < 0.3
    if i % 35 == 17 or i % 150 == 40:
        hi, many = (20_000_000, 20_000_000) if tier == 'thorough' else (2_600_000, 8_000_000)
        spec, calls, graphs_, width = work.pick_wide(i // 35, hi, many) if i % 35 == 17 else work.pick_wide_empty(rng, hi)
        return {'wide': spec, 'frontier': [], 'calls': 20 * calls + 10000, 'cost': calls, 'width': width,
                'killed': [rng.random() * rng.random() for _ in range(rng.choice([0, 0, 1, 1, 2]))] if calls < 2_600_000 else []}
    sc = {'workers': rng.choice([1, 2, 2, 3, 4])}
    if full:
        spec = work.pick_start(rng, 400000 if big else 90000, 0.3)
        p, M = work.start(spec)
        sc['frontier'] = [farm.pack(M)]
        sc['params'] = list(p)
        sc['bound'] = 400
        sc['calls'] = 2_000_000
    else:
        lim = rng.choice([200, 400, 1000, 3000]) * (3 if big else 1)
        mode = rng.random()
        if mode < 0.5:
            names = [n for n, (p, A) in sorted(graphs.catalogue().items()) if p[0] >= 8]
            name = rng.choice(names)
            p, A = graphs.catalogue()[name]
            fr = []
            for _ in range(rng.choice([4, 8, 12])):
                R = rng.choice([2, 2, 3, 4]) if rng.random() < 0.3 else rng.randrange(2, p[0])
                fr.append(farm.pack(ref.canonical_labelling(A, rng)[:R]))
        else:
            p = work.pick_params(rng, 10**9, 9) if rng.random() < 0.7 else _random_params(rng)
            fr = []
            for _ in range(rng.choice([3, 6, 10])):
                d = _dive(rng, ['seed', *p], lim)
                if d and len(d[1]) < p[0]:
                    fr.append(farm.pack(d[1]))
        keep, seen = [], set()
        for f in fr:
            try:
                ref.next_rows(farm.unpack(f), *p, limit=lim)
            except ref.TooBig:
                continue
            if tuple(f) not in seen:
                seen.add(tuple(f))
                keep.append(f)
        sc['frontier'] = keep or [farm.pack(ref.seed_rows(5, 2, 0, 1))]
        sc['params'] = list(p) if keep else [5, 2, 0, 1]
        sc['max_tasks'] = rng.choice([10, 20, 40])
        sc['limit'] = lim
        sc['calls'] = 120_000 if big else 20_000
    calm = rng.random() < 0.2
    f = 0 if calm else 1
    sc.update(faults=0 if calm else rng.choice([3, 8, 20, 60]),
              p_drop=f * rng.choice([0, 0.03, 0.1, 0.3]), p_dup=f * rng.choice([0, 0.05, 0.3]),
              p_crash=f * rng.choice([0, 0.03, 0.1, 0.25]), p_disk=f * rng.choice([0, 0, 0.05, 0.2]),
              p_coord=f * rng.choice([0, 0, 0.05, 0.15]), p_skew=f * rng.choice([0, 0.05]),
              subtree=rng.choice([0, 0, 0.15, 0.4]) if full else 0,
              kill=rng.choice(['killed', 'memory', 'interrupt', 'timeout', 'runtime']))
    return sc


_feas = []


def _random_params(rng):
    if not _feas:
        for v in range(5, 66):
            _feas.extend(ref.feasible(v))
    return rng.choice(_feas)


def wide(sc, ctx):
    """One worker runs a search with wide levels to the end, after being killed part-way some times."""
    inst = core.Inst()
    p, M = work.start(sc['wide'])
    what = f'search of {p} from {sc["wide"]} (levels up to {sc["width"]} wide)'
    for frac in sc['killed']:
        n = 1 + int(frac * sc['cost'])
        with inst:
            try:
                with core.library(what), core.budget(n):
                    for m in inst.solve(arr(M)):
                        rows_of(m)
            except core.OverBudget:
                ctx.count('fault.killed-in-wide-search')
    with inst:
        try:
            with core.library(what), core.budget(sc['calls']):
                got = [rows_of(m) for m in list(inst.solve(arr(M)))]
        except core.OverBudget:
            raise Violation('no-progress', f'{what}: more than {sc["calls"]} library calls')
    want = work.completions(sc['wide'])
    lost, extra = set(want) - set(got), set(got) - set(want)
    if lost:
        raise Violation('lost-results', f'{what}: {len(lost)} of {len(want)} graphs missing, e.g. {core.short(min(lost))[:700]}')
    if extra or len(got) != len(set(got)):
        raise Violation('invalid-extensions', f'{what}: {len(extra)} unexpected graphs, {len(got) - len(set(got))} repeated')
    ctx.log.add('wide', sc['wide'], len(got), sorted(map(core.short, got))[:3])
    ctx.count('wide-searches')
    ctx.count('graphs', len(got))
    ctx.state('wide', str(sc['wide']))
    ctx.key = ctx.log.digest()


def execute(sc, ctx):
    if 'wide' in sc:
        return wide(sc, ctx)
    p = tuple(sc['params'])
    limit = sc.get('limit')
    skipped = set()
    memo = {}

    def affordable(r):
        if limit is None:
            return True
        key = '/'.join(r)
        if key not in memo:
            try:
                memo[key] = ref.next_rows(farm.unpack(r), *p, limit=limit)
            except ref.TooBig:
                memo[key] = None
                skipped.add(key)
        return memo[key] is not None

    def check(kind, r, res):
        M = farm.unpack(r)
        where = f'{kind} of {"/".join(r)[:300]} for {p}: '
        if kind == 'step':
            rows = memo['/'.join(r)] if limit else ref.next_rows(M, *p)
            want = {'/'.join(farm.pack(M + (x,))) for x in rows}
        else:
            want = {'/'.join(farm.pack(g)) for g in ref.completions(M, *p, limit=2_000_000)}
        got = ['/'.join(x) for x in res]
        lost, extra = want - set(got), set(got) - want
        if lost:
            raise Violation('lost-extensions', f'{where}{len(lost)} of {len(want)} missing, e.g. {min(lost)[:700]}')
        if extra:
            raise Violation('invalid-extensions', f'{where}{len(extra)} unexpected, e.g. {min(extra)[:700]}')
        if len(got) != len(set(got)):
            raise Violation('duplicate-extensions', f'{where}{len(got) - len(set(got))} repeated')
        ctx.state(r)

    f = farm.Farm(ctx, sc, check, affordable)
    f.start(sc['frontier'])
    ctx.count('results-accepted', f.accepted)
    ctx.count('results-delivered', f.delivered)
    if 'max_tasks' not in sc:
        want = set()
        for r in sc['frontier']:
            want |= {'/'.join(farm.pack(g)) for g in ref.completions(farm.unpack(r), *p, limit=2_000_000)}
        if set(f.finished) != want:
            lost = want - set(f.finished)
            raise Violation('lost-results', f'{p}: {len(lost)} of {len(want)} graphs never delivered, '
                                            f'{len(set(f.finished) - want)} unexpected')
        ctx.count('full-enumerations')
        ctx.count('graphs', len(want))
    if skipped:
        ctx.count('over-reference-limit', len(skipped))
    if f.accepted >= 3:
        ctx.key = ctx.log.digest()


def shrink(sc):
    if 'wide' in sc:
        for l in runner.shrink_list(sc['killed']):
            yield dict(sc, killed=l)
        return
    for s in runner.generic_shrink(sc, ['frontier'] if len(sc['frontier']) > 1 else [],
                                   [('workers', 1), ('faults', 0)]):
        if s['frontier']:
            yield s
    if sc.get('max_tasks', 0) > 1:
        yield dict(sc, max_tasks=1)
        yield dict(sc, max_tasks=sc['max_tasks'] // 2)
    for k in ('p_drop', 'p_dup', 'p_crash', 'p_disk', 'p_coord', 'p_skew', 'subtree'):
        if sc[k]:
            yield dict(sc, **{k: 0})
