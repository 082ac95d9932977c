"""C14: every search makes progress and ends."""
import json
import random

from .. import core, faults, graphs, ref, runner, sched, work
from ..core import Violation, arr, rows_of, row_of

PROP = 'C14'
RUNS = {'quick': 2400, 'thorough': 24000}
RULE = ('a run = searches, one-row extensions and candidate streams on starting points whose cost was measured beforehand, run to their end '
        'under a step budget (30 times the measured library lines and slack) alone, after failed or abandoned searches on the same objects, '
        'or in threads under fair schedules and under unfair ones where one thread is stopped anywhere and the others must end without it '
        '(unless they wait for a lock it holds); frontiers are driven round by round and must end within the missing rows; '
        'distinct by the hash of the log; non-trivial = a fault or abandonment happened before, or threads switched, or a round had to be made')
STATES = 'distinct (operation kind, where the other threads stood when one was stopped) and (params, rounds)'
REAL = ['srg.solver, srg.srg and helpers', 'numpy']
STUB = ['thread scheduler', 'locks created by library code', 'the source of failures']
ASSUMPTIONS = ['the measured costs of the corpus (sim/costs.json, sim/prefixes.json) are those of a working search']

FACTOR, SLACK = 30, 40_000


def cost(op):
    """Library lines measured for the operation."""
    kind, spec = op
    if kind == 'sort':
        v = vs(spec)
        return 60 + 40 * spec[3] * (v * v + 20 * spec[3].bit_length())
    if spec[0] == 'seed':
        return next(c for p, c, n in work.costs() if list(p) == list(spec[1:5]))
    for name, lab, R, one, tree in work.measured():
        if [name, lab, R] == list(spec[1:4]):
            return tree if kind == 'solve' else one
    raise KeyError(spec)


def vs(spec):
    return graphs.catalogue()[spec[1]][0][0]


def scenario(rng, tier, i):
    lim = rng.choice([2000, 10000, 30000]) * (10 if tier == 'thorough' and rng.random() < 0.2 else 1)

    def op(lim=lim):
        k = rng.choice(['solve', 'solve', 'advance', 'cand', 'sort'])
        if k == 'sort':
            return [k, ['labels', rng.choice(work.small_graphs(16)), rng.randrange(1 << 20), rng.choice([2, 3, 6])]]
        if k != 'solve' and rng.random() < 0.8:
            return [k, work.pick_prefix(rng, lim, one_step=True)]
        if rng.random() < 0.3:
            return [k, work.pick_prefix(rng, lim)]
        if rng.random() < 0.4:      # infeasible parameters must end as well
            c = [p for p, s, n in work.costs() if n == 0 and s <= lim]
            return [k, ['seed', *rng.choice(c)]]
        return [k, ['seed', *work.pick_params(rng, lim)]]
    kind = rng.choice(['alone', 'after', 'after', 'threads', 'threads', 'stopped', 'stopped', 'rounds'])
    if kind == 'rounds':
        return {'kind': kind, 'start': ['seed', *work.pick_params(rng, lim * 2)], 'order': rng.choice(['fifo', 'lifo', 'random'])}
    if rng.random() < 0.03:
        p = [[q, c] for q, c, n in work.costs() if 300 < c < 60000]
        return {'kind': 'history', 'ops': [op(lim) for _ in range(2)], 'many': rng.sample(p, 6), 'total': 250_000 * (6 if tier == 'thorough' else 1)}
    if kind == 'alone':
        return {'kind': kind, 'ops': [op(lim * 4) for _ in range(rng.choice([1, 3]))]}
    if kind == 'after':
        return {'kind': kind, 'ops': [op() for _ in range(rng.choice([1, 2]))],
                'before': [[rng.choice(['fail', 'fail', 'close', 'drop', 'pause', 'throw']), rng.randrange(2), faults.place(rng),
                            rng.choice(sorted(core.FAULT_KINDS)), rng.randrange(4)] for _ in range(rng.choice([1, 2, 6]))],
                'gran': rng.choice(['line', 'line', 'opcode'])}
    lim2 = min(lim, 8000)
    ops = [op(lim2) for _ in range(rng.choice([2, 2, 3, 4]))]
    if rng.random() < 0.4:
        ops = [ops[0]] * len(ops)
    sc = {'kind': kind, 'ops': ops, 'share': rng.random() < 0.5, 'gran': rng.choice(['line', 'line', 'opcode'])}
    if kind == 'threads':
        sc['policy'] = rng.choice([['geo', 1], ['geo', 4], ['geo', 30], ['rr', 1], ['rr', 3], ['sparse', 3000]])
        if rng.random() < 0.3:
            sc['faults'] = [[rng.randrange(len(ops)), rng.randrange(1, 400), rng.choice(sorted(core.FAULT_KINDS))]]
    else:
        sc['at'] = [faults.place(rng) for _ in ops[1:]]
    return sc


def limit(op, gran='line'):
    return (FACTOR * cost(op) + SLACK) * (12 if gran == 'opcode' else 1)


def consume(inst, op, inp):
    kind = op[0]
    if kind == 'solve':
        return sum(1 for _ in inst.solver.solve(inp.srg(op[1])))
    if kind == 'sort':
        return len(list(inst.sorter.sort(inp.glist(op[1], 0))))
    if kind == 'advance':
        return len(list(inst.solver.advance(inp.srg(op[1]))))
    try:
        return sum(1 for _ in inst.candidates(inp.matrix(op[1])))
    except inst.NoSolution:
        return 0


def prepare(inp, op):
    inp.matrix(op[1]) if op[0] == 'cand' else inp.glist(op[1], 0) if op[0] == 'sort' else inp.srg(op[1])


def alone(ctx, inst, op, inp, where, gran='line'):
    try:
        t = sched.run_alone(ctx, lambda t: consume(inst, op, inp), (), gran, limit(op, gran))
    except Violation as e:
        if e.cls == 'no-progress':
            raise Violation('no-progress', f'{where}{json.dumps(op)[:200]} took more than {limit(op, gran)} steps; {cost(op)} lines were measured')
        raise
    if t.error is not None:
        raise Violation('unexpected-exception', f'{where}{json.dumps(op)[:200]}: {type(t.error).__name__}: {str(t.error)[:200]} at {core.library_frame(t.error)}')
    return t


def execute(sc, ctx):
    inst = core.Inst()
    {'alone': run_ops, 'after': after, 'threads': threads, 'stopped': stopped, 'rounds': rounds, 'history': history}[sc['kind']](sc, ctx, inst)


def run_ops(sc, ctx, inst):
    inp = work.Inputs(inst)
    with inst:
        for op in sc['ops']:
            t = alone(ctx, inst, op, inp, '')
            ctx.log.add(op, t.result, t.steps)
            ctx.count('headroom-used-percent-sum', int(100 * t.steps / limit(op)))
            ctx.count('ended-alone')
            if t.steps > 2000:
                ctx.key = ctx.log.digest()


def history(sc, ctx, inst):
    """The same operations in a fresh process and in one where thousands of others took place."""
    other = core.Inst()
    with other:
        first = [alone(ctx, other, op, work.Inputs(other), '').steps for op in sc['ops']]
    inp = work.Inputs(inst)
    with inst:
        done = 0
        with core.budget(1 << 40) as left:
            while (1 << 40) - left[0] < sc['total']:
                for p, c in sc['many']:
                    with core.library(f'search {p}'):
                        for _ in inst.solve(arr(ref.seed_rows(*p))):
                            pass
                    done += 1
                    if (1 << 40) - left[0] > 60 * sc['total']:
                        break
        for op, n in zip(sc['ops'], first):
            t = alone(ctx, inst, op, inp, f'after {done} searches: ')
            ctx.log.add(op, n, t.steps)
            if t.steps > 3 * n + 3000:
                raise Violation('no-progress', f'{json.dumps(op)[:200]} took {n} steps in a fresh process and {t.steps} after {done} other searches in the process')
    ctx.count('searches-before', done)
    ctx.key = ctx.log.digest()


def after(sc, ctx, inst):
    inp = work.Inputs(inst)
    kept = []
    with inst:
        for how, j, frac, kind, n in sc['before']:
            op = sc['ops'][j % len(sc['ops'])]
            prepare(inp, op)
            if how == 'fail':
                at = int(frac * cost(op) * (6 if sc['gran'] == 'opcode' else 1))
                t = sched.run_alone(ctx, lambda t: consume(inst, op, inp), [(at, kind)], sc['gran'], limit(op, sc['gran']))
                if t.error is not None and not core.caused_by_injection(t.error):
                    raise Violation('unexpected-exception', f'{type(t.error).__name__}: {str(t.error)[:200]} at {core.library_frame(t.error)}')
                ctx.log.add('fail', t.steps, bool(t.fired))
            else:
                def some(t):
                    if op[0] == 'sort':
                        g = iter(inst.sorter.sort(iter(inp.glist(op[1], 0))))
                    else:
                        g = iter(inst.solver.solve(inp.srg(op[1])) if op[0] == 'solve' else inst.candidates(inp.matrix(op[1])))
                    k = 0
                    for _ in range(n):
                        if next(g, None) is None:
                            break
                        k += 1
                    return g, k
                t = sched.run_alone(ctx, some, (), 'line', limit(op))
                if t.error is not None:
                    if isinstance(t.error, inst.NoSolution):
                        continue
                    raise Violation('unexpected-exception', f'{type(t.error).__name__}: {str(t.error)[:200]} at {core.library_frame(t.error)}')
                g, k = t.result
                if how == 'close' and hasattr(g, 'close'):
                    g.close()
                elif how == 'throw' and hasattr(g, 'throw'):
                    try:
                        g.throw(core.FAULT_KINDS['timeout']())
                    except BaseException as e:
                        if not core.caused_by_injection(e) and not isinstance(e, StopIteration):
                            raise
                elif how == 'pause':
                    kept.append(g)
                del g, t
                ctx.count('fault.' + how)
                ctx.log.add(how, k)
        for op in sc['ops']:
            t = alone(ctx, inst, op, inp, 'after failures or abandonment: ')
            ctx.log.add(op, t.result, t.steps)
            ctx.count('ended-after')
    ctx.key = ctx.log.digest()


def explain(sim, e, sc):
    raise Violation(e.cls, f'{sc["kind"]}: {[json.dumps(o)[:80] for o in sc["ops"]]}: {e.msg}')


def add(sim, inst, sc, inps, j, fl=()):
    op = sc['ops'][j]
    prepare(inps[j], op)
    sim.add(f't{j}', lambda task: consume(inst, op, inps[j]), fl, sc['gran'])


def inputs(inst, sc):
    if sc['share']:
        return [work.Inputs(inst)] * len(sc['ops'])
    return [work.Inputs(inst) for _ in sc['ops']]


def threads(sc, ctx, inst):
    inps = inputs(inst, sc)
    sim = sched.Sim(ctx, policy=tuple(sc['policy']), max_steps=max(limit(o, sc['gran']) for o in sc['ops']))
    with inst:
        for j in range(len(sc['ops'])):
            add(sim, inst, sc, inps, j, [(s, k) for i, s, k in sc.get('faults', ()) if i == j])
        try:
            sim.run()
        except Violation as e:
            explain(sim, e, sc)
        for t in sim.tasks:
            if t.error is not None and not (t.fired and core.caused_by_injection(t.error)):
                raise Violation('unexpected-exception', f'{type(t.error).__name__}: {str(t.error)[:200]} at {core.library_frame(t.error)}')
    ctx.count('ended-interleaved', len(sim.tasks))
    if sim.switches > 2:
        ctx.key = ctx.log.digest()


class Unfair(sched.Sim):
    """Threads 1.. run to their stopping points; then only thread 0 gets turns, until it ends or
    waits for a lock; then the others, one after another, in the same way."""

    def __init__(self, ctx, stops, **kw):
        super().__init__(ctx, **kw)
        self.stops = stops

    def pick(self, live, last):
        for t in self.tasks[1:]:
            if not t.done and t.steps < self.stops[t.idx] and t in live:
                return t, self.stops[t.idx] - t.steps
        return live[0], 1 << 40


def stopped(sc, ctx, inst):
    inps = inputs(inst, sc)
    stops = [0] + [int(x * cost(o) * (6 if sc['gran'] == 'opcode' else 1)) for x, o in zip(sc['at'], sc['ops'][1:])]
    sim = Unfair(ctx, stops, max_steps=max(limit(o, sc['gran']) for o in sc['ops']))
    with inst:
        for j in range(len(sc['ops'])):
            add(sim, inst, sc, inps, j)
        try:
            sim.run()
        except Violation as e:
            explain(sim, e, sc)
        for t in sim.tasks:
            if t.error is not None:
                raise Violation('unexpected-exception', f'{type(t.error).__name__}: {str(t.error)[:200]} at {core.library_frame(t.error)}')
    ctx.count('fault.stopped-thread', len(stops) - 1)
    ctx.state('stopped', tuple(o[0] for o in sc['ops']), tuple(t.steps // 50 for t in sim.tasks))
    ctx.key = ctx.log.digest()


def rounds(sc, ctx, inst):
    p, M = work.start(sc['start'])
    rng = random.Random(json.dumps(sc['start']))
    front, n = [inst.srg_of(arr(M))], 0
    c = cost(['solve', sc['start']])
    with inst, core.budget(FACTOR * c + SLACK):
        try:
            while True:
                front = [s for s in front if not s.solved()]
                if not front:
                    break
                n += 1
                if n > p[0] - len(M):
                    raise Violation('no-progress', f'{sc["start"]}: round {n} with {len(front)} unfinished partial graphs; {p[0] - len(M)} rows were missing')
                if sc['order'] == 'lifo':
                    front.reverse()
                elif sc['order'] == 'random':
                    rng.shuffle(front)
                out = []
                for s in front:
                    with core.library('advance'):
                        out += list(inst.solver.advance(s))
                front = out
        except core.OverBudget:
            raise Violation('no-progress', f'{sc["start"]}: more than {FACTOR * c + SLACK} library calls; {c} lines were measured')
    ctx.log.add('rounds', sc['start'], n)
    ctx.state('rounds', p, n)
    ctx.count('rounds', n)
    if n > 1:
        ctx.key = ctx.log.digest()


def shrink(sc):
    if sc['kind'] == 'history':
        return
    if sc['kind'] == 'rounds':
        if sc['order'] != 'fifo':
            yield dict(sc, order='fifo')
        return
    if sc['kind'] == 'after':
        for l in runner.shrink_list(sc['before']):
            yield dict(sc, before=l)
    if sc.get('faults'):
        yield dict(sc, faults=[])
    if sc['kind'] == 'stopped':
        for j in range(1, len(sc['ops'])):
            if len(sc['ops']) > 2:
                yield dict(sc, ops=sc['ops'][:j] + sc['ops'][j + 1:], at=sc['at'][:j - 1] + sc['at'][j:])
    elif not sc.get('faults'):
        for j in range(len(sc['ops'])):
            if len(sc['ops']) > 1:
                yield dict(sc, ops=sc['ops'][:j] + sc['ops'][j + 1:])
    if sc.get('gran') == 'opcode':
        yield dict(sc, gran='line')
    for j, o in enumerate(sc['ops']):
        if o[1] != ['seed', 4, 2, 0, 2] and o[0] != 'sort':
            yield dict(sc, ops=sc['ops'][:j] + [[o[0], ['seed', 4, 2, 0, 2]]] + sc['ops'][j + 1:])
