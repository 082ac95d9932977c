"""C03: whatever is delivered, at any time, is a genuine (partial) strongly regular graph."""
import random

from .. import core, faults as failing, graphs, ref, runner, sched, work
from ..core import Violation, arr, rows_of, row_of

PROP = 'C03'
RUNS = {'quick': 1300, 'thorough': 12000}
RULE = ('a run = 1-3 walkers that expand partial graphs of feasible and infeasible parameter sets (from the seed, from random '
        'dives, from prefixes of known graphs) through advance, the row-candidate stream and solve, under seeded preemption, '
        'abandoned streams and failures raised inside the search; or one branching search struck at many places; every delivered graph is validated; '
        'non-trivial = at least 5 graphs delivered; distinct by the hash of the event log')
STATES = 'distinct partial graphs expanded'
REAL = ['srg.solver, srg.srg and all helpers', 'numpy', 'CPython threads']
STUB = ['the thread scheduler', 'the source of failures']
ASSUMPTIONS = ['validity is checked from the definition (sim/ref.py: partial_defect, graph_defect)']

_feas = []


def any_params(rng):
    if not _feas:
        for v in range(4, 66):
            _feas.extend(ref.feasible(v))
    if rng.random() < 0.4:
        return work.pick_params(rng, 10**9, 4)
    return rng.choice(_feas)


def scenario(rng, tier, i):
    if i % 50 == 17:        # searches that end with many graphs at once
        w = [x for x in work.wide() if x[2] >= 2 and x[1] <= (9_000_000 if tier == 'thorough' else 1_300_000)]
        return {'mode': 'whole', 'walkers': [{'start': w[i // 50 % len(w)][0]}], 'faults': []}
    if rng.random() < 0.3:      # a search that branches, with failures all over it
        op = rng.choice(['advance', 'cand', 'solve'])
        lim = rng.choice([10_000, 20_000, 40_000])
        st = work.pick_fork(rng, lim, op != 'solve') or work.pick_start(rng, lim)
        return {'mode': 'strike', 'op': op, 'walkers': [{'start': st}], 'gran': 'opcode' if rng.random() < 0.2 else 'line',
                'faults': [[failing.spot(rng), failing.kind(rng)] for _ in range(rng.choice([3, 6, 10]))]}
    mode = rng.choice(['plain', 'plain', 'faults', 'threads', 'threads'])
    n = 1 if mode != 'threads' else rng.choice([2, 2, 3])
    lim = {'plain': 2500, 'faults': 400, 'threads': 250}[mode] * (4 if tier == 'thorough' and rng.random() < 0.3 else 1)
    walkers = []
    same = rng.random() < 0.4
    for _ in range(n):
        if same and walkers:
            walkers.append(dict(walkers[0], seed=rng.randrange(1 << 30)))
            continue
        if rng.random() < 0.3:
            st = work.pick_prefix(rng, 60 * lim, one_step=True)
        else:
            p = any_params(rng)
            st = ['seed', *p]
            M = ref.seed_rows(*p)
            for _ in range(rng.choice([0, 0, 1, 2, 4, 8])):
                try:
                    rows = ref.next_rows(M, *p, limit=lim)
                except ref.TooBig:
                    break
                if not rows or len(M) + 1 >= p[0]:
                    break
                M = M + (rng.choice(rows),)
            if len(M) > 2:
                st = ['rows', list(p), [list(r) for r in M]]
        walkers.append({'start': st, 'seed': rng.randrange(1 << 30), 'limit': lim,
                        'steps': rng.choice([4, 8, 16]) * (3 if mode == 'plain' else 1)})
    faults = []
    if mode == 'faults' or (mode == 'threads' and rng.random() < 0.4):
        kinds = rng.sample(sorted(core.FAULT_KINDS), 3)
        faults = [[rng.randrange(n), int(2 ** rng.uniform(3, 15)), rng.choice(kinds)] for _ in range(rng.choice([1, 2, 4]))]
    return {'mode': mode, 'walkers': walkers, 'faults': faults, 'big': tier == 'thorough', 'gran': 'opcode' if rng.random() < 0.2 else 'line',
            'policy': rng.choice([['geo', 3], ['geo', 15], ['geo', 80], ['sparse', 4000]])}


class Walker:
    def __init__(self, ctx, inst, w, name):
        self.ctx, self.inst, self.w, self.name = ctx, inst, w, name
        self.rng = random.Random(w['seed'])
        self.p, M = work.start(w['start'])
        self.frontier = [M]
        self.seen = 0
        self.failed = 0

    def check(self, P, new, what):
        d = ref.partial_defect(new, *self.p)
        if new[:len(P)] != P:
            raise Violation('not-an-extension', f'{what}: delivered {core.short(new)[:600]} which does not extend its start')
        if d:
            raise Violation('invalid-graph', f'{what}: delivered {core.short(new)[:900]}: {d}')
        if len(new) == self.p[0]:
            d = ref.graph_defect(new, *self.p)
            if d:
                raise Violation('invalid-graph', f'{what}: finished graph {core.short(new)[:900]}: {d}')
            self.ctx.count('finished-validated')
        self.seen += 1

    def step(self, guard):
        """One expansion; guard(fn) runs library code and returns (items, error)."""
        P = self.frontier.pop(self.rng.randrange(len(self.frontier)))
        v = self.p[0]
        try:
            o = []
            ref.next_rows(P, *self.p, limit=self.w['limit'], order=o)
        except ref.TooBig:
            self.ctx.count('too-big')
            return
        self.ctx.state(self.p, P)
        what = f'{self.name}: {self.p} from {core.short(P)[:500]}'
        op = self.rng.choice(['advance', 'advance', 'cand', 'solve'])
        if op == 'solve':
            try:
                states, nodes = ref.tree_cost(P, *self.p, limit=self.w['limit'])
            except ref.TooBig:
                op = 'advance'
        m = arr(P)
        took = self.rng.choice([1, 2, 5, 1 << 30]) if op in ('cand', 'solve') else None
        items = []

        def consume():
            if op == 'advance':
                for s in self.inst.advance(m):
                    items.append(rows_of(s))
            elif op == 'cand':
                try:
                    g = self.inst.candidates(m)
                except self.inst.NoSolution:
                    return
                for r in g:
                    items.append(P + (tuple(P[i][len(P)] for i in range(len(P))) + (0,) + row_of(r),))
                    if len(items) >= took:
                        break
            else:
                for g in self.inst.solve(m):
                    items.append(rows_of(g))
                    if len(items) >= took:
                        break
        err = guard(consume, f'{op} {what}')
        for x in items:
            width = {'advance': len(P) + 1, 'cand': len(P) + 1, 'solve': v}[op]
            if len(x) != width:
                raise Violation('invalid-graph', f'{op} {what}: {len(x)} rows delivered')
            self.check(P, x, f'{op} {what}')
        if len(set(items)) != len(items):
            raise Violation('duplicate', f'{op} {what}: {len(items) - len(set(items))} graphs delivered twice')
        if rows_of(m) != P:
            raise Violation('input-changed', f'{op} {what}')
        self.ctx.log.add(self.name, op, len(P), len(items), type(err).__name__ if err else '')
        self.ctx.count('op.' + op)
        if err:
            self.failed += 1
            self.frontier.append(P)
        elif op == 'solve' and took > 1 << 20:
            pass
        else:
            for x in sorted(set(items)):
                if len(x) < v:
                    self.frontier.append(x)
            if len(self.frontier) > 400:
                self.frontier = self.rng.sample(self.frontier, 200)

    def run(self, guard, pause=lambda: None):
        n = 0
        while self.frontier and n < self.w['steps']:
            n += 1
            self.step(guard)
            pause()


def execute(sc, ctx):
    inst = core.Inst()

    calls = 150_000 if sc.get('big') else 25_000

    def guard(fn, what):
        try:
            if sc['mode'] == 'plain':
                with core.budget(calls):
                    fn()
            else:
                fn()
        except (Violation, core.StepLimit):
            raise
        except core.OverBudget as e:
            ctx.count('over-budget')
            return None
        except BaseException as e:
            if not core.caused_by_injection(e):
                if isinstance(e, Exception):
                    raise Violation('unexpected-exception', f'{what}: {type(e).__name__}: {e} at {core.library_frame(e)}')
                raise
            t = sched.current() or solo[0]
            if t:
                t.trace_on()
            return e
    solo = [None]
    try:
        _execute(sc, ctx, inst, guard, solo)
    except Violation as e:
        if e.cls != 'no-progress':      # that is C14's business, on workloads of known size
            raise
        ctx.count('over-budget')


def whole(sc, ctx, inst):
    w = dict(sc['walkers'][0], seed=0)
    W = Walker(ctx, inst, w, 'whole')
    P = W.frontier[0]
    got = []
    with inst, core.library(f'solve {w["start"]}'):
        for m in inst.solve(arr(P)):
            g = rows_of(m)
            W.check(P, g, f'solve {W.p}')
            if len(g) != W.p[0]:
                raise Violation('invalid-graph', f'solve {w["start"]}: {len(g)} rows delivered')
            got.append(g)
    if len(set(got)) != len(got):
        raise Violation('duplicate', f'solve {w["start"]}: {len(got) - len(set(got))} of {len(got)} graphs delivered twice')
    ctx.log.add('whole', w['start'], len(got), core.derive(got))
    ctx.count('graphs-validated', len(got))
    ctx.key = ctx.log.digest()


def strike(sc, ctx, inst):
    W = Walker(ctx, inst, dict(sc['walkers'][0], seed=0), sc['op'])
    P, op = W.frontier[0], sc['op']
    steps = trail = None
    fired = 0
    for x, kind in [[None, None]] + sc['faults']:
        items, m = [], arr(P)

        def consume(t):
            if op == 'cand':
                for r in inst.candidates(m):
                    items.append(P + (tuple(row[len(P)] for row in P) + (0,) + row_of(r),))
            else:
                for g in (inst.advance if op == 'advance' else inst.solve)(m):
                    items.append(rows_of(g))
        at = [] if x is None else [(failing.at(x, steps, trail), kind)]
        with inst:
            t = sched.run_alone(ctx, consume, at, sc['gran'], max_steps=3_000_000, trail=x is None)
        what = f'{op} {W.p} from {core.short(P)[:500]}' + (f', {kind} at step {at[0][0]} of {steps}' if at else '')
        if t.error is not None and not isinstance(t.error, inst.NoSolution) and not (t.fired and core.caused_by_injection(t.error)):
            raise Violation('unexpected-exception', f'{what}: {type(t.error).__name__}: {str(t.error)[:200]} at {core.library_frame(t.error)}')
        if x is None:
            steps, trail = t.steps, t.trail
        for g in items:
            if len(g) != (W.p[0] if op == 'solve' else len(P) + 1):
                raise Violation('invalid-graph', f'{what}: {len(g)} rows delivered')
            W.check(P, g, what)
        if len(set(items)) != len(items):
            raise Violation('duplicate', f'{what}: {len(items) - len(set(items))} graphs delivered twice')
        if rows_of(m) != P:
            raise Violation('input-changed', what)
        fired += bool(t.fired)
        ctx.log.add('strike', op, len(items), type(t.error).__name__ if t.error else '')
    ctx.state(W.p, P)
    ctx.count('graphs-validated', W.seen)
    if W.seen and fired:
        ctx.key = ctx.log.digest()


def _execute(sc, ctx, inst, guard, solo):
    if sc['mode'] == 'whole':
        return whole(sc, ctx, inst)
    if sc['mode'] == 'strike':
        return strike(sc, ctx, inst)
    ws = [Walker(ctx, inst, w, f'w{j}') for j, w in enumerate(sc['walkers'])]
    with inst:
        if sc['mode'] == 'threads':
            sim = sched.Sim(ctx, policy=tuple(sc['policy']), max_steps=3_000_000)
            for j, w in enumerate(ws):
                sim.add(w.name, lambda t, w=w: w.run(guard, t.pause), [(s, k) for x, s, k in sc['faults'] if x == j], sc['gran'])
            for t in sim.run():
                if isinstance(t.error, Violation):
                    raise t.error
                if t.error is not None:
                    raise t.error
        elif sc['mode'] == 'faults':
            def body(t):
                solo[0] = t
                ws[0].run(guard)
            t = sched.run_alone(ctx, body, [(s, k) for x, s, k in sc['faults']], sc['gran'], max_steps=3_000_000)
            if t.error is not None:
                raise t.error
        else:
            ws[0].run(guard)
    n = sum(w.seen for w in ws)
    ctx.count('graphs-validated', n)
    if n >= 5:
        ctx.key = ctx.log.digest()


def shrink(sc):
    if sc['mode'] == 'whole':
        return
    if sc['mode'] == 'strike':
        for l in runner.shrink_list(sc['faults']):
            yield dict(sc, faults=l)
        if sc['gran'] == 'opcode':
            yield dict(sc, gran='line')
        return
    if len(sc['walkers']) > 1:
        for j in range(len(sc['walkers'])):
            s = dict(sc, walkers=sc['walkers'][:j] + sc['walkers'][j + 1:])
            s['faults'] = [[min(x, len(s['walkers']) - 1), a, b] for x, a, b in sc['faults']]
            yield s
    for l in runner.shrink_list(sc['faults']):
        yield dict(sc, faults=l)
    for j, w in enumerate(sc['walkers']):
        for n in {1, w['steps'] // 2, w['steps'] - 1}:
            if 0 < n < w['steps']:
                yield dict(sc, walkers=sc['walkers'][:j] + [dict(w, steps=n)] + sc['walkers'][j + 1:])
    if sc['mode'] != 'plain' and not sc['faults'] and len(sc['walkers']) == 1:
        yield dict(sc, mode='plain')
