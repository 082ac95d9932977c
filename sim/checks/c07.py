"""C07: lazily consumed streams deliver the same whatever the consumer does in between."""
import gc
import itertools
import json

import numpy as np

from .. import core, runner, work
from ..core import Violation, rows_of, row_of, arr

PROP = 'C07'
RUNS = {'quick': 4500, 'thorough': 50000}
RULE = ('a run = 1-6 streams (searches, row candidates, one-row extensions, bounded compositions), several on the same input object, '
        'driven by a seeded history of draw / draw from another thread / pause / close / drop / throw / restart / overwrite-what-was-delivered / collect-garbage '
        'steps, then drained; every drained stream must equal the sequence a lone eager consumer gets in a fresh process and the '
        'reference set; non-trivial = at least two streams interleaved or one disturbed; distinct by the hash of the event log')
STATES = 'distinct (stream kind, items already drawn, action) triples'
REAL = ['srg.solver, srg.srg, srg.partition and all helpers', 'numpy', 'generators']
STUB = ['the consumer']
ASSUMPTIONS = ['reference model sim/ref.py']


def scenario(rng, tier, i):
    big = tier == 'thorough' and rng.random() < 0.2
    budget = 300000 if big else rng.choice([20000, 60000])
    n = rng.choice([1, 2, 2, 3, 4, 6])
    specs = []
    rich = rng.random() < 0.6
    tree = rng.random() < 0.25      # partial graphs extended over several generations
    for _ in range(n):
        if specs and rng.random() < 0.4:
            specs.append(rng.choice(specs))
            continue
        k = rng.choice(['solve', 'solve', 'cand', 'cand', 'advance', 'comp']) if not tree else 'advance'
        if k == 'comp':
            m = rng.choice([1, 2, 3, 4, 5, 6, 7])
            b = [rng.randrange(0, 4) for _ in range(m)]
            specs.append([k, rng.randrange(0, sum(b) + 2), b])
        elif k == 'solve':
            specs.append([k, work.pick_start(rng, budget, 0.3)])
        else:
            st = None
            for _ in range(12 if rich else 1):     # prefer steps with several answers
                st = work.pick_prefix(rng, budget, one_step=True) if rng.random() < 0.5 else ['seed', *work.pick_params(rng, budget * 5, 9)]
                try:
                    p, M = work.start(st)
                    if len(work.ref.next_rows(M, *p, limit=3000)) > 2:
                        break
                except work.ref.TooBig:
                    st = None
            specs.append([k, st or ['seed', *work.pick_params(rng, budget)]])
    acts = []
    for _ in range(rng.choice([0, 5, 10, 25])):
        a = rng.choice(['next', 'burst', 'grow', 'grow', 'smash', 'gc']) if tree else rng.choice(['next'] * 7 + ['thread', 'thread', 'burst', 'burst', 'close', 'drop', 'restart', 'smash', 'smash', 'gc', 'throw', 'again', 'grow', 'grow', 'grow'])
        acts.append([rng.randrange(n), a, rng.randrange(1, 5)])
    return {'streams': specs, 'acts': acts, 'share': rng.random() < 0.8, 'drain': rng.choice(['rr', 'seq', 'rev']), 'calls': 400_000 if big else 60_000}


class Stream:
    def __init__(self, inst, spec, inp, obj=None):
        self.inst, self.spec, self.inp, self.obj = inst, spec, inp, obj
        self.open()

    def open(self):
        k = self.spec[0]
        self.kept = []          # [object or None after being overwritten, normalised value]
        self.done = False
        with self.inst, core.library(work.describe(self.spec)):
            if k == 'solve':
                self.it = iter(self.inst.solver.solve(self.inp.srg(self.spec[1])))
            elif k == 'cand':
                try:
                    self.it = iter(self.inst.candidates(self.inp.matrix(self.spec[1])))
                except self.inst.NoSolution:
                    self.it = iter(())
            elif k == 'advance':
                self.it = iter(self.inst.solver.advance(self.obj or self.inp.srg(self.spec[1])))
            else:
                self.it = iter(self.inst.partition.enum(self.spec[1], list(self.spec[2])))

    def draw(self, elsewhere=False):
        if self.done:
            return False
        end = object()
        with self.inst, core.library(work.describe(self.spec)):
            x = core.in_thread(lambda: next(self.it, end)) if elsewhere else next(self.it, end)
        if x is end:
            self.done = True
            return False
        self.kept.append([x, self.norm(x)])
        return True

    def norm(self, x):
        k = self.spec[0]
        if k == 'comp':
            if not isinstance(x, tuple):
                raise Violation('malformed', f'composition {x!r}')
            return tuple(int(y) for y in x)
        return row_of(x) if k == 'cand' else rows_of(x)

    def smash(self, rng):
        """The consumer overwrites a result it was given."""
        live = [e for e in self.kept if e[0] is not None]
        if not live or self.spec[0] == 'comp':
            return False
        e = live[rng(len(live))]
        a = e[0]
        if not isinstance(a, np.ndarray) and not hasattr(a, 'current_matrix'):
            return False
        a = a.current_matrix if hasattr(a, 'current_matrix') else a
        try:
            a[...] = 7
        except ValueError:
            raise Violation('read-only', f'{work.describe(self.spec)}: the consumer cannot write to the result it was given')
        e[0] = None
        return True

    def check_kept(self, where):
        for x, v in self.kept:
            if x is not None and self.norm(x) != v:
                raise Violation('delivered-changed', f'{where}{work.describe(self.spec)}: a result changed after it was delivered')


_base = {}


def baseline(spec):
    key = json.dumps(spec)
    if key not in _base:
        if len(_base) > 300:
            _base.clear()
        inst = core.Inst()
        s = Stream(inst, spec, work.Inputs(inst))
        while s.draw():
            pass
        seq = [v for _, v in s.kept]
        k = spec[0]
        if k == 'comp':
            want = [t for t in itertools.product(*[range(b + 1) for b in spec[2]]) if sum(t) == spec[1]]
        elif k == 'solve':
            want = list(work.completions(spec[1]))
        else:
            want = list(work.expected([k, spec[1]]))
        if sorted(seq) != sorted(want):
            lost = set(want) - set(seq)
            raise Violation('wrong-sequence', f'alone and eagerly: {work.describe(spec)}: {len(seq)} delivered, {len(want)} expected, {len(lost)} lost')
        _base[key] = seq
    return _base[key]


def execute(sc, ctx):
    _base.clear()
    try:
        with core.budget(sc['calls']):
            drive(sc, ctx)
    except core.OverBudget:
        ctx.count('over-budget')


def drive(sc, ctx):
    want = [baseline(s) for s in sc['streams']]
    inst = core.Inst()
    inp = work.Inputs(inst, share=sc['share'])
    streams = [Stream(inst, s, inp) for s in sc['streams']]
    dead = set()
    extra = []
    disturbed = 0
    last = None
    for n, (j, act, arg) in enumerate(sc['acts']):
        s = streams[j]
        ctx.state(s.spec[0], len(s.kept), act)
        if act in ('next', 'burst', 'thread'):
            if j in dead:
                continue
            for _ in range(arg if act in ('burst', 'thread') else 1):
                s.draw(act == 'thread')
            if act == 'thread':
                ctx.count('other-thread')
            if last is not None and last != j:
                disturbed += 1
            last = j
        elif act in ('close', 'throw', 'drop'):
            disturbed += 1
            ctx.count('fault.' + act)
            dead.add(j)
            with inst:
                if act == 'close' and hasattr(s.it, 'close'):
                    s.it.close()
                elif act == 'throw' and hasattr(s.it, 'throw'):
                    try:
                        s.it.throw(core.InjectedError('injected'))
                    except BaseException as e:
                        if not core.caused_by_injection(e) and not isinstance(e, StopIteration):
                            raise Violation('wrong-failure', f'{work.describe(s.spec)}: {type(e).__name__}: {e}')
                else:
                    s.it = None
        elif act == 'restart':
            disturbed += 1
            s.open()
            dead.discard(j)
        elif act == 'again':       # a further stream on the same input
            if len(extra) < 3:
                e = Stream(inst, s.spec, inp)
                e.draw()
                extra.append((e, want[j]))
        elif act == 'grow':        # extend a partial graph that was delivered
            grow(ctx, inst, inp, streams, extra, s)
        elif act == 'smash':
            if arg == 4 and extra:
                s = extra[ctx.ch.below(len(extra))][0]
            if s.smash(ctx.ch.below):
                disturbed += 1
                ctx.count('fault.overwrite')
        elif act == 'gc':
            gc.collect()
        for t in streams + [e for e, _ in extra]:
            t.check_kept(f'after action {n} ({act} on {j}): ')
        ctx.log.add(n, j, act, len(s.kept))
    live = [(streams[j], want[j]) for j in range(len(streams)) if j not in dead] + extra
    if sc['drain'] == 'rr':
        go = True
        while go:
            go = False
            for s, _ in live:
                go = s.draw() or go
    else:
        for s, _ in (live if sc['drain'] == 'seq' else live[::-1]):
            while s.draw():
                pass
    for s, w in live:
        got = [v for _, v in s.kept]
        s.check_kept('at the end: ')
        if got != w:
            cls = 'wrong-order' if sorted(got) == sorted(w) else 'lost-results' if len(got) < len(w) else 'wrong-results'
            raise Violation(cls, f'{work.describe(s.spec)}: drawn to the end it delivered {len(got)} results, alone {len(w)}')
        ctx.log.add('drained', len(got))
        ctx.count('drained.' + s.spec[0])
        ctx.count('items', len(got))
    inp.check_unchanged()
    if len(live) > 1 or disturbed:
        ctx.key = ctx.log.digest()


def grow(ctx, inst, inp, streams, extra, s):
    made = [e for e in [s] + [x for x, _ in extra] if e.spec[0] == 'advance' and any(o is not None and len(v) < len(v[0]) for o, v in e.kept)]
    if not made or len(extra) >= 6:
        return
    parent = made[ctx.ch.below(len(made))]
    live = [(o, v) for o, v in parent.kept if o is not None and len(v) < len(v[0])]
    o, v = live[ctx.ch.below(len(live))]
    spec = ['advance', ['rows', work.start(parent.spec[1])[0], v]]
    want = baseline(spec)
    e = Stream(inst, spec, inp, o)
    e.draw()
    extra.append((e, want))
    ctx.count('grown')


def shrink(sc):
    for l in runner.shrink_list(sc['acts']):
        yield dict(sc, acts=l)
    for j in range(len(sc['streams'])):
        if len(sc['streams']) > 1:
            yield dict(sc, streams=sc['streams'][:j] + sc['streams'][j + 1:],
                       acts=[[a - (a > j), b, c] for a, b, c in sc['acts'] if a != j])
    if sc['drain'] != 'seq':
        yield dict(sc, drain='seq')
