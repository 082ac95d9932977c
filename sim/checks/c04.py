"""C04: a stored partial graph is a complete checkpoint."""
import json
import random

from .. import codecs, core, disk, graphs, ref, runner, sched, work
from ..core import Violation, arr, rows_of

PROP = 'C04'
RUNS = {'quick': 3200, 'thorough': 12000}
RULE = ('a run = either a whole search written as checkpoints to a simulated disk by a process that crashes at arbitrary points '
        '(torn and lost writes, failing writes), reloaded by fresh processes as arrays of another type and layout and finished in '
        'pieces; or a batch of stored partial graphs of large known graphs, each resumed by a fresh process; every resumption is '
        'compared with the reference completions; non-trivial = at least one resumption from storage with work left; '
        'distinct by the hash of the event log')
STATES = 'distinct (partial graph, type, layout) resumed'
REAL = ['srg.solver, srg.srg and all helpers (one fresh copy of the modules per process)', 'numpy load/save and views']
STUB = ['disk', 'process crash and restart']
ASSUMPTIONS = ['reference model sim/ref.py', 'signed integer types of native byte order']


def variants(rng):
    return [rng.choice(codecs.MEDIA), rng.choice(codecs.DTYPES), rng.choice(codecs.DTYPES), rng.choice(codecs.LAYOUTS)]


def scenario(rng, tier, i):
    big = tier == 'thorough' and rng.random() < 0.3
    if rng.random() < 0.45:
        spec = work.pick_start(rng, 300000 if big else 60000, 0.3)
        calm = rng.random() < 0.2
        return {'kind': 'search', 'start': spec, 'crashes': 0 if calm else rng.choice([1, 2, 4, 8]),
                'p_crash': 0 if calm else rng.choice([0.05, 0.2, 0.5]), 'p_disk': 0 if calm else rng.choice([0, 0.1]),
                'order': rng.choice(['fifo', 'lifo', 'random']), 'every': rng.choice([1, 1, 2, 5]),
                'steps': rng.choice([0, 1, 2, 5, 12, 40]), 'pieces': rng.choice([1, 2, 3, 100]),
                'codec': variants(rng), 'mixed': rng.random() < 0.5, 'seedc': rng.randrange(1 << 30)}
    items = []
    lim = rng.choice([300, 1000, 3000]) * (3 if big else 1)
    names = [n for n, (p, A) in sorted(graphs.catalogue().items()) if p[0] >= 8]
    for _ in range(rng.choice([4, 8, 12])):
        name = rng.choice(names)
        v = graphs.catalogue()[name][0][0]
        R = rng.randrange(2, v)
        if rng.random() < 0.3:
            R = max(2, v - 1 - int(rng.expovariate(0.3)))
        st = ['graph', name, rng.randrange(1 << 30), R]
        p, M = work.start(st)
        try:
            ref.next_rows(M, *p, limit=lim)
        except ref.TooBig:
            continue
        items.append([st, variants(rng), rng.random() < 0.4])
    for _ in range(rng.choice([0, 3])):
        items.append([['seed', *work.pick_params(rng, 20000)], variants(rng), rng.random() < 0.4])
    return {'kind': 'batch', 'items': items, 'limit': lim, 'calls': 120_000 if big else 20_000, 'fresh': rng.random() < 0.5,
            'kill': rng.choice([0, 0, 1, 2]), 'warm': rng.random() < 0.3}


class Stored:
    """An array handed to the library, with what it must still be afterwards."""

    def __init__(self, rows, codec):
        self.rows, self.codec = rows, codec
        medium, dt, dt2, layout = codec
        self.a = codecs.load(codecs.dump(rows, medium, dt), medium, dt2, layout)
        if rows_of(self.a) != rows:
            raise AssertionError('codec does not round-trip')
        self.base = self.a if self.a.base is None else self.a.base
        self.frozen = (self.a.tobytes(), self.a.shape, self.a.strides, str(self.a.dtype), bytes(memoryview(self.base).cast('B'))
                       if self.base is not None and getattr(self.base, 'nbytes', 0) and _contig(self.base) else b'')

    def check(self, what):
        f = (self.a.tobytes(), self.a.shape, self.a.strides, str(self.a.dtype), bytes(memoryview(self.base).cast('B'))
             if self.base is not None and getattr(self.base, 'nbytes', 0) and _contig(self.base) else b'')
        if f != self.frozen:
            raise Violation('checkpoint-changed', f'{what}: the stored array was modified')


def _contig(b):
    return isinstance(b, bytes) or getattr(getattr(b, 'flags', None), 'c_contiguous', False)


def compare(got, want, what):
    g, w = sorted(got), sorted(want)
    if g == w:
        return
    lost = [x for x in w if x not in set(g)]
    extra = [x for x in g if x not in set(w)]
    cls = 'lost-on-resume' if lost else 'added-on-resume'
    raise Violation(cls, f'{what}: {len(g)} graphs, {len(w)} expected, {len(lost)} lost '
                         f'{[core.short(x)[:600] for x in lost[:1]]}, {len(extra)} not expected {[core.short(x)[:600] for x in extra[:1]]}')


def execute(sc, ctx):
    (search if sc['kind'] == 'search' else batch)(sc, ctx)


def batch(sc, ctx):
    inst = core.Inst()
    for st, codec, whole in sc['items']:
        p, M = work.start(st)
        if sc['fresh']:
            inst = core.Inst()
        stored = Stored(M, codec)
        what = f'{p} from {core.short(M)[:500]} as {codec}'
        if whole:
            try:
                ref.tree_cost(M, *p, limit=sc['limit'])
            except ref.TooBig:
                whole = False
        with inst:
            for _ in range(sc['kill']):
                # the process that used the array before died inside the search
                try:
                    t = sched.run_alone(ctx, lambda t: list(inst.advance(stored.a)), [(ctx.ch.below(4000), 'killed')], max_steps=100_000)
                except Violation as e:
                    if e.cls != 'no-progress':
                        raise
                    continue
                stored.check(what)
                if t.fired and ctx.ch.flag(0.5):
                    inst = core.Inst()
            try:
                with core.library(what), core.budget(sc['calls']):
                    if whole:
                        got = [rows_of(x) for x in list(inst.solve(stored.a))]
                    else:
                        got = [rows_of(x) for x in list(inst.advance(stored.a))]
            except core.OverBudget:
                ctx.count('over-budget')
                continue
        stored.check(what)
        if whole:
            want = ref.completions(M, *p, limit=2_000_000)
        else:
            want = [M + (r,) for r in ref.next_rows(M, *p)]
        compare(got, want, what)
        ctx.log.add(st[:2], len(M), codec, whole, len(got))
        ctx.state(M, codec[2:])
        ctx.count('resumed')
        ctx.count('layout.' + codec[3])
        ctx.count('dtype.' + codec[2])
    if sc['items']:
        ctx.key = ctx.log.digest()


def search(sc, ctx):
    ch = ctx.ch
    p, M = work.start(sc['start'])
    v = p[0]
    d = disk.SimDisk(ctx, sc['p_disk'])
    crashes = sc['crashes']
    crng = random.Random(sc['seedc'])
    expect = {}

    def want(P):
        if P not in expect:
            expect[P] = sorted(ref.completions(P, *p, limit=2_000_000))
        return expect[P]

    def encode(frontier, done):
        return disk.record([[''.join(map(str, r)) for r in m] for m in frontier]) + \
            disk.record([[''.join(map(str, r)) for r in m] for m in done])

    def decode(data):
        rec, good = disk.records(data)
        if len(rec) != 2:
            raise Violation('harness', 'renamed checkpoint is torn')
        return [[tuple(tuple(int(c) for c in r) for r in m) for m in part] for part in rec]

    def save(frontier, done):
        data = encode(frontier, done)
        try:
            d.cache.pop('tmp', None)
            d.durable.pop('tmp', None)
            d.append('tmp', data)
            if d.faults_on and crashes > 0 and ch.flag(sc['p_crash'] / 4):
                raise core.Killed('in save')
            d.fsync('tmp')
            d.rename('tmp', 'ckpt')
        except disk.DiskError:
            d.cache.pop('tmp', None)

    d.faults_on = False
    save([M], [])
    d.faults_on = True
    codec = sc['codec']
    resumes = lives = 0
    budget = sc['steps']
    while True:
        lives += 1
        inst = core.Inst()
        frontier, done = decode(d.read('ckpt'))
        ctx.log.add('life', lives, len(frontier), len(done))
        if lives > 1 and frontier:
            resumes += 1
            ctx.count('resumed-after-crash')
        since = 0
        try:
            with inst:
                while frontier and budget > 0:
                    budget -= 1
                    j = {'fifo': 0, 'lifo': len(frontier) - 1}.get(sc['order'], crng.randrange(len(frontier)))
                    P = frontier[j]
                    stored = Stored(P, variants(crng) if sc['mixed'] else codec)
                    what = f'{p} from {core.short(P)[:500]} as {stored.codec}'
                    faults = []
                    if crashes > 0 and ch.flag(sc['p_crash']):
                        faults = [(ch.below(1 << (3 + ch.below(11))), 'killed')]
                    if faults:
                        t = sched.run_alone(ctx, lambda t: list(inst.advance(stored.a)), faults)
                        stored.check(what)
                        if t.error is not None:
                            if not t.fired:
                                raise t.error
                            raise core.Killed('in search')
                        res = t.result
                    else:
                        with core.library(what):
                            res = list(inst.advance(stored.a))
                    stored.check(what)
                    new = [rows_of(x) for x in res]
                    frontier = frontier[:j] + frontier[j + 1:] + [x for x in new if len(x) < v]
                    done = done + [x for x in new if len(x) == v]
                    since += 1
                    if since >= sc['every']:
                        since = 0
                        save(frontier, done)
            break
        except core.Killed:
            ctx.count('fault.crash-process')
            crashes -= 1
            d.crash()
    # finish in pieces, each by a fresh process, from what is on the disk
    d.faults_on = False
    save(frontier, done)
    frontier, done = decode(d.read('ckpt'))
    total = list(done)
    crng.shuffle(frontier)
    n = max(1, min(sc['pieces'], len(frontier)))
    for part in range(n):
        inst = core.Inst()
        with inst:
            for P in frontier[part::n]:
                stored = Stored(P, variants(crng) if sc['mixed'] else codec)
                what = f'{p} resumed from {core.short(P)[:500]} as {stored.codec}'
                with core.library(what):
                    got = [rows_of(x) for x in list(inst.solve(stored.a))]
                stored.check(what)
                compare(got, want(P), what)
                total += got
                resumes += 1
                ctx.state(P, stored.codec[2:])
                ctx.count('resumed')
    ctx.log.add('total', len(total))
    compare(total, want(M), f'{p}: all pieces together')
    if resumes:
        ctx.key = ctx.log.digest()


def shrink(sc):
    if sc['kind'] == 'batch':
        yield from runner.generic_shrink(sc, ['items'], [('kill', 0)])
        for j, (st, codec, whole) in enumerate(sc['items']):
            for c in (['npy', 'int8', 'int8', 'plain'], [codec[0], codec[1], 'int8', codec[3]], [codec[0], codec[1], codec[2], 'plain']):
                if c != codec:
                    yield dict(sc, items=sc['items'][:j] + [[st, c, whole]] + sc['items'][j + 1:])
    else:
        yield from runner.generic_shrink(sc, [], [('crashes', 0), ('steps', 0), ('pieces', 1)])
        if sc['mixed']:
            yield dict(sc, mixed=False)
        if sc['codec'] != ['npy', 'int8', 'int8', 'plain']:
            yield dict(sc, codec=['npy', 'int8', 'int8', 'plain'])
        if sc['p_disk']:
            yield dict(sc, p_disk=0)
