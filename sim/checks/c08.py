"""C08: the sorted report is a function of the set of graphs that arrived."""
import collections
import heapq
import random

from .. import core, graphs, ref, runner, sched, work
from ..core import Violation, arr, rows_of

PROP = 'C08'
RUNS = {'quick': 16000, 'thorough': 120000}
RULE = ('a run = graphs produced by several workers (live searches of the pieces of a split search, or stored labellings and catalogue '
        'entries) that arrive at one collector over a network that delays, reorders, duplicates (and re-sends what it lost); the collector '
        'sorts lists, tuples, queues or the live stream; also streams that fail midway and sorts cut by failures; compared with the '
        'reference order of exactly the arrived graphs; non-trivial = at least 2 different graphs arrived; distinct by the hash of the log')
STATES = 'distinct arrival orders (by rank)'
REAL = ['srg.sorter, srg.solver', 'numpy']
STUB = ['network', 'collector', 'source of failures']
ASSUMPTIONS = ['ascending order = lexicographic order of the upper triangle read row by row (README, tests)']


def scenario(rng, tier, i):
    r = rng.random()
    if i % 400 == 7:        # a very long report
        src = ['labels', rng.choice(['lattice3', 'paley5', 'paley13', 'paley17', 'multipartite3x4']), rng.randrange(1 << 30), rng.choice([1100, 1500, 2300])]
    elif i % 80 == 9:
        src = [rng.choice(['near', 'perms'])]
        src += [rng.choice(sorted(graphs.large())), rng.randrange(1 << 30), rng.choice([2, 3])]
    elif r < 0.35:
        rich = [['seed', 10, 6, 3, 4], ['seed', 13, 6, 2, 3], ['seed', 15, 6, 1, 3], ['seed', 16, 6, 2, 2]]
        st = rng.choice(rich) if rng.random() < 0.7 else work.pick_start(rng, 60000, 0.2)
        src = ['search', st, rng.choice([0, 1, 2, 4, 8])]
    elif r < 0.6:
        src = [rng.choice(['labels', 'labels', 'perms']), rng.choice([n for n in work.small_graphs(64) if 'multipartite' not in n or rng.random() < 0.2] or ['paley13']), rng.randrange(1 << 30), rng.choice([2, 3, 5, 9, 20])]
    elif r < 0.75:
        v = rng.choice([13, 15, 16, 16, 16, 25, 28, 36])
        names = [n for n, (p, A) in sorted(graphs.catalogue().items()) if p[0] == v]
        src = ['mixed', v, rng.sample(names, min(len(names), rng.choice([2, 3, 5]))), rng.randrange(1 << 30)]
    elif r < 0.9:
        src = ['cat', rng.choice(work.catalogue_names()), rng.choice([2, 5, 13, 40, 161]), rng.randrange(1 << 30)]
    else:
        src = ['near', rng.choice(work.small_graphs(30)), rng.randrange(1 << 30), rng.choice([3, 6, 12])]
    fail = rng.choice([None] * 6 + ['stream', 'stream', 'inside', 'inside'])
    return {'src': src, 'workers': rng.choice([1, 2, 3, 5]), 'p_dup': rng.choice([0, 0, 0.1, 0.4]), 'p_drop': rng.choice([0, 0, 0.2]),
            'container': rng.choice(['list', 'list', 'tuple', 'deque', 'stream', 'stream', 'iter', 'sorted', 'reversed']),
            'dtype': rng.choice(['int8', 'int8', 'int16', 'int64', 'mixed']), 'layout': rng.choice(['plain', 'plain', 'fortran', 'readonly']),
            'fail': fail and [fail, rng.choice(sorted(core.FAULT_KINDS)), rng.random()], 'again': rng.random() < 0.4,
            'rounds': rng.choice([0, 0, 2, 4])}


def produce(sc, inst, ctx):
    """Per worker, an iterator of arrays; and the multiset of graphs they produce in total."""
    src = sc['src']
    n = sc['workers']
    if src[0] == 'search':
        p, M = work.start(src[1])
        frontier, whole = [M], []
        for _ in range(src[2]):
            if not frontier:
                break
            P = frontier.pop(ctx.ch.below(len(frontier)))
            for r in ref.next_rows(P, *p):
                (frontier if len(P) + 1 < p[0] else whole).append(P + (r,))
        parts = [frontier[j::n] for j in range(n)]

        def worker(part, ready):
            for g in ready:
                yield arr(g)
            for P in part:
                yield from inst.solve(arr(P))
        return [worker(parts[j], whole if j == 0 else []) for j in range(n)], list(work.completions(src[1]))
    rng = random.Random(src[3] if src[0] in ('mixed', 'cat') else src[2])
    if src[0] == 'labels':
        g = work.graph_list(src)
    elif src[0] == 'perms':
        g = [work.permuted(graphs.get(src[1])[1], rng.random()) for _ in range(src[3])]
    elif src[0] == 'mixed':
        g = [ref.canonical_labelling(graphs.get(x)[1], rng) for x in src[2] for _ in range(3)]
    elif src[0] == 'cat':
        g = list(work.catalogue_content(src[1]))
        if len(g) > src[2]:
            g = rng.sample(g, src[2])
    else:      # labellings that differ late: only the last vertices permuted
        base = ref.canonical_labelling(graphs.get(src[1])[1], rng)
        v = len(base)
        g = [base]
        for _ in range(src[3]):
            k = rng.randrange(2, max(3, v // 2))
            o = list(range(v - k)) + rng.sample(range(v - k, v), k)
            g.append(tuple(tuple(base[a][b] for b in o) for a in o))
    dts = ['int8', 'int16', 'int32', 'int64']

    def mk(x):
        a = arr(x, sc['dtype'] if sc['dtype'] != 'mixed' else rng.choice(dts))
        if sc['layout'] == 'fortran':
            a = core.np.asfortranarray(a)
        elif sc['layout'] == 'readonly':
            a.setflags(write=False)
        return a
    return [iter([mk(x) for x in g[j::n]]) for j in range(n)], g


def network(sc, its, ctx, arrived, fail_at):
    """Yields arrays in order of arrival; records what arrived."""
    ch = ctx.ch
    q, seq, now = [], 0, 0.0
    live = list(range(len(its)))
    count = 0
    for j in live:
        seq += 1
        heapq.heappush(q, (ch.below(100), seq, 'turn', j, None))
    while q:
        now, _, kind, j, x = heapq.heappop(q)
        if kind == 'turn':
            try:
                g = next(its[j])
            except StopIteration:
                continue
            d = 1 + ch.below(300)
            if ch.flag(sc['p_drop']):          # lost, sent again later
                ctx.count('fault.drop')
                d += 500
            seq += 1
            heapq.heappush(q, (now + d, seq, 'msg', j, g))
            if ch.flag(sc['p_dup']):
                ctx.count('fault.duplicate')
                seq += 1
                heapq.heappush(q, (now + 1 + ch.below(600), seq, 'msg', j, g))
            seq += 1
            heapq.heappush(q, (now + 1 + ch.below(100), seq, 'turn', j, None))
        else:
            if fail_at is not None and count >= fail_at:
                ctx.count('fault.stream')
                raise core.FAULT_KINDS[sc['fail'][1]]()
            count += 1
            arrived.append((x, rows_of(x)))
            yield x
    ctx.sim_time += now
    if fail_at is not None:
        ctx.count('fault.stream')
        raise core.FAULT_KINDS[sc['fail'][1]]()


def container(kind, xs):
    if kind == 'tuple':
        return tuple(xs)
    if kind == 'deque':
        return collections.deque(xs)
    if kind == 'iter':
        return iter(xs)
    if kind == 'sorted':
        return sorted(xs, key=lambda x: ref.sort_key(rows_of(x)))
    if kind == 'reversed':
        return sorted(xs, key=lambda x: ref.sort_key(rows_of(x)), reverse=True)
    return list(xs)


def execute(sc, ctx):
    inst = core.Inst()
    its, total = produce(sc, inst, ctx)
    arrived = []
    fail = sc['fail']
    with inst:
        if fail and fail[0] == 'stream':
            at = int(fail[2] * (len(total) + 1))
            try:
                got = inst.sorter.sort(network(sc, its, ctx, arrived, at))
                got = list(got)
            except BaseException as e:
                if not core.caused_by_injection(e):
                    raise
                ctx.log.add('failed', core.derive([v for _, v in arrived]))
                ctx.key = ctx.log.digest()
                return
            raise Violation('failure-swallowed', f'the stream failed after {len(arrived)} graphs, the report has {len(got)} and no failure')
        net = network(sc, its, ctx, arrived, None)
        if sc['container'] == 'stream':
            data = net
        else:
            with core.library('search pieces'):
                data = container(sc['container'], list(net))
        if fail and fail[0] == 'inside' and sc['container'] != 'stream' and not hasattr(data, '__next__'):
            n = sched.run_alone(ctx, lambda t: inst.sorter.sort(data), ()).steps
            step = int(fail[2] * n)
            t = sched.run_alone(ctx, lambda t: list(inst.sorter.sort(data)), [(step, fail[1])])
            if t.error is None:
                check(t.result, arrived, 'with a failure inside: ', ctx)
            elif not core.caused_by_injection(t.error):
                raise t.error
            if not hasattr(data, '__next__'):
                unchanged(data, arrived, sc, 'after a failure inside')
        before = [id(x) for x in data] if not hasattr(data, '__next__') else None
        with core.library(f'sort of {len(total)} graphs'):
            got = list(inst.sorter.sort(data))
    check(got, arrived, '', ctx)
    if before is not None:
        if [id(x) for x in data] != before:
            raise Violation('input-changed', 'the container given to sort was reordered')
    for x, v in arrived:
        if rows_of(x) != v:
            raise Violation('input-changed', 'a graph given to sort was modified')
    missing = set(total) - {v for _, v in arrived}
    if missing or {v for _, v in arrived} - set(total):
        raise Violation('lost-results', f'the pieces of the search delivered {len({v for _, v in arrived})} different graphs, '
                                        f'the undivided one has {len(set(total))}')
    if sc['again']:       # another arrival order of the same graphs, another container
        xs = [x for x, _ in arrived]
        random.Random(len(xs)).shuffle(xs)
        with inst, core.library('second sort'):
            got2 = list(inst.sorter.sort(iter(xs)))
        if [rows_of(x) for x in got2] != [rows_of(x) for x in got]:
            raise Violation('wrong-order', 'two arrival orders of the same graphs give different reports')
    graphs_ = [v for _, v in arrived]
    for k in range(sc['rounds']):      # reports of other objects with the same graphs, each batch released before the next
        rs = random.Random(k)
        some = rs.sample(graphs_, min(len(graphs_), rs.choice([2, 5, 40])))
        batch = [arr(v) for v in some]
        with inst, core.library('a later report'):
            later = [rows_of(x) for x in inst.sorter.sort(batch)]
        if later != sorted(some, key=ref.sort_key):
            raise Violation('wrong-order' if sorted(later) == sorted(some) else 'wrong-results', f'report {k} after the first: {len(some)} graphs, {len(later)} reported')
        ctx.count('fault.released', len(batch))
        del batch
    rank = {v: r for r, v in enumerate(sorted({v for _, v in arrived}, key=ref.sort_key))}
    order = tuple(rank[v] for _, v in arrived)
    ctx.state(order)
    ctx.log.add('arrival', order, core.derive([v for _, v in arrived]))
    if len(rank) > 1:
        ctx.key = ctx.log.digest()
    ctx.count('graphs', len(arrived))


def unchanged(data, arrived, sc, where):
    got = sorted(rows_of(x) for x in data)
    if got != sorted(v for _, v in arrived) or (sc['container'] in ('list', 'tuple', 'deque') and [rows_of(x) for x in data] != [v for _, v in arrived]):
        raise Violation('input-changed', where)


def check(got, arrived, where, ctx):
    g = [rows_of(x) for x in got]
    want = sorted((v for _, v in arrived), key=ref.sort_key)
    if g != want:
        if sorted(g) == sorted(want):
            raise Violation('wrong-order', f'{where}{len(g)} graphs not in ascending order of the upper triangle')
        raise Violation('wrong-results', f'{where}{len(g)} graphs reported, {len(want)} arrived')


def shrink(sc):
    for k, d in (('p_dup', 0), ('p_drop', 0), ('workers', 1), ('container', 'list'), ('dtype', 'int8'), ('layout', 'plain'), ('again', False), ('rounds', 0)):
        if sc[k] != d:
            yield dict(sc, **{k: d})
    s = sc['src']
    if s[0] in ('labels', 'perms', 'near') and s[3] > 2:
        yield dict(sc, src=s[:3] + [2])
        yield dict(sc, src=s[:3] + [s[3] - 1])
    if s[0] == 'cat' and s[2] > 2:
        yield dict(sc, src=[s[0], s[1], 2, s[3]])
    if s[0] == 'search' and s[2]:
        yield dict(sc, src=[s[0], s[1], 0])
