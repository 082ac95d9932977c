"""C05: a failure inside an operation surfaces, or the result is complete."""
from .. import core, faults, runner, sched, work
from ..core import Violation, rows_of, row_of

PROP = 'C05'
RUNS = {'quick': 5000, 'thorough': 60000}
RULE = ('a run = one or two library operations (search, one-row extension, candidate stream, sort also over failing streams, '
        'relabel, complement, catalogue), first measured without faults, then repeated with failures (memory, interrupt, timeout, '
        'OS error, recursion, arithmetic, run-time, lookup, assertion, exit, thread kill) raised at seeded instructions of srg code; '
        'each must end in the complete correct result or in that failure; non-trivial = at least one failure fired; '
        'distinct by the hash of the event log')
STATES = 'distinct (kind of failure, code location struck)'
REAL = ['srg (all modules)', 'numpy']
STUB = ['the source of failures (raised at a line or opcode of srg code)']
ASSUMPTIONS = ['failures strike between bytecodes of srg code, not inside numpy']

KINDS = sorted(k for k in core.FAULT_KINDS)


def scenario(rng, tier, i):
    gran = 'opcode' if rng.random() < 0.3 else 'line'
    budget = rng.choice([3000, 10000, 30000]) if gran == 'line' else 4000
    if tier == 'thorough' and rng.random() < 0.3:
        budget *= 5
    r = rng.random()
    ops = [work.pick_op(rng, budget, ['solve', 'advance', 'cand'] if r < 0.6 else None) for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < 0.12:
        ops = [['sortstream', work.pick_op(rng, budget, ['sort'])[1:], rng.randrange(0, 6), rng.choice(KINDS)]]
    elif rng.random() < 0.15:
        ops = [['sortsolve', work.pick_start(rng, budget)]]
    elif rng.random() < 0.15:
        ops = [['thrown', work.pick_op(rng, budget, ['solve', 'cand']), rng.choice([0, 1, 1, 1, 2, 3]), rng.choice(faults.COMMON)]]
    n = rng.choice([2, 4, 8])
    return {'ops': ops, 'gran': gran, 'fresh': rng.random() < 0.4,
            'faults': [[rng.randrange(len(ops)), [faults.spot(rng)], faults.kind(rng)]
                       for _ in range(n)]}


def perform(inst, op, inp):
    if op[0] == 'sortsolve':       # the report of a live search
        return tuple(rows_of(m) for m in inst.sorter.sort(inst.solver.solve(inp.srg(op[1]))))
    if op[0] == 'thrown':          # a failure at the place where the consumer holds the stream
        k, st = op[1]
        g = inst.solver.solve(inp.srg(st)) if k == 'solve' else inst.candidates(inp.matrix(st))
        if not hasattr(g, 'throw'):
            raise core.FAULT_KINDS[op[3]]()
        for _ in range(op[2]):
            if next(g, None) is None:
                break
        try:
            g.throw(core.FAULT_KINDS[op[3]]())
        except StopIteration:
            pass
        return
    if op[0] == 'sortstream':      # a stream whose producer fails after some items
        items = inp.glist(op[1][0], op[1][1])

        def gen():
            for j, x in enumerate(items):
                if j == op[2]:
                    raise core.FAULT_KINDS[op[3]]()
                yield x
            raise core.FAULT_KINDS[op[3]]()
        return tuple(rows_of(m) for m in inst.sorter.sort(gen()))
    return work.perform(inst, op, inp)


def check(op, got, where):
    if op[0] == 'sortsolve':
        want = tuple(sorted(work.completions(op[1]), key=work.ref.sort_key))
        if got != want:
            raise Violation('lost-results' if set(got) < set(want) else 'wrong-results',
                            f'{where}{work.describe(op)}: {len(got)} graphs reported, {len(want)} expected')
    elif op[0] == 'thrown':
        raise Violation('failure-swallowed', f'{where}{work.describe(op[1])}: {op[3]} thrown into the stream after {op[2]} items came to nothing')
    elif op[0] == 'sortstream':
        raise Violation('failure-swallowed', f'{where}{work.describe(op)}: the stream failed, the report did not')
    else:
        work.check_result(op, got, where)


def execute(sc, ctx):
    inst = core.Inst()
    inp = work.Inputs(inst)
    steps, trails, threaded = {}, {}, set()
    fired = 0
    for j, op in enumerate(sc['ops']):
        with inst:
            if op[0] in ('sortstream', 'thrown'):
                t = sched.run_alone(ctx, lambda t: perform(inst, op, inp), (), sc['gran'], faults.MAX)
                if t.error is None:
                    check(op, t.result, '')
                if op[0] == 'thrown' and isinstance(t.error, inst.NoSolution):     # while the stream was made
                    t.error = core.FAULT_KINDS[op[3]]()
                if not core.caused_by_injection(t.error):
                    raise Violation('wrong-failure', f'{work.describe(op)}: {type(t.error).__name__}: {t.error} instead of the failure of the stream')
                ctx.count('fault.' + op[0] + '-' + op[3])
                fired += 1
                steps[j] = 0
                continue
            before = core.REAL['started']
            t = sched.run_alone(ctx, lambda t: perform(inst, op, inp), (), sc['gran'], faults.MAX, trail=True)
            if core.REAL['started'] > before:
                threaded.add(j)
            if t.error is not None:
                raise Violation('unexpected-exception', f'{work.describe(op)}: {type(t.error).__name__}: {str(t.error)[:300]} at {core.library_frame(t.error)}')
            check(op, t.result, 'no failure: ')
            steps[j], trails[j] = t.steps, t.trail
    for j, places, kind in sc['faults']:
        op = sc['ops'][j]
        if op[0] in ('sortstream', 'thrown') or not steps[j]:
            continue
        if sc['fresh']:
            inst = core.Inst()
            inp = work.Inputs(inst)
        # the streams' items delivered before the failure are checked too
        f = [faults.at(x, steps[j], trails[j]) for x in places]
        with inst:
            work.prepare(inp, op) if op[0] != 'sortsolve' else inp.srg(op[1])
            if j in threaded:
                fired += helpers(sc, ctx, inst, op, inp, places[0], kind)
                continue
            t = sched.run_alone(ctx, lambda t: perform(inst, op, inp), [(s, kind) for s in f], sc['gran'], faults.MAX)
        if not t.fired:
            ctx.count('not-reached')
        else:
            fired += 1
            ctx.state(kind, t.where)
        where = f'{kind} at step {f} of {steps[j]} {t.where}: '
        if t.error is None:
            if t.fired:
                ctx.count('absorbed')
            check(op, t.result, where)
        elif not t.fired or not core.caused_by_injection(t.error):
            raise Violation('wrong-failure', f'{where}{work.describe(op)}: {type(t.error).__name__}: {str(t.error)[:300]}')
    ctx.count('failures-fired', fired)
    if fired:
        ctx.key = ctx.log.digest()


def helpers(sc, ctx, inst, op, inp, place, kind):
    """The operation works with threads of its own: the failure strikes in one of them."""
    def go(faulty):
        sim = sched.Sim(ctx, policy=('geo', 200), max_steps=faults.MAX)
        sim.helper_faults = faulty
        t = sim.add('caller', lambda t: perform(inst, op, inp), (), 'line')
        sim.run()
        return t, sim.adopted
    t, crew = go({})
    if t.error is not None:
        raise Violation('unexpected-exception', f'{work.describe(op)}: {type(t.error).__name__}: {str(t.error)[:300]} at {core.library_frame(t.error)}')
    check(op, t.result, 'no failure: ')
    crew = [j for j, h in enumerate(crew) if h.steps]
    if not crew:
        return 0
    x = place[2] if isinstance(place, list) else place
    j = crew[ctx.ch.below(len(crew))]
    at = faults.at(x, t.sim.adopted[j].steps)
    t, hit = go({j: [(at, kind)]})
    where = f'{kind} in helper thread {j} at step {at}: '
    hit = len(hit) > j and hit[j].fired
    ctx.state('helper', kind, j)
    if t.error is None:
        check(op, t.result, where)
    elif not hit or not core.caused_by_injection(t.error):
        raise Violation('wrong-failure', f'{where}{work.describe(op)}: {type(t.error).__name__}: {str(t.error)[:300]}')
    ctx.count('fault.helper-' + kind if hit else 'not-reached')
    return bool(hit)


def shrink(sc):
    for l in runner.shrink_list(sc['faults']):
        yield dict(sc, faults=l)
    for j in range(len(sc['ops'])):
        if len(sc['ops']) > 1:
            yield dict(sc, ops=[sc['ops'][j]], faults=[[0, b, c] for a, b, c in sc['faults'] if a == j])
    if sc['fresh']:
        yield dict(sc, fresh=False)
    if sc['gran'] == 'opcode':
        yield dict(sc, gran='line')
