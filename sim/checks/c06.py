"""C06: after failures and abandoned operations the library works as before."""
from .. import core, faults, runner, sched, work
from ..core import Violation, rows_of, row_of

PROP = 'C06'
RUNS = {'quick': 5000, 'thorough': 40000}
RULE = ('a run = a history of 2-12 operations on shared input objects in one process: failed at a seeded instruction, streams closed, '
        'abandoned, thrown into or left suspended, and clean ones; every clean operation, and one clean repetition of each '
        'operation at the end, must deliver the fresh-process result and leave all inputs unchanged; '
        'non-trivial = at least one failure or abandonment took effect; distinct by the hash of the event log')
STATES = 'distinct (history kind, code location where it was cut)'
REAL = ['srg (all modules)', 'numpy']
STUB = ['the source of failures (raised at a line or opcode of srg code)']
ASSUMPTIONS = ['failures strike between bytecodes of srg code, not inside numpy']

KINDS = sorted(core.FAULT_KINDS)
STREAMS = ('solve', 'cand', 'parts')


def scenario(rng, tier, i):
    gran = 'opcode' if rng.random() < 0.25 else 'line'
    budget = rng.choice([3000, 10000, 40000]) if gran == 'line' else 4000
    pool = [work.pick_op(rng, budget) for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < 0.4:       # related operations on the very same start
        st = work.pick_start(rng, budget)
        pool = [['solve', st], ['advance', st], ['cand', st]][:rng.choice([1, 2, 3])]
    hist = []
    for _ in range(rng.choice([1, 2, 3, 5, 10])):
        j = rng.randrange(len(pool))
        what = rng.choice(['fault', 'fault', 'fault', 'clean', 'close', 'drop', 'throw', 'suspend'])
        if what in ('close', 'drop', 'throw', 'suspend') and pool[j][0] not in STREAMS:
            what = 'fault'
        hist.append([what, j, faults.spot(rng), faults.kind(rng), rng.choice([0, 1, 2, 5])])
    return {'pool': pool, 'hist': hist, 'gran': gran, 'share': rng.random() < 0.85, 'measure': rng.random() < 0.5}


def stream(inst, op, inp):
    if op[0] == 'solve':
        return inst.solver.solve(inp.srg(op[1]))
    if op[0] == 'parts':
        return inst.partition.enum(op[1], list(op[2]))
    try:
        return inst.candidates(inp.matrix(op[1]))
    except inst.NoSolution:
        return iter(())


def execute(sc, ctx):
    inst = core.Inst()
    inp = work.Inputs(inst, share=sc['share'])
    for op in sc['pool']:
        work.prepare(inp, op)
    # the length of each operation, measured elsewhere so that this process starts untouched
    lengths = []
    for op in sc['pool']:
        probe = inst if sc['measure'] else core.Inst()
        pin = inp if sc['measure'] else work.Inputs(probe)
        with probe:
            n, got, trail = faults.dry_steps(ctx, probe, op, pin, sc['gran'])
        work.check_result(op, got, 'first: ')
        lengths.append((n, trail))
    cut = 0
    held = []
    try:
        for h, (what, j, frac, kind, took) in enumerate(sc['hist']):
            op = sc['pool'][j]
            where = f'operation {h} ({what}): '
            with inst:
                if what == 'clean':
                    work.check_result(op, work.run_op(inst, op, inp, where), where)
                elif what == 'fault':
                    s = faults.at(frac, *lengths[j])
                    t = sched.run_alone(ctx, lambda t: work.perform(inst, op, inp), [(s, kind)], sc['gran'], faults.MAX)
                    if t.fired:
                        cut += 1
                        ctx.state(what, kind, t.where)
                    if t.error is None:
                        work.check_result(op, t.result, where)
                    elif not core.caused_by_injection(t.error):
                        raise Violation('wrong-failure', f'{where}{work.describe(op)}: {type(t.error).__name__}: {str(t.error)[:300]} at {core.library_frame(t.error)}')
                else:
                    cut += 1
                    ctx.count('fault.' + what)
                    with core.library(where):
                        g = iter(stream(inst, op, inp))
                        for _ in range(took):
                            if next(g, None) is None:
                                break
                    if what == 'close' and hasattr(g, 'close'):
                        g.close()
                    elif what == 'throw' and hasattr(g, 'throw'):
                        try:
                            g.throw(core.FAULT_KINDS[kind]())
                        except BaseException as e:
                            if not core.caused_by_injection(e) and not isinstance(e, StopIteration):
                                raise Violation('wrong-failure', f'{where}throw {kind}: {type(e).__name__}: {e}')
                    elif what == 'suspend':
                        held.append(g)
                    ctx.state(what, took)
                    del g
            inp.check_unchanged(where)
            ctx.log.add(what, j, kind, took)
        for j, op in enumerate(sc['pool']):
            where = f'after {len(sc["hist"])} operations: '
            with inst:
                got = work.run_op(inst, op, inp, where)
            work.check_result(op, got, where)
            inp.check_unchanged(where)
            ctx.count('op.' + op[0])
            ctx.log.add('clean', j, len(got))
    finally:
        with inst:
            for g in held:
                if hasattr(g, 'close'):
                    g.close()
    if cut:
        ctx.key = ctx.log.digest()


def shrink(sc):
    for l in runner.shrink_list(sc['hist']):
        yield dict(sc, hist=l)
    for j in range(len(sc['pool'])):
        if len(sc['pool']) > 1:
            h = [[a, b - (b > j), c, d, e] for a, b, c, d, e in sc['hist'] if b != j]
            yield dict(sc, pool=sc['pool'][:j] + sc['pool'][j + 1:], hist=h)
    if sc['gran'] == 'opcode':
        yield dict(sc, gran='line')
    if sc['measure']:
        yield dict(sc, measure=False)
