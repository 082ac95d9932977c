"""C01: operations of concurrent caller threads deliver what they deliver alone."""
from .. import core, runner, sched, work
from ..core import Violation

PROP = 'C01'
RUNS = {'quick': 2200, 'thorough': 12000}
RULE = ('a run = 2-4 caller threads, each with 1-3 library operations drawn over known graphs and parameter sets, '
        'on shared input objects of one library instance, under one seeded line- or opcode-level schedule; '
        'non-trivial = at least two switches between threads inside library code; distinct by the hash of the event log')
STATES = 'distinct (thread, code location switched to, thread left) triples at preemptions'
REAL = ['srg (solver, sorter, utils, database, all helpers)', 'numpy', 'CPython threads']
STUB = ['the thread scheduler (seeded, one thread at a time)', 'locks created by srg', 'the clock srg could read']
ASSUMPTIONS = ['a thread switch happens only between two bytecodes of srg code, never inside numpy or the interpreter']


def meet(rng, gran):
    """Threads that stop at the same few places of the code, or everywhere in the same few functions."""
    if rng.random() < 0.6:
        return ['meet', rng.choice([8, 16, 32]), rng.randrange(1 << 20), 'function']
    return ['meet', rng.choice([20, 60, 200] if gran == 'line' else [100, 300, 1000]), rng.randrange(1 << 20), 'place']


def scenario(rng, tier, i):
    gran = 'opcode' if rng.random() < 0.35 else 'line'
    budget = 12000 if gran == 'opcode' else 60000
    if tier == 'thorough' and rng.random() < 0.3:
        budget *= 5
    n = rng.choice([2, 2, 2, 3, 4])
    budget //= n
    mode = rng.random()
    kinds = None
    if mode < 0.5:
        kinds = ['solve', 'solve', 'advance', 'cand']
    elif mode < 0.65:
        kinds = ['sort', 'maximize', 'complement', 'catalogue', 'list', 'parts']
    threads = []
    if rng.random() < 0.16:      # one kind of cheap operation, many times over more inputs than a small table holds
        pool = [work.pick_op(rng, 4000, [rng.choice(['complement', 'complement', 'maximize', 'catalogue', 'sort', 'cand', 'advance', 'parts'])])]
        while len(pool) < rng.choice([4, 6, 8]):
            pool.append(work.pick_op(rng, 4000, [pool[0][0]]))
        if len({str(o) for o in pool}) > 1:
            return {'threads': [[rng.choice(pool) for _ in range(rng.choice([3, 5, 8]))] for _ in range(min(n, 3))], 'gran': gran,
                    'policy': rng.choice([['geo', 1], ['geo', 3], ['geo', 10], ['geo', 50], ['rr', 1], ['rr', 7], meet(rng, gran), meet(rng, gran), meet(rng, gran)]), 'warm': rng.random() < 0.3,
                    'separate': rng.random() < 0.25}
    if rng.random() < 0.1:      # the same partial graph with several extensions, over and over
        st = work.pick_fork(rng, rng.choice([4000, 8000]), True, False, 2, rng.choice([2, 3, 3]))
        if st:
            return {'threads': [[['advance', st]] * rng.choice([1, 2, 3]) for _ in range(rng.choice([2, 2, 3]))], 'gran': gran,
                    'policy': rng.choice([['geo', 1], ['geo', 3], ['geo', 50], ['rr', 1], meet(rng, gran), ['meet', 1, 'SRG.', 'class'], ['meet', 1, 'SRG.', 'class']]),
                    'warm': rng.random() < 0.3, 'separate': False}
    if rng.random() < 0.4:
        ops = [work.pick_op(rng, budget, kinds) for _ in range(rng.choice([1, 1, 2]))]
        threads = [[op for op in ops] for _ in range(n)]
        if len(ops) > 1:
            for t in threads:
                rng.shuffle(t)
    else:
        pool = [work.pick_op(rng, budget, kinds) for _ in range(rng.choice([2, 3]))]
        threads = [[rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(n)]
    policy = rng.choice([['geo', 1], ['geo', 3], ['geo', 10], ['geo', 50], ['geo', 200], ['sparse', 2000],
                         ['sparse', 20000], ['rr', 1], ['rr', 7], meet(rng, gran), meet(rng, gran)])
    return {'threads': threads, 'gran': gran, 'policy': policy, 'warm': rng.random() < 0.3,
            'separate': rng.random() < 0.25}


def execute(sc, ctx):
    inst = core.Inst()
    with inst:
        shared = work.Inputs(inst)
        inputs = []
        for ops in sc['threads']:
            inp = work.Inputs(inst) if sc['separate'] else shared
            inputs.append(inp)
            for op in ops:
                work.prepare(inp, op)
        if sc['warm'] and sc['threads'] and sc['threads'][0]:
            op = sc['threads'][0][0]
            work.check_result(op, work.run_op(inst, op, inputs[0], 'alone: '), 'alone: ')
        sim = sched.Sim(ctx, policy=tuple(sc['policy']), max_steps=8_000_000)
        out = []

        def body(j):
            def fn(task):
                for n, op in enumerate(sc['threads'][j]):
                    got = work.run_op(inst, op, inputs[j], f'thread {j}: ')
                    out.append((j, n, op, got))
                    task.pause(('op', n))
            return fn
        for j in range(len(sc['threads'])):
            sim.add(f't{j}', body(j), gran=sc['gran'])
        for t in sim.run():
            if isinstance(t.error, Violation):
                raise t.error
            if t.error is not None:
                raise Violation('unexpected-exception', f'thread {t.idx}: {type(t.error).__name__}: {t.error}')
        for j, n, op, got in out:
            work.check_result(op, got, f'thread {j}: ')
            ctx.log.add('result', j, n, len(got))
            ctx.count('op.' + op[0])
        if len(out) != sum(map(len, sc['threads'])):
            raise Violation('lost-operation', 'an operation neither returned nor raised')
        for inp in inputs:
            inp.check_unchanged()
        if sim.switches >= 2:
            ctx.key = ctx.log.digest()


def shrink(sc):
    for j in range(len(sc['threads'])):
        if len(sc['threads']) > 1:
            yield dict(sc, threads=sc['threads'][:j] + sc['threads'][j + 1:])
        for l in runner.shrink_list(sc['threads'][j]):
            if l:
                yield dict(sc, threads=sc['threads'][:j] + [l] + sc['threads'][j + 1:])
    if sc['warm']:
        yield dict(sc, warm=False)
