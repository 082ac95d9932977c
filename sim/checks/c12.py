"""C12: search results do not depend on incidental properties of the host."""
import ctypes
import gc
import hashlib
import json
import os
import random
import subprocess
import sys

from .. import core, runner, sched, work
from ..core import Violation, arr, rows_of, row_of

PROP = 'C12'
RUNS = {'quick': 900, 'thorough': 24000}
RULE = ('a run = a few searches, one-row extensions, candidate streams and reports, delivered once by a fresh process on a plain host and '
        'again on hosts that differ: in-process (tie order of unstable sorts, set iteration order, clock ticks and jumps, random state, gc at '
        'every allocation or off, object addresses, assertions stripped, other work before, another thread, print and error settings, environment, number of CPUs and process id) or as '
        'real sub-processes (hash seed, -O/-OO, locale, time zone, CPU features, thread settings, malloc); the sequences must be equal, '
        'element by element; distinct by the hash of the log; non-trivial = something was delivered')
STATES = 'distinct (operation, kind of host difference) pairs'
REAL = ['srg.solver, srg.srg, srg.sorter and helpers', 'numpy', 'CPython with real hash seeds, flags and allocators in the sub-process runs']
STUB = ['clock', 'tie order and set order (in-process)', 'thread scheduler not involved']
ASSUMPTIONS = ['the plain host is this sandbox with default settings']

KINDS = ['ties', 'sets', 'clock', 'random', 'gc', 'addresses', 'optimize', 'history', 'thread', 'settings', 'failures', 'closed', 'environment']
THREADS = ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMEXPR_NUM_THREADS', 'NUMEXPR_MAX_THREADS', 'SRG_THREADS')
ENVS = [{'PYTHONHASHSEED': '0'}, {'PYTHONHASHSEED': '1'}, {'PYTHONHASHSEED': '4294967295'}, {'PYTHONHASHSEED': '77777'},
        {'LC_ALL': 'C'}, {'LC_ALL': 'tr_TR.UTF-8', 'LANG': 'tr_TR.UTF-8'}, {'TZ': 'Pacific/Kiritimati'}, 'threads', 'threads', 'threads',
        {'PYTHONMALLOC': 'malloc'}, {'PYTHONMALLOC': 'debug'}, {'MALLOC_PERTURB_': '165'}, {'PYTHONDEVMODE': '1'}, {'PYTHONUTF8': '1'},
        {'NPY_DISABLE_CPU_FEATURES': 'AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL'},
        {'NPY_DISABLE_CPU_FEATURES': 'AVX2 FMA3 AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL'}, {'PYTHONOPTIMIZE': '1'},
        {'PYTHONOPTIMIZE': '2'}, {'HOME': '/nonexistent', 'USER': 'nobody', 'TERM': 'dumb', 'COLUMNS': '17'}]


def scenario(rng, tier, i):
    lim = rng.choice([3000, 20000, 60000]) * (3 if tier == 'thorough' and rng.random() < 0.3 else 1)
    ops = []
    if i % 30 == 13:        # a search with wide levels and several results
        w = [x for x in work.wide() if x[2] >= 2 and x[1] <= (12_000_000 if tier == 'thorough' else 1_300_000)]
        return {'kind': 'host', 'ops': [[rng.choice(['solve', 'solve', 'report']), w[i // 30 % len(w)][0], 'int8']], 'before': [],
                'hosts': [[sorted({'environment', 'settings', *rng.sample([k for k in KINDS if k not in ('gc', 'sets')], 6)}), rng.randrange(1 << 30)]]}
    process = rng.random() < 0.25
    for _ in range(rng.choice([1, 2, 4]) if not process else 8):
        k = rng.choice(['solve', 'solve', 'advance', 'cand', 'report'])
        if k in ('advance', 'cand') and rng.random() < 0.7:
            ops.append([k, work.pick_prefix(rng, lim, one_step=True), rng.choice(['int8', 'int8', 'int64'])])
        else:
            ops.append([k, work.pick_start(rng, lim), rng.choice(['int8', 'int8', 'int64'])])
    if process:
        envs = []
        for _ in range(rng.choice([1, 2])):
            e = {}
            for x in rng.sample(ENVS, rng.choice([1, 2, 4])):
                e.update({t: str(rng.choice([2, 3, 4, 8])) for t in THREADS} if x == 'threads' else x)
            if rng.random() < 0.5:
                e['PYTHONHASHSEED'] = str(rng.randrange(2**32))
            envs.append([e, rng.choice([[], [], ['-O'], ['-OO'], ['-s'], ['-X', 'utf8']])])
        return {'kind': 'process', 'ops': ops, 'envs': envs}
    return {'kind': 'host', 'ops': ops, 'hosts': [[sorted(rng.sample(KINDS, rng.choice([1, 1, 2, 5]))), rng.randrange(1 << 30)]
                                                  for _ in range(rng.choice([1, 2, 3]))],
            'before': [work.pick_op(rng, 8000) for _ in range(rng.choice([1, 3, 10]))]}


def sequence(inst, op):
    """Everything the operation delivers, in order."""
    kind, spec, dtype = op
    a = arr(work.start(spec)[1], dtype)
    if kind == 'solve':
        return [rows_of(m) for m in inst.solve(a)]
    if kind == 'report':
        return [rows_of(m) for m in inst.sorter.sort(inst.solve(a))]
    if kind == 'advance':
        return [rows_of(m) for m in inst.advance(a)]
    try:
        return [row_of(r) for r in inst.candidates(a)]
    except inst.NoSolution:
        return []


def compare(op, got, want, where, ctx):
    if got == want:
        return
    n = next((j for j, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
    cls = 'wrong-order' if sorted(got) == sorted(want) else 'host-dependent'
    raise Violation(cls, f'{where}: {json.dumps(op)[:200]}: {len(got)} delivered, {len(want)} on the plain host; first difference at {n}')


def execute(sc, ctx):
    base = core.Inst()
    want = []
    with base:
        for op in sc['ops']:
            with core.library(json.dumps(op)[:200]):
                want.append(sequence(base, op))
            ctx.log.add(op, len(want[-1]), core.derive(want[-1]))
    if sc['kind'] == 'process':
        processes(sc, ctx, want)
    else:
        for kinds, seed in sc['hosts']:
            host(sc, ctx, want, kinds, random.Random(seed))
    if any(want):
        ctx.key = ctx.log.digest()


def host(sc, ctx, want, kinds, rng):
    where = '+'.join(kinds)
    undo = []
    try:
        if 'optimize' in kinds:
            core.OPTIMIZE['level'] = rng.choice([1, 2])
        if 'sets' in kinds:
            core.SETS['rng'] = random.Random(rng.random())
        if 'ties' in kinds:
            core.TIES['rng'] = core.Ties(rng.random())
        if 'clock' in kinds:
            core.CLOCK.now = rng.choice([0.0, -5.0, 1e6, 1.7e9, 4e9, 2**33 * 1.0])
            core.CLOCK.tick = rng.choice([0.0, 1e-6, 1.0, 3600.0])
            core.CLOCK.jump = random.Random(rng.random())
        if 'environment' in kinds:
            saved = dict(os.environ)
            undo.append(lambda: (os.environ.clear(), os.environ.update(saved)))
            n = rng.choice([1, 2, 3, 5, 64])
            os.environ.update({t: str(n) for t in THREADS})
            os.environ.update({'HOME': '/nonexistent', 'USER': 'nobody', 'LANG': 'tr_TR.UTF-8', 'TZ': 'Pacific/Kiritimati', 'TERM': 'dumb',
                               'COLUMNS': str(rng.randrange(1, 200)), 'DEBUG': '1', 'VERBOSE': '1'})
            core.HOST.update(cpu_count=n, process_cpu_count=n, sched_getaffinity=set(range(n)), getpid=rng.randrange(2, 99999),
                             getppid=1, getloadavg=(n * 1.5, 0.0, 9.0), getuid=1000 + n, getcwd='/nonexistent', node=f'host{n}', gethostname=f'host{n}',
                             machine='arm64', processor='', system='Plan9', release=str(n), get_ident=rng.randrange(1, 1 << 40),
                             active_count=n, getrlimit=(n << 20, n << 30), sysconf=rng.choice([1, 2, 64, 4096, 1 << 20]),
                             getallocatedblocks=rng.randrange(1 << 24), getswitchinterval=rng.choice([1e-6, 5e-3, 1.0]), getsizeof=rng.randrange(16, 1 << 20),
                             get_count=tuple(rng.randrange(1000) for _ in range(3)), isenabled=rng.random() < 0.5, get_native_id=rng.randrange(1, 99999),
                             times=os.times_result((rng.random(),) * 5))
        inst = core.Inst()      # after the settings that act when modules are loaded
        if 'clock' in kinds:
            inst.simulate_dates()
        if 'addresses' in kinds:
            inst.simulate_addresses(random.Random(rng.random()))
        with inst:
            for op in range(len(sc['ops'])):
                o = sc['ops'][op]
                if 'random' in kinds:
                    random.seed(rng.random())
                    core.np.random.seed(rng.randrange(2**32))
                    core.ENTROPY['rng'] = random.Random(rng.random())
                if 'history' in kinds:
                    for b in sc['before']:
                        work.run_op(inst, b, work.Inputs(inst), 'work before: ')
                if 'failures' in kinds:      # searches that failed before
                    for b in sc['before'][:3]:
                        t = sched.run_alone(ctx, lambda t: work.perform(inst, b, work.Inputs(inst)),
                                            [(rng.randrange(300), rng.choice(sorted(core.FAULT_KINDS)))])
                        if t.error is not None and not core.caused_by_injection(t.error):
                            raise t.error
                if 'closed' in kinds:
                    a = arr(work.start(o[1])[1], o[2])
                    g = iter(inst.solve(a) if o[0] in ('solve', 'report') else inst.candidates(a))
                    try:
                        next(g, None)
                    except inst.NoSolution:
                        pass
                    else:
                        if hasattr(g, 'close'):
                            g.close()
                junk = []
                if 'addresses' in kinds:
                    for _ in range(rng.randrange(200)):
                        junk.append([bytearray(rng.randrange(1, 600)), core.np.zeros(rng.randrange(1, 90), 'int8')])
                    del junk[::rng.randrange(2, 5)]
                if 'gc' in kinds:
                    t = gc.get_threshold()
                    undo.append(lambda t=t: (gc.disable(), gc.set_threshold(*t)))
                    gc.set_threshold(rng.choice([1, 1, 7, 50, 700]), *rng.choice([(1, 1), (10, 10)]))
                    gc.enable()
                if 'settings' in kinds:
                    po, er, rl, si, av = core.np.get_printoptions(), core.np.geterr(), sys.getrecursionlimit(), sys.getswitchinterval(), sys.argv
                    undo.append(lambda: (core.np.set_printoptions(**po), core.np.seterr(**er), sys.setrecursionlimit(rl),
                                         sys.setswitchinterval(si), setattr(sys, 'argv', av)))
                    core.np.set_printoptions(threshold=3, precision=1, linewidth=20)
                    core.np.seterr(all=rng.choice(['ignore', 'warn']))
                    sys.setrecursionlimit(rng.choice([700, 5000, 20000]))
                    sys.setswitchinterval(rng.choice([1e-5, 1.0]))
                    sys.argv = ['x', '-v', '--max', '3']
                with core.library(f'{where}: {json.dumps(o)[:200]}'):
                    if 'thread' in kinds:
                        got = core.in_thread(lambda: sequence(inst, o))
                    else:
                        got = sequence(inst, o)
                compare(o, got, want[op], where, ctx)
                for k in kinds:
                    ctx.state(o[0], k)
        for k in kinds:
            ctx.count('fault.host-' + k)
        ctx.log.add('host', where, core.CLOCK.reads > 0)
    finally:
        for u in reversed(undo):
            u()
        core.TIES['rng'] = core.SETS['rng'] = core.CLOCK.jump = None
        core.OPTIMIZE['level'] = -1
        core.HOST.clear()
        core.CLOCK.reset()


_libc = ctypes.CDLL(None)


def fixed_addresses():
    """No address space randomisation in the new process (where the sandbox allows it): one more thing that repeats."""
    _libc.personality(0x0040000)


def processes(sc, ctx, want):
    jobs = json.dumps([[k, d, work.start(s)[1]] for k, s, d in sc['ops']])
    exp = [[len(w), hashlib.sha256(json.dumps(w).encode()).hexdigest()] for w in want]
    drv = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'hostdrv.py')
    for env, flags in sc['envs']:
        e = {k: v for k, v in os.environ.items() if k in ('PATH',)}
        e.update({'PYTHONHASHSEED': '1', 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'})
        e.update(env)
        p = subprocess.run([sys.executable, '-B', *flags, drv, core.REPO], input=jobs, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, env=e, cwd='/', preexec_fn=fixed_addresses)
        where = f'{env} {flags}'
        if p.returncode:
            raise Violation('unexpected-exception', f'{where}: status {p.returncode}: {p.stderr[-600:]}')
        got = json.loads(p.stdout.splitlines()[-1])
        for j, op in enumerate(sc['ops']):
            if got[j] != exp[j]:
                raise Violation('host-dependent', f'{where}: {json.dumps(op)[:200]}: {got[j][0]} delivered, {exp[j][0]} on the plain host, or in another order')
        for k in list(env) + flags:
            ctx.count('fault.host-' + k)
            ctx.state('process', k, env.get(k))
        ctx.log.add('process', sorted(env.items()), flags)


def shrink(sc):
    for l in runner.shrink_list(sc['ops']):
        if l:
            yield dict(sc, ops=l)
    if sc['kind'] == 'process':
        for l in runner.shrink_list(sc['envs']):
            if l:
                yield dict(sc, envs=l)
        for n, (e, f) in enumerate(sc['envs']):
            for k in e:
                yield dict(sc, envs=sc['envs'][:n] + [[{a: b for a, b in e.items() if a != k}, f]] + sc['envs'][n + 1:])
        return
    for l in runner.shrink_list(sc['hosts']):
        if l:
            yield dict(sc, hosts=l)
    for n, (ks, s) in enumerate(sc['hosts']):
        for l in runner.shrink_list(ks):
            if l:
                yield dict(sc, hosts=sc['hosts'][:n] + [[l, s]] + sc['hosts'][n + 1:])
    for l in runner.shrink_list(sc['before']):
        yield dict(sc, before=l)
