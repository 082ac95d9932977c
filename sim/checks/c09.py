"""C09: the search command prints every answer, or fails visibly."""
import os
import random
import resource
import subprocess
import sys
import tempfile

from .. import cli, core, ref, runner, work
from ..core import Violation

PROP = 'C09'
RUNS = {'quick': 3000, 'thorough': 60000}
RULE = ('a run = `python -m srg v k l u` executed in-process on a simulated stdout (full disk, broken pipe, I/O error at a seeded byte, '
        'short writes, EINTR, terminal or pipe, buffer sizes), or cut at a seeded instruction, or with rejected arguments, with assertions '
        'kept or stripped; some as real sub-processes; success requires all graphs of the reference enumeration in order, anything else a '
        'prefix and a visible failure; distinct by the hash of the log; non-trivial = graphs were to be printed or a fault fired')
STATES = 'distinct (arguments, byte or instruction where the output was cut)'
REAL = ['srg.__main__ and everything it uses', 'click', 'numpy printing', 'io buffering of CPython', 'runpy']
STUB = ['the device behind stdout', 'interpreter start and exit (real in the sub-process runs)']
ASSUMPTIONS = ['reference model sim/ref.py', 'matrices are recognised in the output as [[...]] blocks of 0 and 1']

BIG = [(32, 16, 0, 16), (32, 15, 14, 0), (33, 22, 11, 22), (36, 2, 1, 0), (36, 33, 30, 33), (40, 20, 0, 20), (40, 3, 2, 0),
       (45, 30, 15, 30), (50, 25, 0, 25), (60, 29, 28, 0), (64, 32, 0, 32), (64, 7, 6, 0), (30, 25, 20, 25), (31, 0, 0, 0)][:-1]
ENVS = [{'COLUMNS': '20', 'LINES': '5'}, {'COLUMNS': '0'}, {'TERM': 'dumb', 'NO_COLOR': '1'}, {'LC_ALL': 'C', 'LANG': 'C'}, {'LC_ALL': 'C', 'PYTHONUTF8': '0'},
        {'PYTHONIOENCODING': 'ascii', 'PYTHONHASHSEED': '7'}, {'CI': '1', 'DEBUG': '1', 'PAGER': 'cat'}, {'TZ': 'UTC', 'OMP_NUM_THREADS': '1'}]
MULTI = [(10, 6, 3, 4), (13, 6, 2, 3), (15, 6, 1, 3), (16, 6, 2, 2), (16, 5, 0, 2)]


def params(rng, tier, cheap=False):
    r = rng.random()
    if r < 0.3:
        return rng.choice(BIG[:4] if cheap else BIG)
    if r < 0.55 and not cheap:
        return rng.choice(MULTI)
    return work.pick_params(rng, 15000 if cheap else 120000 if tier == 'thorough' else 50000)


def bad_args(rng):
    r = rng.random()
    if r < 0.15:
        return rng.choice([[], ['5', '2', '0'], ['a', '2', '0', '1'], ['5', '2', '0', '1', '9'], ['5.0', '2', '0', '1']])
    while True:
        v = rng.randrange(5, 40)
        k = rng.randrange(1, v - 1)
        l = rng.randrange(0, k)
        u = rng.randrange(0, k + 1)
        if rng.random() < 0.5:       # near misses
            c = rng.choice(work.costs())[0]
            v, k, l, u = [x + d for x, d in zip(c, rng.choice([(0, 0, 0, 1), (0, 0, 1, 0), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 0, -1), (-1, 0, 0, 0)]))]
            if min(v, k, l, u) < 0 or k >= v - 1:
                continue
        elif rng.random() < 0.5:     # nearly an identity: up to a remainder, or modulo what fits a byte
            d = rng.random() < 0.5
            l_u = [(l, u) for l in range(k) for u in range(k + 1)
                   if (0 < abs((v - k - 1) * u - k * (k - l - 1)) < max(k, v - k - 1) if d else
                       (v - k - 1) * u != k * (k - l - 1) and ((v - k - 1) * u - k * (k - l - 1)) % 256 == 0)]
            if not l_u:
                continue
            l, u = rng.choice(l_u)
        if (v - k - 1) * u != k * (k - l - 1):
            return [str(x) for x in (v, k, l, u)]


def scenario(rng, tier, i):
    mode = rng.choice(['plain'] * 3 + ['sink'] * 6 + ['cut'] * 4 + ['reject'] * 3)
    if rng.random() < 0.05:
        mode = rng.choice(['sub', 'sub', 'subfull', 'subclosed', 'sublimit', 'sublimit', 'subreject'])
    sc = {'mode': mode, 'opt': rng.choice([-1, -1, -1, 1, 2]), 'tty': rng.random() < 0.25, 'buffer': rng.choice([1, 64, 512, 8192, 8192, 8192, 1 << 17]),
          'line': rng.random() < 0.2, 'env': rng.choice([{}, {}, *ENVS])}
    if mode in ('reject', 'subreject'):
        sc['args'] = bad_args(rng)
    else:
        sc['params'] = list(params(rng, tier, cheap=mode in ('cut',)))
    # not with a file size limit: on an unbuffered stdout CPython itself drops the rest of a short write
    sc['unbuffered'] = mode != 'sublimit' and rng.random() < 0.3
    if mode == 'sublimit':
        sc['at'] = rng.random()
    if mode in ('sink', 'cut'):
        sc['err'] = rng.choice([28, 32, 5, 11])
        sc['at'] = rng.choice([0, rng.random(), rng.random(), 1 - rng.random() * 0.02, rng.random() * 0.05])
        sc['sticky'] = rng.random() < 0.7
        sc['short'] = rng.choice([0, 0.3])
        sc['eintr'] = rng.choice([0, 0.1])
        sc['benign'] = mode == 'sink' and rng.random() < 0.25     # only short writes and EINTR: must succeed
        sc['kind'] = rng.choice(sorted(core.FAULT_KINDS)) if rng.random() < 0.75 else rng.choice(sorted(core.SIGNALS))
    return sc


def want_of(p):
    return sorted(ref.completions_of_seed(p, limit=2_000_000), key=ref.sort_key)


def check_output(text, p, what):
    got, bad = cli.matrices(text)
    want = want_of(p)
    if bad:
        raise Violation('incomplete-output', f'{what}: {bad}')
    if got != want:
        if len(got) < len(want):
            cls = 'lost-results'
        elif sorted(got) == sorted(want):
            cls = 'wrong-order'
        else:
            cls = 'wrong-output'
        raise Violation(cls, f'{what}: exit status 0, {len(got)} graphs printed, {len(want)} expected; output ends {text[-200:]!r}')
    if '...' in text:
        raise Violation('incomplete-output', f'{what}: the output is abbreviated')


def execute(sc, ctx):
    mode, saved = sc['mode'], dict(os.environ)
    if mode.startswith('sub'):
        return sub(sc, ctx)
    core.OPTIMIZE['level'] = sc['opt']
    os.environ.update({k: v for k, v in sc.get('env', {}).items() if not k.startswith(('PYTHON', 'LC_', 'LANG'))})
    try:
        inside(sc, ctx, mode)
    finally:
        os.environ.clear()
        os.environ.update(saved)


def inside(sc, ctx, mode):
    inst = core.Inst()
    if mode == 'reject':
        o = cli.run(ctx, inst, 'srg', sc['args'], cli.Sink(ctx, sc['tty']), buffering=sc['buffer'], line_buffered=sc['line'])
        reject(o.success, o.text, sc, ctx)
        ctx.key = ctx.log.digest()
        return
    p = tuple(sc['params'])
    what = f'srg {p} (optimisation {sc["opt"]})'
    traced = mode == 'cut'
    o = cli.run(ctx, inst, 'srg', p, cli.Sink(ctx, sc['tty']), buffering=sc['buffer'], line_buffered=sc['line'], traced=traced)
    if not o.success:
        raise Violation('failed', f'{what}: {type(o.why).__name__}: {str(o.why)[:300]}')
    check_output(o.text, p, what)
    full = o.data
    ctx.count('graphs', len(want_of(p)))
    if mode == 'plain':
        # a second time in the same process
        o2 = cli.run(ctx, inst, 'srg', p, cli.Sink(ctx, sc['tty']), buffering=sc['buffer'], line_buffered=sc['line'])
        if not o2.success or o2.data != full:
            raise Violation('not-repeatable', f'{what}: the second run differs')
        ctx.key = ctx.log.digest()
        return
    inst = core.Inst()
    if mode == 'sink':
        at = None if sc['benign'] else int(sc['at'] * len(full))
        s = cli.Sink(ctx, sc['tty'], at, sc['err'], sc['sticky'], sc['short'], sc['eintr'])
        o = cli.run(ctx, inst, 'srg', p, s, buffering=sc['buffer'], line_buffered=sc['line'])
        ctx.state(p, 'byte', at)
        where = f'{what}, stdout failing (errno {sc["err"]}, sticky {sc["sticky"]}) at byte {at} of {len(full)}'
        if sc['benign'] and not o.success:
            raise Violation('failed', f'{what}: short writes only: {type(o.why).__name__}: {o.why}')
        fired = s.failed
    else:
        step = min(o.steps - 1, int(sc['at'] * o.steps))
        s = cli.Sink(ctx, sc['tty'])
        o = cli.run(ctx, inst, 'srg', p, s, [(step, sc['kind'])], buffering=sc['buffer'], line_buffered=sc['line'])
        ctx.state(p, 'step', step)
        where = f'{what}, {sc["kind"]} at step {step}'
        fired = bool(o.fired)
    if o.success:
        if o.data != full:
            raise Violation('silent-loss', f'{where}: exit status 0 but {len(o.data)} of {len(full)} bytes were written')
    elif not full.startswith(o.data):
        raise Violation('wrong-output', f'{where}: what was written is not a prefix of the full output; ends {o.data[-100:]!r}')
    if fired:
        ctx.key = ctx.log.digest()


def reject(success, text, sc, ctx):
    what = f'srg {sc["args"]} (optimisation {sc["opt"]})'
    if success:
        raise Violation('not-rejected', f'{what}: exit status 0')
    got, bad = cli.matrices(text)
    if got or bad:
        raise Violation('not-rejected', f'{what}: an answer was printed')
    ctx.count('rejected')


def sub(sc, ctx):
    """The real thing, in a process of its own."""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=core.REPO)
    env.pop('PYTHONUNBUFFERED', None)
    env.update(sc.get('env', {}))
    if sc['unbuffered']:
        env['PYTHONUNBUFFERED'] = '1'
    flags = {-1: [], 1: ['-O'], 2: ['-OO']}[sc['opt']]
    args = sc['args'] if 'args' in sc else [str(x) for x in sc['params']]
    what = f'python {" ".join(flags)} -m srg {" ".join(args)}'

    def run(stdout, limit=None):
        pre = None if limit is None else lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        r = subprocess.run([sys.executable, *flags, '-m', 'srg', *args], cwd=core.REPO, env=env, stdout=stdout, stderr=subprocess.PIPE,
                           timeout=300, preexec_fn=pre)
        ctx.log.add('sub', sc['mode'], flags, args, r.returncode == 0)
        ctx.count('sub-processes')
        return r
    mode = sc['mode']
    if mode in ('subfull', 'subclosed'):
        if mode == 'subfull':
            out = open('/dev/full', 'wb')
        else:
            rd, wr = os.pipe()
            os.close(rd)
            out = open(wr, 'wb')
        with out:
            r = run(out)
        if r.returncode == 0:
            raise Violation('silent-loss', f'{what}, stdout {"full" if mode == "subfull" else "closed"}: exit status 0')
        ctx.count('fault.disk-full' if mode == 'subfull' else 'fault.broken-pipe')
    elif mode == 'sublimit':       # a real file that cannot grow beyond some byte
        full = run(subprocess.PIPE).stdout
        limit = int(sc['at'] * len(full))
        with tempfile.TemporaryFile() as f:
            r = run(f, limit)
            f.seek(0)
            got = f.read()
        if r.returncode == 0:
            raise Violation('silent-loss', f'{what}, stdout limited to {limit} of {len(full)} bytes: exit status 0')
        if not full.startswith(got):
            raise Violation('wrong-output', f'{what}, stdout limited to {limit} of {len(full)} bytes: not a prefix of the full output')
        ctx.count('fault.file-size-limit')
        ctx.state(args, 'limit', limit)
    elif mode == 'subreject':
        r = run(subprocess.PIPE)
        reject(r.returncode == 0, r.stdout.decode(), sc, ctx)
    else:
        r = run(subprocess.PIPE)
        if r.returncode:
            raise Violation('failed', f'{what}: exit status {r.returncode}: {r.stderr[-300:]!r}')
        check_output(r.stdout.decode(), tuple(sc['params']), what)
    ctx.key = ctx.log.digest()


def shrink(sc):
    for k, d in (('opt', -1), ('env', {}), ('tty', False), ('buffer', 8192), ('line', False), ('short', 0), ('eintr', 0), ('sticky', True), ('at', 0)):
        if k in sc and sc[k] != d:
            yield dict(sc, **{k: d})
    if 'params' in sc:
        for p in ((5, 2, 0, 1), (10, 6, 3, 4), (32, 16, 0, 16)):
            if tuple(sc['params']) != p and sum(p) < sum(sc['params']):
                yield dict(sc, params=list(p))
