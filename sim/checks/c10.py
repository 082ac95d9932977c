"""C10: catalogue lookups and the catalogue command are whole or fail."""
import ast
import builtins
import contextlib
import importlib.machinery
import io
import os
import random
import re

from .. import cli, core, faults, runner, sched, work
from ..core import Violation, rows_of

PROP = 'C10'
RUNS = {'quick': 4000, 'thorough': 60000}
RULE = ('a run = a history of 2-10 catalogue operations (list, fetch known and unknown problems, the command with and without arguments) '
        'of 1-3 concurrent callers, with unreadable directories, failing or torn file reads, shuffled directory order, foreign files, '
        'failures at seeded instructions, a failing stdout, and callers that overwrite what they got; each operation must give the exact stored '
        'content or raise, and all succeed once the faults stop; non-trivial = a fault fired, a caller overwrote results, or threads '
        'switched; distinct by the hash of the log')
STATES = 'distinct (operation, fault, problem) triples'
REAL = ['srg.database (package and command)', 'importlib', 'pprint', 'numpy printing', 'the stored catalogue files']
STUB = ['file reads and directory listings of srg/database (real content, seeded faults)', 'the device behind stdout', 'thread scheduler']
ASSUMPTIONS = ['the stored content is what the syntax tree of the problem files says']

FOREIGN = ['README', 'problem_notes.txt', '.problem_10_3_0_1.py.swp', 'problem_10_3_0_1.py~', 'problem_10_3_0_1.py.orig', '#problem_5_2_0_1.py#',
           'conftest.py', 'draw_problem.py', 'xproblem_9_4_1_2.py', '__pycache__', 'notes.pyc', '.git', 'problem_archive', 'Makefile', 'problem.tar.gz',
           'tools.py', 'problems.json', 'py', '.py', 'index.html', 'problem_7_2_0_1.pyx']


def dbdir():
    return os.path.join(core.REPO, 'srg', 'database')


class Storage:
    """What the library sees of the catalogue directory."""

    def __init__(self, ctx):
        self.ctx, self.mode, self.fired, self.foreign, self.shuffle, self.where = ctx, None, 0, [], None, 1.0

    def arm(self, mode, where=1.0):
        self.mode, self.fired, self.where = mode, 0, where

    def arm_only(self, mode):
        self.mode = mode

    def fault(self, kind):
        self.fired += 1
        self.ctx.count('fault.' + kind)

    def _in(self, path):
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p == self.dir or p.startswith(self.dir + os.sep)

    def data(self, path, real):
        if self.mode in ('eio', 'eacces', 'emfile', 'enoent') and os.path.basename(path).startswith('problem'):
            self.fault('read-' + self.mode)
            raise OSError({'eio': 5, 'eacces': 13, 'emfile': 24, 'enoent': 2}[self.mode], 'simulated', path)
        d = real()
        if self.mode == 'torn' and os.path.basename(path).startswith('problem'):
            self.fault('torn-read')
            return d[:int(len(d) * self.where)]
        return d

    def listing(self, real):
        if self.mode in ('dir-eio', 'dir-eacces', 'dir-enoent'):
            self.fault(self.mode)
            raise OSError({'dir-eio': 5, 'dir-eacces': 13, 'dir-enoent': 2}[self.mode], 'simulated', self.dir)
        names = list(real()) + [f for f in self.foreign]
        if self.foreign:
            self.ctx.count('fault.foreign-files')
        if self.shuffle is not None:
            names.sort()
            random.Random(self.shuffle).shuffle(names)
            self.ctx.count('fault.shuffled-directory')
        return names

    @contextlib.contextmanager
    def mounted(self):
        self.dir = os.path.realpath(dbdir())
        loader = importlib.machinery.SourceFileLoader
        had = 'get_data' in loader.__dict__
        real_get, real_listdir, real_scandir, real_open, real_ioopen = loader.get_data, os.listdir, os.scandir, builtins.open, io.open

        def get_data(ldr, path):
            if self._in(path) and os.path.basename(path).startswith('problem'):
                return self.data(path, lambda: real_get(ldr, path))
            return real_get(ldr, path)

        def listdir(path='.'):
            if not isinstance(path, int) and self._in(path):
                return self.listing(lambda: real_listdir(path))
            return real_listdir(path)

        class Entry:
            def __init__(self, d, name):
                self.name, self.path = name, os.path.join(d, name)

            def is_file(self, **kw):
                return self.name not in ('__pycache__', '.git', 'problem_archive')

            def is_dir(self, **kw):
                return not self.is_file()

            def is_symlink(self):
                return False

            def __fspath__(self):
                return self.path

        class Scan(list):
            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def close(self):
                pass

        def scandir(path='.'):
            if not isinstance(path, int) and self._in(path):
                return Scan(Entry(str(path), n) for n in self.listing(lambda: real_listdir(path)))
            return real_scandir(path)

        def opener(path, mode='r', *a, **kw):
            if not isinstance(path, int) and self._in(path) and os.path.basename(os.fspath(path)).startswith('problem') and set(mode) <= set('rbtU'):
                d = self.data(os.fspath(path), lambda: real_ioopen(path, 'rb').read())
                return io.BytesIO(d) if 'b' in mode else io.StringIO(d.decode('utf-8', 'replace'))
            return real_ioopen(path, mode, *a, **kw)
        loader.get_data, os.listdir, os.scandir, builtins.open, io.open = get_data, listdir, scandir, opener, opener
        try:
            yield self
        finally:
            os.listdir, os.scandir, builtins.open, io.open = real_listdir, real_scandir, real_open, real_ioopen
            if had:
                loader.get_data = real_get
            else:
                del loader.get_data


def scenario(rng, tier, i):
    names = work.catalogue_names()
    small = [n for n in names if '28_12' not in n]
    pool = rng.sample(small, rng.choice([1, 2, 3])) + (['problem_28_12_6_4'] if rng.random() < 0.05 else [])

    def op():
        k = rng.choice(['get'] * 6 + ['list'] * 4 + ['unknown'] + ['cmd-list', 'cmd-get', 'cmd-bad'])
        if k in ('get', 'cmd-get'):
            return [k, rng.choice(pool)]
        if k == 'unknown':
            return [k, rng.choice([[7, 2, 0, 1], [10, 3, 0, 2], [100, 33, 14, 9], [5, 2, 0, 0], [16, 10, 6, 5], [0, 0, 0, 0]])]
        if k == 'cmd-bad':
            return [k, rng.choice([['list', 10, 3, 0, 2], ['list', 21, 10, 3, 6], ['list', 100, 33, 14, 9], ['erase', 10, 3, 0, 1], ['draw', 21, 10, 3, 6]])]
        if k == 'cmd-list':
            return [k, rng.choice([[], ['list'], ['list', '10'], ['list', 'a', 'b', 'c', 'd']])]
        return [k]
    threads = rng.random() < 0.25
    hist = []
    for _ in range(rng.choice([2, 3, 5, 9])):
        o = op()
        f = None
        if rng.random() < 0.5:
            f = rng.choice(['eio', 'eacces', 'emfile', 'enoent', 'torn', 'torn', 'torn', 'dir-eio', 'dir-eacces', 'dir-enoent', 'step', 'step', 'step', 'stdout'])
        if f and o[0].startswith('cmd') and rng.random() < 0.5:
            f = rng.choice(['step', 'step', 'stdout'])
        hist.append([o, f, rng.choice([0, rng.random(), rng.random(), rng.random() * 0.05, 1 - 0.05 * rng.random()]), rng.choice(sorted(core.FAULT_KINDS)),
                     rng.choice(['', '', 'overwrite', 'clear', 'append'])])
        if o[0].startswith('cmd') and rng.random() < 0.3:
            hist[-1][3] = rng.choice(sorted(core.SIGNALS))
    sc = {'hist': hist, 'foreign': rng.sample(FOREIGN, rng.choice([0, 0, 3, 8])), 'shuffle': rng.choice([None, rng.randrange(1000)]),
          'opt': rng.choice([-1, -1, -1, 1]), 'gran': rng.choice(['line', 'line', 'opcode'])}
    if threads:
        sc['threads'] = [[[rng.choice(['get', 'get', 'list']), rng.choice(pool), rng.choice(['', 'overwrite', 'clear'])]
                          for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([2, 2, 3]))]
        for t in sc['threads']:
            for o in t:
                if o[0] == 'list':
                    o[1] = None
        sc['policy'] = rng.choice([['geo', 1], ['geo', 3], ['geo', 10]])
        sc['hist'] = hist[:2]
    return sc


def vandalise(how, obj):
    if how == 'overwrite':
        for a in obj if isinstance(obj, list) else ():
            if hasattr(a, 'flags') and a.flags.writeable:
                a[...] = 9
            elif isinstance(a, str):
                obj[:] = ['x'] * len(obj)
                break
    elif how == 'clear' and hasattr(obj, 'clear'):
        obj.clear()
    elif how == 'append' and hasattr(obj, 'append'):
        obj.append('problem_1_1_1_1')
        obj.reverse()


def lookup(inst, op, harm=''):
    """Runs a direct operation, normalises, then lets the caller damage what it got."""
    if op[0] == 'get':
        x = inst.database.get_solutions(*work.vklu_of(op[1]))
        got = tuple(rows_of(m) for m in x)
    elif op[0] == 'list':
        x = inst.database.list_problems()
        got = tuple(x)
    else:
        x = inst.database.get_solutions(*op[1])
        got = tuple(rows_of(m) for m in x)
    if harm:
        vandalise(harm, x)
    return got


def check_direct(op, got, where):
    if op[0] == 'unknown':
        raise Violation('invented', f'{where}get_solutions{tuple(op[1])} returned {len(got)} graphs for a problem that is not stored')
    if op[0] == 'get':
        want = work.catalogue_content(op[1])
        if got != want:
            raise Violation('partial-content' if len(got) < len(want) else 'wrong-content',
                            f'{where}{op[1]}: {len(got)} graphs, {len(want)} stored, {sum(a != b for a, b in zip(got, want))} differ')
    else:
        want = work.catalogue_names()
        if sorted(got) != want:
            raise Violation('partial-content' if set(got) < set(want) else 'wrong-content',
                            f'{where}list_problems: {len(got)} names, {len(want)} stored, unexpected {sorted(set(got) - set(want))[:4]}')
        if list(got) != want:
            raise Violation('wrong-order', f'{where}list_problems is not in its fixed order')


def command(ctx, inst, op, fault, frac, kind):
    """(outcome, text) of the command under an optional stdout or step fault."""
    if op[0] == 'cmd-get':
        args = ['list', *work.vklu_of(op[1])]
    else:
        args = op[1]
    fl, at = [], None
    if fault in ('step', 'stdout'):
        probe = core.Inst()
        o = cli.run(ctx, probe, 'srg.database', args, cli.Sink(ctx), traced=True)
        if fault == 'step':
            fl = [(faults.at(frac, o.steps), kind)] if o.steps else []
        else:
            at = int(frac * len(o.data))
    n = sum(map(ord, kind or ''))      # the kind of failure decides the error of the device as well
    s = cli.Sink(ctx, n % 7 == 1, at, (28, 32, 5, 11)[n % 4], n % 3 != 1, (0, 0.3)[n % 5 == 1])
    return cli.run(ctx, inst, 'srg.database', args, s, fl), s


def check_command(op, o, where):
    if op[0] == 'cmd-bad':
        raise Violation('invented', f'{where}{op}: exit status 0')
    text = o.text
    if op[0] == 'cmd-get':
        got, bad = cli.matrices(text)
        want = list(work.catalogue_content(op[1]))
        if bad or got != want:
            raise Violation('partial-output', f'{where}{op}: exit status 0 but {bad or f"{len(got)} of {len(want)} graphs, or not the stored ones"}')
        if '...' in text:
            raise Violation('partial-output', f'{where}{op}: abbreviated')
    else:
        names = re.findall(r"problem\w*", text)
        want = work.catalogue_names()
        if names != want:
            raise Violation('partial-output', f'{where}{op}: exit status 0 but {len(names)} of {len(want)} names')


def execute(sc, ctx):
    core.OPTIMIZE['level'] = sc['opt']
    st = Storage(ctx)
    st.foreign, st.shuffle = sc['foreign'], sc['shuffle']
    busy = bool(sc['foreign'] or sc['shuffle'])
    seen = []
    with st.mounted():
        inst = core.Inst()
        for n, (op, fault, frac, kind, harm) in enumerate(sc['hist']):
            where = f'operation {n} ({fault or "no fault"}): '
            storage = fault if fault not in (None, 'step', 'stdout') else None
            if op not in seen:
                seen.append(op)
            st.arm(None)
            if op[0].startswith('cmd'):
                if storage:
                    st.arm(storage, frac)
                o, sink = command(ctx, inst, op, fault, frac, kind)
                st.arm_only(None)
                fired = st.fired or o.fired or sink.failed
                if o.success:
                    check_command(op, o, where)
                elif not fired and op[0] != 'cmd-bad':
                    raise Violation('failed', f'{where}{op}: {type(o.why).__name__}: {str(o.why)[:200]}')
            else:
                err = got = None
                fired = 0
                with inst:
                    if fault == 'step':
                        probe = core.Inst()
                        with probe:
                            t = sched.run_alone(ctx, lambda t: lookup(probe, op), (), sc['gran'])
                    if fault == 'step' and t.steps:
                        t = sched.run_alone(ctx, lambda t: lookup(inst, op, harm), [(faults.at(frac, t.steps), kind)], sc['gran'])
                        err, got, fired = t.error, t.result, len(t.fired)
                    else:
                        if storage:
                            st.arm(storage, frac)
                        try:
                            got = lookup(inst, op, harm)
                        except Violation:
                            raise
                        except Exception as e:
                            err = e
                        fired = st.fired
                        st.arm_only(None)
                if err is None:
                    check_direct(op, got, where)
                elif not fired and op[0] != 'unknown':
                    raise Violation('failed', f'{where}{op}: {type(err).__name__}: {str(err)[:200]}')
            busy = busy or fired or harm
            ctx.state(op[0], fault, op[1] if len(op) > 1 else None)
            ctx.log.add(n, op, fault, harm, bool(fired))
        st.arm(None)
        if sc.get('threads'):
            sim = sched.Sim(ctx, policy=tuple(sc['policy']))

            def body(j):
                def fn(task):
                    for op in sc['threads'][j]:
                        with core.library(f'thread {j}: {op}'):
                            got = lookup(inst, op, op[2])
                        check_direct(op, got, f'thread {j}: ')
                        task.pause(op)
                return fn
            with inst:
                for j in range(len(sc['threads'])):
                    sim.add(f't{j}', body(j), gran=sc['gran'])
                for t in sim.run():
                    if t.error is not None:
                        raise t.error
            busy = busy or sim.switches > 1
            seen += [o[:2] if o[0] == 'get' else ['list'] for t in sc['threads'] for o in t]
        # the faults are over: everything succeeds, in the same process
        for op in seen + [['list']]:
            where = f'after the faults: {op}: '
            if op[0].startswith('cmd'):
                o, _ = command(ctx, inst, op, None, 0, None)
                if op[0] == 'cmd-bad':
                    if o.success:
                        check_command(op, o, where)
                    continue
                if not o.success:
                    raise Violation('not-recovered', f'{where}{type(o.why).__name__}: {str(o.why)[:200]}')
                check_command(op, o, where)
                continue
            try:
                with inst:
                    got = lookup(inst, op)
            except Violation:
                raise
            except Exception as e:
                if op[0] == 'unknown':
                    continue
                raise Violation('not-recovered', f'{where}{type(e).__name__}: {str(e)[:200]}')
            check_direct(op, got, where)
            ctx.count('op.' + op[0])
    if busy:
        ctx.key = ctx.log.digest()


def shrink(sc):
    for l in runner.shrink_list(sc['hist']):
        yield dict(sc, hist=l)
    if sc.get('threads'):
        s = dict(sc)
        del s['threads']
        yield s
        for j in range(len(sc['threads'])):
            if len(sc['threads']) > 1:
                yield dict(sc, threads=sc['threads'][:j] + sc['threads'][j + 1:])
    if sc['foreign']:
        yield dict(sc, foreign=[])
        for l in runner.shrink_list(sc['foreign']):
            yield dict(sc, foreign=l)
    if sc['shuffle'] is not None:
        yield dict(sc, shuffle=None)
    for n, (o, f, x, k, h) in enumerate(sc['hist']):
        if f:
            yield dict(sc, hist=sc['hist'][:n] + [[o, None, x, k, h]] + sc['hist'][n + 1:])
        if h:
            yield dict(sc, hist=sc['hist'][:n] + [[o, f, x, k, '']] + sc['hist'][n + 1:])
    if sc['opt'] != -1:
        yield dict(sc, opt=-1)
