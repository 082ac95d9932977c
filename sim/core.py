"""Seeded decisions, fresh library instances, value normalisation, host seams."""
import asyncio
import contextlib
import datetime
import gc
import hashlib
import importlib
import importlib.machinery
import json
import os
import platform
import random
import resource
import socket
import sys
import threading
import time
import types
import weakref
import _thread

REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = os.path.join(REPO, 'srg') + os.sep
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/pycache'
os.environ.setdefault('MPLBACKEND', 'Agg')

import numpy as np  # noqa: E402


class Violation(Exception):
    """The property is broken.  cls is what minimisation and replay preserve."""

    def __init__(self, cls, msg):
        super().__init__(f'{cls}: {msg}')
        self.cls, self.msg = cls, msg


class StepLimit(BaseException):
    """Raised inside library code that exceeds its step budget."""


class Killed(BaseException):
    """The simulated crash of the thread or node that runs the library code."""


class InjectedTimeout(Exception):
    """What a signal-driven timeout of the caller raises (an application-defined error)."""


class InjectedError(Exception):
    """An application-defined error raised out of a callback, a signal handler or a stream."""


FAULT_KINDS = {
    'memory': lambda: MemoryError('injected'),
    'interrupt': lambda: KeyboardInterrupt('injected'),
    'timeout': lambda: InjectedTimeout('injected'),
    'oserror': lambda: OSError(5, 'injected'),
    'recursion': lambda: RecursionError('injected'),
    'arithmetic': lambda: FloatingPointError('injected'),
    'runtime': lambda: RuntimeError('injected'),
    'exit': lambda: SystemExit('injected'),
    'lookup': lambda: LookupError('injected'),
    'assertion': lambda: AssertionError('injected'),
    'deadline': lambda: TimeoutError('injected'),
    'plain': lambda: Exception('injected'),
    'cancelled': lambda: asyncio.CancelledError('injected'),
    'system': lambda: SystemError('injected'),
    'buffer': lambda: BufferError('injected'),
    'killed': lambda: Killed('injected'),
}
# Failures that ordinary code also uses to tell things apart: not raised at lines that stand under a
# try statement with handlers of the same function (an except IndexError around a pop is no defect).
NARROW = {
    'value': lambda: ValueError('injected'),
    'type': lambda: TypeError('injected'),
    'index': lambda: IndexError('injected'),
    'key': lambda: KeyError('injected'),
    'zero': lambda: ZeroDivisionError('injected'),
    'overflow': lambda: OverflowError('injected'),
    'attribute': lambda: AttributeError('injected'),
    'eof': lambda: EOFError('injected'),
    'permission': lambda: PermissionError(13, 'injected'),
    'interrupted': lambda: InterruptedError(4, 'injected'),
    'import': lambda: ImportError('injected'),
    'reference': lambda: ReferenceError('injected'),
    'linalg': lambda: np.linalg.LinAlgError('injected'),
    'warning': lambda: RuntimeWarning('injected'),
}
FAULT_KINDS.update(NARROW)
# Signals of the operating system, for a simulated command: its own handler is called, or what happens by default.
DELIVER = {'to': None}
SIGNALS = {name: lambda n=n: DELIVER['to'](n) for name, n in (('sigint', 2), ('sigterm', 15), ('sighup', 1))}


class Choices:
    """Every decision of a run.  Recording draws from one PRNG; replaying reads the list,
    and falls back to the default (the simplest choice) once it is exhausted."""

    def __init__(self, seed=None, forced=None):
        self.rng = random.Random(seed)
        self.forced = forced
        self.pos = 0
        self.rec = []

    def draw(self, default, gen):
        if self.forced is None:
            val = gen(self.rng)
        elif self.pos < len(self.forced):
            val = self.forced[self.pos]
        else:
            val = default
        self.pos += 1
        self.rec.append(val)
        return val

    def below(self, n, default=0):
        if n <= 1:
            return 0
        return self.draw(default, lambda r: r.randrange(n)) % n

    def flag(self, prob):
        """A coin, default off."""
        if prob <= 0:
            return False
        return bool(self.draw(0, lambda r: 1 if r.random() < prob else 0))


def derive(*parts):
    h = hashlib.sha256(json.dumps(parts, default=str).encode()).digest()
    return int.from_bytes(h[:7], 'big')


class Log:
    """Event log of one run: a running hash, plus the last lines for the report."""

    def __init__(self, keep=400):
        self.h = hashlib.sha256()
        self.n = 0
        self.keep = keep
        self.lines = []

    def add(self, *ev):
        s = repr(ev)
        self.h.update(s.encode())
        self.n += 1
        if len(self.lines) < self.keep:
            self.lines.append(s)

    def digest(self):
        return self.h.hexdigest()[:20]


class Ctx:
    """What one run may use: decisions, log and counters."""

    def __init__(self, ch):
        self.ch = ch
        self.log = Log()
        self.stats = {}
        self.states = set()
        self.sim_time = 0.0
        self.steps = 0

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def state(self, *parts):
        if len(self.states) < 5000:
            self.states.add(hashlib.sha256(repr(parts).encode()).hexdigest()[:16])


# ---------------------------------------------------------------- host seams

class SimClock:
    """The clock library code sees: advances on every read, and jumps when told to."""

    def __init__(self):
        self.now = 1_700_000_000.0
        self.tick = 0.0
        self.reads = 0
        self.jump = None        # a PRNG: the wall clock jumps, both ways; the monotonic ones stall or leap
        self.mono = 1000.0

    def reset(self):
        self.__init__()

    def read(self, mono=False):
        self.reads += 1
        self.now += self.tick
        self.mono += self.tick
        if self.jump is not None and self.jump.random() < 0.3:
            d = self.jump.choice([1e-9, 1.0, 60.0, 86400.0, 4e8])
            self.mono += d
            self.now += d if self.jump.random() < 0.6 else -d
        return self.mono if mono else self.now


CLOCK = SimClock()
_seams_installed = False


def _from_srg(depth=2):
    f = sys._getframe(depth)
    name = f.f_globals.get('__name__', '')
    return name == 'srg' or name.startswith('srg.') or f.f_code.co_filename.startswith(ROOT)


def _for_srg():
    f = sys._getframe(2)
    for _ in range(12):
        if f is None:
            return False
        if f.f_code.co_filename.startswith(ROOT):
            return True
        f = f.f_back
    return False


def _made_for_srg():
    """Is a lock being made by library code, directly or inside a Condition, Event, Queue, ... it makes?"""
    if REAL['locks']:
        return False
    f = sys._getframe(2)
    while f is not None and os.path.basename(f.f_code.co_filename) in ('threading.py', 'queue.py', 'thread.py', '_base.py', 'contextlib.py', 'functools.py'):
        f = f.f_back
    return f is not None and (f.f_code.co_filename.startswith(ROOT) or f.f_code.co_name == 'library_thread')


class SimLock:
    """Replaces locks that library code creates: blocking hands control to the scheduler."""

    def __init__(self, reentrant=False):
        self.owner, self.depth, self.reentrant = None, 0, reentrant

    def acquire(self, blocking=True, timeout=-1):
        from . import sched
        me = sched.current() or threading.get_ident()
        waited = 0.0
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout == 0:
                return False
            t = sched.current()
            if t is not None:
                if not t.block(self, timed=timeout is not None and timeout > 0):
                    CLOCK.now += timeout       # nobody can go on until the time is up
                    CLOCK.mono += timeout
                    return False
                continue
            # a thread of the library's own, or no simulated threads at all
            if timeout is not None and 0 < timeout <= waited:
                return False
            if waited > 20 or sched.alone():
                if timeout is not None and timeout > 0:
                    CLOCK.now += timeout
                    CLOCK.mono += timeout
                    return False
                raise Violation('deadlock', 'a lock left held is waited for with nobody to release it')
            REAL['sleep'](0.0005)
            waited += 0.0005
        self.owner, self.depth = me, self.depth + 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    # what threading.Condition asks of its lock
    def _is_owned(self):
        from . import sched
        return self.owner is not None and self.owner == (sched.current() or threading.get_ident())

    def _release_save(self):
        was = self.owner, self.depth
        self.owner, self.depth = None, 0
        return was

    def _acquire_restore(self, was):
        self.acquire()
        self.depth = was[1]

    def _at_fork_reinit(self):
        self.owner, self.depth = None, 0


ENTROPY = {'rng': None, 'fired': 0}      # what os.urandom gives to srg code, directly or not
REAL = {'sleep': time.sleep, 'locks': False, 'started': 0}
SINKS = {}         # descriptor -> simulated standard output
HOST = {}          # name of an os function -> what srg code gets from it
TIES = {'rng': None, 'fired': 0}
OPTIMIZE = {'level': -1}       # how srg sources are compiled: -1 as this interpreter, 1 = -O, 2 = -OO
SETS = {'rng': None, 'fired': 0}     # iteration order of sets built by srg code


class Ties:
    """The order an unstable sort gives to equal entries: any, but the same for the same array."""

    def __init__(self, seed):
        self.seed = seed

    def order(self, arr):
        rng = random.Random(f'{self.seed} {arr.dtype} {arr.tobytes().hex()}')
        return [rng.random() for _ in range(len(arr))]


class NoisySet(set):
    """A set whose iteration order is drawn from SETS['rng']; like any set, the order is the
    same every time until the set is modified."""
    salt = None

    def __iter__(self):
        items = list(super().__iter__())
        if SETS['rng'] is not None and len(items) > 1:
            SETS['fired'] += 1
            if self.salt is None:
                self.salt = SETS['rng'].random()
            random.Random(self.salt).shuffle(items)
        return iter(items)

    def pop(self):
        if SETS['rng'] is None or len(self) < 2:
            return set.pop(self)
        x = next(iter(self))
        self.discard(x)
        return x


class NoisyFrozenSet(frozenset):
    salt = None

    def __iter__(self):
        items = list(super().__iter__())
        if SETS['rng'] is not None and len(items) > 1:
            SETS['fired'] += 1
            if self.salt is None:
                self.salt = SETS['rng'].random()
            random.Random(self.salt).shuffle(items)
        return iter(items)


def _noisy_sets(data, path):
    """The module's syntax tree with every set it builds made a NoisySet."""
    import ast
    tree = ast.parse(data, path)

    class T(ast.NodeTransformer):
        def wrap(self, node):
            self.generic_visit(node)
            imp = ast.parse("__import__('sim.core', fromlist=['x']).NoisySet", mode='eval').body
            return ast.copy_location(ast.Call(func=imp, args=[node], keywords=[]), node)
        visit_Set = visit_SetComp = wrap

        def visit_Call(self, node):
            self.generic_visit(node)
            f = node.func
            if isinstance(f, ast.Name) and f.id in ('set', 'frozenset') and isinstance(f.ctx, ast.Load):
                cls = 'NoisySet' if f.id == 'set' else 'NoisyFrozenSet'
                node.func = ast.copy_location(ast.parse(f"__import__('sim.core', fromlist=['x']).{cls}", mode='eval').body, f)
            return node
    return ast.fix_missing_locations(T().visit(tree))


def _function_argsort(tree, path):
    """x.argsort(...) becomes argsort(x, ...), which the tie seam sees."""
    import ast
    if not isinstance(tree, ast.AST):
        tree = ast.parse(tree, path)

    class T(ast.NodeTransformer):
        def visit_Call(self, node):
            self.generic_visit(node)
            f = node.func
            if isinstance(f, ast.Attribute) and f.attr == 'argsort':
                node.func = ast.copy_location(ast.parse("__import__('sim.core', fromlist=['x']).method_argsort", mode='eval').body, f)
                node.args.insert(0, f.value)
            return node
    return ast.fix_missing_locations(T().visit(tree))


def _sorts_ties(a, args, kw):
    if TIES['rng'] is None or kw.get('stable') or kw.get('kind', args[1] if len(args) > 1 else None) in ('stable', 'mergesort'):
        return None
    arr = np.asarray(a)
    if arr.ndim != 1:
        return None
    TIES['fired'] += 1
    t = TIES['rng'].order(arr)
    return np.array(sorted(range(len(arr)), key=lambda i: (arr[i], t[i])), dtype=np.intp)


def method_argsort(obj, *args, **kw):
    if obj is np:                     # the function itself
        r = _sorts_ties(args[0] if args else kw['a'], args[1:], kw)
        return np.argsort(*args, **kw) if r is None else r
    r = _sorts_ties(obj, args, kw) if isinstance(obj, np.ndarray) else None
    return obj.argsort(*args, **kw) if r is None else r


class _Now(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        return datetime.datetime.fromtimestamp(CLOCK.read() % 2**31, tz)

    @classmethod
    def utcnow(cls):
        return datetime.datetime.fromtimestamp(CLOCK.read() % 2**31, datetime.timezone.utc).replace(tzinfo=None)

    today = now


def install_seams():
    """Process-wide, once: clock, locks and tie-breaking as seen from library frames only."""
    global _seams_installed
    if _seams_installed:
        return
    _seams_installed = True
    # CPython 3.12 delivers opcode events only from the first settrace after some frame asked
    # for them: ask once now, so that every run of the process sees the same events.
    def dummy():
        return 1

    def tr(frame, event, arg):
        frame.f_trace_opcodes = True
        return tr
    prev = sys.gettrace()
    sys.settrace(tr)
    dummy()
    sys.settrace(prev)
    for name in ('time', 'monotonic', 'perf_counter', 'process_time', 'thread_time', 'time_ns', 'monotonic_ns', 'perf_counter_ns',
                 'process_time_ns', 'thread_time_ns'):
        real = getattr(time, name)

        def wrap(real=real, mono='time' != name.replace('_ns', ''), scale=10**9 if name.endswith('_ns') else 0):
            if _from_srg():
                t = CLOCK.read(mono)
                return int(t * scale) if scale else t
            return real()
        setattr(time, name, wrap)
    real_sleep = time.sleep

    def sleep(s):
        if _from_srg():
            CLOCK.now += s
            CLOCK.mono += s
            return None
        return real_sleep(s)
    time.sleep = sleep
    for mod in (threading, _thread):
        for name in ('Lock', 'allocate_lock', 'RLock'):
            if not hasattr(mod, name):
                continue
            real = getattr(mod, name)

            def make(*a, real=real, name=name, **kw):
                if _made_for_srg():
                    return SimLock(reentrant=name == 'RLock')
                return real(*a, **kw)
            setattr(mod, name, make)
    threading._allocate_lock = threading.Lock      # the waiters of conditions
    from . import sched
    sched.install_threads()
    real_write = os.write

    def write(fd, data):
        sink = SINKS.get(fd)
        if sink is not None and not sink.redirected() and _from_srg():
            while True:
                try:
                    n = sink.write(data)
                    if n is None:
                        raise BlockingIOError(11, os.strerror(11))
                    return n
                except InterruptedError:      # retried by os.write itself
                    pass
        return real_write(fd, data)
    os.write = write
    real_urandom = os.urandom

    def urandom(n):
        rng = ENTROPY['rng']
        if rng is None or not _for_srg():
            return real_urandom(n)
        ENTROPY['fired'] += 1
        return rng.randbytes(n)
    os.urandom = random._urandom = urandom      # behind secrets, uuid4, SystemRandom and numpy's default_rng() as well
    for mod, names in ((os, ('cpu_count', 'process_cpu_count', 'getpid', 'getppid', 'sched_getaffinity', 'getloadavg', 'getuid', 'getcwd', 'uname',
                             'sysconf', 'times')),
                       (sys, ('getallocatedblocks', 'getswitchinterval', 'getsizeof')), (gc, ('get_count', 'isenabled')),
                       (platform, ('node', 'machine', 'processor', 'system', 'release')), (socket, ('gethostname',)),
                       (threading, ('get_ident', 'get_native_id', 'active_count')), (resource, ('getrusage', 'getrlimit'))):
        for name in names:
            real = getattr(mod, name, None)
            if real is None:
                continue

            def host(*a, real=real, name=name):
                if name in HOST and _from_srg():
                    return HOST[name]
                return real(*a)
            setattr(mod, name, host)
    real_argsort = np.argsort

    def argsort(a, *args, **kw):
        r = _sorts_ties(a, args, kw) if TIES['rng'] is not None and _from_srg() else None
        return real_argsort(a, *args, **kw) if r is None else r
    np.argsort = argsort

    # compile each distinct source once per process (reads still happen every time)
    cache = {}
    real_compile = importlib.machinery.SourceFileLoader.source_to_code

    def source_to_code(self, data, path, *a, **kw):
        if not str(path).startswith(ROOT):
            return real_compile(self, data, path, *a, **kw)
        noisy = SETS['rng'] is not None
        key = (str(path), OPTIMIZE['level'], noisy, hashlib.sha256(bytes(data)).digest())
        if key not in cache:
            raw = data
            if noisy:
                data = _noisy_sets(data, path)
            if b'.argsort(' in bytes(raw):
                data = _function_argsort(data, path)
            cache[key] = compile(data, path, 'exec', dont_inherit=True, optimize=OPTIMIZE['level'])
        return cache[key]
    importlib.machinery.SourceFileLoader.source_to_code = source_to_code


# ---------------------------------------------------------------- library instances

def _is_srg(name):
    return name == 'srg' or name.startswith('srg.')


class Inst:
    """One freshly imported copy of the library, with module state of its own: a process."""

    def __init__(self):
        install_seams()
        self.mods = {}
        self.np_print = np.get_printoptions()
        with self:
            import importlib as il
            for n in ('srg', 'srg.srg', 'srg.solver', 'srg.sorter', 'srg.utils', 'srg.partition', 'srg.database'):
                il.import_module(n)
        assert self.mods['srg'].__file__.startswith(ROOT), self.mods['srg'].__file__
        self.simulate_addresses()

    def __enter__(self):
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        self.saved = {n: sys.modules.pop(n) for n in list(sys.modules) if _is_srg(n)}
        sys.modules.update(self.mods)
        return self

    def __exit__(self, *a):
        self.mods = {n: sys.modules.pop(n) for n in list(sys.modules) if _is_srg(n)}
        sys.modules.update(self.saved)

    def __getattr__(self, name):
        try:
            return self.__dict__['mods']['srg.' + name]
        except KeyError:
            raise AttributeError(name)

    def simulate_dates(self):
        for m in self.mods.values():
            for k, x in list(m.__dict__.items()):
                if x is datetime.datetime:
                    m.__dict__[k] = _Now
                elif x is datetime:
                    m.__dict__[k] = types.SimpleNamespace(**{**datetime.__dict__, 'datetime': _Now})

    def simulate_addresses(self, rng=None):
        """id() as seen by library code: numbers that do not depend on the real heap.  The number of
        an object that has died goes to the next new object, as allocators do.  With rng the numbers are far apart."""
        known, free, n = {}, [], [0]

        def fresh():
            if free:
                return free.pop()
            n[0] += 1
            return n[0] * 64 if rng is None else rng.getrandbits(40) * (1 << 24) + n[0]

        def fake_id(o):
            real = id(o)
            if real not in known:
                num = fresh()
                try:
                    def died(_, real=real, num=num):
                        known.pop(real, None)
                        free.append(num)
                    known[real] = (num, weakref.ref(o, died))
                except TypeError:
                    known[real] = (num, o)     # no way to see it die: kept, so its number stays its own
            return known[real][0]

        def fake_hash(o):      # of objects that are hashed by their address
            return fake_id(o) >> 4 if type(o).__hash__ is object.__hash__ else hash(o)
        fake_id._sim = fake_hash._sim = True
        for m in self.mods.values():
            for name, fn in (('id', fake_id), ('hash', fake_hash)):
                if getattr(m.__dict__.get(name), '_sim', name not in m.__dict__):
                    m.__dict__[name] = fn

    # -- operations, on rows of plain ints
    def seed(self, p):
        return rows_of(self.solver._seed(*p))

    def srg_of(self, arr):
        return self.mods['srg.srg'].SRG(arr)

    def solve(self, arr):
        return self.solver.solve(self.srg_of(arr))

    def advance(self, arr):
        return self.solver.advance(self.srg_of(arr))

    def candidates(self, arr):
        q = self.mods['srg.srg'].Question.from_matrix(arr)
        return self.solver.solve_question(q)

    @property
    def NoSolution(self):
        return self.mods['srg.srg'].NoSolution


def arr(rows, dtype='int8'):
    return np.array([list(r) for r in rows], dtype=dtype)


def rows_of(m, what='matrix'):
    """A delivered matrix as a tuple of tuples of ints; anything else is malformed."""
    if not isinstance(m, (np.ndarray, list, tuple)):
        try:
            m = m.current_matrix    # library code: a failure injected here must pass through
        except AttributeError as e:
            if 'injected' in str(e):
                raise
            raise Violation('malformed', f'{what} is neither an array nor a search object: {type(m).__name__}')
    try:
        a = np.asarray(m)
        if a.ndim != 2 or a.dtype.kind not in 'iub':
            raise ValueError(f'ndim {a.ndim}, dtype {a.dtype}')
        return tuple(tuple(r) for r in a.tolist())
    except Exception as e:
        raise Violation('malformed', f'{what} is not an integer matrix: {type(m).__name__} {e}')


def row_of(r):
    try:
        a = np.asarray(r)
        if a.ndim != 1 or a.dtype.kind not in 'iub':
            raise ValueError(f'ndim {a.ndim}, dtype {a.dtype}')
        return tuple(a.tolist())
    except Exception as e:
        raise Violation('malformed', f'row is not an integer vector: {e}')


def library_frame(e):
    """Innermost library location in the traceback of e, or ''."""
    tb, where = e.__traceback__, ''
    while tb:
        if tb.tb_frame.f_code.co_filename.startswith(ROOT):
            where = f'{os.path.basename(tb.tb_frame.f_code.co_filename)}:{tb.tb_lineno}'
        tb = tb.tb_next
    return where


class OverBudget(BaseException):
    """A workload turned out larger than this run can afford: it is skipped and counted."""


@contextlib.contextmanager
def budget(calls):
    """Bounds the number of library function calls (and generator resumptions) inside.
    A count, not a clock: the same run always stops at the same place."""
    mon = sys.monitoring
    left = [calls]

    def cb(code, offset):
        if not code.co_filename.startswith(ROOT):
            return mon.DISABLE
        left[0] -= 1
        if left[0] < 0:
            raise OverBudget(f'{calls} library calls')
    mon.use_tool_id(4, 'verif-budget')
    try:
        for e in (mon.events.PY_START, mon.events.PY_RESUME):
            mon.register_callback(4, e, cb)
        mon.set_events(4, mon.events.PY_START | mon.events.PY_RESUME)
        yield left
    finally:
        mon.set_events(4, 0)
        mon.free_tool_id(4)


def in_thread(fn):
    """fn() in another thread, waited for."""
    out = []

    def go():
        try:
            out.append((fn(), None))
        except BaseException as e:
            out.append((None, e))
    t = threading.Thread(target=go)
    t.simulated = True
    t.start()
    t.join()
    if out[0][1] is not None:
        raise out[0][1]
    return out[0][0]


@contextlib.contextmanager
def library(what):
    """Library code runs inside: with no fault injected, any exception is a violation."""
    try:
        yield
    except (Violation, StepLimit):
        raise
    except Exception as e:
        raise Violation('unexpected-exception', f'{what}: {type(e).__name__}: {str(e)[:200]} at {library_frame(e)}')


def caused_by_injection(e):
    """True if e is the injected failure or was raised because of it."""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if any('injected' in str(a) for a in getattr(e, 'args', ())) or 'injected' in str(e):
            return True
        e = e.__cause__ or e.__context__
    return False


def short(rows):
    return '/'.join(''.join(map(str, r)) for r in rows)
