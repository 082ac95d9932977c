"""Deterministic scheduler for caller threads, and fault injection inside library code.

Real threads, parked and released one at a time.  A thread can lose control, or have a
failure raised in it, only at a line (or opcode) of a library frame; which thread runs,
for how many steps, and where failures strike is decided by Choices alone.
"""
import ast
import bisect
import dis
import os
import queue
import sys
import threading
import zlib
import _thread

from . import core
from .core import ROOT, StepLimit, FAULT_KINDS, NARROW, SIGNALS

_tls = threading.local()
_real_semaphore = threading.Semaphore


def current():
    return getattr(_tls, 'task', None)


_regions = {}


def leaving(frame):
    """Is the frame between the end of a protected block and the clean-up call that follows it (the
    exit of a with statement, the start of a finally body or handler)?  CPython delivers no interrupt there: it looks
    for one after calls and at jumps back, so the exception would have been raised inside the block."""
    code = frame.f_code
    r = _regions.get(code)
    if r is None:
        if len(_regions) > 2000:
            _regions.clear()
        ins = [(i.offset, i.opname.startswith(('CALL', 'RESUME', 'JUMP_BACKWARD'))) for i in dis.get_instructions(code)]
        offs = [o for o, _ in ins]
        table = [(e.start, e.end, e.target) for e in dis._parse_exception_table(code)]
        r = _regions[code] = offs, [c for _, c in ins], table, {t[2] for t in table}
    offs, calls, table, handlers = r
    if not table:
        return False
    at = frame.f_lasti
    n = bisect.bisect_right(offs, at) - 1
    if at in handlers:
        return True
    here, to = set(), at
    while to is not None:         # the handlers in force, from the innermost out
        to = next((t[2] for t in table if t[0] <= to < t[1] and t[2] not in here), None)
        here.add(to)
    for j in range(n - 1, max(-1, n - 14), -1):
        o = offs[j]
        if o in handlers and not calls[j]:
            return True
        if any(t[0] <= o < t[1] and t[2] not in here for t in table):
            return True
        if calls[j]:
            return False
    return False


_guards = {}


def guarded(frame):
    """Does the line stand under a try statement with handlers?"""
    path = frame.f_code.co_filename
    if path not in _guards:
        lines = set()
        with os.fdopen(os.open(path, os.O_RDONLY), 'rb') as f:     # not through a mounted fault
            tree = ast.parse(f.read())
        for n in ast.walk(tree):
            if isinstance(n, (ast.Try, ast.TryStar)) and n.handlers or isinstance(n, ast.With) and 'suppress' in ast.unparse(n.items[0]):
                lines.update(range(n.body[0].lineno, n.body[-1].end_lineno + 1))
        _guards[path] = lines
    return frame.f_lineno in _guards[path]


class Task:
    trail = None          # steps by line of code, if recorded

    def __init__(self, sim, idx, name, fn, faults=(), gran='line'):
        self.sim, self.idx, self.name, self.fn = sim, idx, name, fn
        self.faults = dict(faults)          # step -> fault kind
        self.gran = gran
        self.steps = 0
        self.left = self.meets = 0
        self.done = False
        self.error = None
        self.result = None
        self.blocked_on = None
        self.timed = self.expired = False
        self.noswitch = 0
        self.sem = _thread_lock()
        self.where = 'start'
        self.fired = []

    # -- tracing
    def _glob(self, frame, event, arg):
        code = frame.f_code
        if not code.co_filename.startswith(ROOT):
            return None
        if code.co_name == '<module>':
            self.noswitch += 1
            frame.f_trace_lines = True
            return self._module
        if self.gran == 'opcode':
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def _module(self, frame, event, arg):
        if event == 'return':
            self.noswitch -= 1
        elif event == 'line':
            self._tick(frame)
        return self._module

    def _local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self._tick(frame)
        return self._local

    def _tick(self, frame):
        s = self.steps
        self.steps = s + 1
        if self.trail is not None:
            self.trail.setdefault((frame.f_code.co_filename, frame.f_lineno), []).append(s)
        kind = self.faults.get(s)
        if kind is not None and (leaving(frame) or kind in NARROW and guarded(frame)):
            self.faults.setdefault(s + 1, kind)
            kind = None
        if kind is not None:
            self.fired.append((s, kind))
            self.where = (frame.f_code.co_filename[len(ROOT):], frame.f_lineno)
            self.noswitch = 0
            e = (FAULT_KINDS.get(kind) or SIGNALS[kind])()
            if e is not None:
                raise e
        self.left -= 1
        if self.sim.meet is not None and self.sim.meeting(frame):
            self.meets -= 1
            if self.meets <= 0:
                self.left = 0
        if self.left <= 0:
            if s > self.sim.max_steps:
                e = StepLimit(f'{self.name} exceeded {self.sim.max_steps} steps')
                if not self.sim.multi:
                    raise e
                # stays parked for good (see run() on raising out of an opcode trace function)
                self.error = e
                self.sim.overrun = True
                while True:
                    self.handoff()
            if self.noswitch == 0 and self.sim.multi:
                self.where = (frame.f_code.co_filename[len(ROOT):], frame.f_lineno)
                self.handoff()
            else:
                self.left = 1 if self.sim.multi else 1000

    def trace_on(self):
        """(Re)start tracing: an exception out of a trace function ends it."""
        self.noswitch = 0
        sys.settrace(self._glob)

    def trace_off(self):
        sys.settrace(None)

    # -- control
    def handoff(self):
        self.sim.control.release()
        self.sem.acquire()

    def pause(self, where='harness'):
        """A voluntary scheduling point of the workload."""
        if self.sim.multi:
            self.where = where
            self.handoff()

    def block(self, lock, timed=False):
        """Until the lock is free; False if nobody can go on and the wait has a time limit."""
        self.blocked_on = lock
        self.timed, self.expired = timed, False
        self.where = 'lock'
        self.sim.control.release()
        self.sem.acquire()
        if self.sim.deadlocked:
            raise StepLimit('deadlock')
        self.blocked_on = None
        return not self.expired

    def main(self):
        self.sem.acquire()
        _tls.task = self
        try:
            self.trace_on()
            try:
                self.result = self.fn(self)
            finally:
                self.trace_off()
        except BaseException as e:        # reported by the controller
            self.error = e
        finally:
            _tls.task = None
            self.done = True
            self.sim.control.release()


def foreign(ours=()):
    """Threads that neither the simulator nor the harness started."""
    return [t for t in threading.enumerate() if t is not threading.main_thread() and t not in ours and not hasattr(t, 'simulated')
            and t is not threading.current_thread()]


def alone():
    me = threading.current_thread()
    return not foreign() and (me is threading.main_thread() or hasattr(me, 'simulated'))


def _thread_lock():
    l = _real_lock()
    l.acquire()
    return l


_real_lock = _thread.allocate_lock


class Sim:
    """run(): all tasks to completion under one seeded schedule."""

    def __init__(self, ctx, policy=('geo', 20), max_steps=2_000_000):
        self.ctx, self.policy, self.max_steps = ctx, policy, max_steps
        self.meet = {} if policy[0] == 'meet' else None
        self.tasks = []
        self.adopted = []        # threads the library starts itself
        self.helper_faults = {}  # number of such a thread -> its failures
        self.control = _thread_lock()
        self.multi = False
        self.deadlocked = False
        self.overrun = False
        self.switches = 0

    def add(self, name, fn, faults=(), gran='line'):
        t = Task(self, len(self.tasks), name, fn, faults, gran)
        self.tasks.append(t)
        return t

    def meeting(self, frame):
        """Policy ['meet', n, salt, what]: one place of the code (or one function) in n, or the methods of one class, for every thread; turns end there."""
        _, n, salt, what = self.policy
        key = (frame.f_code, frame.f_lasti) if what == 'place' else frame.f_code
        m = self.meet.get(key)
        if m is None:
            m = self.meet[key] = frame.f_code.co_qualname.startswith(salt) if what == 'class' else zlib.crc32(f'{salt} {frame.f_code.co_qualname} {frame.f_lasti if what == "place" else ""}'.encode()) % n == 0
        return m

    def quantum(self, rng):
        kind, x = self.policy[:2]
        if kind == 'geo':
            return 1 + int(rng.expovariate(1.0 / x))
        if kind == 'meet':            # so many meetings
            return 1 + int(rng.expovariate(1.0 / 3))
        if kind == 'sparse':          # long runs, a handful of preemptions anywhere
            return 1 + rng.randrange(x)
        return x                      # round robin

    def pick(self, run, last):
        """The next thread and its turn in steps.  Default: the same thread, else the first."""
        ch = self.ctx.ch
        order = [t for t in run if t is last] + [t for t in run if t is not last]
        t = order[ch.below(len(order))]
        return t, max(1, ch.draw(1 << 40, self.quantum))

    def run(self):
        self.multi = len(self.tasks) > 1
        if self.multi and any(t.faults for t in self.tasks):
            # CPython 3.12 crashes when an opcode trace function raises while another thread is
            # inside one: faults under several threads strike at line granularity
            for t in self.tasks:
                t.gran = 'line'
        ths = [threading.Thread(target=t.main, daemon=True) for t in self.tasks]
        for th in ths:
            th.simulated = True
            th.start()
        log = self.ctx.log
        last = None
        waited = 0
        while True:
            live = [t for t in self.tasks + self.adopted if not t.done]
            if not any(not t.done for t in self.tasks):
                if not any(t.blocked_on is None or not t.blocked_on.locked() for t in live):
                    break                       # idle helper threads stay where they are
            run = [t for t in live if t.blocked_on is None or not t.blocked_on.locked()]
            if not run:
                if foreign() and waited < 20:
                    core.REAL['sleep'](0.001)    # threads of the library's own may release one
                    waited += 0.001
                    continue
                run = [t for t in live if t.timed][:1]
                if run:
                    run[0].expired = True
                else:
                    self.deadlocked = True
                    run = live
            waited = 0
            if self.multi:
                t, left = self.pick(run, last)
                if self.meet is not None:
                    t.meets, left = left, 1 << 40
                t.left = max(1, min(left, self.max_steps - t.steps + 2))
            else:
                t, t.left = run[0], 1000
            if t is not last:
                self.switches += 1
                log.add('run', t.idx, t.steps, t.where)
                self.ctx.state('sw', t.idx, t.where, last.where if last else None)
            last = t
            t.sem.release()
            self.control.acquire()
            if self.overrun:
                raise core.Violation('no-progress', str(t.error))
        for th in ths:
            th.join()
        self.ctx.steps += sum(t.steps for t in self.tasks + self.adopted)
        self.ctx.count('preemptions', self.switches)
        if self.adopted:
            self.ctx.count('library-threads', len(self.adopted))
        for t in self.tasks:
            for s, k in t.fired:
                self.ctx.count('fault.' + k)
            log.add('end', t.idx, t.steps, tuple(t.fired), type(t.error).__name__ if t.error else 'ok')
        if self.deadlocked:
            raise core.Violation('deadlock', 'every thread waits for a lock')
        for t in self.tasks + self.adopted:
            if isinstance(t.error, StepLimit):
                raise core.Violation('no-progress', str(t.error))
        return self.tasks


    def adopt(self, thread):
        """A thread started by library code inside a simulated thread becomes one itself."""
        n = len(self.adopted)
        t = Task(self, len(self.tasks) + n, f'helper{n}', None, self.helper_faults.get(n, ()), 'line' if self.helper_faults else self.tasks[0].gran)
        real_run = thread.run

        def library_thread(task):
            return real_run()
        t.fn = library_thread
        thread.run = t.main
        thread.simulated = thread.task = t
        self.adopted.append(t)
        self.multi = True


class Ended:
    def __init__(self, task):
        self.task = task

    def locked(self):
        return not self.task.done


def install_threads():
    real_start, real_join = threading.Thread.start, threading.Thread.join

    def start(self):
        me = current()
        made = core._made_for_srg()
        if me is None or not made:
            core.REAL['started'] += made
            return real_start(self)
        core.REAL['locks'] = True
        try:
            self._started = threading.Event()
        finally:
            core.REAL['locks'] = False
        me.sim.adopt(self)
        real_start(self)

    def join(self, timeout=None):
        me, t = current(), getattr(self, 'task', None)
        if me is not None and t is not None and not t.done:
            if not me.block(Ended(t), timed=timeout is not None):
                return
        return real_join(self, timeout)
    threading.Thread.start, threading.Thread.join = start, join
    real_queue = queue.SimpleQueue
    queue.SimpleQueue = lambda: queue._PySimpleQueue() if core._made_for_srg() else real_queue()


def run_alone(ctx, fn, faults=(), gran='line', max_steps=2_000_000, trail=False):
    """One thread of library code under the step counter, with injected failures; runs in
    the calling thread (no scheduling to decide).  Returns the task: result, error, steps, fired."""
    sim = Sim(ctx, max_steps=max_steps)
    t = Task(sim, 0, 'solo', fn, faults, gran)
    sim.tasks.append(t)
    t.left = 1000
    if trail:
        t.trail = {}
    prev = sys.gettrace()
    try:
        t.trace_on()
        try:
            t.result = fn(t)
        finally:
            t.trace_off()
    except BaseException as e:
        t.error = e
    finally:
        sys.settrace(prev)
        t.done = True
    ctx.steps += t.steps
    for s, k in t.fired:
        ctx.count('fault.' + k)
    ctx.log.add('solo', t.steps, tuple(t.fired), type(t.error).__name__ if t.error else 'ok')
    if isinstance(t.error, StepLimit):
        raise core.Violation('no-progress', str(t.error))
    if isinstance(t.error, core.Violation):
        raise t.error
    return t
