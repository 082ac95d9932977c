"""Running the library's commands in-process on a simulated standard output."""
import atexit
import io
import re
import runpy
import signal
import sys
import os
import threading
import warnings

from . import core, sched


class Sink(io.RawIOBase):
    """The device behind stdout: accepts bytes, may run full, break, or take short writes."""

    def __init__(self, ctx, tty=False, fail_at=None, err=28, sticky=True, short=0.0, eintr=0.0):
        self.ctx, self.tty, self.fail_at, self.err, self.sticky = ctx, tty, fail_at, err, sticky
        self.short, self.eintr = short, eintr
        self.data = bytearray()
        self.failed = self.gone = False
        self.fd = self.ident = None

    def writable(self):
        return True

    def isatty(self):
        return self.tty

    def fileno(self):
        """A descriptor to redirect, or to write to directly (see core.install_seams: os.write)."""
        if self.fd is None:
            self.fd = os.memfd_create('stdout')
            self.own, self.seen = os.dup(self.fd), 0
            s = os.fstat(self.fd)
            self.ident = s.st_dev, s.st_ino
            core.SINKS[self.fd] = self
        return self.fd

    def sync(self):
        """Take over what was written to the descriptor itself."""
        if self.fd is not None:
            n = os.fstat(self.own).st_size
            if n > self.seen:
                self.data += os.pread(self.own, n - self.seen, self.seen)
                self.seen = n
                self.ctx.count('direct-writes')

    def redirected(self):
        if self.fd is None:
            return False
        s = os.fstat(self.fd)
        return (s.st_dev, s.st_ino) != self.ident

    def drop_fd(self):
        if self.fd is not None:
            self.sync()
            core.SINKS.pop(self.fd, None)
            os.close(self.fd)
            os.close(self.own)
            self.fd = None

    def dead(self):
        self.gone = True

    def write(self, b):
        b = bytes(b)
        if self.gone:
            return len(b)
        self.sync()
        if self.redirected():       # by os.dup2: goes elsewhere and succeeds
            self.ctx.count('redirected-writes')
            return len(b)
        if self.failed and self.sticky:
            if self.err == 11:
                return None
            raise OSError(self.err, os.strerror(self.err))
        if self.eintr and self.ctx.ch.flag(self.eintr):
            self.ctx.count('fault.eintr')
            raise InterruptedError(4, 'simulated EINTR')
        n = len(b)
        if self.short and n > 1 and self.ctx.ch.flag(self.short):
            n = 1 + self.ctx.ch.below(n - 1)
            self.ctx.count('fault.short-write')
        if self.fail_at is not None and not self.failed and len(self.data) + n > self.fail_at:
            room = self.fail_at - len(self.data)
            if room > 0:
                self.data += b[:room]
                return room
            self.failed = True
            self.ctx.count({28: 'fault.disk-full', 32: 'fault.broken-pipe', 5: 'fault.io-error', 11: 'fault.would-block'}[self.err])
            if self.err == 11:       # a non-blocking pipe that is full: the layer above raises BlockingIOError
                return None
            if self.err == 32 and core.DELIVER['to']:
                e = core.DELIVER['to'](13)
                if e is not None:
                    raise e
            raise OSError(self.err, os.strerror(self.err))
        self.data += b[:n]
        return n


class HardExit(BaseException):
    """os._exit: the process ends here, and what is still in its buffers is lost."""


def hard_exit(status):
    raise HardExit(status)


class AtExit:
    """What library code asks to be done when the process ends."""

    def __init__(self):
        self.calls, self.real = [], (atexit.register, atexit.unregister)

    def register(self, func, *args, **kwargs):
        if not core._made_for_srg():
            return self.real[0](func, *args, **kwargs)
        self.calls.append((func, args, kwargs))
        return func

    def unregister(self, func):
        self.calls = [c for c in self.calls if c[0] != func]
        self.real[1](func)

    def __enter__(self):
        self.before = set(threading.enumerate())
        atexit.register, atexit.unregister = self.register, self.unregister
        return self

    def __exit__(self, *a):
        atexit.register, atexit.unregister = self.real

    def finish(self, ctx):
        """The end of the process as the interpreter does it: threads first, then the calls, last one first;
        their failures are printed and change nothing."""
        left = [t for t in threading.enumerate() if t not in self.before and not t.daemon]
        if left:
            pool = sys.modules.get('concurrent.futures.thread')
            if pool:
                for q in list(pool._threads_queues.values()):
                    q.put(None)
                pool._shutdown = True
            try:
                for t in left:
                    t.join(120)
            finally:
                if pool:
                    pool._shutdown = False
        while self.calls:
            f, a, k = self.calls.pop()
            ctx.count('exit-calls')
            try:
                f(*a, **k)
            except HardExit:
                raise
            except (core.Violation, core.StepLimit, core.OverBudget):
                raise
            except BaseException as e:
                print(f'Exception ignored in atexit callback: {type(e).__name__}: {e}', file=sys.stderr)


class Signals:
    """Signals sent to the simulated process: library code may set handlers; without one, SIGINT raises
    KeyboardInterrupt and the others end the process at once."""

    def __init__(self, sink):
        self.sink, self.set, self.killed = sink, {}, False
        self.real = signal.signal, signal.getsignal

    def signal(self, signum, handler):
        if not core._from_srg():
            return self.real[0](signum, handler)
        old = self.getsignal(signum)
        self.set[int(signum)] = handler
        return old

    def getsignal(self, signum):
        return self.set.get(int(signum), {signal.SIGINT: signal.default_int_handler, signal.SIGPIPE: signal.SIG_IGN}.get(signum, signal.SIG_DFL))

    def deliver(self, signum):
        h = self.getsignal(signum)
        if h == signal.SIG_IGN:
            return None
        if h == signal.SIG_DFL:
            self.killed = True
            self.sink.ctx.count('fault.killed-by-signal')
            self.sink.dead()
            return HardExit(128 + signum)
        h(signum, sys._getframe(2))

    def __enter__(self):
        signal.signal, signal.getsignal, core.DELIVER['to'] = self.signal, self.getsignal, self.deliver
        return self

    def __exit__(self, *a):
        signal.signal, signal.getsignal = self.real
        core.DELIVER['to'] = None


class Outcome:
    """success: exit status 0; otherwise why not."""

    def __init__(self, success, why, data, steps, fired, err=None):
        self.success, self.why, self.data, self.steps, self.fired, self.err = success, why, data, steps, fired, err

    @property
    def text(self):
        return re.sub(r'\x1b\[[0-9;]*[A-Za-z]', '', self.data.decode('utf-8', 'replace'))


def run(ctx, inst, module, args, sink, faults=(), buffering=8192, line_buffered=False, gran='line', max_steps=20_000_000, traced=None):
    """Run `python -m module args` in this process: what a shell would see of it."""
    buf = io.BufferedWriter(sink, buffering)
    out = io.TextIOWrapper(buf, encoding='utf-8', line_buffering=line_buffered or sink.tty)
    err = io.StringIO()
    saved = (sys.stdout, sys.stderr, sys.argv, sys.modules['__main__'])
    opts, real_exit = core.np.get_printoptions(), os._exit

    def body(t):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            runpy.run_module(module, run_name='__main__', alter_sys=True)
    sys.argv = [module] + [str(a) for a in args]
    why, t, dead = None, None, False
    inst.mods.pop(module + '.__main__', None)
    try:
        with inst, AtExit() as end, Signals(sink) as signals:
            sys.stdout, sys.stderr, os._exit = out, err, hard_exit
            core.SINKS[1] = sink
            try:
                if traced or faults:
                    t = sched.run_alone(ctx, body, faults, gran, max_steps)
                    if t.error is not None:
                        raise t.error
                else:
                    body(None)
            except SystemExit as e:
                if e.code is None or e.code == 0:
                    why = None
                else:
                    why = e
            except (core.Violation, core.StepLimit, core.OverBudget):
                raise
            except BaseException as e:
                why = e
            finally:
                if not isinstance(why, HardExit):
                    try:
                        end.finish(ctx)
                    except HardExit as e:
                        why = e
                sys.stdout, sys.stderr, os._exit = saved[0], saved[1], real_exit
                core.SINKS.pop(1, None)
        try:
            if signals.killed:
                dead, why = True, why or HardExit('killed')
            elif isinstance(why, HardExit):
                dead, why = True, why if why.args[0] else None
            else:
                out.flush()          # the interpreter flushes stdout at exit; failing is status 120
        except BaseException as e:
            why = why or e
    finally:
        sys.argv = saved[2]
        sys.modules['__main__'] = saved[3]
        core.np.set_printoptions(**opts)
        try:
            out.detach() if not dead else sink.dead()
            buf.detach()
        except BaseException:
            pass
        sink.drop_fd()
    ctx.log.add('cli', module, [str(a) for a in args], type(why).__name__ if why is not None else 'ok', len(sink.data))
    return Outcome(why is None, why, bytes(sink.data), t.steps if t else 0, list(t.fired) if t else [], err.getvalue())


def matrices(text):
    """Every matrix printed in the text, in order: the [[...]] blocks, each fully numeric."""
    out, pos = [], 0
    for m in re.finditer(r'\[\s*\[(.*?)\]\s*\]', text, re.S):
        rows = []
        for r in re.split(r'\]\s*,?\s*\[', m.group(1)):
            toks = [x for x in re.split(r'[\s,]+', r.strip()) if x]
            if not all(x in ('0', '1') for x in toks):
                return None, f'a printed row is not a row of 0 and 1: {r[:120]!r}'
            rows.append(tuple(int(x) for x in toks))
        out.append(tuple(rows))
    return out, None
