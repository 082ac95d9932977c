"""C11: drawing announces only pictures that are completely written and right."""
import builtins
import contextlib
import io
import os
import re
import shutil
import struct
import tempfile
import warnings
import zlib

from .. import cli, core, faults, runner, sched, work
from ..core import Violation

PROP = 'C11'
RUNS = {'quick': 300, 'thorough': 9000}
RULE = ('a run = drawing a catalogued problem (function or command) into a scratch folder, possibly holding stale files, with a seeded fault '
        '(full disk, I/O error, short writes, failing open or close, failing stdout, a failure or crash at a seeded instruction or byte), '
        'then drawing again; at every announcement the announced file is read back and decoded and the figure it came from is compared '
        'with the stored matrix; non-trivial = a fault fired or several pictures were drawn; distinct by the hash of the log')
STATES = 'distinct (problem, fault, number of pictures announced when it struck)'
REAL = ['srg.database.draw and the command', 'networkx', 'matplotlib (Agg)', 'PIL']
STUB = ['the files the pictures are written to (real scratch files behind a fault layer)', 'the device behind stdout']
ASSUMPTIONS = ['a crash is the death of the process: bytes already written survive', 'vertices are identified by their labels in the figure']


def scenario(rng, tier, i):
    names = [n for n in work.catalogue_names() if '28_12' not in n]
    big = [n for n in names if len(work.catalogue_content(n)) > 1]
    name = rng.choice(big) if rng.random() < 0.5 else rng.choice(names)
    if tier == 'thorough' and i % 1500 == 17:
        name = 'problem_28_12_6_4'
    f = None
    if rng.random() < 0.85:
        f = rng.choice(['write', 'write', 'write', 'close', 'open', 'stdout', 'step', 'step', 'crash', 'crash'])
    sc = {'name': name, 'mode': rng.choice(['function', 'function', 'command', 'command-u']), 'fault': f,
            'err': rng.choice([28, 5, 122, 27]), 'where': faults.place(rng), 'kind': rng.choice(sorted(core.FAULT_KINDS)),
            'sticky': rng.random() < 0.5, 'short': rng.choice([0, 0, 0.3]), 'stale': rng.choice(['', '', 'garbage', 'long', 'short', 'other']),
            'again': rng.choice([1, 1, 2]), 'opt': rng.choice([-1, -1, 1]), 'noise': rng.random() < 0.3, 'clean': rng.random() < 0.5}
    if sc['mode'] != 'function' and rng.random() < 0.3:
        sc['kind'] = rng.choice(sorted(core.SIGNALS))
    return sc


class Files:
    """Fault layer for every file opened for writing inside the scratch folder."""

    def __init__(self, ctx, root):
        self.ctx, self.root = ctx, os.path.realpath(root)
        self.mode, self.at, self.err, self.sticky, self.short = None, None, 28, True, 0
        self.written = self.opened = self.closed = 0
        self.fired = 0
        self.crashed = False
        self.disk = None

    def arm(self, mode=None, at=None, err=28, sticky=True, short=0):
        self.mode, self.at, self.err, self.sticky, self.short = mode, at, err, sticky, short
        self.written = self.opened = self.closed = self.fired = 0
        self.crashed = False

    def snapshot(self):
        out = {}
        for f in sorted(os.listdir(self.root)):
            if os.path.isdir(os.path.join(self.root, f)):
                continue
            with REAL_OPEN(os.path.join(self.root, f), 'rb') as h:
                out[f] = h.read()
        return out

    def clear(self, sc):
        """The user takes away the pictures of the drawing before."""
        if sc.get('clean'):
            for f in os.listdir(self.root):
                if not os.path.isdir(os.path.join(self.root, f)):
                    os.unlink(os.path.join(self.root, f))

    def fail(self, kind, raw=None):
        if self.mode == 'crash':
            self.crashed = True
            self.disk = self.snapshot()
            self.ctx.count('fault.crash')
            self.fired += 1
            raise core.Killed('injected crash')
        if not self.fired:
            self.ctx.count('fault.' + kind)
        self.fired += 1
        raise OSError(self.err, 'injected ' + os.strerror(self.err))

    def die(self):
        if not self.crashed:
            self.crashed = True
            self.disk = self.snapshot()

    def struck(self):
        return self.crashed or (self.fired and self.sticky and self.mode == 'write')

    @contextlib.contextmanager
    def mounted(self):
        me = self

        class Raw(io.RawIOBase):
            def __init__(self, path, mode):
                self.f = io.FileIO(path, mode)
                self.name = path

            def readable(self):
                return self.f.readable()

            def writable(self):
                return self.f.writable()

            def seekable(self):
                return True

            def readinto(self, b):
                return self.f.readinto(b)

            def seek(self, *a):
                return self.f.seek(*a)

            def tell(self):
                return self.f.tell()

            def truncate(self, *a):
                return self.f.truncate(*a)

            def fileno(self):
                raise io.UnsupportedOperation('fileno')

            def write(self, b):
                b = bytes(b)
                if me.struck():
                    me.fail('disk')
                if me.short and len(b) > 1 and me.ctx.ch.flag(me.short):
                    b = b[:1 + me.ctx.ch.below(len(b) - 1)]
                    me.ctx.count('fault.short-write')
                if me.mode in ('write', 'crash') and not me.fired and me.written + len(b) > me.at:
                    room = me.at - me.written
                    n = self.f.write(b[:room]) if room > 0 else 0
                    me.written += n
                    me.fail('disk-full' if me.err == 28 else 'io-error')
                n = self.f.write(b)
                me.written += n
                return n

            def close(self):
                if self.closed:
                    return
                try:
                    super().close()
                finally:
                    self.f.close()
                me.closed += 1
                if me.mode == 'close' and me.closed - 1 == me.at:
                    me.fail('close-error')

        def opener(path, mode='r', *a, **kw):
            try:
                p = os.path.realpath(os.fspath(path)) if not isinstance(path, int) else ''
            except TypeError:
                p = ''
            if not isinstance(p, str) or not p.startswith(me.root + os.sep) or not (set(mode) & set('wxa+')):
                return REAL_OPEN(path, mode, *a, **kw)
            if me.struck():
                me.fail('open')
            n = me.opened
            me.opened += 1
            if me.mode == 'open' and n == me.at:
                me.fail('open-error')
            raw = Raw(p, mode.replace('b', '').replace('t', ''))
            buf = io.BufferedRandom(raw) if '+' in mode else io.BufferedWriter(raw)
            return buf if 'b' in mode else io.TextIOWrapper(buf, encoding='utf-8')
        saved = builtins.open, io.open
        builtins.open = io.open = opener
        try:
            yield self
        finally:
            builtins.open, io.open = saved


REAL_OPEN = io.open


def png_defect(data):
    """None if data is one complete PNG file."""
    if data[:8] != b'\x89PNG\r\n\x1a\n':
        return 'no PNG signature'
    pos, kinds = 8, []
    while pos < len(data):
        if pos + 12 > len(data):
            return 'cut inside a chunk'
        n, kind = struct.unpack('>I4s', data[pos:pos + 8])
        body = data[pos + 8:pos + 8 + n]
        if len(body) < n or len(data) < pos + 12 + n:
            return 'cut inside a chunk'
        if struct.unpack('>I', data[pos + 8 + n:pos + 12 + n])[0] != zlib.crc32(kind + body):
            return 'bad checksum'
        kinds.append(kind)
        pos += 12 + n
        if kind == b'IEND':
            break
    if not kinds or kinds[-1] != b'IEND':
        return 'no end of image'
    if pos != len(data):
        return 'bytes after the end of the image'
    return None


def pixels(data):
    from PIL import Image
    im = Image.open(io.BytesIO(data))
    im.load()
    return im.size, im.convert('RGBA').tobytes()


def figure_graph(fig, v):
    """(labels, edges) that the figure shows, or a defect."""
    import numpy as np
    pos, edges, nodes, unknown = {}, [], None, 0
    for ax in fig.axes:
        if not ax.get_visible():
            continue
        for t in ax.texts:
            s = t.get_text().strip()
            if not t.get_visible() or not s:
                continue
            if s in pos:
                return None, f'two vertices labelled {s}'
            pos[s] = np.array(t.get_position(), float)
        for c in ax.collections:
            if not c.get_visible():
                continue
            if type(c).__name__ == 'LineCollection':
                edges += [np.asarray(s, float) for s in c.get_segments()]
            elif type(c).__name__ == 'PathCollection':
                o = np.asarray(c.get_offsets(), float)
                nodes = o if nodes is None else np.vstack([nodes, o])
        for l in ax.lines:
            if l.get_visible():
                edges.append(np.column_stack(l.get_data()).astype(float))
        unknown += sum(type(p).__name__ == 'FancyArrowPatch' for p in ax.patches)
    if set(pos) != {str(n) for n in range(v)}:
        return None, f'labels {sorted(pos)[:12]} instead of the vertices 0..{v - 1}'
    if unknown:
        return None, None           # drawn in a way this check cannot read
    names = sorted(pos, key=int)
    xy = np.array([pos[n] for n in names])
    d = np.hypot(*(xy[:, None] - xy[None, :]).transpose(2, 0, 1)) + np.eye(v) * 9
    tol = d.min() / 4
    if tol <= 1e-6:
        return None, 'two vertices in one place'

    def at(p):
        e = np.hypot(*(xy - p).T)
        j = int(e.argmin())
        return j if e[j] <= tol else None
    if nodes is not None and sorted(at(p) if at(p) is not None else -1 for p in nodes) != list(range(v)):
        return None, 'the vertex marks are not at the labels'
    out = set()
    for e in edges:
        a, b = at(e[0]), at(e[-1])
        if a is None or b is None:
            return None, 'an edge ends where there is no vertex'
        if a == b:
            return None, f'an edge from {a} to itself'
        out.add((min(a, b), max(a, b)))
    return out, None


class Watch:
    """Judges every announcement at the moment it is made."""

    def __init__(self, sc, files, ctx):
        self.sc, self.files, self.ctx = sc, files, ctx
        self.v = work.vklu_of(sc['name'])[0]
        self.mats = work.catalogue_content(sc['name'])
        self.names = [f"srg_{'_'.join(sc['name'].split('_')[1:])}_{i}.png" for i in range(len(self.mats))]
        self.begin()

    def begin(self):
        self.announced = []
        self.text = ''
        self.shown = {}     # basename -> (matrix index or defect, pixels)
        self.good = {}      # announced name -> bytes

    def saved(self, fig, path):
        """Called when a figure has been saved under path."""
        import numpy as np
        name = os.path.basename(os.fspath(path))
        edges, why = figure_graph(fig, self.v)
        buf = io.BytesIO()
        SAVE[0](fig, buf, format='png')
        self.shown[name] = (edges, why, pixels(buf.getvalue()))

    def output(self, s):
        if self.files.crashed:
            return
        self.text += s
        lines = re.findall(r'[^\s\'"]+\.png', self.text.rpartition('\n')[0] + '\n')
        while len(self.announced) < len(lines):
            name = os.path.basename(lines[len(self.announced)])
            self.announce(name)

    def announce(self, name):
        n = len(self.announced)
        if n >= len(self.names) or name != self.names[n]:
            raise Violation('wrong-announcement', f'announcement {n} is {name}, the pictures are {self.names[:3]}... ({len(self.names)})')
        self.announced.append(name)
        try:
            data = self.files.snapshot()[name]
        except KeyError:
            raise Violation('not-written', f'{name} was announced and there is no such file')
        bad = png_defect(data)
        if bad:
            raise Violation('not-written', f'{name} was announced and is not a complete picture: {bad} ({len(data)} bytes)')
        self.good[name] = data
        self.ctx.count('pictures-checked')
        # a picture written under another name first (and renamed) is found by its pixels
        px = pixels(data)
        hit = self.shown.get(name)
        if hit is None or hit[2] != px:
            same = [s for s in self.shown.values() if s[2] == px]
            if not same and not self.shown:
                self.ctx.count('figure-not-seen')
                return
            if not same:
                raise Violation('wrong-picture', f'{name} does not show the figure drawn for it')
            hit = same[0]
        edges, why, _ = hit
        if edges is None:
            if why:
                raise Violation('wrong-picture', f'{name}: {why}')
            self.ctx.count('figure-not-read')
            return
        M = self.mats[n]
        want = {(i, j) for i in range(self.v) for j in range(i) if M[i][j]}
        want = {(j, i) for i, j in want}
        if edges != want:
            raise Violation('wrong-picture', f'{name}: {len(edges)} edges drawn, {len(want)} in the stored graph; '
                                             f'missing {sorted(want - edges)[:4]}, invented {sorted(edges - want)[:4]}')

    def intact(self, where):
        disk = self.files.disk if self.files.crashed else self.files.snapshot()
        for name, data in self.good.items():
            if disk.get(name) != data:
                raise Violation('not-intact', f'{where}{name} was announced and its file is gone or changed')


SAVE = [None]


@contextlib.contextmanager
def observed(watch):
    from matplotlib.figure import Figure
    real = SAVE[0] = Figure.savefig
    depth = [0]

    def savefig(fig, fname, *a, **kw):
        depth[0] += 1
        try:
            r = real(fig, fname, *a, **kw)
        finally:
            depth[0] -= 1
        if depth[0] == 0 and isinstance(fname, (str, os.PathLike)):
            watch.saved(fig, fname)
        return r
    Figure.savefig = savefig
    try:
        yield
    finally:
        Figure.savefig = real


class Out(io.TextIOBase):
    def __init__(self, watch, fail_at, ctx):
        self.watch, self.fail_at, self.n, self.ctx, self.failed = watch, fail_at, 0, ctx, False

    def writable(self):
        return True

    def write(self, s):
        if self.fail_at is not None and self.n + len(s) > self.fail_at:
            if not self.failed:
                self.ctx.count('fault.stdout')
            self.failed = True
            raise OSError(28, 'injected full stdout')
        self.n += len(s)
        self.watch.output(s)
        return len(s)


class WatchedSink(cli.Sink):
    watch = None

    def dead(self):
        super().dead()
        self.watch.files.die()

    def write(self, b):
        if self.gone:
            return len(b)
        n = super().write(b)
        self.watch.output(bytes(b)[:n].decode('utf-8', 'replace'))
        return n


def draw(sc, ctx, inst, watch, stdout_at=None, fl=(), traced=False):
    """(error or None, steps, fired faults, bytes of output)"""
    import sys
    p = work.vklu_of(sc['name'])
    watch.begin()
    if sc['mode'] == 'function':
        out, saved = Out(watch, stdout_at, ctx), sys.stdout
        err, steps, fired = None, 0, 0
        sys.stdout = out
        try:
            with inst, warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if traced or fl:
                    t = sched.run_alone(ctx, lambda t: inst.database.draw(*p), fl)
                    err, steps, fired = t.error, t.steps, len(t.fired)
                else:
                    inst.database.draw(*p)
        except (Violation, core.StepLimit):
            raise
        except BaseException as e:
            err = e
        finally:
            sys.stdout = saved
        if isinstance(err, Violation):
            raise err
        return err, steps, fired + out.failed, out.n
    s = WatchedSink(ctx, fail_at=stdout_at)
    s.watch = watch
    o = cli.run(ctx, inst, 'srg.database', ['draw', *p], s, fl, traced=traced or bool(fl), line_buffered=sc['mode'] == 'command-u')
    return (None if o.success else o.why), o.steps, len(o.fired) + s.failed, len(s.data)


def execute(sc, ctx):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    matplotlib.rcParams['figure.max_open_warning'] = 0
    core.OPTIMIZE['level'] = sc['opt']
    root = tempfile.mkdtemp(prefix='verif-c11-')
    cwd = os.getcwd()
    try:
        os.chdir(root)
        body(sc, ctx, root, plt)
    finally:
        os.chdir(cwd)
        plt.close('all')
        shutil.rmtree(root, ignore_errors=True)


def body(sc, ctx, root, plt):
    inst = core.Inst()
    fs = Files(ctx, root)
    watch = Watch(sc, fs, ctx)
    if sc['stale'] and watch.names:
        for j, n in enumerate(watch.names[:3]):
            with REAL_OPEN(os.path.join(root, n), 'wb') as f:
                f.write({'garbage': b'not a picture', 'long': b'\0' * 300000, 'short': b'', 'other': b'\x89PNG\r\n\x1a\n'}[sc['stale']])
        ctx.count('fault.stale-files')
    if sc['noise']:      # the caller works with pyplot too
        plt.figure()
        plt.plot([0, 1], [1, 0])
    with fs.mounted(), observed(watch):
        fault, n_at_fault = sc['fault'], None
        if fault and watch.names:
            fs.arm(short=sc['short'])
            steps = bytes_ = opens = text = 0
            # measure one drawing without faults
            err, steps, _, text = draw(sc, ctx, core.Inst(), watch, traced=fault == 'step')
            bytes_, opens, closes = fs.written, fs.opened, fs.closed
            finished(sc, watch, err, 'measuring: ', fs)
            plt.close('all')
            os.chdir(root)
            at = {'write': faults.at(sc['where'], bytes_), 'crash': faults.at(sc['where'], bytes_), 'open': faults.at(sc['where'], opens),
                  'close': faults.at(sc['where'], closes), 'stdout': faults.at(sc['where'], text)}.get(fault)
            fl = [(faults.at(sc['where'], steps), sc['kind'])] if fault == 'step' and steps else []
            if fault in ('write', 'crash', 'open', 'close'):
                fs.arm(fault, at, sc['err'], sc['sticky'], sc['short'])
            else:
                fs.arm(short=sc['short'])
            fs.clear(sc)
            err, _, fired, _ = draw(sc, ctx, inst, watch, stdout_at=at if fault == 'stdout' else None, fl=fl)
            fired = fired or fs.fired
            n_at_fault = len(watch.announced)
            watch.intact(f'{fault}: ')
            ctx.state(sc['name'], fault, n_at_fault)
            if err is None:
                finished(sc, watch, err, f'{fault}: ', fs)
                if fired and fault in ('write', 'open') and sc['sticky']:
                    raise Violation('failure-swallowed', f'{fault} failed and drawing ended normally')
            elif not fired:
                raise Violation('unexpected-exception', f'{type(err).__name__}: {str(err)[:200]} at {core.library_frame(err)}')
            ctx.log.add('fault', fault, at, n_at_fault, type(err).__name__)
            if fs.crashed:
                inst = core.Inst()      # a new process
                plt.close('all')
                os.chdir(root)
            if fired:
                ctx.key = 1
        for r in range(sc['again'] if fault else 1):
            fs.arm(short=sc['short'])
            fs.clear(sc)
            err, *_ = draw(sc, ctx, inst, watch)
            finished(sc, watch, err, 'once the fault is gone: ' if fault else '', fs)
            plt.close('all')
    ctx.log.add('drawn', sc['name'], len(watch.announced), fs.written)
    ctx.key = ctx.log.digest() if getattr(ctx, 'key', None) or len(watch.names) > 1 else None


def finished(sc, watch, err, where, fs):
    """Drawing ended normally: the full set is there."""
    if err is not None:
        raise Violation('unexpected-exception', f'{where}{type(err).__name__}: {str(err)[:200]} at {core.library_frame(err)}')
    if watch.announced != watch.names:
        raise Violation('lost-pictures', f'{where}drawing ended normally with {len(watch.announced)} of {len(watch.names)} pictures announced')
    watch.intact(where)
    extra = [f for f in os.listdir(fs.root) if f not in watch.names]
    if extra and where in ('', 'measuring: '):     # a crash may leave a file that was being written
        raise Violation('extra-files', f'{where}drawing left {extra[:3]}')


def shrink(sc):
    for k, d in (('stale', ''), ('short', 0), ('noise', False), ('clean', False), ('opt', -1), ('again', 1), ('mode', 'function'), ('fault', None)):
        if sc.get(k, d) != d:
            yield dict(sc, **{k: d})
    for n in ('problem_5_2_0_1', 'problem_10_3_0_1', 'problem_16_6_2_2'):
        if sc['name'] != n and work.vklu_of(n)[0] < work.vklu_of(sc['name'])[0]:
            yield dict(sc, name=n)
