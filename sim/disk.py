"""A simulated disk: buffered writes, fsync, atomic rename, crash with lost or torn tails."""
import json
import zlib


class DiskError(OSError):
    pass


class SimDisk:
    def __init__(self, ctx, p_err=0.0):
        self.ctx, self.p_err = ctx, p_err
        self.durable = {}       # name -> bytes that survive a crash
        self.cache = {}         # name -> bytes the running system sees
        self.faults_on = True

    def _maybe_fail(self, what):
        if self.faults_on and self.ctx.ch.flag(self.p_err):
            self.ctx.count('fault.disk-' + what)
            raise DiskError(28 if what == 'write' else 5, 'simulated disk error')

    def append(self, name, data):
        old = self.cache.get(name, b'')
        try:
            self._maybe_fail('write')
        except DiskError:
            if self.ctx.ch.flag(0.5):      # short write before the error
                self.cache[name] = old + data[:self.ctx.ch.below(len(data))]
            raise
        self.cache[name] = old + data

    def truncate(self, name, size):
        self.cache[name] = self.cache.get(name, b'')[:size]

    def fsync(self, name):
        self._maybe_fail('fsync')
        self.durable[name] = self.cache[name]

    def rename(self, a, b):
        self._maybe_fail('rename')
        self.cache[b] = self.cache.pop(a)
        if a in self.durable:
            self.durable[b] = self.durable.pop(a)
        else:
            # an unsynced file renamed: after a crash the name may hold a torn file
            self.durable.pop(b, None)

    def read(self, name):
        return self.cache.get(name, b'')

    def crash(self):
        """Only durable bytes survive, plus an arbitrary prefix of what was not synced."""
        self.ctx.count('fault.crash-disk')
        new = {}
        for name, data in sorted(self.cache.items()):
            d = self.durable.get(name, b'')
            if data.startswith(d):
                extra = self.ctx.ch.below(len(data) - len(d) + 1) if len(data) > len(d) else 0
                if 0 < extra < len(data) - len(d):
                    self.ctx.count('fault.torn-write')
                new[name] = data[:len(d) + extra]
            else:
                new[name] = d
        self.cache = dict(new)
        self.durable = dict(new)


def record(obj):
    b = json.dumps(obj, separators=(',', ':')).encode()
    return b'%08x%08x' % (len(b), zlib.crc32(b)) + b + b'\n'


def records(data):
    """Complete records of a journal and the length of the intact part."""
    out, pos = [], 0
    while pos + 16 <= len(data):
        try:
            n, c = int(data[pos:pos + 8], 16), int(data[pos + 8:pos + 16], 16)
        except ValueError:
            break
        b = data[pos + 16:pos + 16 + n]
        if len(b) < n or zlib.crc32(b) != c or data[pos + 16 + n:pos + 17 + n] != b'\n':
            break
        out.append(json.loads(b))
        pos += 17 + n
    return out, pos
