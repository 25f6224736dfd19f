"""A simulated disk over a real scratch directory.

Every mutating file-system call that Python code makes below the scratch root passes through here and is a numbered
operation at which the run's choices may crash the process (with torn data), fail the call, shorten a write or deliver
an interrupt.  After a crash nothing of the dead process reaches the disk any more: neither ``finally`` blocks nor
buffers flushed by destructors.  Directory listings come back in a seeded order."""
import builtins
import contextlib
import errno
import io
import os
import shutil
import tempfile

from .engine import SimInterrupt

_BASE = None
_real = {n: getattr(os, n) for n in ('open', 'replace', 'rename', 'unlink', 'remove', 'rmdir', 'mkdir', 'link', 'symlink',
                                     'truncate', 'ftruncate', 'fsync', 'write', 'close', 'listdir', 'scandir')}
_open = io.open


class SimCrash(BaseException):
    """The simulated process is dead."""


def base():
    """Scratch base directory, created once by the main process and inherited by the pool workers."""
    global _BASE
    if _BASE is None:
        root = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        _BASE = tempfile.mkdtemp(prefix='dst-scratch-', dir=root)
    return _BASE


def cleanup():
    global _BASE
    if _BASE is not None:
        shutil.rmtree(_BASE, ignore_errors=True)
        _BASE = None


class SimRaw(io.RawIOBase):
    def __init__(self, disk, fd, name, append=False):
        self._disk, self._fd, self.name, self.mode = disk, fd, name, 'rb+'
        self._epoch = disk.epoch
        self._append = append

    def fileno(self):
        return self._fd

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def readinto(self, b):
        data = os.read(self._fd, len(b))
        b[:len(data)] = data
        return len(data)

    def seek(self, off, whence=0):
        return os.lseek(self._fd, off, whence)

    def tell(self):
        return os.lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        if self._epoch != self._disk.epoch:
            return size
        size = self.tell() if size is None else size
        self._disk.guard('truncate', lambda: _real['ftruncate'](self._fd, size))
        return size

    def write(self, b):
        data = bytes(b)
        if self._epoch != self._disk.epoch:
            return len(data)
        return self._disk.write(self._fd, data)

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                try:
                    _real['close'](self._fd)
                except OSError:
                    pass
                self._disk.fds.pop(self._fd, None)


class SimDisk:
    KINDS = ('crash', 'enospc', 'eio', 'interrupt')

    def __init__(self, ctx):
        self.ctx = ctx
        self.root = os.path.join(base(), str(os.getpid()))
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)
        self.buffer = ctx.choice('buffer', [8192, 64, 700])
        self.n = 0              # mutating operations so far
        self.epoch = 0
        self.dead = False
        self.fds = {}
        self.armed = None
        self.fired = False
        self.short = False
        self.log = list()
        self.between = None     # called before disk operations; lets another simulated process run in between
        self._busy = False

    def _others(self, op):
        if self.between is not None and not self._busy and not self.dead:
            self._busy = True
            try:
                self.between(op)
            finally:
                self._busy = False

    # ------------------------------------------------------------------ faults
    def arm(self, kind, at, frac=0, after=False, sticky=False):
        """Fault at the at-th mutating operation from now."""
        self.armed = dict(kind=kind, at=self.n + at, frac=frac, after=after, sticky=sticky)
        self.fired = False

    def disarm(self):
        self.armed = None

    def reboot(self):
        self.dead = False
        self.epoch += 1
        self.armed = None

    def _due(self, op):
        if self.dead:
            raise SimCrash()
        self._others(op)
        self.n += 1
        self.log.append(op)
        self.ctx.sim_steps += 1
        a = self.armed
        if a is not None and (self.n == a['at'] or (a['sticky'] and self.fired and self.n > a['at'])):
            if a['kind'] == 'enospc' and op in ('unlink', 'rmdir', 'truncate', 'fsync'):
                return None
            return a
        return None

    def _fire(self, a, op):
        if not self.fired:
            self.ctx.fault(f"disk-{a['kind']}@{op}")
        self.fired = True

    def _raise(self, a):
        k = a['kind']
        if k == 'crash':
            self.dead = True
            raise SimCrash()
        if k == 'enospc':
            raise OSError(errno.ENOSPC, 'No space left on device')
        if k == 'eio':
            raise OSError(errno.EIO, 'Input/output error')
        raise SimInterrupt()

    def guard(self, op, do):
        a = self._due(op)
        if a is None:
            return do()
        self._fire(a, op)
        if a['after'] and a['kind'] in ('crash', 'interrupt'):
            do()
        self._raise(a)

    def write(self, fd, data):
        a = self._due('write')
        if a is None:
            if self.short and len(data) > 1:
                n = 1 + self.ctx.pick('short', len(data))
                n = len(data) if n == 1 else n - 1
                if n < len(data):
                    self.ctx.fault('disk-short-write')
                data = data[:n]
            return self._all(fd, data)
        self._fire(a, 'write')
        part = data[:len(data) * a['frac'] // 4]
        if part and a['kind'] != 'interrupt':
            self._all(fd, part)
        self._raise(a)

    @staticmethod
    def _all(fd, data):
        n = 0
        while n < len(data):
            n += _real['write'](fd, data[n:])
        return len(data)

    # ------------------------------------------------------------------ replacements
    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        writing = any(c in mode for c in 'wax+')
        mine = (isinstance(file, int) and file in self.fds) or (not isinstance(file, int) and self.inside(file))
        if not (writing and mine):
            if mine and self.dead:
                raise SimCrash()
            if mine:
                self._others('read')
            return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if isinstance(file, int):
            fd = file
        else:
            flags = os.O_RDWR | os.O_CLOEXEC
            if 'w' in mode:
                flags |= os.O_CREAT | os.O_TRUNC
            elif 'x' in mode:
                flags |= os.O_CREAT | os.O_EXCL
            elif 'a' in mode:
                flags |= os.O_CREAT | os.O_APPEND
            if opener is not None:
                fd = opener(file, flags)
            else:
                box = list()
                self.guard('open-' + ('new' if not os.path.exists(file) else 'trunc' if 'w' in mode else 'append'),
                           lambda: box.append(_real['open'](file, flags, 0o666)))
                fd = box[0]
        self.fds[fd] = True
        raw = SimRaw(self, fd, file)
        if 'a' in mode:
            raw.seek(0, 2)
        if buffering == 0:
            return raw
        buf = io.BufferedRandom(raw, self.buffer)
        if 'b' in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, line_buffering=buffering == 1)

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        if dir_fd is not None or not self.inside(path):
            return _real['open'](path, flags, mode, dir_fd=dir_fd)
        if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            flags = (flags & ~os.O_WRONLY) | os.O_RDWR
            box = list()
            self.guard('open-fd', lambda: box.append(_real['open'](path, flags, mode)))
            self.fds[box[0]] = True
            return box[0]
        return _real['open'](path, flags, mode)

    def os_write(self, fd, data):
        if fd in self.fds:
            return self.write(fd, bytes(data))
        return _real['write'](fd, data)

    def _path_op(self, name, n_paths):
        real = _real[name]
        op = 'unlink' if name == 'remove' else 'replace' if name == 'rename' else name

        def f(*a, **k):
            if not any(self.inside(p) for p in a[:n_paths]):
                return real(*a, **k)
            if name == 'mkdir' and os.path.isdir(a[0]) and not self.dead:
                return real(*a, **k)            # fails with EEXIST, changes nothing
            box = list()
            self.guard(op, lambda: box.append(real(*a, **k)))
            return box[0]
        return f

    def os_fsync(self, fd):
        if (fd if isinstance(fd, int) else fd.fileno()) in self.fds:
            return self.guard('fsync', lambda: None)
        return _real['fsync'](fd)

    def os_listdir(self, path='.'):
        names = _real['listdir'](path)
        if self.inside(path):
            names = sorted(names)
            r = self.ctx.sub('dir-order')
            r.shuffle(names)
        return names

    def os_scandir(self, path='.'):
        if not self.inside(path):
            return _real['scandir'](path)
        with _real['scandir'](path) as it:
            ents = sorted(it, key=lambda e: e.name)
        self.ctx.sub('dir-order').shuffle(ents)
        return _Scan(ents)

    @contextlib.contextmanager
    def installed(self):
        from . import world
        pairs = [(builtins, 'open', self.open), (io, 'open', self.open), (os, 'open', self.os_open),
                 (os, 'write', self.os_write), (os, 'fsync', self.os_fsync), (os, 'listdir', self.os_listdir),
                 (os, 'scandir', self.os_scandir)]
        for name, n in (('replace', 2), ('rename', 2), ('link', 2), ('symlink', 2), ('unlink', 1), ('remove', 1),
                        ('rmdir', 1), ('mkdir', 1), ('truncate', 1)):
            pairs.append((os, name, self._path_op(name, n)))
        try:
            with world.patched(pairs):
                yield self
        finally:
            self.epoch += 1
            shutil.rmtree(self.root, ignore_errors=True)

    # ------------------------------------------------------------------ inspection
    def files(self):
        out = {}
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                with _open(p, 'rb') as h:
                    out[os.path.relpath(p, self.root)] = h.read()
        return out


class _Scan(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def plan_fault(ctx, disk, max_op, kinds=SimDisk.KINDS):
    """Arms at most one fault; position, torn size and side (before/after the effect) come from the run's choices."""
    disk.short = ctx.flip('short-writes', 0.15)
    if not ctx.flip('inject', 0.75):
        return None
    kind = kinds[ctx.pick('kind', len(kinds))]
    max_op = max(1, max_op)
    at = ctx.int('at', 1, max_op) if not ctx.flip('near-end', 0.2) else max(1, max_op - ctx.pick('from-end', 4))
    disk.arm(kind, at, frac=ctx.pick('torn', 5), after=ctx.flip('after', 0.5), sticky=ctx.flip('sticky', 0.5))
    return kind
