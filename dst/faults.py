"""Fault injection: failing calls and a faulty, crash-able file system.

The file layer wraps builtins.open / io.open (write modes) and the mutating
functions of os for paths below one root directory.  Every mutation is one
numbered event.  A plan names the event at which something happens:

  crash   the process dies there (optionally after a torn write); nothing
          that it does afterwards reaches the disk
  power   as crash, and file data that was never fsync'ed may be lost, too
  worker  as crash, but only the simulated worker process that wrote dies
  enospc  the disk is full there (a part of the write may have succeeded)
  eio     the operation fails with EIO
"""
import builtins
import errno
import io
import os
import random


class SimCrash(BaseException):
    """The simulated process died."""


class InjectedFault(RuntimeError):
    """A failing call."""


FS = None           # the active FaultyFS, or None
_real_open = io.open
_os = {k: getattr(os, k) for k in ('replace', 'rename', 'remove', 'unlink',
                                   'fsync', 'link', 'symlink', 'truncate',
                                   'rmdir', 'open', 'ftruncate')}


def _current():
    import sim
    s, t = sim._task()
    return None if t is None else t.id


class FaultyFS:
    def __init__(self, root, at=None, kind=None, seed=0, sticky=False):
        self.root = os.path.realpath(root)
        self.at = at            # event number, or None: only count
        self.kind = kind
        self.rng = random.Random(seed)
        self.sticky = sticky
        self.n = 0
        self.log = []
        self.dead = False
        self.fired = None
        self.bad = False        # a sticky fault is in effect
        self.synced = {}        # real path -> length known to be on disk
        self.touched = {}       # real path -> True when un-synced data exist
        self.watch = None       # called before each event
        self.dead_tasks = set() # simulated processes that died on their own

    # ---- context
    def __enter__(self):
        global FS
        assert FS is None
        FS = self
        return self

    def __exit__(self, *a):
        global FS
        FS = None
        return False

    def covers(self, path):
        try:
            if isinstance(path, int):
                path = os.readlink('/proc/self/fd/%d' % path)
            p = os.path.abspath(os.fspath(path))
            if isinstance(p, bytes):
                p = p.decode()
        except (TypeError, OSError, ValueError):
            return False
        d = os.path.join(os.path.realpath(os.path.dirname(p)),
                         os.path.basename(p))
        return d.startswith(self.root + os.sep)

    def gone(self):
        """The process that asks has died."""
        if self.dead:
            return True
        import sim
        s, t = sim._task()
        return t is not None and (t.killed or t.id in self.dead_tasks)

    # ---- one mutation
    def event(self, what, path, size=0):
        """Returns None (go on) or the number of bytes to write before dying."""
        if self.gone():
            raise SimCrash('dead')
        if self.watch is not None:
            self.watch(self.n)
        self.n += 1
        self.log.append((what, os.path.basename(str(path)), size))
        if self.bad and what in ('write', 'create', 'replace', 'fsync'):
            raise OSError(self.bad, os.strerror(self.bad))
        if self.at is None or self.n != self.at:
            return None
        self.fired = (self.kind, what)
        if self.kind in ('crash', 'power', 'worker'):
            return self.rng.randrange(size + 1) if size else 0
        e = {'enospc': errno.ENOSPC, 'eio': errno.EIO}[self.kind]
        if self.sticky:
            self.bad = e
        if what == 'write' and self.kind == 'enospc' and size > 1:
            return -self.rng.randrange(size)    # partial, then ENOSPC
        raise OSError(e, os.strerror(e))

    def die(self):
        if self.kind == 'worker':       # only the process that was writing
            self.dead_tasks.add(_current())
        else:
            self.dead = True
        raise SimCrash(self.fired)

    def power_loss(self):
        """What the disk holds after power came back."""
        for p in sorted(self.touched):
            if os.path.isfile(p):
                keep = self.synced.get(p, 0)
                size = os.path.getsize(p)
                if size > keep:
                    k = self.rng.choice([keep, self.rng.randrange(keep, size + 1)])
                    _os['truncate'](p, k)


class FaultyRaw(io.RawIOBase):
    """Unbuffered file whose writes are events."""

    def __init__(self, fs, file, mode, **kw):
        self._fs = fs
        self._f = io.FileIO(file, mode, **kw)
        self.name = file
        self._p = os.path.realpath(file) if not isinstance(file, int) else \
            os.readlink('/proc/self/fd/%d' % file)
        m = mode.replace('b', '').replace('t', '')
        self.mode = {'w': 'wb', 'r': 'rb', 'a': 'ab', 'x': 'xb', 'w+': 'wb+',
                     'r+': 'rb+', 'a+': 'ab+', 'x+': 'xb+'}.get(m, mode)
        if 'w' in m:
            fs.synced[self._p] = 0
            fs.touched[self._p] = True

    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return self._f.seekable()

    def readinto(self, b):
        return self._f.readinto(b)

    def seek(self, *a):
        return self._f.seek(*a)

    def tell(self):
        return self._f.tell()

    def truncate(self, size=None):
        if self._fs.gone():
            return size
        return self._f.truncate(size)

    def fileno(self):
        return self._f.fileno()

    def isatty(self):
        return False

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                self._f.close()

    def write(self, b):
        b = bytes(b)
        fs = self._fs
        if fs.gone():
            return len(b)           # never reaches the disk
        k = fs.event('write', self._p, len(b))
        fs.touched[self._p] = True
        if k is None:
            return self._f.write(b)
        if fs.kind in ('crash', 'power', 'worker'):
            if k:
                self._f.write(b[:k])
            fs.die()
        if k < 0:
            self._f.write(b[:-k])
        raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))


class Delegate:
    """A file object that is not an instance of the io classes, so that no
    library bypasses write() by using the file descriptor."""

    def __init__(self, f):
        self.__dict__['_f'] = f

    def __getattr__(self, k):
        return getattr(self._f, k)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self._f)

    def close(self):
        self._f.close()


def _open(file, mode='r', buffering=-1, encoding=None, errors=None,
          newline=None, closefd=True, opener=None):
    fs = FS
    writing = any(c in mode for c in 'wax+')
    if fs is None or not writing or not fs.covers(file):
        return _real_open(file, mode, buffering, encoding, errors, newline,
                          closefd, opener)
    if fs.gone():
        raise SimCrash('dead')
    if 'w' in mode or 'x' in mode:
        k = fs.event('create', file if not isinstance(file, int) else 'fd')
        if k is not None:
            # the file was created (truncated) and then the process died
            if fs.rng.random() < 0.7:
                _real_open(file, mode, closefd=closefd, opener=opener).close()
            fs.die()
    raw = FaultyRaw(fs, file, mode.replace('t', ''), closefd=closefd,
                    opener=opener)
    if 'b' in mode:
        if buffering == 0:
            return raw
        n = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        return Delegate(io.BufferedRandom(raw, n) if '+' in mode
                        else io.BufferedWriter(raw, n))
    return Delegate(io.TextIOWrapper(
        io.BufferedRandom(raw) if '+' in mode else io.BufferedWriter(raw),
        encoding, errors, newline))


def _mut(name, pathargs, dst):
    orig = _os[name]

    def f(*a, **k):
        fs = FS
        if fs is None or not any(fs.covers(a[i]) for i in pathargs if i < len(a)):
            return orig(*a, **k)
        if fs.gone():
            raise SimCrash('dead')
        kind = 'replace' if dst else 'remove'
        hit = fs.event(kind, a[-1] if dst else a[0])
        if hit is not None:
            if fs.rng.random() < 0.5:       # it happened just before
                orig(*a, **k)
                _moved(fs, a, dst)
            fs.die()
        r = orig(*a, **k)
        _moved(fs, a, dst)
        return r
    f.__name__ = name
    return f


def _moved(fs, a, dst):
    if dst:
        s, d = os.path.abspath(a[0]), os.path.realpath(a[1])
        s = os.path.join(os.path.realpath(os.path.dirname(s)), os.path.basename(s))
        if s in fs.touched:
            fs.touched[d] = fs.touched.pop(s)
            fs.synced[d] = fs.synced.pop(s, 0)


def _fsync(fd):
    fs = FS
    if fs is not None:
        if fs.gone():
            raise SimCrash('dead')
        n = fd if isinstance(fd, int) else fd.fileno()
        try:
            p = os.readlink('/proc/self/fd/%d' % n)
            size = os.fstat(n).st_size
        except OSError:
            p = None
        if p is not None and fs.covers(p):
            if fs.event('fsync', p) is not None:
                fs.die()
            fs.synced[p] = size
            return None             # nothing to be gained from a real one
    return _os['fsync'](fd)


class _IoShim:
    def __init__(self, mod):
        self.__dict__['_m'] = mod

    def __getattr__(self, k):
        if k == 'open':
            return _open
        return getattr(self._m, k)


def install():
    """Patch the file API (no effect until a FaultyFS is active)."""
    import shutil
    import tempfile
    builtins.open = _open
    io.open = _open
    for n in ('replace', 'rename'):
        setattr(os, n, _mut(n, (0, 1), True))
    for n in ('remove', 'unlink'):
        setattr(os, n, _mut(n, (0,), False))
    os.fsync = _fsync
    tempfile._io = _IoShim(tempfile._io)
    shutil._USE_CP_SENDFILE = False
    if hasattr(shutil, '_HAS_FCOPYFILE'):
        shutil._HAS_FCOPYFILE = False


# --------------------------------------------------------------------------
class Calls:
    """Counts the calls of some functions; makes the k-th of them fail.

    targets: [(object, attribute name)].  With at=None only counts.
    """

    def __init__(self, targets, at=None, exc=None, after=False):
        self.targets = targets
        self.at = at
        self.exc = exc or InjectedFault('injected')
        self.after = after
        self.n = 0
        self.fired = None
        self.log = []

    def __enter__(self):
        self.saved = []
        for obj, name in self.targets:
            orig = getattr(obj, name)
            self.saved.append((obj, name, orig))
            setattr(obj, name, self._wrap(orig, name))
        return self

    def __exit__(self, *a):
        for obj, name, orig in reversed(self.saved):
            setattr(obj, name, orig)
        return False

    def _wrap(self, orig, name):
        def stand_in(*a, **k):
            self.n += 1
            self.log.append(name)
            hit = self.at is not None and self.n == self.at
            if hit and not self.after:
                self.fired = name
                raise self.exc
            r = orig(*a, **k)
            if hit:
                self.fired = name
                raise self.exc
            return r
        return stand_in


def pick(frac, n):
    """Event number in 1..n from a fraction in [0, 1)."""
    return 1 + min(n - 1, int(frac*n)) if n else 0
