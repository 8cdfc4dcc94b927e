"""A simulated file system, behind the Python level system-call surface.

Everything under /sim/ (and every relative path, while a simulation is running) lives in
memory.  The seam is the lowest one Python offers without touching the code under test:
builtins.open / io.open and the functions of the os module.  File objects are the real
io.BufferedReader / BufferedWriter / BufferedRandom / TextIOWrapper over a simulated raw
file, so user-space buffering, and its loss in a crash, are those of the real library.

Every simulated system call is an *event*: it is counted, logged, advances the virtual
clock, gives the scheduler the opportunity to switch to another simulated process, and can
have a fault injected.
"""
import builtins
import errno
import io
import _io
import os
import posixpath
import stat as statmod
import sys
import tempfile
import time
import random as _random
import hashlib

PAGE = 4096
_real = {}


class SimCrash(BaseException):
    """The simulated process ceases to exist here."""


class SimBudget(BaseException):
    """The simulated process has exhausted its budget of steps (taken to be a hang)."""


class Inode:
    __slots__ = ('kind', 'data', 'durable', 'perm', 'mtime', 'ino', 'target', 'nlink')

    def __init__(self, kind, ino, perm, mtime):
        self.kind = kind          # 'f' or 'd'
        self.data = bytearray() if kind == 'f' else None
        self.durable = None       # bytes known to be on stable storage, None if never synced
        self.perm = perm
        self.mtime = mtime
        self.ino = ino


FAULT_ERRNO = dict(eio=errno.EIO, enospc=errno.ENOSPC, eacces=errno.EACCES, erofs=errno.EROFS,
                   enoent=errno.ENOENT, eintr=errno.EIO, emfile=errno.EMFILE, estale=errno.ESTALE,
                   edquot=errno.EDQUOT, eperm=errno.EPERM)


class FS:
    def __init__(self, world):
        self.world = world
        self.nodes = {}
        self.next_ino = 1
        self.clock = 1_000_000.0
        self.fds = {}
        self.next_fd = 1_000_000
        self.open_files = set()
        self.unclosed = []        # files which were closed only because they were garbage
        self.umask = 0o022
        self._mk('/sim', 'd')
        self.cwd = '/sim/work'
        self._mk(self.cwd, 'd')
        self.mutations = []       # (proc, what, path): changes of the stored state by simulated processes

    # ---- harness-level access: no events, no faults ------------------------------------
    def _mk(self, path, kind, perm=None):
        n = Inode(kind, self.next_ino, perm if perm is not None else (0o755 if kind == 'd' else 0o644), self.clock)
        self.next_ino += 1
        self.nodes[path] = n
        return n

    def mkdirs(self, path):
        parts = path.split('/')
        for i in range(2, len(parts) + 1):
            p = '/'.join(parts[:i])
            if p not in self.nodes:
                self._mk(p, 'd')

    def put(self, path, data, durable=True):
        self.mkdirs(posixpath.dirname(path))
        n = self._mk(path, 'f')
        n.data = bytearray(data)
        if durable:
            n.durable = bytes(data)
        return n

    def get(self, path):
        n = self.nodes.get(path)
        return None if n is None or n.kind != 'f' else bytes(n.data)

    def exists(self, path):
        return path in self.nodes

    def remove(self, path):
        for p in [p for p in self.nodes if p == path or p.startswith(path + '/')]:
            del self.nodes[p]

    def move(self, a, b):
        moved = {p: n for p, n in self.nodes.items() if p == a or p.startswith(a + '/')}
        self.remove(b)
        for p in moved:
            del self.nodes[p]
        self.mkdirs(posixpath.dirname(b))
        for p, n in moved.items():
            self.nodes[b + p[len(a):]] = n

    def listing(self, prefix='/sim'):
        return sorted(p for p in self.nodes if p == prefix or p.startswith(prefix + '/'))

    def snapshot(self):
        """Path to (kind, content digest) of everything."""
        return {p: (n.kind, None if n.kind == 'd' else bytes(n.data), n.ino) for p, n in self.nodes.items()}

    def power_loss(self, rng):
        """Everything not synced meets one of the fates which file systems allow."""
        fates = []
        for p, n in sorted(self.nodes.items()):
            if n.kind != 'f' or (n.durable is not None and n.durable == bytes(n.data)):
                continue
            full = bytes(n.data)
            old = n.durable
            fate = rng.choice(['lost', 'empty', 'prefix', 'pages', 'zeros', 'full', 'prefix', 'pages'])
            if fate == 'lost':
                if old is None:
                    del self.nodes[p]
                else:
                    n.data = bytearray(old)
            elif fate == 'empty':
                n.data = bytearray()
            elif fate == 'prefix':
                n.data = bytearray(full[:rng.randrange(len(full) + 1)])
            elif fate == 'zeros':
                n.data = bytearray(len(full))
            elif fate == 'pages':
                for i in range(0, len(full), PAGE):
                    if rng.random() < 0.5:
                        n.data[i:i + PAGE] = bytes(len(full[i:i + PAGE]))
            fates.append(fate)
            n.durable = bytes(n.data)
        return fates

    # ---- path handling --------------------------------------------------------------------
    def resolve(self, path):
        """The absolute simulated path for a path, or None if the path is outside."""
        if isinstance(path, int):
            return None
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not path:
            return None
        if path.startswith('/'):
            if path == '/sim' or path.startswith('/sim/'):
                return posixpath.normpath(path)
            return None
        return posixpath.normpath(posixpath.join(self.cwd, path))

    def err(self, e, path):
        return OSError(e, os.strerror(e), path)

    def event(self, kind, path, size=0):
        self.world.event(kind, path, size)

    def parent_check(self, path, write=False):
        parent = posixpath.dirname(path)
        # every ancestor must be a directory
        p = parent
        while p not in ('/', ''):
            n = self.nodes.get(p)
            if n is None:
                raise self.err(errno.ENOENT, path)
            if n.kind != 'd':
                raise self.err(errno.ENOTDIR, path)
            if not n.perm & 0o100:
                raise self.err(errno.EACCES, path)
            p = posixpath.dirname(p)
        if write and (parent not in self.nodes or not self.nodes[parent].perm & 0o200):
            raise self.err(errno.EACCES, path)

    def lookup(self, path):
        self.parent_check(path)
        n = self.nodes.get(path)
        if n is None:
            raise self.err(errno.ENOENT, path)
        return n

    def mutated(self, what, path):
        self.mutations.append((self.world.current_pid(), what, path))

    # ---- system calls ---------------------------------------------------------------------
    def sys_open(self, path, flags, perm=0o666):
        self.event('open', path)
        self.parent_check(path)
        n = self.nodes.get(path)
        acc = flags & os.O_ACCMODE
        if n is None:
            if not flags & os.O_CREAT:
                raise self.err(errno.ENOENT, path)
            self.parent_check(path, write=True)
            n = self._mk(path, 'f', perm & ~self.umask)
            self.mutated('create', path)
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise self.err(errno.EEXIST, path)
            if n.kind == 'd':
                if acc != os.O_RDONLY:
                    raise self.err(errno.EISDIR, path)
            if acc in (os.O_RDONLY, os.O_RDWR) and not n.perm & 0o400:
                raise self.err(errno.EACCES, path)
            if acc in (os.O_WRONLY, os.O_RDWR) and not n.perm & 0o200:
                raise self.err(errno.EACCES, path)
            if flags & os.O_TRUNC and n.kind == 'f' and acc != os.O_RDONLY:
                if n.data:
                    self.mutated('truncate', path)
                n.data = bytearray()      # new storage: readers of the old content see the truncation
                n.mtime = self.clock
        return n

    def sys_stat(self, path, follow=True):
        self.event('stat', path)
        n = self.lookup(path)
        return self.stat_of(n)

    def stat_of(self, n):
        mode = (statmod.S_IFDIR if n.kind == 'd' else statmod.S_IFREG) | n.perm
        size = 0 if n.kind == 'd' else len(n.data)
        t = int(n.mtime)
        return os.stat_result((mode, n.ino, 99, 1, 0, 0, size, t, t, t, float(n.mtime), float(n.mtime), float(n.mtime),
                               int(n.mtime * 1e9), int(n.mtime * 1e9), int(n.mtime * 1e9)))

    def sys_mkdir(self, path, mode=0o777):
        self.event('mkdir', path)
        self.parent_check(path, write=True)
        if path in self.nodes:
            raise self.err(errno.EEXIST, path)
        self._mk(path, 'd', mode & ~self.umask)
        self.mutated('mkdir', path)

    def sys_unlink(self, path):
        self.event('unlink', path)
        n = self.lookup(path)
        self.parent_check(path, write=True)
        if n.kind == 'd':
            raise self.err(errno.EISDIR, path)
        del self.nodes[path]
        self.mutated('unlink', path)

    def sys_rmdir(self, path):
        self.event('unlink', path)
        n = self.lookup(path)
        self.parent_check(path, write=True)
        if n.kind != 'd':
            raise self.err(errno.ENOTDIR, path)
        if any(p.startswith(path + '/') for p in self.nodes):
            raise self.err(errno.ENOTEMPTY, path)
        del self.nodes[path]
        self.mutated('rmdir', path)

    def sys_rename(self, a, b):
        self.event('rename', b)
        n = self.lookup(a)
        self.parent_check(a, write=True)
        self.parent_check(b, write=True)
        t = self.nodes.get(b)
        if t is not None:
            if t.kind == 'd' and n.kind == 'f':
                raise self.err(errno.EISDIR, b)
            if n.kind == 'd' and t.kind == 'f':
                raise self.err(errno.ENOTDIR, b)
        if a == b:
            return
        moved = {p: x for p, x in self.nodes.items() if p == a or p.startswith(a + '/')}
        for p in moved:
            del self.nodes[p]
        for p, x in moved.items():
            self.nodes[b + p[len(a):]] = x
        self.mutated('rename-from', a)
        self.mutated('rename-to', b)

    def sys_listdir(self, path):
        self.event('listdir', path)
        n = self.lookup(path)
        if n.kind != 'd':
            raise self.err(errno.ENOTDIR, path)
        if not n.perm & 0o400:
            raise self.err(errno.EACCES, path)
        return sorted(p[len(path) + 1:] for p in self.nodes if posixpath.dirname(p) == path and p != path)

    def sys_chmod(self, path, mode):
        self.event('chmod', path)
        n = self.lookup(path)
        n.perm = mode & 0o7777
        self.mutated('chmod', path)

    def sys_utime(self, path):
        self.event('utime', path)
        self.lookup(path).mtime = self.clock
        self.mutated('utime', path)

    def sys_truncate(self, path, n):
        self.event('truncate', path)
        node = self.lookup(path)
        _resize(node, n)
        self.mutated('truncate', path)

    def sys_access(self, path, mode):
        self.event('stat', path)
        try:
            n = self.lookup(path)
        except OSError:
            return False
        if mode & os.R_OK and not n.perm & 0o400:
            return False
        if mode & os.W_OK and not n.perm & 0o200:
            return False
        return True


def _resize(node, n):
    if n < len(node.data):
        del node.data[n:]
    else:
        node.data.extend(bytes(n - len(node.data)))


def _flags_of_mode(mode):
    m = mode.replace('b', '').replace('t', '').replace('U', '')
    plus = '+' in m
    m = m.replace('+', '')
    if m == 'r':
        return (os.O_RDWR if plus else os.O_RDONLY)
    if m == 'w':
        return (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_TRUNC
    if m == 'a':
        return (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_APPEND
    if m == 'x':
        return (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_EXCL
    raise ValueError('invalid mode: %r' % mode)


class OpenFile:
    """An open file description."""

    def __init__(self, fs, node, path, flags):
        self.fs, self.node, self.path, self.flags = fs, node, path, flags
        self.pos = 0
        self.append = bool(flags & os.O_APPEND)
        acc = flags & os.O_ACCMODE
        self.readable = acc in (os.O_RDONLY, os.O_RDWR)
        self.writable = acc in (os.O_WRONLY, os.O_RDWR)
        self.owner = fs.world.cur
        self.harness = fs.world.in_harness()     # opened by the user's code, not by the library

    def dead(self):
        return self.owner is not None and self.owner.dead

    def read(self, n, limit=None):
        fs = self.fs
        n = fs.world.transfer('read', self.path, n, limit)
        data = bytes(self.node.data[self.pos:self.pos + n])
        self.pos += len(data)
        return data

    def write(self, data, limit=None):
        fs = self.fs
        if self.dead():
            return len(data)      # whatever a dead process still flushes while unwinding never happens
        n = fs.world.transfer('write', self.path, len(data), limit)
        data = bytes(data[:n])
        if self.append:
            self.pos = len(self.node.data)
        if self.pos > len(self.node.data):
            self.node.data.extend(bytes(self.pos - len(self.node.data)))
        self.node.data[self.pos:self.pos + n] = data
        self.pos += n
        self.node.mtime = fs.clock
        fs.mutated('write', self.path)
        fs.world.stored(self.path, self.node)
        return n


class SimRaw(io.RawIOBase):
    """The simulated counterpart of io.FileIO."""

    def __init__(self, of, name, mode, fd=None, limits=None):
        self._of = of
        self._name = name
        self._mode = mode
        self._fd = fd
        self._limits = limits     # function: (kind, n) -> most bytes to transfer in this call
        of.fs.open_files.add(self)

    @property
    def name(self):
        return self._name

    @property
    def mode(self):
        return self._mode

    def _check(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def readable(self):
        self._check()
        return self._of.readable

    def writable(self):
        self._check()
        return self._of.writable

    def seekable(self):
        self._check()
        return True

    def readinto(self, b):
        self._check()
        if not self._of.readable:
            raise io.UnsupportedOperation('File not open for reading')
        with memoryview(b).cast('B') as m:
            data = self._of.read(len(m), self._limits)
            m[:len(data)] = data
            return len(data)

    def write(self, b):
        self._check()
        if not self._of.writable:
            raise io.UnsupportedOperation('File not open for writing')
        with memoryview(b).cast('B') as m:
            return self._of.write(m, self._limits)

    def seek(self, pos, whence=0):
        self._check()
        of = self._of
        of.fs.event('seek', of.path)
        if whence == 0:
            new = pos
        elif whence == 1:
            new = of.pos + pos
        else:
            new = len(of.node.data) + pos
        if new < 0:
            raise OSError(errno.EINVAL, 'Invalid argument')
        of.pos = new
        return new

    def tell(self):
        self._check()
        self._of.fs.event('tell', self._of.path)
        return self._of.pos

    def truncate(self, size=None):
        self._check()
        of = self._of
        of.fs.event('truncate', of.path)
        size = of.pos if size is None else size
        _resize(of.node, size)
        of.fs.mutated('truncate', of.path)
        return size

    def fileno(self):
        self._check()
        if self._fd is None:
            fs = self._of.fs
            self._fd = fs.next_fd
            fs.next_fd += 1
            fs.fds[self._fd] = self._of
        return self._fd

    def isatty(self):
        return False

    def close(self):
        if not self.closed:
            fs = self._of.fs
            fs.open_files.discard(self)
            super().close()
            if self._fd is not None:
                fs.fds.pop(self._fd, None)
            if not self._of.dead():
                fs.event('close', self._of.path)

    def _dealloc_warn(self, source):
        if not self._of.harness:
            self._of.fs.unclosed.append(self._of.path)


def open_handle(fs, path, mode='rb', buffering=-1, name=None, limits=None, raw_mode=None):
    """Open a simulated file, optionally with a peculiar name, or short transfers."""
    flags = _flags_of_mode(mode)
    node = fs.sys_open(path, flags)
    if node.kind == 'd':
        raise fs.err(errno.EISDIR, path)
    return _wrap(OpenFile(fs, node, path, flags), path if name is None else name, mode, buffering, limits=limits, raw_mode=raw_mode)


def _raw_mode(mode):
    m = mode.replace('t', '').replace('b', '').replace('U', '')
    plus = '+' in m
    m = m.replace('+', '')
    if m == 'w':
        return 'rb+' if plus else 'wb'
    if m == 'r':
        return 'rb+' if plus else 'rb'
    return m + ('b+' if plus else 'b')


def _wrap(of, name, mode, buffering=-1, encoding=None, errors=None, newline=None, fd=None, limits=None, raw_mode=None):
    raw = SimRaw(of, name, raw_mode or _raw_mode(mode), fd, limits)
    if of.append:
        of.pos = len(of.node.data)
    binary = 'b' in mode
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
    if of.readable and of.writable:
        buf = io.BufferedRandom(raw, size)
    elif of.writable:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, buffering == 1)
    text.mode = mode
    return text


class _DirEntry:
    def __init__(self, fs, dirpath, name):
        self._fs, self.name, self.path = fs, name, posixpath.join(dirpath, name)

    def stat(self, follow_symlinks=True):
        return self._fs.sys_stat(self._fs.resolve(self.path))

    def is_dir(self, follow_symlinks=True):
        return statmod.S_ISDIR(self.stat().st_mode)

    def is_file(self, follow_symlinks=True):
        return statmod.S_ISREG(self.stat().st_mode)

    def is_symlink(self):
        return False

    def inode(self):
        return self.stat().st_ino

    def __fspath__(self):
        return self.path


class _ScanDir:
    def __init__(self, items):
        self._it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def install(fs):
    """Route file system, clock, process identity and entropy through the simulation."""
    world = fs.world
    rng = _random.Random(world.seed ^ 0x5EED)

    def patch(mod, name, fn):
        key = (mod, name)
        if key not in _real:
            _real[key] = getattr(mod, name)
        setattr(mod, name, fn)

    real_open = _real.get((builtins, 'open'), builtins.open)

    def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int) and not isinstance(file, bool):
            if file in fs.fds:
                of = fs.fds[file]
                return _wrap(of, file, mode, buffering, encoding, errors, newline, fd=file)
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if not isinstance(mode, str):
            raise TypeError("open() argument 'mode' must be str, not {}".format(type(mode).__name__))
        p = fs.resolve(file)
        if p is None:
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        flags = _flags_of_mode(mode)
        if opener is not None:
            fd = opener(file, flags)
            return _wrap(fs.fds[fd], file, mode, buffering, encoding, errors, newline, fd=fd)
        node = fs.sys_open(p, flags)
        if node.kind == 'd':
            raise fs.err(errno.EISDIR, p)
        return _wrap(OpenFile(fs, node, p, flags), file, mode, buffering, encoding, errors, newline)

    for mod in (builtins, io, _io):
        patch(mod, 'open', sim_open)

    def over_path(name, fn, nargs=1):
        real = _real.get((os, name), getattr(os, name))

        def wrapper(path, *args, **kw):
            if kw.get('dir_fd') is None:
                p = fs.resolve(path) if not isinstance(path, int) else None
                if p is not None:
                    kw.pop('dir_fd', None)
                    return fn(p, *args, **kw)
                if isinstance(path, int) and path in fs.fds and name in ('stat', 'truncate', 'listdir', 'utime', 'chmod'):
                    if name == 'stat':
                        return fs.stat_of(fs.fds[path].node)
                    if name == 'truncate':
                        return _resize(fs.fds[path].node, *args)
                    return None
            return real(path, *args, **kw)
        wrapper.__name__ = name
        patch(os, name, wrapper)

    def over_two(name, fn):
        real = _real.get((os, name), getattr(os, name))

        def wrapper(a, b, **kw):
            pa, pb = fs.resolve(a), fs.resolve(b)
            if pa is not None and pb is not None:
                return fn(pa, pb)
            return real(a, b, **kw)
        wrapper.__name__ = name
        patch(os, name, wrapper)

    over_path('stat', lambda p, follow_symlinks=True: fs.sys_stat(p))
    over_path('lstat', lambda p: fs.sys_stat(p))

    def readlink(p):
        fs.event('stat', p)
        fs.lookup(p)
        raise fs.err(errno.EINVAL, p)
    over_path('readlink', readlink)
    over_path('mkdir', lambda p, mode=0o777: fs.sys_mkdir(p, mode))
    over_path('unlink', fs.sys_unlink)
    over_path('remove', fs.sys_unlink)
    over_path('rmdir', fs.sys_rmdir)
    over_path('chmod', lambda p, mode, follow_symlinks=True: fs.sys_chmod(p, mode))
    over_path('utime', lambda p, *a, **k: fs.sys_utime(p))
    over_path('truncate', fs.sys_truncate)
    over_path('access', lambda p, mode, **k: fs.sys_access(p, mode))
    over_two('rename', fs.sys_rename)
    over_two('replace', fs.sys_rename)

    def link(a, b):
        fs.event('link', b)
        n = fs.lookup(a)
        fs.parent_check(b, write=True)
        if b in fs.nodes:
            raise fs.err(errno.EEXIST, b)
        fs.nodes[b] = n
        fs.mutated('create', b)
    over_two('link', link)

    real_listdir = _real.get((os, 'listdir'), os.listdir)
    patch(os, 'listdir', lambda path='.': (fs.sys_listdir(fs.resolve(path)) if fs.resolve(path) is not None
                                            else real_listdir(path)))
    real_scandir = _real.get((os, 'scandir'), os.scandir)

    def scandir(path='.'):
        p = fs.resolve(path)
        if p is None:
            return real_scandir(path)
        return _ScanDir([_DirEntry(fs, os.fspath(path), n) for n in fs.sys_listdir(p)])
    patch(os, 'scandir', scandir)

    patch(os, 'getcwd', lambda: fs.cwd)

    def chdir(path):
        p = fs.resolve(path)
        if p is None:
            raise OSError(errno.ENOENT, 'outside the simulation', path)
        fs.lookup(p)
        fs.cwd = p
    patch(os, 'chdir', chdir)

    # descriptors
    real_os_open = _real.get((os, 'open'), os.open)

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        p = fs.resolve(path)
        if p is None or dir_fd is not None:
            return real_os_open(path, flags, mode, dir_fd=dir_fd)
        node = fs.sys_open(p, flags, mode)
        fd = fs.next_fd
        fs.next_fd += 1
        fs.fds[fd] = OpenFile(fs, node, p, flags)
        return fd
    patch(os, 'open', os_open)

    def over_fd(name, fn):
        real = _real.get((os, name), getattr(os, name))

        def wrapper(fd, *args, **kw):
            if hasattr(fd, 'fileno'):
                fd = fd.fileno()
            if fd in fs.fds:
                return fn(fs.fds[fd], fd, *args, **kw)
            return real(fd, *args, **kw)
        wrapper.__name__ = name
        patch(os, name, wrapper)

    def os_close(of, fd):
        del fs.fds[fd]
        fs.event('close', of.path)

    def os_lseek(of, fd, pos, how):
        fs.event('seek', of.path)
        of.pos = pos if how == 0 else (of.pos + pos if how == 1 else len(of.node.data) + pos)
        return of.pos

    def os_fsync(of, fd):
        fs.event('fsync', of.path)
        if of.node.kind == 'f':
            of.node.durable = bytes(of.node.data)

    def os_pread(of, fd, n, pos):
        old, of.pos = of.pos, pos
        try:
            return of.read(n)
        finally:
            of.pos = old
    over_fd('close', os_close)
    over_fd('read', lambda of, fd, n: of.read(n))
    over_fd('write', lambda of, fd, b: of.write(memoryview(b).cast('B')))
    over_fd('lseek', os_lseek)
    over_fd('fsync', os_fsync)
    over_fd('fdatasync', os_fsync)
    over_fd('pread', os_pread)
    over_fd('fstat', lambda of, fd: fs.stat_of(of.node))
    over_fd('ftruncate', lambda of, fd, n: _resize(of.node, n))
    over_fd('fchmod', lambda of, fd, m: None)
    over_fd('isatty', lambda of, fd: False)
    real_fdopen = _real.get((os, 'fdopen'), os.fdopen)
    patch(os, 'fdopen', lambda fd, mode='r', buffering=-1, *a, **k: (
        sim_open(fd, mode, buffering, *a, **k) if fd in fs.fds else real_fdopen(fd, mode, buffering, *a, **k)))
    try:
        import fcntl
        for name in ('flock', 'lockf', 'fcntl'):
            real = _real.get((fcntl, name), getattr(fcntl, name))

            def locker(fd, *args, _real_fn=real):
                n = fd.fileno() if hasattr(fd, 'fileno') else fd
                if n in fs.fds:
                    fs.event('lock', fs.fds[n].path)
                    return 0
                return _real_fn(fd, *args)
            patch(fcntl, name, locker)
    except ImportError:
        pass

    import mmap
    real_mmap = _real.get((mmap, 'mmap'), mmap.mmap)

    def sim_mmap(fileno, length, *args, **kw):
        if fileno not in fs.fds:
            return real_mmap(fileno, length, *args, **kw)
        of, start = fs.fds[fileno], kw.get('offset', 0)
        fs.event('read', of.path, length)
        size = len(of.node.data)
        if length == 0:
            if size == 0:
                raise ValueError('cannot mmap an empty file')
            length = size - start
        if start + length > size:
            raise ValueError('mmap length is greater than file size')
        m = real_mmap(-1, length)
        m.write(bytes(of.node.data[start:start + length]))
        m.seek(0)
        return m
    patch(mmap, 'mmap', sim_mmap)

    # clocks, identity, entropy
    patch(time, 'time', lambda: fs.clock)
    patch(time, 'time_ns', lambda: int(fs.clock * 1e9))
    patch(time, 'monotonic', lambda: fs.clock)
    patch(time, 'perf_counter', lambda: fs.clock)

    def sleep(s):
        fs.clock += max(0, s)
        world.event('sleep', None, 0)
    patch(time, 'sleep', sleep)
    patch(os, 'getpid', lambda: 1000 + world.current_pid())
    patch(os, 'urandom', lambda n: rng.randbytes(n))
    _random.seed(world.seed)

    class Names:
        def __iter__(self):
            return self

        def __next__(self):
            return 'tmp%08x' % rng.getrandbits(32)
    tempfile._name_sequence = Names()
    tempfile.tempdir = '/sim/tmp'
    fs.mkdirs('/sim/tmp')


def uninstall():
    for (mod, name), fn in _real.items():
        setattr(mod, name, fn)
    _real.clear()
    tempfile._name_sequence = None
    tempfile.tempdir = None
