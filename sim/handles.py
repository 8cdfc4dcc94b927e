"""The kinds of file-like object which users hand to the library."""
import gzip
import io
import pathlib
import random

from . import fs as simfs

READ_KINDS = ['buf', 'small', 'raw', 'short', 'shortbuf', 'rw', 'bytesio', 'bname', 'pathname', 'relname', 'iname',
              'pyfile', 'nameless', 'gzip']
WRITE_KINDS = ['buf', 'small', 'raw', 'short', 'shortbuf', 'rw', 'bytesio', 'pyfile', 'none']


def limiter(seed, low=1):
    """Short transfers, in a pattern decided by the seed."""
    rng = random.Random(seed)
    style = rng.choice(['tiny', 'random', 'rare', 'fixed'])
    fixed = rng.choice([1, 7, 64, 240, 1000, 3200])

    def limit(kind, n):
        if style == 'tiny':
            return max(1, min(n, rng.randint(1, 300)))
        if style == 'fixed':
            return max(1, min(n, fixed))
        if style == 'random':
            return max(1, rng.randint(1, max(1, n)))
        return n if rng.random() < 0.8 else max(1, rng.randint(1, max(1, n)))
    return limit


class PyFile:
    """A minimal file-like object in Python, such as a wrapper of a network or archive stream."""

    def __init__(self, raw, name=None, none=False, mode='rb'):
        self._raw = raw
        self._none = none
        self.closed = False
        if name is not None:
            self.name = name
            self.mode = mode

    def read(self, n=-1):
        if n is None or n < 0:
            out = []
            while True:
                b = self._raw.read(4096)
                if not b:
                    return b''.join(out)
                out.append(b)
        return self._raw.read(n)

    def write(self, b):
        if self._none:
            view = memoryview(bytes(b))
            while len(view):
                view = view[self._raw.write(view):]
            return None
        return self._raw.write(b)

    def seek(self, pos, whence=0):
        return self._raw.seek(pos, whence)

    def tell(self):
        return self._raw.tell()

    def seekable(self):
        return True

    def readable(self):
        return self._raw.readable()

    def writable(self):
        return self._raw.writable()

    def flush(self):
        pass

    def close(self):
        self.closed = True
        self._raw.close()


class Recorded(io.BytesIO):
    """An in-memory file which calls back after each write."""
    hook = None

    def write(self, b):
        n = super().write(b)
        if self.hook is not None:
            self.hook(self.getvalue())
        return n


def open_for_reading(fs, path, kind, seed=0):
    """Returns (handle, whether its content is a private copy)."""
    op = lambda **k: simfs.open_handle(fs, path, 'rb', **k)
    if kind == 'buf':
        return op()
    if kind == 'small':
        return op(buffering=random.Random(seed).choice([1 + 15, 64, 240, 241, 512, 3600]))
    if kind == 'raw':
        return op(buffering=0)
    if kind == 'short':
        return op(buffering=0, limits=limiter(seed))
    if kind == 'shortbuf':
        return op(buffering=random.Random(seed).choice([16, 300, 8192]), limits=limiter(seed))
    if kind == 'rw':
        # A file which is open for writing too, perhaps since it was made
        how = ('rb+', 'rb+', 'ab+', 'xb+')[seed % 4]
        f = simfs.open_handle(fs, path, 'ab+' if how == 'ab+' else 'rb+', raw_mode=how)
        f.seek(0)
        return f
    if kind == 'bytesio':
        return io.BytesIO(fs.get(path))
    if kind == 'bname':
        return op(name=path.encode())
    if kind == 'pathname':
        return op(name=pathlib.PurePosixPath(path))
    if kind == 'relname':
        import posixpath
        return op(name=posixpath.relpath(path, fs.cwd))
    if kind == 'iname':
        return op(name=3)
    if kind == 'pyfile':
        f = PyFile(op(buffering=0, limits=limiter(seed)), name=path, mode=('rb', 'rb', 'w+b', 'a+b', 'x+b')[seed % 5])
        if seed % 3 == 0:
            f.encoding = None
        return f
    if kind == 'nameless':
        return PyFile(op(buffering=0))
    if kind == 'gzip':
        gz = gzip.compress(fs.get(path), 1, mtime=0)
        node = fs.put(path + '.gz', gz)
        return gzip.GzipFile(path + '.gz', 'rb', fileobj=simfs.open_handle(fs, path + '.gz', 'rb'))
    raise AssertionError(kind)


def open_for_writing(fs, path, kind, seed=0, mode='wb', content=b''):
    op = lambda **k: simfs.open_handle(fs, path, mode, **k)
    if kind == 'buf':
        return op()
    if kind == 'small':
        return op(buffering=random.Random(seed).choice([1 + 15, 64, 240, 241, 512, 3600]))
    if kind == 'raw':
        return op(buffering=0)
    if kind == 'short':
        return op(buffering=0, limits=limiter(seed))
    if kind == 'shortbuf':
        return op(buffering=random.Random(seed).choice([16, 300, 8192]), limits=limiter(seed))
    if kind == 'rw':
        return simfs.open_handle(fs, path, 'wb+' if mode == 'wb' else mode)
    if kind == 'bytesio':
        return Recorded(content)
    if kind == 'pyfile':
        return PyFile(op(buffering=0, limits=limiter(seed)))
    if kind == 'none':
        return PyFile(op(buffering=0), none=True)
    raise AssertionError(kind)
