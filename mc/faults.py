"""Interposition on the file system operations Python code performs below a directory.

Within FS(...).active(), every operation of the calling (or any registered) thread on a path below the
watched root, or on a file descriptor opened there, calls hook(op) first. The hook may return
None (go on), or ('error', exc) / ('torn', nbytes, exc), or raise Crash.
"""
import _io
import builtins
import contextlib
import errno
import io
import os
import threading


class Crash(BaseException):
    """The process is gone: nothing it would do after this point happens"""


class Op:
    __slots__ = ('kind', 'path', 'size', 'mutating')

    def __init__(self, kind, path, size=None, mutating=False):
        self.kind, self.path, self.size, self.mutating = kind, path, size, mutating

    def __repr__(self):
        return '%s(%s%s)' % (self.kind, os.path.basename(self.path or '?'), '' if self.size is None else ', %d bytes' % self.size)


BUF = 8192


class WFile:
    """A file opened for writing: buffers like Python's, with each flush one operation"""
    def __init__(self, fs, raw, path, text, encoding):
        self._fs, self._raw, self._path, self._text = fs, raw, path, text
        self._enc = encoding or 'utf-8'
        self._buf = b''
        self.closed = False
        self.name = path
        self.mode = 'w' if text else 'wb'

    def write(self, s):
        if self._text and not isinstance(s, str):
            raise TypeError('write() argument must be str')
        self._buf += s.encode(self._enc) if self._text else bytes(s)
        if len(self._buf) >= BUF:
            self.flush()
        return len(s)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def writable(self):
        return True

    def readable(self):
        return False

    def flush(self):
        if self._buf:
            data, self._buf = self._buf, b''
            self._fs.write(self._raw, data, self._path)

    def fileno(self):
        return self._raw.fileno()

    def tell(self):
        return self._raw.tell() + len(self._buf)

    def seek(self, *a):
        self.flush()
        return self._raw.seek(*a)

    def truncate(self, *a):
        self.flush()
        return self._raw.truncate(*a)

    def close(self):
        if self.closed:
            return
        self.closed = True
        try:
            self.flush()
            self._fs.op('close', self._path)
        finally:
            self._raw.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        try:
            self._raw.close()
        except Exception:
            pass


class FS:
    PATH1 = ['stat', 'lstat', 'listdir', 'mkdir', 'rmdir', 'unlink', 'remove', 'truncate', 'chmod', 'utime', 'access',
             'readlink', 'scandir']
    PATH2 = ['replace', 'rename', 'link', 'symlink']
    FD = ['fsync', 'fdatasync', 'ftruncate', 'fchmod', 'fstat']
    MUT = {'mkdir', 'rmdir', 'unlink', 'remove', 'truncate', 'chmod', 'utime', 'replace', 'rename', 'link', 'symlink', 'ftruncate'}

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.hooks = {}      # thread ident -> hook
        self.fds = {}
        self.real = {}

    def watched(self, path):
        if isinstance(path, int):
            return self.fds.get(path)
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return None
        if isinstance(p, bytes):
            return None
        return p if (p + '/').startswith(self.root + '/') else None

    def op(self, kind, path, size=None):
        hook = self.hooks.get(threading.get_ident())
        if hook is None:
            return None
        r = hook(Op(kind, path, size, kind in self.MUT or kind in ('write', 'create', 'close')))
        if r is None:
            return None
        if r[0] == 'error':
            raise r[1]
        return r

    def write(self, raw, data, path):
        r = self.op('write', path, len(data))
        if r is not None:
            _, n, exc = r
            if n:
                raw.write(data[:n])
            raise exc
        n = 0
        while n < len(data):
            n += raw.write(data[n:])

    @contextlib.contextmanager
    def thread(self, hook):
        """Operations of this thread go through hook"""
        ident = threading.get_ident()
        self.hooks[ident] = hook
        try:
            yield
        finally:
            self.hooks.pop(ident, None)

    @contextlib.contextmanager
    def patched(self):
        import h5py
        saved = []

        def put(mod, name, fn):
            saved.append((mod, name, getattr(mod, name)))
            setattr(mod, name, fn)

        fs = self
        mine = lambda: threading.get_ident() in fs.hooks

        for name in self.PATH1:
            def f(path='.', *a, _real=getattr(os, name), _n=name, **kw):
                if mine():
                    w = fs.watched(path)
                    if w is not None:
                        fs.op(_n, w)
                    elif isinstance(path, int):
                        fs.op('fstat', None)
                return _real(path, *a, **kw)
            put(os, name, f)
        for name in self.PATH2:
            def f(src, dst, *a, _real=getattr(os, name), _n=name, **kw):
                if mine():
                    w = fs.watched(dst) or fs.watched(src)
                    if w is not None:
                        fs.op(_n, w)
                return _real(src, dst, *a, **kw)
            put(os, name, f)
        for name in self.FD:
            def f(fd, *a, _real=getattr(os, name), _n=name, **kw):
                if mine() and fs.watched(fd):
                    fs.op(_n, fs.watched(fd))
                return _real(fd, *a, **kw)
            put(os, name, f)

        real_osopen, real_close, real_write = os.open, os.close, os.write

        def osopen(path, flags, *a, **kw):
            w = fs.watched(path) if mine() else None
            if w is not None:
                fs.op('create' if flags & (os.O_CREAT | os.O_TRUNC) else 'open', w)
            fd = real_osopen(path, flags, *a, **kw)
            if w is not None:
                fs.fds[fd] = w
            return fd
        put(os, 'open', osopen)

        def osclose(fd):
            fs.fds.pop(fd, None)
            return real_close(fd)
        put(os, 'close', osclose)

        class _Raw:
            def __init__(self, fd):
                self.fd = fd

            def write(self, data):
                return real_write(self.fd, data)

        def oswrite(fd, data):
            if mine() and fd in fs.fds:
                fs.write(_Raw(fd), bytes(data), fs.fds[fd])
                return len(data)
            return real_write(fd, data)
        put(os, 'write', oswrite)

        real_open = io.open

        def open_(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            w = fs.watched(file) if mine() else None
            if w is None or '+' in mode:
                if w is not None:
                    fs.op('create', w)
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            wr = any(c in mode for c in 'wax')
            if not isinstance(file, int) and opener is None:
                fs.op('create' if wr else 'open', w)
            if not wr:
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            raw = real_open(file, mode.replace('t', '').replace('b', '') + 'b', 0, closefd=closefd, opener=opener)
            fs.fds.pop(file, None) if isinstance(file, int) else None
            return WFile(fs, raw, w, 'b' not in mode, encoding)
        for m in (builtins, io, _io):
            put(m, 'open', open_)

        # not h5f.open(), which is called with the h5py lock held
        real_init = h5py.File.__init__

        def h5init(self_, name, *a, **kw):
            if mine() and isinstance(name, (str, bytes, os.PathLike)):
                w = fs.watched(os.fsdecode(name))
                if w is not None:
                    fs.op('h5open', w)
            return real_init(self_, name, *a, **kw)
        put(h5py.File, '__init__', h5init)
        try:
            yield self
        finally:
            for mod, name, real in reversed(saved):
                setattr(mod, name, real)
            for fd in list(self.fds):
                try:
                    real_close(fd)
                except OSError:
                    pass
            self.fds.clear()


def err(e):
    return OSError(e, os.strerror(e))
