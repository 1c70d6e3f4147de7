"""Paths and files of an abstract file system, for functions that write, rename and remove a handful of files."""
from __future__ import annotations
import builtins, os, shutil
import z3
from pyvc.values import *
from pyvc.core import *


class Path(Model):
    """base (arbitrary) followed by a known suffix"""
    m_type = str

    def __init__(self, base, suffix=''):
        self.base, self.suffix = base, suffix

    def m_state(self):
        return {}

    @property
    def key(self):
        return (self.base, self.suffix)

    def m_binop(self, i, op, o, swapped):
        if op == 'Add' and not swapped and isinstance(o, str):
            return Path(self.base, self.suffix + o)
        return NotImplemented

    def m_fmt(self, i, f, args):
        if args and isinstance(args[0], Path) and f.startswith('%s') and all(isinstance(a, (str, SInt)) or type(a) is int for a in args[1:]):
            try:
                if any(isinstance(a, SInt) for a in args):
                    # some number: told apart by its term
                    return Path(self.base, self.suffix + f[2:].replace('%d', '%s') % tuple('<%s>' % a.t if isinstance(a, SInt) else a
                                                                                          for a in args[1:]))
                return Path(self.base, self.suffix + f[2:] % tuple(args[1:]))
            except Exception:
                return NotImplemented
        return NotImplemented

    def m_eq(self, i, o):
        return isinstance(o, Path) and o.key == self.key

    def m_hash(self):
        return hash(self.key)

    def __fspath__(self):
        return self

    def __repr__(self):
        return '<%s>%s' % (self.base, self.suffix)


class GFile:
    """content: list of what was written; flushed: the kernel has it; synced: the disk has it"""
    def __init__(self, exists, content=None):
        self.exists, self.content = exists, content
        self.flushed = self.synced = True


class GhostFS:
    """files by path; every operation may fail.  `log` records operations in order."""
    def __init__(self, ctx, i, may_fail=True):
        self.ctx, self.i, self.may_fail = ctx, i, may_fail
        self.files, self.log, self.fds, self.open_fhs, self.nfd = {}, [], {}, [], [100]
        self.on_rename = lambda src, dst: None
        fs = self
        b = i.bi
        b[builtins.open] = lambda ii, name, mode='r', buffering=-1, **kw: fs.open(name, mode, buffering)
        b[os.fsync] = b[os.fdatasync] = lambda ii, fd: fs.fsync(fd)
        b[os.open] = lambda ii, name, flags, *a, **k: fs.osopen(name, flags)
        b[os.close] = lambda ii, fd: fs.osclose(fd)
        b[os.rename] = b[os.replace] = lambda ii, a, c: fs.rename(a, c)
        b[os.unlink] = b[os.remove] = lambda ii, p, **k: fs.unlink(p)
        b[os.path.exists] = b[os.path.isfile] = b[os.path.lexists] = b[os.path.isdir] = lambda ii, p: SBool(fs.get(p).exists)
        b[os.path.dirname] = lambda ii, p: Path('dir of ' + p.base) if isinstance(p, Path) else os.path.dirname(p)
        b[os.path.join] = lambda ii, *a: Path(a[0].base, a[0].suffix + ''.join('/' + x for x in a[1:])) \
            if isinstance(a[0], Path) else os.path.join(*a)
        b[os.fspath] = lambda ii, p: p
        b[shutil.rmtree] = lambda ii, p, *a, **k: fs.rmtree(p)

    def step(self, what):
        if self.may_fail and self.ctx.choose(2, what + ' ok') == 1:
            self.log.append(('failed', what))
            self.i.raise_(OSError, 5, what)

    def get(self, p):
        if not isinstance(p, Path):
            raise Unsupported('path %r' % (p,))
        if p.key not in self.files:
            self.files[p.key] = GFile(self.ctx.bool('exists' + p.suffix).t)
        return self.files[p.key]

    def open(self, name, mode, buffering):
        f = self.get(name)
        self.step('open')
        if 'r' in mode:
            if not self.ctx.branch(f.exists, 'exists'):
                self.i.raise_(FileNotFoundError, 2, 'no such file')
        if 'w' in mode or 'x' in mode:
            if 'x' in mode and self.ctx.branch(f.exists, 'exists'):
                self.i.raise_(FileExistsError, 17, 'exists')
            f.content, f.exists, f.flushed, f.synced = [], z3.BoolVal(True), True, False
        self.log.append(('open', name.key, mode))
        fh = GFh(self, name, f, mode, buffering)
        self.open_fhs.append(fh)
        return fh

    def osopen(self, name, flags):
        self.step('os.open')
        if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            raise Unsupported('os.open for writing')
        self.nfd[0] += 1
        self.fds[self.nfd[0]] = name
        return self.nfd[0]

    def osclose(self, fd):
        if fd not in self.fds:
            raise Unsupported('close of %r' % (fd,))
        del self.fds[fd]

    def fsync(self, fd):
        self.step('fsync')
        if isinstance(fd, GFh):
            fd = fd.fd
        for fh in self.open_fhs:
            if fh.fd == fd and not fh.closed:
                fh.f.synced = fh.f.flushed
                self.log.append(('fsync', fh.name.key))
                return
        if fd in self.fds:
            self.log.append(('fsync', self.fds[fd].key))
            return
        raise Unsupported('fsync of %r' % (fd,))

    def rename(self, a, b):
        fa, fb = self.get(a), self.get(b)
        self.step('rename')
        self.on_rename(a, b)
        self.log.append(('rename', a.key, b.key))
        self.files[b.key] = fa
        self.files[a.key] = GFile(z3.BoolVal(False))

    def unlink(self, p):
        f = self.get(p)
        self.step('unlink')
        if not self.ctx.branch(f.exists, 'exists'):
            self.i.raise_(FileNotFoundError, 2, 'no such file')
        self.log.append(('unlink', p.key))
        self.files[p.key] = GFile(z3.BoolVal(False))

    def rmtree(self, p):
        f = self.get(p)
        self.step('rmtree')
        if not self.ctx.branch(f.exists, 'exists'):
            self.i.raise_(FileNotFoundError, 2, 'no such file')
        self.log.append(('rmtree', p.key))
        self.files[p.key] = GFile(z3.BoolVal(False))


class GFh(Model):
    def __init__(self, fs, name, f, mode, buffering):
        self._fs, self.name, self.f, self.mode = fs, name, f, mode
        self._unbuf = buffering == 0
        self.closed = False
        fs.nfd[0] += 1
        self.fd = fs.nfd[0]

    def m_state(self):
        return {}

    def m_enter(self, i):
        return self

    def m_exit(self, i, exc):
        self.close()
        return False

    def close(self):
        self.closed = True
        self.f.flushed = True

    def fileno(self):
        return self.fd

    def write(self, data):
        self._fs.step('write')
        if not any(c in self.mode for c in 'wax+'):
            raise Unsupported('write to a file opened for reading')
        if self.f.content is None:
            raise Unsupported('write into unknown content')
        self.f.content.append(data)
        self.f.synced, self.f.flushed = False, self._unbuf
        return self._fs.ctx.int('written', lo=0)

    def flush(self):
        self._fs.step('flush')
        self.f.flushed = True

    def read(self, *a):
        if a:
            raise Unsupported('partial read')
        self._fs.step('read')
        if self.f.content is None:
            self.f.content = [self._fs.ctx.val('content')]
        if len(self.f.content) != 1:
            raise Unsupported('read of composed content')
        return self.f.content[0]
