"""
The simulator's seams: every source of nondeterminism ccnpy can reach is routed through here.

`install()` patches files, clocks, entropy, process ids, sockets, uuid, locks and passphrase prompts BEFORE ccnpy is
imported.  With no active World every patched function behaves as the real one.  With an active World each
file-system, socket, clock and entropy operation made inside the World's scratch root is numbered, may be
faulted according to the run's plan, is a point where the scheduler may switch tasks, and is added to the trace.
"""
import builtins
import datetime as _datetime_mod
import errno
import getpass
import hashlib
import io
import os
import random
import socket
import sys
import threading
import time
import uuid

W = None  # the active World
IMPORTING = None   # while the library is imported: the generator that stands for its surroundings


class SimCrash(BaseException):
    """The simulated process died here.  Not an Exception: no handler of the code under test may survive it."""


class SimHang(BaseException):
    """The run used far more steps than its workload can need."""


class _Real:
    pass


R = _Real()
R.open = io.open
R.os_open, R.os_write, R.os_read, R.os_close = os.open, os.write, os.read, os.close
R.os_fsync, R.os_fdatasync, R.os_ftruncate = os.fsync, os.fdatasync, os.ftruncate
R.os_lseek = os.lseek
R.replace, R.rename, R.link, R.symlink = os.replace, os.rename, os.link, os.symlink
R.unlink, R.remove, R.mkdir, R.rmdir = os.unlink, os.remove, os.mkdir, os.rmdir
R.listdir, R.scandir, R.truncate = os.listdir, os.scandir, os.truncate
R.urandom, R.getpid = os.urandom, os.getpid
R.time, R.time_ns, R.monotonic, R.monotonic_ns = time.time, time.time_ns, time.monotonic, time.monotonic_ns
R.perf_counter, R.perf_counter_ns, R.sleep = time.perf_counter, time.perf_counter_ns, time.sleep
R.datetime = _datetime_mod.datetime
R.date = _datetime_mod.date
R.socket = socket.socket
R.Lock, R.RLock = threading.Lock, threading.RLock
R.getpass = getpass.getpass
R.get_ident = threading.get_ident
R.O_WR = os.O_WRONLY | os.O_RDWR


# ---------------------------------------------------------------------------------------------------- world

class Proc:
    """One simulated operating-system process (an incarnation)."""

    def __init__(self, world, name, pid, seed, faults=None, skew_ns=0, mem=None):
        self.world = world
        self.mem = mem          # whose memory it works in
        self.name = name
        self.pid = pid
        self.rng = random.Random(f'proc/{seed}')
        self.faults = {}
        for f in faults or []:
            self.faults.setdefault(int(f['at']), f)
        self.skew_ns = skew_ns
        self.dead = False
        self.nops = 0
        self.entropy_script = None   # fixed answers for urandom, used to model a repeated RNG state
        self.sticky = None           # errno raised by every later write (a full disk)
        self.ops = []                # (kind, path, nbytes), recorded when world.record_ops
        self.open_raws = []


class World:
    BASE_NS = 1_700_000_000_000_000_000

    def __init__(self, root, start_ns=None, tick_ns=1000, record_ops=False, max_ops=2_000_000):
        self.root = os.path.realpath(root)
        self.prefix = self.root + os.sep
        self.clock_ns = self.BASE_NS if start_ns is None else start_ns
        self.tick_ns = tick_ns
        self.sim_ns = 0
        self.jumps = {}              # total op number -> ns delta of the wall clock
        self.mono_ns = 10_000_000_000
        self.nops = 0
        self.max_ops = max_ops
        self.record_ops = record_ops
        self.trace = hashlib.sha256()
        self.trace_tail = []
        self.keep_trace = 0
        self.fired = {}
        self.after_op = None
        self.sched = None
        self.net = None
        self.fds = {}
        self.alias = {}
        self.ntmp = 0
        self.procs = []
        self.memory = None           # a memory.Memory: simulated processes do not share ccnpy's module state
        self.tls = threading.local()
        self.main_proc = self.new_proc('main', seed=0)
        self.passphrases = []
        self.prompts = 0

    def new_proc(self, name, seed, faults=None, skew_ns=0, pid=None, mem=None):
        p = Proc(self, name, pid if pid is not None else 1000 + len(self.procs), seed, faults, skew_ns, ('shared', mem) if mem is not None else ('own', len(self.procs)))
        self.procs.append(p)
        return p

    def proc(self):
        return getattr(self.tls, 'proc', None) or self.main_proc

    def set_proc(self, p):
        self.tls.proc = p
        self.enter()

    def enter(self):
        """The process of this thread goes on."""
        if self.memory is not None:
            self.memory.enter(self.proc().mem)

    # paths ------------------------------------------------------------------------------------------
    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        if p == self.root or p.startswith(self.prefix):
            return p
        return None

    def rel(self, path):
        """A name for the trace that does not depend on the scratch root, pids or thread ids."""
        if path == self.root:
            return '.'
        r = path[len(self.prefix):] if path.startswith(self.prefix) else path
        d, b = os.path.split(r)
        if b.startswith('.') or b.endswith('.tmp') or 'tmp' in b:
            a = self.alias.get(r)
            if a is None:
                self.ntmp += 1
                a = self.alias[r] = os.path.join(d, f'@tmp{self.ntmp}')
            return a
        return r

    # the one entry point of every operation -----------------------------------------------------------
    def op(self, kind, path='', nbytes=0):
        """Number an operation, let the scheduler act, apply crash/error faults.  Returns the fault or None."""
        p = self.proc()
        if p.dead:
            raise SimCrash()
        if self.sched is not None:
            self.sched.point()
            if p.dead:
                raise SimCrash()
        at = p.nops
        p.nops += 1
        self.nops += 1
        if self.nops > self.max_ops:
            raise SimHang(f'more than {self.max_ops} operations')
        self.clock_ns += self.tick_ns
        self.mono_ns += self.tick_ns
        self.sim_ns += self.tick_ns
        if self.nops in self.jumps:
            self.clock_ns += self.jumps[self.nops]
            self.count('clock_jump')
        if kind == 'creat' and self.alias and not os.path.lexists(path):
            # a name that is free again is a new temporary file
            self.alias.pop(path[len(self.prefix):], None)
        rel = self.rel(path) if path else ''
        if self.record_ops:
            p.ops.append((kind, rel, nbytes))
        line = f'{p.name}:{at}:{kind}:{rel}:{nbytes}'
        self.trace.update(line.encode('utf-8', 'surrogateescape'))
        if self.keep_trace:
            self.trace_tail.append(line)
            if len(self.trace_tail) > self.keep_trace:
                del self.trace_tail[0]
        f = p.faults.get(at)
        if f is None:
            if p.sticky is not None and kind in ('write', 'creat', 'mkdir'):
                raise OSError(p.sticky, os.strerror(p.sticky), rel)
            return None
        k = f['kind']
        if k == 'crash':
            self.die(p, 'crash')
        if k == 'eio':
            self.note(f, kind)
            raise OSError(errno.EIO, os.strerror(errno.EIO), rel)
        if k == 'eacces' and kind in ('open', 'creat', 'rename', 'mkdir'):
            self.note(f, kind)
            raise OSError(errno.EACCES, os.strerror(errno.EACCES), rel)
        if k == 'emfile' and kind in ('open', 'creat'):
            self.note(f, kind)
            raise OSError(errno.EMFILE, os.strerror(errno.EMFILE), rel)
        if k == 'enospc' and kind in ('write', 'creat', 'mkdir', 'rename', 'close', 'fsync'):
            self.note(f, kind)
            if f.get('sticky'):
                p.sticky = errno.ENOSPC
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), rel)
        if k == 'nomem':
            self.note(f, kind)
            raise MemoryError('simulated allocation failure')
        return f

    def done(self, f, kind, *paths):
        """Called when the effect of an operation is in place."""
        if self.after_op is not None:
            self.after_op(self.proc(), kind, paths)
        if f is not None and f['kind'] == 'crash_after':
            self.die(self.proc(), 'crash')

    def die(self, p, label):
        self.count(label)
        p.dead = True
        raise SimCrash()

    def note(self, f, kind):
        self.count(f['kind'] + '@' + kind)

    def count(self, name, n=1):
        self.fired[name] = self.fired.get(name, 0) + n

    def log(self, *items):
        self.trace.update(repr(items).encode('utf-8', 'surrogateescape'))

    # clock -------------------------------------------------------------------------------------------
    def now_ns(self):
        return self.clock_ns + self.proc().skew_ns

    def sleep(self, seconds):
        ns = int(seconds * 1e9)
        self.clock_ns += ns
        self.mono_ns += ns
        self.sim_ns += ns


class activate:
    def __init__(self, world):
        self.world = world

    def __enter__(self):
        global W
        self.prev = W
        W = self.world
        return self.world

    def __exit__(self, *exc):
        global W
        W = self.prev


# ---------------------------------------------------------------------------------------------------- files

class SimRaw(io.RawIOBase):
    """The unbuffered file below the real buffered layers: one call here is one system call."""

    def __init__(self, world, fd, path, readable, writable, append=False):
        self._w = world
        self._fd = fd
        self._path = path
        self._r = readable
        self._wr = writable
        self._append = append
        self.name = path
        self.mode = 'rb' if not writable else 'rb+' if readable else 'wb'

    def readable(self):
        return self._r

    def writable(self):
        return self._wr

    def seekable(self):
        return True

    def fileno(self):
        return self._fd

    def isatty(self):
        return False

    def readinto(self, b):
        w = self._w
        if not self._r:
            raise io.UnsupportedOperation('not readable')
        mv = memoryview(b).cast('B')
        f = w.op('read', self._path, len(mv))
        n = len(mv)
        if f is not None and f['kind'] == 'short' and n > 1:
            n = max(1, min(n, int(f.get('n', 1))))
            w.note(f, 'read')
        data = R.os_read(self._fd, n)
        if f is not None and f['kind'] == 'flip' and data:
            i = f.get('n', 0) % (len(data) * 8)
            data = bytearray(data)
            data[i // 8] ^= 1 << (i % 8)
            w.note(f, 'read')
        if f is not None and f['kind'] == 'eof':
            w.note(f, 'read')
            data = b''
        mv[:len(data)] = data
        w.done(f, 'read', self._path)
        return len(data)

    def write(self, b):
        w = self._w
        if not self._wr:
            raise io.UnsupportedOperation('not writable')
        data = bytes(b)
        f = w.op('write', self._path, len(data))
        if f is not None and f['kind'] == 'torn':
            k = min(len(data), int(f.get('n', 0)))
            if k:
                R.os_write(self._fd, data[:k])
            w.done(None, 'write', self._path)
            w.die(w.proc(), 'torn_crash')
        if f is not None and f['kind'] == 'short' and len(data) > 1:
            k = max(1, min(len(data) - 1, int(f.get('n', 1))))
            w.note(f, 'write')
            R.os_write(self._fd, data[:k])
            w.done(f, 'write', self._path)
            return k
        if f is not None and f['kind'] == 'torneio':
            k = min(len(data), int(f.get('n', 0)))
            if k:
                R.os_write(self._fd, data[:k])
            w.note(f, 'write')
            w.done(None, 'write', self._path)
            raise OSError(errno.EIO, os.strerror(errno.EIO), self._path)
        n = R.os_write(self._fd, data)
        w.done(f, 'write', self._path)
        return n

    def seek(self, off, whence=0):
        return R.os_lseek(self._fd, off, whence)

    def tell(self):
        return R.os_lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        f = self._w.op('ftruncate', self._path, size)
        R.os_ftruncate(self._fd, size)
        self._w.done(f, 'ftruncate', self._path)
        return size

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            fd, self._fd = self._fd, -1
            if fd >= 0:
                self._w.fds.pop(fd, None)
                R.os_close(fd)
        # the descriptor is gone whatever close() reports
        f = self._w.op('close', self._path)
        self._w.done(f, 'close', self._path)

    def __del__(self):
        fd = getattr(self, '_fd', -1)
        if fd is not None and fd >= 0:
            self._fd = -1
            try:
                self._w.fds.pop(fd, None)
                R.os_close(fd)
            except OSError:
                pass


def _open_fd(world, p, flags, mode=0o666, dir_fd=None):
    kind = 'creat' if flags & os.O_CREAT else 'open'
    f = world.op(kind, p)
    if f is not None and f['kind'] == 'lost':
        world.note(f, kind)
        raise OSError(errno.ENOENT, os.strerror(errno.ENOENT), p)
    fd = R.os_open(p, flags | os.O_CLOEXEC, mode)
    world.fds[fd] = p
    if flags & R.O_WR:
        try:
            world.done(f, kind, p)
        except BaseException:
            world.fds.pop(fd, None)
            R.os_close(fd)
            raise
    elif f is not None:
        world.done(f, kind, p)
    return fd


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = W
    if w is None:
        return R.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        if file not in w.fds:
            return R.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        path, fd = w.fds[file], file
    else:
        path, fd = w.inside(file), None
        if path is None:
            return R.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    modes = set(mode)
    if modes - set('rwxab+tU') or len(modes & set('rwxa')) != 1:
        raise ValueError(f'invalid mode: {mode!r}')
    binary = 'b' in modes
    plus = '+' in modes
    rd = 'r' in modes or plus
    wr = 'r' not in modes or plus
    if fd is None:
        flags = os.O_RDWR if rd and wr else os.O_WRONLY if wr else os.O_RDONLY
        if 'w' in modes:
            flags |= os.O_CREAT | os.O_TRUNC
        elif 'x' in modes:
            flags |= os.O_CREAT | os.O_EXCL
        elif 'a' in modes:
            flags |= os.O_CREAT | os.O_APPEND
        if opener is not None:
            fd = opener(file, flags)
            w.fds.setdefault(fd, path)
        else:
            if os.path.isdir(path) and not wr:
                raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), path)
            fd = _open_fd(w, path, flags)
    raw = SimRaw(w, fd, path, rd, wr, 'a' in modes)
    if 'a' in modes:
        R.os_lseek(fd, 0, 2)
    line_buffering = False
    if buffering == 1 and not binary:
        line_buffering = True
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
    buf = io.BufferedRandom(raw, size) if rd and wr else io.BufferedWriter(raw, size) if wr else io.BufferedReader(raw, size)
    if binary:
        return buf
    t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
    t.mode = mode
    return t


def _s_os_open(path, flags, mode=0o777, *, dir_fd=None):
    w = W
    p = w.inside(path) if w is not None and dir_fd is None else None
    if p is None:
        return R.os_open(path, flags, mode, dir_fd=dir_fd)
    return _open_fd(w, p, flags, mode)


def _s_os_write(fd, data):
    w = W
    if w is None or fd not in w.fds:
        return R.os_write(fd, data)
    raw = SimRaw(w, fd, w.fds[fd], False, True)
    try:
        return raw.write(data)
    finally:
        raw._fd = -1


def _s_os_read(fd, n):
    w = W
    if w is None or fd not in w.fds:
        return R.os_read(fd, n)
    raw = SimRaw(w, fd, w.fds[fd], True, False)
    buf = bytearray(n)
    try:
        k = raw.readinto(buf)
    finally:
        raw._fd = -1
    return bytes(buf[:k])


def _s_os_close(fd):
    w = W
    if w is None or fd not in w.fds:
        return R.os_close(fd)
    p = w.fds.pop(fd)
    R.os_close(fd)
    f = w.op('close', p)
    w.done(f, 'close', p)


def _fd_op(name, real):
    def fn(fd, *a):
        w = W
        n = fd if isinstance(fd, int) else fd.fileno()
        if w is None or n not in w.fds:
            return real(fd, *a)
        f = w.op(name, w.fds[n])
        r = real(n, *a)
        w.done(f, name, w.fds[n])
        return r
    return fn


def _path_op(name, real):
    def fn(path='.', *a, **kw):
        w = W
        p = w.inside(path) if w is not None and kw.get('dir_fd') is None and not isinstance(path, int) else None
        if p is None:
            return real(path, *a, **kw)
        f = w.op(name, p)
        r = real(path, *a, **kw)
        if name == 'listdir':
            r = sorted(r)
        w.done(f, name, p)
        return r
    return fn


class _Scan:
    def __init__(self, it):
        self._it = iter(it)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _s_scandir(path='.'):
    w = W
    p = w.inside(path) if w is not None and not isinstance(path, int) else None
    if p is None:
        return R.scandir(path)
    f = w.op('scandir', p)
    with R.scandir(path) as it:
        ents = sorted(it, key=lambda e: e.name)
    w.done(f, 'scandir', p)
    return _Scan(ents)


def _path2_op(name, real):
    def fn(src, dst, *a, **kw):
        w = W
        q = w.inside(dst) if w is not None and kw.get('dst_dir_fd') is None and kw.get('dir_fd') is None else None
        if q is None:
            return real(src, dst, *a, **kw)
        p = w.inside(src) or os.fspath(src)
        f = w.op(name, q)
        r = real(src, dst, *a, **kw)
        if name == 'rename':
            for fd, path in w.fds.items():
                if path == p:
                    w.fds[fd] = q
        w.done(f, name, p, q)
        return r
    return fn


# ---------------------------------------------------------------------------------------------------- clock

class _SimDatetimeMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, R.datetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, R.datetime) if cls is SimDatetime else type.__subclasscheck__(cls, sub)


_EPOCH = R.datetime(1970, 1, 1, tzinfo=_datetime_mod.timezone.utc)


class SimDatetime(R.datetime, metaclass=_SimDatetimeMeta):
    @classmethod
    def now(cls, tz=None):
        w = W
        if w is None and IMPORTING is not None:
            w = _ImportClock
        elif w is None:
            return R.datetime.now(tz)
        else:
            w.op('clock')
        us = w.now_ns() // 1000
        try:
            dt = _EPOCH + _datetime_mod.timedelta(microseconds=us)
        except OverflowError:
            raise OverflowError('date value out of range')
        if tz is None:
            try:
                return dt.astimezone().replace(tzinfo=None)
            except (OverflowError, ValueError, OSError):
                return dt.replace(tzinfo=None)
        return dt.astimezone(tz)

    @classmethod
    def utcnow(cls):
        return cls.now(_datetime_mod.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


class _ImportClock:
    mono_ns = 5_000_000_000

    @staticmethod
    def now_ns():
        return World.BASE_NS - 3_600_000_000_000


class SimRandom(random.Random):
    """A generator without a seed takes it from the simulated entropy."""

    def seed(self, a=None, version=2):
        if a is None and (W is not None or IMPORTING is not None):
            a = int.from_bytes(_s_urandom(32), 'big')
        super().seed(a, version)


def _clock(real, get):
    def fn(*a):
        w = W
        if w is None:
            # also what a module keeps from its import repeats exactly
            return real(*a) if IMPORTING is None else get(_ImportClock)
        w.op('clock')
        return get(w)
    return fn


def _of_clock(real):
    def fn(secs=None):
        return real(time.time() if secs is None else secs)
    return fn


def _strftime(real):
    def fn(fmt, t=None):
        return real(fmt, time.localtime() if t is None else t)
    return fn


def _s_sleep(seconds):
    w = W
    if w is None:
        return R.sleep(seconds)
    w.op('sleep')
    w.sleep(seconds)


def _s_urandom(n):
    w = W
    if w is None:
        return R.urandom(n) if IMPORTING is None else IMPORTING.randbytes(n)
    f = w.op('urandom', '', n)
    p = w.proc()
    if p.entropy_script is not None:
        return p.entropy_script(n)
    out = p.rng.randbytes(n)
    w.done(f, 'urandom')
    return out


def _s_get_ident():
    w = W
    if w is not None and sys._getframe(1).f_globals.get('__name__', '').startswith('ccnpy'):
        s = w.sched
        # like the system, reuses the identifiers of threads that ended
        if s is not None and s.cur is not None and R.get_ident() == s.cur.ident:
            return 140000000000000 + 4096 * s.tasks.index(s.cur)
        return 140000000000000 - 4096
    return R.get_ident()


def _s_getpid():
    w = W
    if w is None:
        return R.getpid() if IMPORTING is None else 4000
    return w.proc().pid


def _s_getpass(prompt='', stream=None, **kw):
    w = W
    if w is None:
        return ''
    w.op('getpass')
    w.prompts += 1
    return w.passphrases.pop(0) if w.passphrases else ''


# ---------------------------------------------------------------------------------------------------- sockets

class SimNet:
    """TCP as one process sees it: connections to listeners that record the bytes that reach them."""

    def __init__(self):
        self.listeners = {}      # (host, port) -> list of Conn
        self.sockets = []

    def listen(self, host, port):
        self.listeners[(host, port)] = []

    def conns(self):
        return [c for v in self.listeners.values() for c in v]


class Conn:
    def __init__(self):
        self.accepted = bytearray()   # bytes the sender's kernel took
        self.received = bytearray()   # bytes that reached the peer
        self.reset = False
        self.fin = False


class SimSocket:
    def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
        self.family, self.type, self.proto = family, type, proto
        self._conn = None
        self._closed = False
        self._timeout = None
        self._linger0 = False
        self._full_until = 0
        if W is not None and W.net is not None:
            f = W.op('socket')
            W.net.sockets.append(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def setsockopt(self, level, opt, value=0, *a):
        if level == socket.SOL_SOCKET and opt == socket.SO_LINGER and isinstance(value, (bytes, bytearray)) and len(value) >= 8:
            on, secs = int.from_bytes(value[:4], sys.byteorder), int.from_bytes(value[4:8], sys.byteorder)
            self._linger0 = bool(on) and secs == 0

    def getsockopt(self, *a):
        return 0

    def settimeout(self, t):
        self._timeout = t

    def gettimeout(self):
        return self._timeout

    def setblocking(self, b):
        self._timeout = None if b else 0.0

    def bind(self, addr):
        pass

    def fileno(self):
        return -1 if self._closed else 100

    def getpeername(self):
        return ('127.0.0.1', 9896)

    def getsockname(self):
        return ('127.0.0.1', 40000)

    def connect(self, addr):
        w = W
        f = w.op('connect')
        if self._closed:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        key = (addr[0], int(addr[1]))
        if f is not None and f['kind'] == 'refuse' or key not in w.net.listeners:
            if f is not None:
                w.note(f, 'connect')
            raise ConnectionRefusedError(errno.ECONNREFUSED, os.strerror(errno.ECONNREFUSED))
        if f is not None and f['kind'] == 'stall':
            w.note(f, 'connect')
            w.sleep(127)
            raise TimeoutError(errno.ETIMEDOUT, os.strerror(errno.ETIMEDOUT))
        self._conn = Conn()
        w.net.listeners[key].append(self._conn)
        w.done(f, 'connect')

    def connect_ex(self, addr):
        try:
            self.connect(addr)
            return 0
        except OSError as e:
            return e.errno

    def _send(self, data):
        w = W
        data = bytes(data)
        f = w.op('send', '', len(data))
        c = self._conn
        if self._closed:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        if c is None:
            raise OSError(errno.ENOTCONN, os.strerror(errno.ENOTCONN))
        if c.reset:
            raise BrokenPipeError(errno.EPIPE, os.strerror(errno.EPIPE))
        n = len(data)
        if f is not None:
            if f['kind'] == 'short' and n > 1:
                n = max(1, min(n - 1, int(f.get('n', 1))))
                w.note(f, 'send')
            elif f['kind'] == 'slow':
                w.note(f, 'send')
                # the buffer has room for `part` bytes and then none for `n` seconds
                self._full_until = w.sim_ns / 1e9 + float(f.get('n', 1))
                k = int(f.get('part', 0))
                if 0 < k < n:
                    c.accepted += data[:k]
                    w.done(f, 'send')
                    return k
            elif f['kind'] == 'reset':
                # the peer's reset arrives after `n` bytes of this call were taken; the last `lose` never arrive
                w.note(f, 'send')
                k = min(n, int(f.get('n', 0)))
                c.accepted += data[:k]
                lose = min(len(c.accepted) - len(c.received), int(f.get('lose', 0)))
                c.received = c.accepted[:len(c.accepted) - lose]
                c.reset = True
                raise ConnectionResetError(errno.ECONNRESET, os.strerror(errno.ECONNRESET))
            elif f['kind'] == 'eintr':
                w.note(f, 'send')
        wait = self._full_until - w.sim_ns / 1e9
        if wait > 0:
            if self._timeout is not None and self._timeout < wait:
                w.sleep(self._timeout)
                raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN)) if self._timeout == 0 else TimeoutError('timed out')
            w.sleep(wait)
        c.accepted += data[:n]
        w.done(f, 'send')
        return n

    def send(self, data, flags=0):
        return self._send(memoryview(data).cast('B'))

    def sendall(self, data, flags=0):
        mv = memoryview(data).cast('B')
        off = 0
        while off < len(mv):
            off += self._send(mv[off:])

    def sendmsg(self, buffers, *a):
        return self._send(b''.join(bytes(b) for b in buffers))

    def sendfile(self, file, offset=0, count=None):
        data = file.read() if count is None else file.read(count)
        self.sendall(data)
        return len(data)

    def makefile(self, mode='r', buffering=None, **kw):
        sock = self

        class _Raw(io.RawIOBase):
            def writable(self):
                return True

            def write(self, b):
                return sock._send(b)
        return _Raw() if buffering == 0 else io.BufferedWriter(_Raw())

    def recv(self, n, flags=0):
        return b''

    def shutdown(self, how):
        f = W.op('shutdown')
        if self._conn is not None and how in (socket.SHUT_WR, socket.SHUT_RDWR):
            self._fin()

    def _fin(self):
        c = self._conn
        if not c.fin and not c.reset:
            c.received = bytearray(c.accepted)
        c.fin = True

    # bytes that a receiver of ordinary speed has not read yet when the sender closes
    IN_FLIGHT = 3000

    def close(self):
        if self._closed:
            return
        self._closed = True
        if self._conn is not None and self._linger0 and not self._conn.fin and not self._conn.reset:
            # a close that does not linger is a reset: what is on its way is lost
            c = self._conn
            c.received = c.accepted[:max(len(c.received), len(c.accepted) - self.IN_FLIGHT)]
            c.fin = True
        elif self._conn is not None:
            self._fin()
        if W is not None:
            f = W.op('sockclose')

    def detach(self):
        self._closed = True
        return -1


def _s_socket(*a, **kw):
    if W is None or W.net is None:
        return R.socket(*a, **kw)
    return SimSocket(*a, **kw)


class _SocketMeta(type):
    def __call__(cls, *a, **kw):
        if cls is SocketShim:
            return _s_socket(*a, **kw)
        return super().__call__(*a, **kw)

    def __instancecheck__(cls, obj):
        return isinstance(obj, (SimSocket, R.socket))


class SocketShim(metaclass=_SocketMeta):
    pass


# ---------------------------------------------------------------------------------------------------- locks

class SimLock:
    """A lock that tells the scheduler instead of blocking the one running thread."""

    def __init__(self, reentrant=False):
        self._owner = None
        self._n = 0
        self._re = reentrant

    def _me(self):
        return threading.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self._re and self._owner == me:
            self._n += 1
            return True
        spins = 0
        while self._owner is not None:
            if not blocking:
                return False
            s = W.sched if W is not None else None
            spins += 1
            if s is None or not s.yield_other() or spins > 1_000_000:
                raise SimHang('deadlock on a lock')
        self._owner = me
        self._n = 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._n -= 1
        if self._n == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def _lock_factory(real, reentrant):
    def make(*a, **kw):
        mod = sys._getframe(1).f_globals.get('__name__', '')
        if mod.startswith('ccnpy'):
            return SimLock(reentrant)
        return real(*a, **kw)
    return make


# ---------------------------------------------------------------------------------------------------- crypto

def _install_crypto():
    import cryptography.hazmat.primitives.ciphers.aead as aead
    from cryptography.hazmat.primitives import serialization
    from cryptography.hazmat.primitives.asymmetric import rsa, padding

    def wrap(real):
        class SimAead:
            """The real cipher; only key generation draws from the simulation's entropy."""

            def __init__(self, key, *a, **kw):
                self._i = real(key, *a, **kw)

            def encrypt(self, nonce, data, associated_data):
                if W is not None:
                    W.log('enc', bytes(nonce))
                return self._i.encrypt(nonce, data, associated_data)

            def decrypt(self, nonce, data, associated_data):
                return self._i.decrypt(nonce, data, associated_data)

            @staticmethod
            def generate_key(bit_length):
                if bit_length not in (128, 192, 256):
                    raise ValueError('bit_length must be 128, 192 or 256')
                return os.urandom(bit_length // 8)
        SimAead.__name__ = real.__name__
        return SimAead

    R.AESGCM, R.AESCCM = aead.AESGCM, aead.AESCCM
    aead.AESGCM = wrap(aead.AESGCM)
    aead.AESCCM = wrap(aead.AESCCM)

    def mgf1(seed, n):
        out = b''
        c = 0
        while len(out) < n:
            out += hashlib.sha256(seed + c.to_bytes(4, 'big')).digest()
            c += 1
        return out[:n]

    def xor(a, b):
        return bytes(x ^ y for x, y in zip(a, b))

    class SimRsaPublic:
        def __init__(self, real):
            self._k = real

        def __getattr__(self, n):
            return getattr(self._k, n)

        def encrypt(self, plaintext, pad):
            if W is None or not isinstance(pad, padding.OAEP):
                return self._k.encrypt(plaintext, pad)
            # RFC 8017 OAEP with the seed drawn from the simulation's entropy
            alg, mgf_alg = pad._algorithm, pad._mgf._algorithm
            if alg.name != 'sha256' or mgf_alg.name != 'sha256':
                return self._k.encrypt(plaintext, pad)
            label = pad._label or b''
            k = (self._k.key_size + 7) // 8
            h = 32
            if len(plaintext) > k - 2 * h - 2:
                raise ValueError('Encryption failed')
            db = hashlib.sha256(label).digest() + b'\0' * (k - len(plaintext) - 2 * h - 2) + b'\1' + bytes(plaintext)
            seed = os.urandom(h)
            mdb = xor(db, mgf1(seed, k - h - 1))
            ms = xor(seed, mgf1(mdb, h))
            nums = self._k.public_numbers()
            c = pow(int.from_bytes(b'\0' + ms + mdb, 'big'), nums.e, nums.n)
            return c.to_bytes(k, 'big')

    class SimRsaPrivate:
        def __init__(self, real):
            self._k = real

        def __getattr__(self, n):
            return getattr(self._k, n)

        def public_key(self):
            return SimRsaPublic(self._k.public_key())

    rsa.RSAPublicKey.register(SimRsaPublic)
    rsa.RSAPrivateKey.register(SimRsaPrivate)
    R.load_priv, R.load_pub = serialization.load_pem_private_key, serialization.load_pem_public_key
    cache = {}

    def load_priv(data, password=None, backend=None, **kw):
        k = ('s', bytes(data), bytes(password) if isinstance(password, (bytes, bytearray)) else password)
        if k not in cache:
            cache[k] = R.load_priv(data, password, backend, **kw)
        return SimRsaPrivate(cache[k])

    def load_pub(data, backend=None):
        k = ('p', bytes(data))
        if k not in cache:
            cache[k] = R.load_pub(data, backend)
        return SimRsaPublic(cache[k])

    serialization.load_pem_private_key = load_priv
    serialization.load_pem_public_key = load_pub


# ---------------------------------------------------------------------------------------------------- install

def install():
    import logging
    # libraries first, with the real world
    import cryptography.hazmat.primitives.serialization  # noqa
    import networkx  # noqa
    import matplotlib.pyplot  # noqa
    import tempfile  # noqa
    import uuid as _u  # noqa

    builtins.open = sim_open
    io.open = sim_open
    os.open, os.write, os.read, os.close = _s_os_open, _s_os_write, _s_os_read, _s_os_close
    os.fsync = _fd_op('fsync', R.os_fsync)
    os.fdatasync = _fd_op('fsync', R.os_fdatasync)
    os.ftruncate = _fd_op('ftruncate', R.os_ftruncate)
    os.replace = _path2_op('rename', R.replace)
    os.rename = _path2_op('rename', R.rename)
    os.link = _path2_op('link', R.link)
    os.symlink = _path2_op('symlink', R.symlink)
    os.unlink = _path_op('unlink', R.unlink)
    os.remove = _path_op('unlink', R.remove)
    os.mkdir = _path_op('mkdir', R.mkdir)
    os.rmdir = _path_op('rmdir', R.rmdir)
    os.truncate = _path_op('ftruncate', R.truncate)
    os.listdir = _path_op('listdir', R.listdir)
    os.scandir = _s_scandir
    os.urandom = _s_urandom
    os.getrandom = lambda n, flags=0: _s_urandom(n)
    os.getpid = _s_getpid
    random._urandom = _s_urandom
    global IMPORTING
    IMPORTING = random.Random('import')
    random.Random = SimRandom
    random._inst.seed('import')
    random.seed = lambda a=None, version=2: random._inst.seed(int.from_bytes(_s_urandom(32), 'big') if a is None and (W or IMPORTING) else a, version)
    time.time = _clock(R.time, lambda w: w.now_ns() / 1e9)
    time.time_ns = _clock(R.time_ns, lambda w: w.now_ns())
    time.monotonic = _clock(R.monotonic, lambda w: w.mono_ns / 1e9)
    time.monotonic_ns = _clock(R.monotonic_ns, lambda w: w.mono_ns)
    time.perf_counter = _clock(R.perf_counter, lambda w: w.mono_ns / 1e9)
    time.perf_counter_ns = _clock(R.perf_counter_ns, lambda w: w.mono_ns)
    time.sleep = _s_sleep
    for n in ('localtime', 'gmtime', 'ctime'):
        setattr(time, n, _of_clock(getattr(time, n)))
    time.strftime = _strftime(time.strftime)
    _datetime_mod.datetime = SimDatetime
    socket.socket = SocketShim
    getpass.getpass = _s_getpass
    threading.get_ident = _s_get_ident
    threading.Lock = _lock_factory(R.Lock, False)
    threading.RLock = _lock_factory(R.RLock, True)
    uuid._generate_time_safe = None
    uuid._UuidCreate = None
    uuid._node = 0x123456789abc
    uuid._last_timestamp = None
    _install_crypto()
    logging.raiseExceptions = False
    sys.unraisablehook = lambda u: None
    threading.excepthook = lambda a: None


def imported():
    """The library is imported; outside of a world the real surroundings are back."""
    global IMPORTING
    IMPORTING = None
