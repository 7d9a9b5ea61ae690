"""The I/O seam: every file, directory and standard-stream operation of the
code under test goes through here as a numbered event, at which the plan can
delay (switch to another simulated process), shorten, fail, corrupt, interrupt
or kill.  Files live in a scratch directory; nothing outside it can be
written."""

import atexit
import builtins
import errno
import fcntl
import io
import os
import random
import signal
import sys
import tempfile
import threading
import time
from collections import Counter

from . import sched as S

_real = {n: getattr(os, n) for n in (
    "stat", "lstat", "open", "close", "read", "write", "fsync", "fdatasync",
    "replace", "rename", "remove", "unlink", "truncate", "ftruncate", "mkdir",
    "rmdir", "link", "symlink", "chmod", "utime", "sendfile", "access", "dup2",
    "dup", "isatty", "_exit", "urandom", "fstat")}
_real_open = io.open
_real_flock = fcntl.flock
_real_lockf = fcntl.lockf

world = None

MAX_EVENTS = 1000000


class SimCrash(BaseException):
    """The simulated process was killed."""


def _oserr(code, path):
    e = getattr(errno, code)
    return OSError(e, os.strerror(e), path)


class Fault:
    """cat: event category it applies to ('any' for all); at: index among
    those events; kind: what happens; sticky: every later such event on the
    same path fails too."""
    __slots__ = ("cat", "at", "kind", "sticky", "arg", "fired", "path", "pid",
                 "who")

    def __init__(self, cat, at, kind, sticky=False, arg=0, pid=0):
        self.cat = cat
        self.at = at
        self.kind = kind
        self.sticky = sticky
        self.arg = arg
        self.fired = 0
        self.path = None
        self.pid = pid
        self.who = []           # the task at each hit


class Proc:
    """One simulated process (or the library user's process)."""

    def __init__(self, world, pid=0, faults=(), rchunk=None, wchunk=None):
        self.world = world
        self.pid = pid
        self.faults = list(faults)
        self.rchunk = rchunk
        self.wchunk = wchunk
        self.nr = self.nw = 0
        self.counts = Counter()
        self.nevents = 0
        self.dead = False
        self.over = False
        self.handles = {}
        self.out = None
        self.fired = Counter()
        self.hard = False       # an error, corruption or interrupt happened
        self.streams = {}       # 1, 2 -> StreamRaw
        self.handlers = {}      # signal dispositions set by the code
        self.atexit = []
        self.exited = None      # status given to os._exit
        self.signalled = None

    def chunk(self, sizes, k):
        """The size of transfer k.  Large files in tiny pieces would only
        repeat themselves, so after many transfers the pieces get larger."""
        n = sizes[k % len(sizes)]
        return n if k < 20000 else max(n, 509)


class World:
    def __init__(self, root, sched=None):
        self.root = root
        self.sched = sched
        self.proc = None
        self.events = 0
        self.log = []
        self.escapes = []
        self.track = None
        self.versions = []
        self.max_events = MAX_EVENTS
        self.total = Counter()
        self.simtime = 0.0
        self.fds = {}

    # -- events
    def event(self, cat, path, size=0):
        """Returns a Fault to be carried out by the caller, or None."""
        p = self.proc
        if p is None or p.over:
            return None
        if p.dead:
            raise SimCrash()
        if self.sched is not None:
            self.sched.point()
            p = self.proc
        self.events += 1
        self.simtime += 1e-3
        k = p.nevents
        if k > self.max_events:
            raise S.SimHang("I/O event budget exhausted")
        p.nevents += 1
        c = p.counts[cat]
        p.counts[cat] += 1
        self.total[cat] += 1
        rel = self.rel(path)
        self.log.append((p.pid, cat, rel))
        hit = None
        for f in p.faults:
            if f.cat == "any":
                if f.at == k:
                    hit = f
            elif f.cat == cat:
                if (f.at == c and not f.fired) or \
                        (f.fired and f.sticky and f.path == rel):
                    hit = f
            if hit:
                break
        if hit is None:
            return None
        hit.fired += 1
        hit.path = rel
        if self.sched is not None and self.sched.cur is not None:
            hit.who.append(self.sched.cur.idx)
        p.fired["%s:%s" % (hit.cat, hit.kind)] += 1
        self.log.append((p.pid, "FAULT", hit.kind, rel))
        if hit.kind not in ("short", "EINTR"):
            p.hard = True
        if hit.kind == "kill":
            self.kill(p)
            raise SimCrash()
        # the interpreter delivers a signal during read() or write() only if
        # the call did not complete
        if hit.kind == "intr" or hit.kind == "intr_after" and \
                cat in ("read", "write", "out", "err"):
            self.interrupt(p)
            return None
        if hit.kind == "nomem":
            raise MemoryError()
        if hit.kind in ("kill_after", "torn", "short", "corrupt", "lost",
                        "intr_after"):
            return hit
        if hit.kind == "EPIPE" and \
                p.handlers.get(signal.SIGPIPE) == signal.SIG_DFL:
            p.signalled = signal.SIGPIPE
            self.kill(p)
            raise SimCrash()
        raise _oserr(hit.kind, rel)

    def interrupt(self, p):
        """SIGINT arrives; returns if the code under test handles or ignores
        it (the interrupted call is then carried out)."""
        h = p.handlers.get(signal.SIGINT, signal.default_int_handler)
        if h == signal.SIG_IGN:
            return
        if h == signal.SIG_DFL:
            p.signalled = signal.SIGINT
            self.kill(p)
            raise SimCrash()
        if h is signal.default_int_handler:
            raise KeyboardInterrupt()
        h(signal.SIGINT, None)

    def async_interrupt(self):
        """The same from the trace hook: the exception to raise, or None."""
        p = self.proc
        if p is None or p.over:
            return KeyboardInterrupt()
        try:
            self.interrupt(p)
        except BaseException as e:
            return e
        return None

    def after(self, f):
        """Second half of faults that act once the call was carried out."""
        if self.track:
            self.note()
        if f is None:
            return
        p = self.proc
        if f.kind == "kill_after":
            self.kill(p)
            raise SimCrash()
        if f.kind == "intr_after":
            self.interrupt(p)

    def note(self):
        try:
            with _real_open(os.path.join(self.root, self.track), "rb") as f:
                data = f.read()
        except OSError:
            data = None
        if not self.versions or self.versions[-1][1] != data:
            self.versions.append((self.events, data))

    def kill(self, p):
        p.dead = True
        for h in list(p.handles.values()):
            h._die()

    def rel(self, path):
        if isinstance(path, int):
            return "<fd>"
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        path = str(path)
        if path.startswith(self.root + "/"):
            return path[len(self.root) + 1:]
        return path

    def inside(self, path):
        if isinstance(path, int):
            return path in self.fds
        try:
            path = os.fspath(path)
        except TypeError:
            return False
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if path.startswith("/"):
            full = os.path.normpath(path)
        else:
            full = os.path.normpath(os.path.join(self.root, path))
        return full.startswith(self.root + "/") or full == self.root

    def open_handles(self):
        p = self.proc
        return sorted(h.path for h in p.handles.values())


class FaultRaw(io.RawIOBase):
    def __init__(self, path, fio, proc, w):
        self.path = w.rel(path)
        self.fio = fio
        self.proc = proc
        self.w = w
        self.name = path if not isinstance(path, int) else fio.name
        self._dead = False
        self.written = 0
        proc.handles[id(self)] = self

    @property
    def mode(self):
        return self.fio.mode

    def readable(self):
        return self.fio.readable()

    def writable(self):
        return self.fio.writable()

    def seekable(self):
        return self.fio.seekable()

    def isatty(self):
        return False

    def fileno(self):
        return self.fio.fileno()

    def seek(self, pos, whence=0):
        return self.fio.seek(pos, whence)

    def tell(self):
        return self.fio.tell()

    def truncate(self, size=None):
        if self._dead:
            return 0
        f = self.w.event("meta", self.path)
        r = self.fio.truncate(size)
        self.w.after(f)
        return r

    def readinto(self, b):
        if self._dead:
            raise SimCrash()
        f = self.w.event("read", self.path, len(b))
        n = len(b)
        if self.proc.rchunk:
            n = min(n, self.proc.chunk(self.proc.rchunk, self.proc.nr))
            self.proc.nr += 1
        if f is not None and f.kind == "short":
            n = min(n, max(1, f.arg))
        data = self.fio.read(max(1, n))
        if data is None:
            data = b""
        if f is not None and f.kind == "corrupt" and data:
            k = int(f.arg * len(data)) % len(data)
            data = data[:k] + b"\xff" + data[k + 1:]
        elif f is not None and f.kind == "corrupt":
            f.fired -= 1        # end of file: nothing to corrupt
            if not f.fired:
                f.at = -1
            self.proc.fired["read:corrupt"] -= 1
        b[:len(data)] = data
        self.w.after(f)
        return len(data)

    def write(self, b):
        if self._dead or self.proc.over:
            return len(b)
        data = bytes(b)
        f = self.w.event("write", self.path, len(data))
        n = len(data)
        if self.proc.wchunk:
            n = min(n, self.proc.chunk(self.proc.wchunk, self.proc.nw))
            self.proc.nw += 1
        if f is not None and f.kind == "short":
            n = min(n, max(1, f.arg))
        if f is not None and f.kind == "torn":
            n = min(n, int(f.arg * (n + 1)))
            if n:
                self.fio.write(data[:n])
            if self.w.track:
                self.w.note()
            self.w.kill(self.proc)
            raise SimCrash()
        n = self.fio.write(data[:max(1, n)])
        self.written += n
        self.w.after(f)
        return n

    def _forget_fd(self):
        try:
            self.w.fds.pop(self.fio.fileno(), None)
        except ValueError:
            pass

    def _die(self):
        self._dead = True
        self.proc.handles.pop(id(self), None)
        self._forget_fd()
        try:
            self.fio.close()
        except OSError:
            pass

    def close(self):
        if self.closed:
            return
        self.proc.handles.pop(id(self), None)
        self._forget_fd()
        try:
            if self._dead or self.proc.over or self.proc.dead:
                return
            f = self.w.event("close", self.path)
            if f is not None and f.kind == "lost":
                # the tail of what was written did not reach the disk
                if self.fio.writable() and self.written:
                    size = os.fstat(self.fio.fileno()).st_size
                    gone = min(self.written,
                               1 + int(f.arg * self.written))
                    self.fio.truncate(max(0, size - gone))
                    if self.w.track:
                        self.w.note()
                raise _oserr("EIO", self.path)
            self.fio.close()
            self.w.after(f)
        finally:
            try:
                self.fio.close()
            except OSError:
                pass
            super().close()


class StreamRaw(io.RawIOBase):
    """stdout or stderr of a simulated process, as a pipe."""

    def __init__(self, proc, w, cat):
        self.proc = proc
        self.w = w
        self.cat = cat
        self.data = bytearray()
        self.fd = 1 if cat == "out" else 2
        self.name = "<stdout>" if cat == "out" else "<stderr>"
        self.mode = "wb"
        self.null = False           # redirected to /dev/null by dup2
        self.target = None          # redirected to the other stream
        proc.streams[self.fd] = self

    def writable(self):
        return True

    def fileno(self):
        return self.fd

    def isatty(self):
        return False

    def write(self, b):
        if self.proc.dead or self.proc.over:
            return len(b)
        data = bytes(b)
        if self.null:
            return len(data)
        if self.target is not None:
            return self.target.write(data)
        f = self.w.event(self.cat, "<%s>" % self.cat, len(data))
        n = len(data)
        if self.proc.wchunk:
            n = min(n, self.proc.chunk(self.proc.wchunk, self.proc.nw))
            self.proc.nw += 1
        if f is not None and f.kind == "short":
            n = min(n, max(1, f.arg))
        if f is not None and f.kind == "torn":
            self.data += data[:int(f.arg * (n + 1))]
            self.w.kill(self.proc)
            raise SimCrash()
        self.data += data[:n]
        self.w.after(f)
        return n


class StreamAlias(io.RawIOBase):
    """A second file object on stdout or stderr."""

    def __init__(self, raw):
        self.raw_ = raw
        self.name = raw.fd

    def writable(self):
        return True

    def fileno(self):
        return self.raw_.fd

    def write(self, b):
        return self.raw_.write(b)


def _mode_flags(mode):
    return any(c in mode for c in "wax+")


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    w = world
    p = w.proc if w else None
    if p is not None and isinstance(file, int) and file in p.streams:
        raw = StreamAlias(p.streams[file])
        if buffering == 0:
            return raw
        buf = io.BufferedWriter(raw, buffering if buffering > 1 else 8192)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline,
                                buffering == 1)
    if w is None or p is None or not w.inside(file):
        if w is not None and p is not None and _mode_flags(mode) and \
                not isinstance(file, int) and \
                str(file) not in ("/dev/null", os.devnull):
            w.escapes.append(str(file))
            raise PermissionError(errno.EACCES, "outside the scratch area",
                                  str(file))
        return _real_open(file, mode, buffering, encoding, errors, newline,
                          closefd, opener)
    if not isinstance(file, int):
        file = os.fspath(file)
        if isinstance(file, bytes):
            file = os.fsdecode(file)
    binary = "b" in mode
    rawmode = mode.replace("b", "").replace("t", "").replace("U", "")
    if not binary and encoding is None:
        encoding = "utf-8"
    if binary and (encoding is not None or errors is not None or
                   newline is not None):
        raise ValueError("binary mode doesn't take an encoding argument")
    if isinstance(file, int):
        f = None
        fio = io.FileIO(file, rawmode, closefd)
        raw = FaultRaw(w.fds[file], fio, p, w)
    else:
        f = w.event("open", file)
        if f is not None and f.kind == "torn":
            f.kind = "kill_after"
        fio = io.FileIO(file, rawmode, closefd, opener)
        raw = FaultRaw(file, fio, w.proc, w)
        try:
            w.after(f)
        except BaseException:
            raw._die()
            raise
    if "a" in rawmode:
        try:
            fio.seek(0, 2)
        except OSError:
            pass
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    bs = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if "+" in rawmode:
        buf = io.BufferedRandom(raw, bs)
    elif rawmode[0] in "wax":
        buf = io.BufferedWriter(raw, bs)
    else:
        buf = io.BufferedReader(raw, bs)
    if binary:
        return buf
    t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    t.mode = mode
    return t


def _path_call(name, nargs=1, cat="meta"):
    real = _real[name]

    def call(*args, **kw):
        w = world
        if w is None or w.proc is None:
            return real(*args, **kw)
        paths = args[:nargs]
        ins = [w.inside(a) for a in paths]
        if not any(ins):
            if cat == "stat":
                return real(*args, **kw)
            w.escapes.append(" ".join(str(a) for a in paths))
            raise PermissionError(errno.EACCES, "outside the scratch area",
                                  str(paths[0]))
        f = w.event(cat, paths[0])
        if f is not None and f.kind == "torn":
            f.kind = "kill_after"
        r = real(*args, **kw)
        w.after(f)
        return r
    call.__name__ = name
    return call


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    w = world
    if w is None or w.proc is None or not w.inside(path):
        if w is not None and w.proc is not None and \
                path != os.devnull and \
                flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            w.escapes.append(str(path))
            raise PermissionError(errno.EACCES, "outside the scratch area",
                                  str(path))
        return _real["open"](path, flags, mode, dir_fd=dir_fd)
    f = w.event("open", path)
    fd = _real["open"](path, flags, mode, dir_fd=dir_fd)
    w.fds[fd] = w.rel(path)
    w.after(f)
    return fd


def _fd_call(name, cat):
    real = _real[name]

    def call(fd, *args):
        w = world
        if w is not None and w.proc is not None and fd in w.proc.streams:
            st = w.proc.streams[fd]
            if name == "write":
                return st.write(args[0])
            if name == "close":
                st.null = True
                return None
            if name in ("fsync", "fdatasync", "ftruncate", "read"):
                raise OSError(errno.EINVAL, "Invalid argument")
        if w is None or w.proc is None or fd not in w.fds:
            return real(fd, *args)
        if w.proc.dead:
            raise SimCrash()
        f = w.event(cat, w.fds[fd])
        if name == "write" and f is not None and f.kind in ("short", "torn"):
            data = bytes(args[0])
            n = int(f.arg * (len(data) + 1)) if f.kind == "torn" else \
                max(1, min(len(data), int(f.arg) or 1))
            if n:
                real(fd, data[:n])
            if f.kind == "torn":
                w.kill(w.proc)
                raise SimCrash()
            return n
        if name == "read" and f is not None and f.kind == "short":
            return real(fd, 1)
        r = real(fd, *args)
        if name == "close":
            w.fds.pop(fd, None)
        w.after(f)
        return r
    return call


def sim_sendfile(*a, **k):
    if world is None or world.proc is None:
        return _real["sendfile"](*a, **k)
    raise OSError(errno.EINVAL, "sendfile not supported")


def sim_dup2(fd, fd2, inheritable=True):
    w = world
    if w is None or w.proc is None or fd2 not in w.proc.streams:
        return _real["dup2"](fd, fd2, inheritable)
    if fd in w.proc.streams:
        if fd != fd2:
            w.proc.streams[fd2].target = w.proc.streams[fd]
    else:
        w.proc.streams[fd2].null = True
    return fd2


def sim_isatty(fd):
    w = world
    if w is not None and w.proc is not None and fd in (0, 1, 2):
        return False
    return _real["isatty"](fd)


def sim_exit(status):
    w = world
    if w is None or w.proc is None:
        _real["_exit"](status)
    w.proc.exited = status & 0xff
    w.kill(w.proc)
    raise SimCrash()


_urandom = random.Random(0)


def sim_urandom(n):
    if world is None or world.proc is None:
        return _real["urandom"](n)
    return _urandom.randbytes(n)


_real_signal = signal.signal
_real_getsignal = signal.getsignal


def sim_signal(num, handler):
    w = world
    if w is None or w.proc is None:
        return _real_signal(num, handler)
    old = sim_getsignal(num)
    w.proc.handlers[num] = handler
    return old


def sim_getsignal(num):
    w = world
    if w is None or w.proc is None:
        return _real_getsignal(num)
    if num in w.proc.handlers:
        return w.proc.handlers[num]
    if num == signal.SIGINT:
        return signal.default_int_handler
    return signal.SIG_IGN if num == signal.SIGPIPE else signal.SIG_DFL


_real_register = atexit.register


def sim_atexit(fn, *a, **k):
    w = world
    if w is None or w.proc is None:
        return _real_register(fn, *a, **k)
    w.proc.atexit.append((fn, a, k))
    return fn


def _sim_lock(real):
    def call(fd, op, *rest):
        w = world
        if w is None or w.sched is None or op & fcntl.LOCK_NB or \
                op & fcntl.LOCK_UN:
            return real(fd, op, *rest)
        box = []

        def ready():
            try:
                real(fd, op | fcntl.LOCK_NB, *rest)
            except OSError:
                return False
            box.append(1)
            return True
        if ready():
            return None
        w.sched.block(lambda: bool(box) or ready())
        return None
    return call


# ---- patching --------------------------------------------------------------

_orig = {}
_clock = [1.7e9]


def _sleep(seconds):
    _clock[0] += max(0.0, float(seconds))
    if world is not None:
        world.simtime += max(0.0, float(seconds))
    if S.current is not None:
        S.current.point()


def _tick():
    _clock[0] += 1e-6
    return _clock[0]


def install():
    """Put the seams in place (once per worker process)."""
    if _orig:
        return
    _orig["done"] = True
    builtins.open = sim_open
    io.open = sim_open
    for n in ("stat", "lstat", "access"):
        setattr(os, n, _path_call(n, 1, "stat"))
    for n in ("remove", "unlink", "truncate", "mkdir", "rmdir", "chmod",
              "utime"):
        setattr(os, n, _path_call(n))
    for n in ("replace", "rename", "link", "symlink"):
        setattr(os, n, _path_call(n, 2))
    os.open = sim_os_open
    for n, c in (("read", "read"), ("write", "write"), ("close", "close"),
                 ("fsync", "meta"), ("fdatasync", "meta"),
                 ("ftruncate", "meta")):
        setattr(os, n, _fd_call(n, c))
    os.sendfile = sim_sendfile
    os.dup2 = sim_dup2
    os.isatty = sim_isatty
    os._exit = sim_exit
    os.urandom = sim_urandom
    signal.signal = sim_signal
    signal.getsignal = sim_getsignal
    atexit.register = sim_atexit
    fcntl.flock = _sim_lock(_real_flock)
    fcntl.lockf = _sim_lock(_real_lockf)


def _names(seed):
    r = random.Random(seed)
    while True:
        yield "".join(r.choice("abcdefghijklmnopqrstuvwxyz0123456789_")
                      for _ in range(8))


class patched:
    """Locks, clocks and randomness behind the simulator during one run."""

    def __init__(self, seed):
        self.seed = seed

    def __enter__(self):
        self.saved = (threading.Lock, threading.RLock, time.sleep, time.time,
                      time.monotonic, time.perf_counter, sys.stdout,
                      sys.stderr, sys.argv, sys.stdin,
                      threading._allocate_lock)
        threading.Lock = S.SimLock
        threading.RLock = S.SimRLock
        threading._allocate_lock = S.SimLock
        time.sleep = _sleep
        _clock[0] = 1.7e9
        time.time = time.monotonic = time.perf_counter = _tick
        random.seed(self.seed)
        _urandom.seed(self.seed)
        tempfile._name_sequence = _names(self.seed)
        tempfile.tempdir = "/tmp"
        return self

    def __exit__(self, *a):
        (threading.Lock, threading.RLock, time.sleep, time.time,
         time.monotonic, time.perf_counter, sys.stdout, sys.stderr, sys.argv,
         sys.stdin, threading._allocate_lock) = self.saved
        tempfile._name_sequence = tempfile.tempdir = None
        return False
