"""The seam: routes everything a process does through the simulated kernel.

`install()` must run before other stdlib modules are imported, because some of them capture
os functions at import time. While no simulated process is current (CUR.proc is None) every
call goes to the real function, so the harness itself is unaffected.
"""
import builtins
import errno
import io
import os
import sys
import time

from .kernel import HarnessError, ProcessExit, ProcessKilled, oserr


class _Cur:
    proc = None
    kernel = None


CUR = _Cur()
REAL = {}
VIRTUAL = [None]     # clock and random bytes for calls outside simulated processes
_PASS = ("/usr/", "/opt/", "/lib", "/verif/", "/repo/", "/etc/", "/proc/", "/sys/", "/dev/urandom", "/dev/null")


def _passthrough(path):
    try:
        p = os.fspath(path)
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return isinstance(p, str) and p.startswith(_PASS)


def _is_sim_fd(fd):
    return isinstance(fd, int) and fd >= 100000


class SimRaw(io.RawIOBase):
    """Raw file object over a simulated descriptor (FileIO's counterpart)."""

    def __init__(self, proc, kernel, fd, name, mode, closefd=True):
        self._p, self._k, self._fd = proc, kernel, fd
        self.name = name
        self._mode = mode
        self._closefd = closefd
        self._r = "r" in mode or "+" in mode
        self._w = any(c in mode for c in "wax+")

    def __repr__(self):
        return f"<simfile name={self.name!r}>"

    @property
    def mode(self):
        return {"r": "rb", "w": "wb", "a": "ab", "x": "xb"}[self._mode.replace("b", "")[0]] + (
            "+" if "+" in self._mode else "")

    @property
    def closefd(self):
        return self._closefd

    def _alive(self):
        if self._p.dead:
            raise ProcessKilled()
        if self._p.finished:
            raise oserr(errno.EBADF)

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def isatty(self):
        return False

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def readinto(self, b):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        self._alive()
        if not self._r:
            raise io.UnsupportedOperation("File not open for reading")
        d = self._k.read(self._p, self._fd, len(b))
        b[:len(d)] = d
        return len(d)

    def readall(self):
        out = bytearray()
        while True:
            self._alive()
            d = self._k.read(self._p, self._fd, 65536)
            if not d:
                return bytes(out)
            out += d

    def write(self, b):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        self._alive()
        if not self._w:
            raise io.UnsupportedOperation("File not open for writing")
        return self._k.write(self._p, self._fd, b)

    def seek(self, off, whence=0):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        self._alive()
        return self._k.lseek(self._p, self._fd, off, whence)

    def tell(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        self._alive()
        return self._k.lseek(self._p, self._fd, 0, 1)

    def truncate(self, size=None):
        self._alive()
        if size is None:
            size = self.tell()
        self._k.ftruncate(self._p, self._fd, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            if self._closefd and not self._p.dead and not self._p.finished:
                self._k.close(self._p, self._fd)


class SimStd(io.RawIOBase):
    def __init__(self, proc, kernel, fd):
        self._p, self._k, self._fd = proc, kernel, fd
        self.name = {1: "<stdout>", 2: "<stderr>"}[fd]

    def fileno(self):
        return self._fd

    def isatty(self):
        return self._p.tty

    def writable(self):
        return True

    def write(self, b):
        if self._p.dead:
            raise ProcessKilled()
        if self._p.finished:
            return len(b)
        try:
            return self._k.write_std(self._p, self._fd, b)
        except BlockingIOError:
            return None                  # what FileIO makes of EAGAIN


def std_stream(proc, kernel, fd):
    enc = proc.spec.get("outenc", "utf-8")
    if fd == 2:
        return io.TextIOWrapper(SimStd(proc, kernel, 2), encoding=enc, errors="backslashreplace",
                                write_through=True)
    buf = io.BufferedWriter(SimStd(proc, kernel, 1), proc.spec.get("outbuf", 8192))
    return io.TextIOWrapper(buf, encoding=enc, errors="strict", line_buffering=proc.tty)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    p, k = CUR.proc, CUR.kernel
    if p is None:
        return REAL["io.open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not isinstance(file, int):
        file = os.fspath(file)
    if not isinstance(file, (str, bytes, int)):
        raise TypeError("invalid file: %r" % file)
    if not isinstance(file, int) and file != os.devnull and _passthrough(file) and "w" not in mode and "a" not in mode \
            and "+" not in mode and "x" not in mode:
        return REAL["io.open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    modes = set(mode)
    if modes - set("axrwb+t") or len(mode) > len(modes):
        raise ValueError("invalid mode: %r" % mode)
    binary = "b" in modes
    if binary and "t" in modes:
        raise ValueError("can't have text and binary mode at once")
    if len(modes & set("rwax")) != 1:
        raise ValueError("must have exactly one of create/read/write/append mode")
    if binary and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    if binary and errors is not None:
        raise ValueError("binary mode doesn't take an errors argument")
    if binary and newline is not None:
        raise ValueError("binary mode doesn't take a newline argument")
    updating = "+" in modes
    rmode = ("r" if "r" in modes else "w" if "w" in modes else "a" if "a" in modes else "x")
    flags = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
             "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND,
             "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL}[rmode]
    if updating:
        flags = (flags & ~3) | os.O_RDWR
    flags |= os.O_CLOEXEC
    owned = None
    if isinstance(file, int):
        if not _is_sim_fd(file):
            raise HarnessError("open() of a real descriptor inside the simulation")
        fd = file
        k._of(p, fd)
    else:
        if opener is not None:
            fd = opener(file, flags)
        else:
            if not closefd:
                raise ValueError("Cannot use closefd=False with file name")
            fd = k.open(p, file, flags, 0o666)
        owned = fd
    try:
        st = k.fstat(p, fd)          # FileIO's own fstat (directory check, block size)
        if (st.st_mode & 0o170000) == 0o040000:
            raise oserr(errno.EISDIR, file if not isinstance(file, int) else None)
        raw = SimRaw(p, k, fd, file, rmode + ("+" if updating else ""), closefd)
    except BaseException:
        if owned is not None and not p.dead and owned in p.fds:
            p.fds.pop(owned)
        raise
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        line_buffering = buffering == 1 and not binary
        size = p.bufsize if buffering in (-1, 1) else buffering
        if updating:
            buf = io.BufferedRandom(raw, size)
        elif rmode == "r":
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if binary:
            return buf
        if encoding is None or encoding == "locale":
            encoding = p.locale
        text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
        text._CHUNK_SIZE = p.chunk
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


class DirEntry:
    __slots__ = ("name", "path", "_n", "_k", "_p", "_canon")

    def __init__(self, k, p, dirpath, name, node, canon):
        self.name = name
        if isinstance(dirpath, int):
            self.path = name
        elif isinstance(dirpath, bytes):
            self.name = os.fsencode(name)
            self.path = os.path.join(dirpath, self.name)
        else:
            self.path = os.path.join(dirpath, name)
        self._n, self._k, self._p = node, k, p
        self._canon = canon + "/" + name

    def __fspath__(self):
        return self.path

    def __repr__(self):
        return f"<DirEntry {self.name!r}>"

    def inode(self):
        return self._n.st_ino

    def is_symlink(self):
        return self._n.kind == "l"

    def _target(self, follow):
        if self._n.kind == "l" and follow:
            try:
                return self._k._resolve(self._p, self._canon, True)
            except OSError as e:
                if e.errno in (errno.ENOENT,):
                    return None
                raise oserr(e.errno, self.path) from None
        return self._n

    def is_dir(self, *, follow_symlinks=True):
        n = self._target(follow_symlinks)
        return n is not None and n.kind == "d"

    def is_file(self, *, follow_symlinks=True):
        n = self._target(follow_symlinks)
        return n is not None and n.kind == "f"

    def is_junction(self):
        return False

    def stat(self, *, follow_symlinks=True):
        return self._k.stat(self._p, self._canon, None, follow_symlinks)


class ScandirIter:
    def __init__(self, k, p, path):
        ents, canon = k.scandir_entries(p, path)
        self._it = iter(ents)
        self._a = (k, p, path, canon)
        self._i = 0
        self._open = True
        p.fds.scans += 1
        p.fds.note()

    def _end(self):
        if self._open:
            self._open = False
            self._a[1].fds.scans -= 1

    def __iter__(self):
        return self

    def __next__(self):
        k, p, path, canon = self._a
        if not self._open:
            raise StopIteration
        if self._i % 2 == 0:
            try:
                k.enter(p, "getdents", k.label(canon), path)
            except OSError:
                self._end()
                raise
        self._i += 1
        try:
            name, node = next(self._it)
        except StopIteration:
            self._end()
            raise
        return DirEntry(k, p, path, name, node, canon)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._end()

    def __del__(self):
        if getattr(self, "_open", False):
            self._end()


def _wrap_path(name, method):
    real = getattr(os, name)
    REAL[name] = real

    def f(*a, **kw):
        p = CUR.proc
        if p is None:
            return real(*a, **kw)
        if a and isinstance(a[0], (str, bytes, os.PathLike)) and _passthrough(a[0]) and not (
                name == "open" and a[0] == os.devnull):
            if name in ("stat", "lstat", "access", "readlink", "listdir", "scandir") or (
                    name == "open" and len(a) > 1 and (a[1] & 3) == os.O_RDONLY):
                return real(*a, **kw)
            raise oserr(errno.EACCES, a[0])
        return method(CUR.kernel, p, *a, **kw)
    f.__name__ = name
    setattr(os, name, f)
    for s in (os.supports_dir_fd, os.supports_fd, os.supports_follow_symlinks,
              os.supports_effective_ids):
        if real in s:
            s.add(f)
    return f


def _wrap_fd(name, method):
    real = getattr(os, name)
    REAL[name] = real

    def f(fd, *a, **kw):
        p = CUR.proc
        if p is None:
            return real(fd, *a, **kw)
        if not _is_sim_fd(fd):
            if fd in (1, 2) and name == "write":
                return CUR.kernel.write_std(p, fd, *a)
            if name == "isatty":
                return p.tty
            raise oserr(errno.EBADF)
        return method(CUR.kernel, p, fd, *a, **kw)
    f.__name__ = name
    setattr(os, name, f)
    return f


def _readv(k, p, fd, bufs):
    n = 0
    for b in bufs:
        d = k.read(p, fd, len(b))
        b[:len(d)] = d
        n += len(d)
        if len(d) < len(b):
            break
    return n


def deliver(p, sig):
    raise HarnessError("the seam is not installed")


def install_datetime():
    import datetime as D

    class date(D.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(time.time())

    class datetime(D.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(time.time(), tz)

        @classmethod
        def today(cls):
            return cls.fromtimestamp(time.time())

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(time.time(), D.timezone.utc).replace(tzinfo=None)
    D.date, D.datetime = date, datetime


_CHANGES = ("os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.chmod", "os.chown", "os.chflags", "os.link",
            "os.symlink", "os.truncate", "os.utime", "os.setxattr", "os.removexattr", "os.kill", "os.killpg", "os.fork",
            "os.forkpty", "os.exec", "os.posix_spawn", "os.spawn", "os.system", "os.chdir", "os.fchdir", "os.lockf",
            "subprocess.", "socket.", "pty.", "_posixsubprocess.", "fcntl.", "signal.pthread_kill",
            "syslog.", "resource.setrlimit", "ctypes.dlopen")
_WRITES = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _contain(event, args):
    """Nothing a simulated process does may change the real system: what is not simulated is refused."""
    if CUR.proc is None:
        return
    if event == "open":
        mode, flags = (args + (None, None))[1:3]
        if not (isinstance(flags, int) and flags & _WRITES or isinstance(mode, str) and set(mode) & set("wax+")):
            return
    elif not event.startswith(_CHANGES):
        return
    raise HarnessError("refused: %s%r is not simulated" % (event, tuple(repr(a)[:80] for a in args[:3])))


def install():
    if REAL:
        return
    sys.addaudithook(_contain)
    REAL["io.open"] = io.open
    builtins.open = sim_open
    io.open = sim_open
    import tokenize
    tokenize._builtin_open = sim_open
    from .kernel import Kernel as K

    _wrap_path("stat", lambda k, p, path, *, dir_fd=None, follow_symlinks=True:
               k.stat(p, path, dir_fd, follow_symlinks))
    _wrap_path("lstat", lambda k, p, path, *, dir_fd=None: k.stat(p, path, dir_fd, False))
    _wrap_path("open", lambda k, p, path, flags, mode=0o777, *, dir_fd=None:
               k.open(p, path, flags, mode, dir_fd))
    _wrap_path("access", lambda k, p, path, mode, **kw: k.access(p, path, mode, **{
        x: y for x, y in kw.items() if x != "effective_ids"}))
    _wrap_path("readlink", lambda k, p, path, *, dir_fd=None: k.readlink(p, path, dir_fd))
    for nm in ("rename", "replace"):
        _wrap_path(nm, lambda k, p, s, d, *, src_dir_fd=None, dst_dir_fd=None:
                   k.rename(p, s, d, src_dir_fd, dst_dir_fd))
    for nm in ("unlink", "remove"):
        _wrap_path(nm, lambda k, p, path, *, dir_fd=None: k.unlink(p, path, dir_fd))
    _wrap_path("mkdir", lambda k, p, path, mode=0o777, *, dir_fd=None: k.mkdir(p, path, mode, dir_fd))
    _wrap_path("rmdir", lambda k, p, path, *, dir_fd=None: k.rmdir(p, path, dir_fd))
    _wrap_path("link", lambda k, p, s, d, **kw: k.link(p, s, d, **kw))
    _wrap_path("symlink", lambda k, p, s, d, target_is_directory=False, *, dir_fd=None:
               k.symlink(p, s, d, target_is_directory, dir_fd))
    _wrap_path("chmod", lambda k, p, path, mode, *, dir_fd=None, follow_symlinks=True:
               k.chmod(p, path, mode, dir_fd, follow_symlinks))
    _wrap_path("chown", lambda k, p, path, u, g, *, dir_fd=None, follow_symlinks=True:
               k.chown(p, path, u, g, dir_fd, follow_symlinks))
    _wrap_path("lchown", lambda k, p, path, u, g: k.chown(p, path, u, g, None, False))
    _wrap_path("utime", lambda k, p, path, times=None, *, ns=None, dir_fd=None,
               follow_symlinks=True: k.utime(p, path, times, ns, dir_fd, follow_symlinks))
    _wrap_path("truncate", lambda k, p, path, n: (k.ftruncate(p, path, n) if isinstance(path, int)
                                                   else k.truncate(p, path, n)))
    _wrap_path("chdir", lambda k, p, path: k.chdir(p, path))
    _wrap_path("scandir", lambda k, p, path=".": ScandirIter(k, p, "." if path is None else path))
    _wrap_path("listdir", lambda k, p, path=".": [e.name for e in ScandirIter(
        k, p, "." if path is None else path)])
    _wrap_fd("close", K.close)
    _wrap_fd("read", K.read)
    _wrap_fd("write", K.write)
    _wrap_fd("fsync", K.fsync)
    _wrap_fd("fdatasync", K.fsync)
    _wrap_fd("ftruncate", K.ftruncate)
    _wrap_fd("lseek", K.lseek)
    _wrap_fd("fstat", K.fstat)
    _wrap_fd("fchmod", K.fchmod)
    _wrap_fd("fchown", K.fchown)
    _wrap_fd("isatty", lambda k, p, fd: False)

    def simple(mod, name, fn):
        real = getattr(mod, name)
        REAL[name] = real

        def f(*a, **kw):
            if CUR.proc is None:
                return real(*a, **kw)
            return fn(CUR.kernel, CUR.proc, *a, **kw)
        f.__name__ = name
        setattr(mod, name, f)

    def timed(mod, name, fn):
        """For calls of the API outside simulated processes, the clock is VIRTUAL (if set)."""
        real = getattr(mod, name)
        REAL[name] = real

        def f(*a, **kw):
            if CUR.proc is not None:
                return fn(CUR.kernel, CUR.proc, *a, **kw)
            if VIRTUAL[0] is not None:
                return fn(VIRTUAL[0], None, *a, **kw)
            return real(*a, **kw)
        f.__name__ = name
        setattr(mod, name, f)

    def umask(k, p, m):
        old, p.umask = p.umask, m & 0o777
        return old

    def terminal(p, fd):
        if fd in p.fds or not p.tty:
            raise oserr(errno.ENOTTY)
        return os.terminal_size((100, 30))

    def nosys(k, p, *a, **kw):
        raise oserr(errno.ENOSYS)

    def notsup(k, p, *a, **kw):
        raise oserr(errno.ENOTSUP)

    def unsupported(name):
        def f(k, p, *a, **kw):
            raise HarnessError("os.%s is not simulated" % name)
        return f

    def sleep(k, p, s):
        k.clock += int(s * 1e9)

    simple(os, "getcwd", lambda k, p: p.cwd)
    simple(os, "getcwdb", lambda k, p: os.fsencode(p.cwd))
    simple(os, "umask", umask)
    for nm in ("putenv", "unsetenv"):
        simple(os, nm, lambda k, p, *a: None)
    simple(os, "get_terminal_size", lambda k, p, fd=1: terminal(p, fd))
    for nm, at in (("getuid", "uid"), ("geteuid", "uid"), ("getgid", "gid"), ("getegid", "gid"),
                   ("getpid", "pid")):
        simple(os, nm, lambda k, p, at=at: getattr(p, at))
    timed(os, "urandom", lambda k, p, n: bytes(k.rnd(256) for _ in range(n)))
    simple(os, "sync", lambda k, p: k.settle_all())
    for nm in ("sendfile", "copy_file_range", "posix_fallocate", "splice"):
        if hasattr(os, nm):
            simple(os, nm, nosys)
    for nm in ("getxattr", "setxattr", "listxattr", "removexattr"):
        simple(os, nm, notsup)
    for nm in ("fork", "system", "popen", "pipe", "mkfifo", "mknod", "killpg", "posix_spawn", "execv", "execve",
               "forkpty"):
        simple(os, nm, unsupported(nm))
    _wrap_fd("pread", K.pread)
    _wrap_fd("pwrite", K.pwrite)
    _wrap_fd("readv", lambda k, p, fd, bufs: _readv(k, p, fd, bufs))
    _wrap_fd("writev", lambda k, p, fd, bufs: k.write(p, fd, b"".join(bytes(b) for b in bufs)))
    _wrap_fd("dup", K.dup)
    _wrap_fd("dup2", K.dup2)
    _wrap_fd("set_inheritable", lambda k, p, fd, v: None)
    _wrap_fd("get_inheritable", lambda k, p, fd: False)
    _wrap_fd("set_blocking", lambda k, p, fd, v: None)
    _wrap_fd("posix_fadvise", lambda k, p, fd, *a: None)
    _wrap_fd("fstatvfs", lambda k, p, fd: k.statvfs(p, fd))
    _wrap_path("statvfs", lambda k, p, path: k.statvfs(p, path))

    def exit_now(k, p, code=0):
        raise ProcessExit(code & 0xFF)

    def kill(k, p, pid, sig):
        if pid != p.pid:
            raise oserr(errno.EPERM)
        _signal(p, sig)
    simple(os, "_exit", exit_now)
    simple(os, "abort", lambda k, p: exit_now(k, p, 134))
    simple(os, "kill", kill)
    import fcntl
    import signal

    def fileno(f):
        return f if isinstance(f, int) else f.fileno()
    simple(fcntl, "flock", lambda k, p, fd, op: k.flock(p, fileno(fd), op))
    simple(fcntl, "lockf", lambda k, p, fd, op, *a: k.flock(p, fileno(fd), op))
    simple(fcntl, "fcntl", lambda k, p, fd, cmd, arg=0: 0)

    def _signal(p, sig):
        h = p.signals.get(int(sig), signal.SIG_DFL if sig != signal.SIGINT else signal.default_int_handler)
        if h == signal.SIG_IGN:
            return
        if h == signal.SIG_DFL:
            raise ProcessExit(128 + int(sig))
        h(int(sig), sys._getframe(1))

    def setsig(k, p, sig, h):
        old = p.signals.get(int(sig), signal.default_int_handler if sig == signal.SIGINT else signal.SIG_DFL)
        p.signals[int(sig)] = h
        return old
    simple(signal, "signal", setsig)
    simple(signal, "getsignal", lambda k, p, sig: p.signals.get(
        int(sig), signal.default_int_handler if sig == signal.SIGINT else signal.SIG_DFL))
    simple(signal, "raise_signal", lambda k, p, sig: _signal(p, sig))
    simple(signal, "pthread_sigmask", lambda k, p, how, mask: set())
    simple(signal, "siginterrupt", lambda k, p, *a: None)
    for nm in ("alarm", "setitimer"):
        simple(signal, nm, lambda k, p, *a: 0)
    global deliver
    deliver = _signal
    import atexit

    def register(k, p, fn, *a, **kw):
        p.atexit.append((fn, a, kw))
        return fn
    simple(atexit, "register", register)
    simple(atexit, "unregister", lambda k, p, fn: p.atexit.__setitem__(
        slice(None), [x for x in p.atexit if x[0] != fn]))
    import locale
    for nm in ("getpreferredencoding", "getencoding"):
        simple(locale, nm, lambda k, p, *a: p.locale)

    class SimText(io.TextIOWrapper):
        def __init__(self, buffer, encoding=None, *a, **kw):
            if CUR.proc is not None and encoding in (None, "locale"):
                encoding = CUR.proc.locale
            super().__init__(buffer, encoding, *a, **kw)
    SimText.__name__ = SimText.__qualname__ = "TextIOWrapper"
    SimText.__module__ = "_io"
    io.TextIOWrapper = SimText

    class SimFileIO(io.FileIO):
        def __new__(cls, file, mode="r", closefd=True, opener=None):
            if CUR.proc is None:
                return super().__new__(cls, file, mode, closefd, opener)
            m = mode.replace("b", "")
            return sim_open(file, m[0] + "b" + m[1:], 0, closefd=closefd, opener=opener)
    SimFileIO.__name__ = SimFileIO.__qualname__ = "FileIO"
    io.FileIO = SimFileIO
    REAL["open_code"] = io.open_code
    io.open_code = lambda path: sim_open(path, "rb")

    # threads a process starts itself run at once and to their end: one of the legal schedules
    import concurrent.futures
    import threading
    real_start = threading.Thread.start

    def start(self):
        if CUR.proc is None:
            return real_start(self)
        self._started.set()
        try:
            self.run()
        except (ProcessKilled, ProcessExit, HarnessError):
            raise
        except BaseException as e:
            if not isinstance(e, SystemExit):
                print("Exception in thread: %s: %s" % (type(e).__name__, e), file=sys.stderr)
        finally:
            self._is_stopped = True
            self._tstate_lock = None
    threading.Thread.start = start

    def submit(self, fn, /, *a, **kw):
        if CUR.proc is None:
            return real_submit(self, fn, *a, **kw)
        fut = concurrent.futures.Future()
        fut.set_running_or_notify_cancel()
        try:
            fut.set_result(fn(*a, **kw))
        except (ProcessKilled, ProcessExit, HarnessError):
            raise
        except BaseException as e:
            fut.set_exception(e)
        return fut
    real_submit = concurrent.futures.ThreadPoolExecutor.submit
    concurrent.futures.ThreadPoolExecutor.submit = submit
    concurrent.futures.ProcessPoolExecutor.submit = submit
    timed(time, "time", lambda k, p: k.wall() / 1e9)
    timed(time, "time_ns", lambda k, p: k.wall())
    timed(time, "monotonic", lambda k, p: k.monotonic() / 1e9)
    timed(time, "monotonic_ns", lambda k, p: k.monotonic())
    for nm in ("perf_counter", "process_time", "thread_time"):
        timed(time, nm, lambda k, p: k.monotonic() / 1e9)
        timed(time, nm + "_ns", lambda k, p: k.monotonic())
    for nm in ("localtime", "gmtime", "ctime"):
        def now(secs=None, _real=getattr(time, nm)):
            if secs is None and CUR.proc is not None:
                secs = CUR.kernel.wall() / 1e9
            elif secs is None and VIRTUAL[0] is not None:
                secs = VIRTUAL[0].wall() / 1e9
            return _real() if secs is None else _real(secs)
        setattr(time, nm, now)

    def strftime(fmt, t=None, _real=time.strftime):
        return _real(fmt, time.localtime() if t is None else t)
    time.strftime = strftime
    install_datetime()
    simple(time, "sleep", sleep)
    # modules below are imported only now, so that they capture the seam's functions
    import random  # noqa
    import shutil
    import tempfile
    import pathlib  # noqa
    for at in ("_USE_CP_SENDFILE", "_HAS_FCOPYFILE"):
        if hasattr(shutil, at):
            setattr(shutil, at, False)

    def unraisable(*_):
        if CUR.proc is not None:
            CUR.proc.unraisable += 1
    sys.unraisablehook = unraisable

    class Names:
        """Temporary file names come from the simulated kernel's generator."""
        def __iter__(self):
            return self

        def __next__(self):
            k = CUR.kernel
            if k is None:
                raise HarnessError("temporary name outside the simulation")
            return "".join("abcdefghijklmnopqrstuvwxyz0123456789_"[k.rnd(37)] for _ in range(8))

    real_names = tempfile._RandomNameSequence()

    def candidates():
        return Names() if CUR.proc is not None else real_names
    tempfile._get_candidate_names = candidates
    tempfile._RandomNameSequence = Names     # as in the search for a usable directory
    tempfile.tempdir = "/tmp"
