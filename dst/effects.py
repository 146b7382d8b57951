"""What a library call does besides returning: audit events, output, process settings (C22).

guard() is around every library call the simulator makes: an operation that would touch the
outside is recorded and refused, so that no call under test reaches the real system."""
import atexit
import builtins
import contextvars
import decimal
import faulthandler
import gc
import locale
import logging
import os
import random
import signal
import socket
import sys
import threading
import tracemalloc
import warnings

DENY = ("os.", "subprocess.", "socket.", "shutil.", "tempfile.", "fcntl.", "pty.", "urllib.", "ftplib.", "smtplib.",
        "sqlite3.", "webbrowser.", "syslog.", "resource.", "signal.", "_thread.start_new_thread", "glob.", "pathlib.",
        "_posixsubprocess.", "mmap.", "ctypes.dlopen", "time.sleep", "sys.addaudithook")
ALLOW = {"os.fspath"}
_state = {"on": 0, "seen": [], "hook": False, "mute": 0}


def _importing():
    f = sys._getframe(2)
    n = 0
    while f is not None and n < 60:
        fn = f.f_code.co_filename
        if fn.startswith("<frozen importlib"):
            return True
        if "/sqlvalidator/" in fn:
            return False
        f = f.f_back
        n += 1
    return False


def _audit(event, args):
    if not _state["on"] or _state["mute"]:
        return
    if event == "open":
        _state["mute"] = 1
        try:
            if _importing():
                return
        finally:
            _state["mute"] = 0
    elif not event.startswith(DENY) or event in ALLOW:
        return
    elif event in ("os.listdir", "os.scandir"):
        _state["mute"] = 1
        try:
            if _importing():
                return
        finally:
            _state["mute"] = 0
    _state["seen"].append("%s(%s)" % (event, ", ".join(repr(a)[:80] for a in args[:3])))
    raise PermissionError("refused by the simulator: " + event)


class Catch:
    encoding = "utf-8"
    errors = "strict"
    closed = False

    def __init__(self, name):
        self.name = name

    def write(self, s):
        if s:
            _state["seen"].append("%s.write(%r)" % (self.name, s[:80]))
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def writable(self):
        return True

    def fileno(self):
        raise OSError("no descriptor")


class guard:
    def __enter__(self):
        baseline()
        if not _state["hook"]:
            sys.addaudithook(_audit)
            _state["hook"] = True
        if not _state["on"]:
            self.saved = (sys.stdout, sys.stderr)
            sys.stdout, sys.stderr = Catch("<stdout>"), Catch("<stderr>")
        else:
            self.saved = None
        _state["on"] += 1

    def __exit__(self, *a):
        _state["on"] -= 1
        if self.saved:
            sys.stdout, sys.stderr = self.saved


def take():
    out = list(_state["seen"])
    del _state["seen"][:]
    return out


SIGS = [s for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGHUP, signal.SIGUSR1, signal.SIGPIPE,
                    signal.SIGCHLD, signal.SIGVTALRM, signal.SIGPROF)]


def settings():
    lg = logging.root
    return {
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "trace function": sys.gettrace(), "profile function": sys.getprofile(),
        "excepthook": sys.excepthook, "displayhook": sys.displayhook, "unraisablehook": sys.unraisablehook,
        "sys.path": tuple(sys.path), "sys.meta_path": tuple(map(id, sys.meta_path)), "sys.argv": tuple(sys.argv),
        "signal handlers": tuple(signal.getsignal(s) for s in SIGS),
        "timers": tuple(signal.getitimer(t)[1] if t != signal.ITIMER_REAL else 0 for t in (
            signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)),
        "warnings filters": tuple(map(repr, warnings.filters)), "showwarning": warnings.showwarning,
        "locale": locale.setlocale(locale.LC_ALL),
        "environment": tuple(sorted(os.environ.items())),
        "working directory": os.getcwd(),
        "umask": _umask(),
        "gc": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks), gc.get_freeze_count()),
        "threads": threading.active_count(),
        "decimal context": repr(decimal.getcontext()),
        "random state": hash(random.getstate()),
        "logging": (lg.level, len(lg.handlers), logging.root.manager.disable),
        "exit handlers": atexit._ncallbacks(),
        "builtins": tuple(sorted((k, id(v)) for k, v in vars(builtins).items() if k != "_")),
        "socket timeout": socket.getdefaulttimeout(),
        "faulthandler": faulthandler.is_enabled(), "tracemalloc": tracemalloc.is_tracing(),
        "int digits": sys.get_int_max_str_digits(),
        "context variables": len(contextvars.copy_context()),
        "sys.stdout": id(sys.stdout), "sys.stderr": id(sys.stderr),
        "dont_write_bytecode": sys.dont_write_bytecode,
    }


def _umask():
    with open("/proc/self/status") as f:
        for line in f:
            if line.startswith("Umask"):
                return line.strip()


_base = {}


def baseline():
    """Remembers the settings of the process, before the package was called for the first time."""
    if not _base:
        _base.update(
            reclimit=sys.getrecursionlimit(), switch=sys.getswitchinterval(), filters=list(warnings.filters),
            show=warnings.showwarning, env=dict(os.environ), cwd=os.getcwd(),
            hooks=(sys.excepthook, sys.displayhook, sys.unraisablehook), path=list(sys.path), argv=list(sys.argv),
            sigs=[signal.getsignal(s) for s in SIGS], gc=(gc.isenabled(), gc.get_threshold(), gc.get_debug()),
            callbacks=list(gc.callbacks), locale=locale.setlocale(locale.LC_ALL), decimal=decimal.getcontext().copy(),
            log=(logging.root.level, list(logging.root.handlers), logging.root.manager.disable),
            socket=socket.getdefaulttimeout(), digits=sys.get_int_max_str_digits(), builtins=dict(vars(builtins)),
            nobytecode=sys.dont_write_bytecode)


def restore():
    """Puts back what an earlier call in this process may have changed, so that a case stands for itself."""
    b = _base
    if not b:
        return
    sys.setrecursionlimit(b["reclimit"])
    sys.setswitchinterval(b["switch"])
    warnings.filters[:] = b["filters"]
    warnings._filters_mutated()
    warnings.showwarning = b["show"]
    if dict(os.environ) != b["env"]:
        os.environ.clear()
        os.environ.update(b["env"])
    if os.getcwd() != b["cwd"]:
        os.chdir(b["cwd"])
    sys.excepthook, sys.displayhook, sys.unraisablehook = b["hooks"]
    sys.path[:], sys.argv[:] = b["path"], b["argv"]
    for s, h in zip(SIGS, b["sigs"]):
        if signal.getsignal(s) is not h and threading.current_thread() is threading.main_thread():
            signal.signal(s, h)
    (gc.enable if b["gc"][0] else gc.disable)()
    gc.set_threshold(*b["gc"][1])
    gc.set_debug(b["gc"][2])
    gc.callbacks[:] = b["callbacks"]
    if locale.setlocale(locale.LC_ALL) != b["locale"]:
        locale.setlocale(locale.LC_ALL, b["locale"])
    decimal.setcontext(b["decimal"].copy())
    logging.root.level, logging.root.handlers[:], logging.root.manager.disable = b["log"][0], b["log"][1], b["log"][2]
    socket.setdefaulttimeout(b["socket"])
    sys.set_int_max_str_digits(b["digits"])
    v = vars(builtins)
    for k in [k for k in v if k not in b["builtins"] and k != "_"]:
        del v[k]
    v.update((k, x) for k, x in b["builtins"].items() if v.get(k) is not x)
    sys.dont_write_bytecode = b["nobytecode"]


def changed(a, b):
    return [k for k in a if a[k] != b[k]]
