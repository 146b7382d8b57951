"""Seeded choice of faults at the events of an undisturbed run of the same case."""

ERRNOS = {
    "open": ["EACCES", "EIO", "EMFILE", "ENOENT", "ENFILE"],
    "openw": ["EACCES", "ENOSPC", "EROFS", "EMFILE", "EIO", "EDQUOT"],
    "read": ["EIO", "ESTALE"],
    "write": ["ENOSPC", "EIO", "EDQUOT", "EFBIG"],
    "closew": ["EIO", "ENOSPC", "EDQUOT"],
    "close": ["EIO"],
    "fsync": ["EIO", "ENOSPC"],
    "rename": ["EACCES", "EXDEV", "ENOSPC", "EIO", "EBUSY", "EROFS", "EPERM"],
    "chmod": ["EPERM", "EIO", "EROFS"],
    "chown": ["EIO", "EROFS"],
    "unlink": ["EACCES", "EIO"],
    "stat": ["EACCES", "EIO", "ELOOP"],
    "lstat": ["EACCES", "EIO"],
    "fstat": ["EIO"],
    "access": ["EACCES", "EIO"],
    "readlink": ["EIO", "EACCES"],
    "scandir": ["EACCES", "EIO", "EMFILE", "ENOENT"],
    "getdents": ["EIO", "ENOENT"],
    "ftruncate": ["EIO", "ENOSPC"],
    "truncate": ["EIO", "ENOSPC"],
    "utime": ["EPERM"],
    "mkdir": ["EACCES"],
    "link": ["EPERM"],
    "symlink": ["EPERM"],
}
FILE_OPS = {"open", "openw", "read", "write", "closew", "close", "fsync", "rename", "fstat",
            "chmod", "chown"}
WINDOW = {"openw", "write", "closew", "fsync", "rename", "chmod", "chown", "ftruncate", "truncate"}


def sig(e):
    return {"proc": e[0], "op": e[1], "label": e[2], "occ": e[3]}


def in_window(e):
    return e[1] in WINDOW or e[2].endswith("<new>")


def where(r, log, procs=None, bias=.6, ok=None):
    """One event of the log, biased towards the window in which a file is being replaced."""
    evs = [e for e in log if (procs is None or e[0] in procs) and (ok is None or ok(e))]
    if not evs:
        return None
    if r.random() < bias:
        win = [e for e in evs if in_window(e)]
        if win:
            return r.choice(win)
    return r.choice(evs)


def errno_at(r, e, sticky=.12):
    names = ERRNOS.get(e[1])
    if not names:
        return None
    f = dict(sig(e), kind="errno", errno=r.choice(names))
    if r.random() < sticky and e[1] != "lstat":
        f["sticky"] = True
    return f


def collide_at(e):
    """The temporary name is already taken (EEXIST, once)."""
    if e[1] == "openw" and e[2].endswith("<new>"):
        return dict(sig(e), kind="errno", errno="EEXIST")
    return None


def nostd(e):
    return e[2] != "<std>"


def crash(r, log, procs=None):
    e = where(r, log, procs, .75)
    if e is None:
        return []
    k = r.choice(["kill", "kill_after", "power", "power_after", "power_after"])
    f = dict(sig(e), kind=k)
    if k.startswith("power"):
        c = r.randrange(4)
        if c == 0:
            f["meta_keep"] = 99
        elif c == 1:
            f["meta_keep"] = 99
            f["data_keep"] = r.randrange(3)
        elif c == 2:
            f["data_keep"] = 0
            f["torn"] = 0
    return [f]


def interrupt(r, log, procs=None):
    e = where(r, log, procs, .5, nostd)
    return [] if e is None else [dict(sig(e), kind=r.choice(["kbd", "kbd", "kbd_after"]))]


def error(r, log, procs=None, sticky=.12, bias=.55, ok=None):
    e = where(r, log, procs, bias, lambda e: e[2] != "<std>" and e[1] in ERRNOS and (ok is None or ok(e)))
    if e is None:
        return []
    if r.random() < .04:
        f = collide_at(e)
        if f:
            return [f]
    f = errno_at(r, e, sticky)
    return [f] if f else []


def memory(r, log, procs=None):
    e = where(r, log, procs, .5, lambda e: e[1] in FILE_OPS and e[2] != "<std>")
    return [] if e is None else [dict(sig(e), kind="nomem")]


def fill(r, log, procs=None):
    e = where(r, log, procs, .8, nostd)
    return [] if e is None else [dict(sig(e), kind="fill", free=r.choice([0, 0, 1, 7, 20, 50, 100, 200, 400]))]


def benign(r, log, procs=None, n=3):
    out = []
    for _ in range(r.randint(1, n)):
        e = where(r, log, procs, .5, nostd)
        if e is None:
            break
        c = r.randrange(4)
        if e[1] in ("read", "write") and c < 2:
            out.append(dict(sig(e), kind="short", n=r.choice([1, 1, 2, 3, 7, 16])))
        elif c == 2:
            out.append(dict(sig(e), kind="clockjump", ns=r.choice([-3600, 86400 * 400, -86400 * 3000, 1]) * 10**9))
        else:
            out.append(dict(sig(e), kind="stall", ns=r.choice([1, 30, 3600]) * 10**9))
    return out


def env(r, log, world_files, procs=None):
    """Another program changes the tree at some point of the run."""
    e = where(r, log, procs, .3, nostd)
    if e is None or not world_files:
        return []
    p = r.choice(world_files)
    near = [x for x in log if x[2] == p and (procs is None or x[0] in procs)]
    if near and r.random() < .5:
        e = r.choice(near)
    c = r.randrange(4)
    f = dict(sig(e), kind="env", path=p)
    if c < 2:
        f["do"] = "unlink"
    elif c == 2:
        f["do"] = "chmod"
        f["mode"] = r.choice([0o000, 0o444, 0o600])
    else:
        f["do"] = "create"
        f["path"] = p.rsplit("/", 1)[0] + "/new%d.py" % r.randrange(9)
        f["data"] = "q = 'select a from t'\n"
    return [f]


def switches(r, log, nprocs, n=None):
    """Context switches: at the chosen events, the processor goes to another process."""
    out = []
    n = n or r.choice([1, 2, 3, 4, 6, 9, 14])
    evs = [e for e in log if e[2] != "<std>"]
    if not evs:
        return []
    hot = None
    if r.random() < .6:
        labels = [e[2] for e in evs if e[1] in ("open", "rename", "openw")]
        if labels:
            hot = r.choice(labels)
    for _ in range(n):
        pool = evs
        if hot and r.random() < .8:
            d = hot.rsplit("/", 1)[0]
            pool = [e for e in evs if e[2] == hot or (in_window(e) and e[2].startswith(d))] or evs
        e = r.choice(pool)
        to = r.choice([i for i in range(nprocs) if i != e[0]])
        out.append(dict(sig(e), kind="switch", to=to))
    return out


def line_fault(r, counts, kind, procs=None):
    """An allocation failure or interrupt at the n-th executed line while a file is processed."""
    keys = [k for k in counts if k[1] is not None and counts[k] > 0 and (procs is None or k[0] in procs)]
    if not keys:
        return []
    k = r.choice(sorted(keys))
    return [{"proc": k[0], "file": k[1], "n": r.randint(1, counts[k]), "kind": kind}]
