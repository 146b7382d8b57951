"""A simulated POSIX kernel: file system with a durability model, processes, faults.

Everything is plain Python data; nothing here touches the real file system, the real clock
or any source of randomness. A run is a pure function of the Plan it is given.

Faults are keyed by *signature* (process index, operation, label, occurrence), not by a raw
step number, so that a plan stays meaningful while the minimiser removes files and processes
from it. The label is the path as seen from the initial world: names the run itself made up
(temporary files) are written `<new>`.
"""
import errno as E
import os as _os
import stat as S

_stat_result = _os.stat_result
_strerror = _os.strerror

O_ACCMODE = 3


class ProcessKilled(BaseException):
    """The simulated process no longer exists: unwinds the real Python stack."""


class ProcessExit(BaseException):
    """The process ended itself without running anything else (os._exit, a fatal signal)."""

    def __init__(self, code):
        super().__init__(code)
        self.code = code


class StepLimit(BaseException):
    """The process issued more system calls than the run allows (liveness)."""


class HarnessError(Exception):
    """The simulator cannot represent what was asked: an error of the check, not a violation."""


DEV, TMP_DEV, DEV_DEV = 42, 27, 5


class Inode:
    __slots__ = ("ino", "kind", "mode", "uid", "gid", "nlink", "data", "entries", "target",
                 "mtime", "version", "durable", "pending", "locks", "dev", "st_ino")

    def __init__(self, ino, kind, mode, uid, gid):
        self.ino, self.kind, self.mode, self.uid, self.gid = ino, kind, mode, uid, gid
        self.nlink = 0
        self.data = bytearray()
        self.entries = {}      # name -> Inode (directories)
        self.target = None     # symlinks
        self.mtime = 0
        self.version = 0
        self.durable = b""     # data that survives power loss for certain
        self.pending = []      # data operations not yet durable, in order
        self.dev = DEV         # the file system it is on
        self.st_ino = ino      # as shown to programs: unique on its file system only
        self.locks = []        # (process, open file, exclusive): advisory locks

    @property
    def fmt(self):
        return {"f": S.S_IFREG, "d": S.S_IFDIR, "l": S.S_IFLNK, "n": S.S_IFCHR,
                "p": S.S_IFIFO, "s": S.S_IFSOCK}[self.kind]


class OpenFile:
    __slots__ = ("inode", "pos", "flags", "label", "path", "refs")

    def __init__(self, inode, flags, label, path):
        self.inode, self.flags, self.label, self.path = inode, flags, label, path
        self.pos = 0
        self.refs = 1


NULL = Inode(9, "n", 0o666, 0, 0)


def oserr(no, path=None, path2=None):
    if path2 is not None:
        return OSError(no, _strerror(no), path, None, path2)
    if path is not None:
        return OSError(no, _strerror(no), path)
    return OSError(no, _strerror(no))


class Fds(dict):
    """The descriptors of a process, and how many were open at the worst moment."""
    peak = 0
    scans = 0             # directories being listed hold one each

    def note(self):
        self.peak = max(self.peak, len(self) + self.scans)

    def __setitem__(self, fd, of):
        dict.__setitem__(self, fd, of)
        self.note()


class Proc:
    """One simulated process (one sqlvalidator invocation)."""

    def __init__(self, idx, spec):
        self.idx = idx
        self.spec = spec
        self.pid = 4000 + 7 * idx + spec.get("pidoff", 0)
        self.args = list(spec["args"])
        self.cwd = spec.get("cwd", "/home/u/proj")
        self.uid = spec.get("uid", 1000)
        self.gid = spec.get("gid", 1000)
        self.umask = spec.get("umask", 0o022)
        self.locale = spec.get("locale", "utf-8")
        self.bufsize = spec.get("bufsize", 8192)
        self.chunk = spec.get("chunk", 8192)
        self.tty = spec.get("tty", False)
        self.rlim = spec.get("rlim", 0)      # max bytes per read (short reads), 0 = none
        self.wlim = spec.get("wlim", 0)      # max bytes per write (short writes)
        self.fds = Fds()
        self.left = []          # labels of what it never closed
        self.next_fd = 100003
        self.dead = False
        self.finished = False
        self.killed = False
        self.exit_code = None
        self.exc = None
        self.out = bytearray()
        self.err = bytearray()
        self.nsys = 0
        self.modules = None
        self.ctx = {}
        self.env = self.tempdir = None      # what it left behind
        self.interrupted = False
        self.signals = {}       # handlers the process installed
        self.atexit = []
        self.unraisable = 0
        self.curfile = None     # the source file this process opened last
        self.nlines = 0         # monitored lines executed since then
        self.tlines = 0
        self.last = None

    def lines(self):
        return bytes(self.out).decode(self.spec.get("outenc", "utf-8"), "replace").splitlines()


READ_ONLY_OPS = {"stat", "lstat", "fstat", "access", "readlink", "scandir", "getdents",
                 "read", "lseek", "close", "open", "getcwd", "isatty", "fsync", "stdout"}


EPOCH = 1_600_000_000_000_000_000
INO_PRIME = 2_147_483_647


def _age(path):
    """Modification times are spread over years, some lie in the future of most clocks."""
    h = 2166136261
    for c in path:
        h = ((h ^ ord(c)) * 16777619) & 0xFFFFFFFF
    h ^= h >> 15
    return ((h % 4096) - 3400) * 86_400_000_000_000 + h % 1_000_000_007


class Kernel:
    def __init__(self, world, plan_faults, step_limit=20000, salt=0, seed=0, order=0):
        self.ino_next = 0
        self.dev_next = {}
        self.ino_step = pow(48271, salt + 1, INO_PRIME)
        # ns; `clock` never goes back, wall-clock time is clock + skew
        self.clock = EPOCH + (salt * 7919 % 4001 - 2000) * 86_413_000_000_007 * (salt > 0)
        self.t0 = self.clock
        self.skew = 0
        self.uptime = 1_000_000_000 * (17 + salt * 7907 % 1_000_003)
        self.salt = salt
        self.order = order
        self.lcg = (seed * 2862933555777941757 + 3037000493) & (2**64 - 1)
        self.root = self._new("d", 0o755, 0, 0)
        self.root.nlink = 2
        self.world_paths = set()
        self.tracked_names = set()
        self.capacity = None
        self.step = 0
        self.step_limit = step_limit
        self.log = []           # (proc, op, label)
        self.occ = {}
        self.faults = {}
        for f in plan_faults:
            key = (f["proc"], f["op"], f["label"], f["occ"])
            self.faults.setdefault(key, []).append(f)
        self.fired = {}         # kind -> count
        self.fired_list = []
        self.line_counts = {}   # (proc, file) -> monitored lines executed
        self.hits = []          # (log position, proc, op, label, kind) of failures raised
        self.sched = None
        self.deliver = None
        self.observers = []     # called after effective mutations
        self.dead_output = set()  # (proc, op) whose writes failed for good
        self.std_observers = [] # called after output was written
        self.mutations = []     # (step, proc, op, path, realpath-or-None)
        self.meta_log = []      # unsynced metadata operations, in order
        self.power_lost = False
        self.procs = []
        self.sticky = {}        # (proc, op) -> errno that persists
        self.env_touched = set()
        self.real_escape = []
        self._build(world)

    # ------------------------------------------------------------------ world
    def _new(self, kind, mode, uid, gid, dev=DEV):
        self.ino_next += 1             # numbered in an order that depends on the salt
        n = Inode(100 + self.ino_next * self.ino_step % INO_PRIME, kind, mode, uid, gid)
        n.dev = dev
        self.dev_next[dev] = self.dev_next.get(dev, 0) + 1
        n.st_ino = 100 + self.dev_next[dev] * self.ino_step % INO_PRIME
        n.mtime = self.wall()
        return n

    def wall(self):
        return self.clock + self.skew

    def monotonic(self):
        return self.clock - self.t0 + self.uptime

    def _mkdirs(self, path, uid=1000, gid=1000):
        cur = self.root
        at = ""
        for part in [p for p in path.split("/") if p]:
            nxt = cur.entries.get(part)
            at += "/" + part
            if nxt is None:
                nxt = self._new("d", 0o755, uid, gid, self.mounts.get(at, cur.dev))
                nxt.nlink = 2
                cur.entries[part] = nxt
            cur = nxt
        return cur

    def _build(self, world):
        self.mounts = {"/tmp": TMP_DEV, "/dev": DEV_DEV}
        for k, n in enumerate(n for n in world if n["kind"] == "m"):
            self.mounts[n["path"]] = 60 + k
        self._mkdirs("/home", 0, 0)
        self._mkdirs("/home/u")
        t = self._mkdirs("/tmp", 0, 0)
        t.mode = 0o1777
        self._mkdirs("/dev", 0, 0)
        for n in world:
            path = n["path"]
            d, name = path.rsplit("/", 1)
            if n["kind"] == "m":
                continue
            if n["kind"] == "d":
                x = self._mkdirs(path, n.get("uid", 1000), n.get("gid", 1000))
                self.world_paths.add(path)
                continue
            parent = self._mkdirs(d)
            if n["kind"] == "h":       # hard link to an earlier file
                src = self._walk_abs(n["target"])
                parent.entries[name] = src
                src.nlink += 1
                self.world_paths.add(path)
                self.tracked_names.add(name)
                continue
            x = self._new(n["kind"], n.get("mode", 0o644), n.get("uid", 1000), n.get("gid", 1000), parent.dev)
            x.nlink = 1
            x.mtime = EPOCH + _age(path)
            if n["kind"] == "f":
                x.data = bytearray(n["data"])
                x.durable = bytes(n["data"])
            elif n["kind"] == "l":
                x.target = n["target"]
            parent.entries[name] = x
            self.world_paths.add(path)
            self.tracked_names.add(name)
        for n in world:                # directory modes last, so that building is not hindered
            if n["kind"] == "d" and "mode" in n:
                self._walk_abs(n["path"]).mode = n["mode"]
        # everything known above (all prefixes) is part of the initial world
        for p in list(self.world_paths):
            while p:
                self.world_paths.add(p)
                p = p.rsplit("/", 1)[0]
        self.world_paths.update({"/", "/home", "/home/u", "/tmp", "/dev"})
        self._durable_dirs = self._snap_dirs()

    def _walk_abs(self, path):
        cur = self.root
        for part in [p for p in path.split("/") if p]:
            cur = cur.entries[part]
        return cur

    def _snap_dirs(self):
        """Durable view of the name space: {dir inode -> {name: inode}} and inode attributes."""
        out = {}
        seen = {}

        def rec(d):
            out[d.ino] = dict(d.entries)
            for c in d.entries.values():
                seen[c.ino] = c
                if c.kind == "d":
                    rec(c)
        rec(self.root)
        return out

    # -------------------------------------------------------------- snapshots
    def tree(self, root="/home/u"):
        """{path: (kind, mode, uid, gid, bytes-or-target)} of the volatile view."""
        out = {}

        def rec(prefix, d):
            for name, c in d.entries.items():
                p = prefix + "/" + name
                if c.kind == "f":
                    out[p] = ("f", c.mode, c.uid, c.gid, bytes(c.data))
                elif c.kind == "l":
                    out[p] = ("l", 0o777, c.uid, c.gid, c.target)
                elif c.kind != "d":
                    out[p] = (c.kind, c.mode, c.uid, c.gid, None)
                else:
                    out[p] = ("d", c.mode, c.uid, c.gid, None)
                    rec(p, c)
        if root == "/":
            rec("", self.root)
        else:
            rec(root, self._walk_abs(root))
        return out

    def read_path(self, path):
        """Bytes a fresh reader gets through path (following links), or None."""
        try:
            n = self._resolve(None, path, follow=True)
        except OSError:
            return None
        if n is None or n.kind != "f":
            return None
        return bytes(n.data)

    # ------------------------------------------------------------- resolution
    def _abspath(self, proc, path):
        if not path.startswith("/"):
            path = (proc.cwd if proc else "/") + "/" + path
        return path

    def _fs(self, path):
        path = _os.fspath(path)
        if isinstance(path, bytes):
            path = _os.fsdecode(path)
        if "\0" in path:
            raise ValueError("embedded null byte")
        return path

    def _perm(self, proc, node, want):
        if proc is None or proc.uid == 0:
            return True
        m = node.mode
        if proc.uid == node.uid:
            m >>= 6
        elif node.gid == proc.gid or node.gid in proc.spec.get("groups", ()):
            m >>= 3
        return (m & want) == want

    def _lookup_parent(self, proc, path, depth=0):
        """-> (dir inode, final name, canonical dir path). name None for the root itself."""
        apath = self._abspath(proc, path)
        parts = [p for p in apath.split("/") if p and p != "."]
        must_dir = apath.endswith("/") or apath.endswith("/.")
        stack = [(self.root, "")]
        i = 0
        budget = 40 - depth
        while i < len(parts):
            cur, cpath = stack[-1]
            part = parts[i]
            last = i == len(parts) - 1
            if cur.kind != "d":
                raise oserr(E.ENOTDIR, path)
            if not self._perm(proc, cur, 1):
                raise oserr(E.EACCES, path)
            if part == "..":
                if len(stack) > 1:
                    stack.pop()
                i += 1
                continue
            if len(part.encode("utf-8", "surrogateescape")) > 255:
                raise oserr(E.ENAMETOOLONG, path)
            if last:
                return cur, part, cpath, must_dir
            nxt = cur.entries.get(part)
            if nxt is None:
                raise oserr(E.ENOENT, path)
            if nxt.kind == "l":
                budget -= 1
                if budget <= 0:
                    raise oserr(E.ELOOP, path)
                tparts = [p for p in nxt.target.split("/") if p and p != "."]
                if nxt.target.startswith("/"):
                    stack = [(self.root, "")]
                parts = tparts + parts[i + 1:]
                i = 0
                continue
            stack.append((nxt, cpath + "/" + part))
            i += 1
        cur, cpath = stack[-1]
        # path ended in '..' or is the root
        if len(stack) > 1:
            parent, ppath = stack[-2]
            name = cpath.rsplit("/", 1)[1]
            return parent, name, ppath, True
        return self.root, None, "", True

    def _resolve(self, proc, path, follow=True, depth=0):
        if path == "":
            raise oserr(E.ENOENT, path)
        if depth > 40:
            raise oserr(E.ELOOP, path)
        d, name, dpath, must_dir = self._lookup_parent(proc, path, depth)
        if name is None:
            return self.root
        n = d.entries.get(name)
        if n is None:
            raise oserr(E.ENOENT, path)
        if n.kind == "l" and (follow or must_dir):
            t = n.target if n.target.startswith("/") else dpath + "/" + n.target
            try:
                n = self._resolve(proc, t, True, depth + 1)
            except OSError as e:
                raise oserr(e.errno, path) from None
        if must_dir and n.kind != "d":
            raise oserr(E.ENOTDIR, path)
        return n

    def canon(self, proc, path):
        """Canonical path of the directory entry (parent resolved, last component not)."""
        try:
            d, name, dpath, _ = self._lookup_parent(proc, self._fs(path))
        except OSError:
            parts = []
            for p in self._abspath(proc, self._fs(path)).split("/"):
                if p == "..":
                    parts = parts[:-1]
                elif p and p != ".":
                    parts.append(p)
            return "/" + "/".join(parts)
        return dpath + "/" + name if name else "/"

    def label(self, canon):
        d, new = canon, ""
        while d and d not in self.world_paths:
            d = d.rpartition("/")[0]
            new += "/<new>"
        return d + new if new else canon

    # ------------------------------------------------------------------ faults
    def rnd(self, n):
        """Kernel-internal deterministic choice (latencies, torn sizes), seeded by the plan."""
        self.lcg = (self.lcg * 6364136223846793005 + 1442695040888963407) & (2**64 - 1)
        return (self.lcg >> 33) % n if n > 0 else 0

    def fire(self, kind, f=None):
        self.fired[kind] = self.fired.get(kind, 0) + 1
        if f is not None:
            self.fired_list.append(f)

    def hit(self, proc, op, label, kind):
        self.hits.append((len(self.log), proc.idx, op, label, kind))

    def enter(self, proc, op, label, path=None):
        if proc.dead:
            raise ProcessKilled()
        self.step += 1
        proc.nsys += 1
        self.clock += 1000 + self.rnd(50000)
        if proc.nsys > self.step_limit:
            raise StepLimit(f"process {proc.idx} issued more than {self.step_limit} system calls")
        key = (proc.idx, op, label)
        occ = self.occ.get(key, 0)
        self.occ[key] = occ + 1
        self.log.append((proc.idx, op, label, occ))
        after = None
        todo = self.faults.get((proc.idx, op, label, occ))
        if todo:
            for f in todo:
                k = f["kind"]
                if k == "switch":
                    self.fire("switch", f)
                    if self.sched:
                        self.sched.switch(proc, f["to"])
                        if proc.dead:
                            raise ProcessKilled()
                elif k == "env":
                    self.fire("env:" + f["do"], f)
                    self.env_action(f)
                elif k == "stall":
                    self.fire("stall", f)
                    self.clock += f["ns"]
                elif k == "clockjump":
                    self.fire("clockjump", f)
                    self.skew += f["ns"]
                elif k == "kill":
                    self.fire("kill", f)
                    self.kill(proc)
                elif k == "power":
                    self.fire("power", f)
                    self.power_loss(f)
                elif k == "kill_after" or k == "power_after" or k == "kbd_after":
                    after = f
                elif k == "kbd":
                    self.fire("kbd", f)
                    self.hit(proc, op, label, "kbd")
                    self.interrupt(proc)
                elif k == "nomem":
                    self.fire("nomem", f)
                    self.hit(proc, op, label, "nomem")
                    raise MemoryError()
                elif k == "errno":
                    self.fire("errno:" + f["errno"], f)
                    self.hit(proc, op, label, "errno")
                    no = getattr(E, f["errno"])
                    if f.get("sticky"):
                        self.sticky[(proc.idx, op)] = f["errno"]
                        self.dead_output.add((proc.idx, op))
                    raise oserr(no, path)
                elif k == "short":
                    after = f
                elif k == "fill":
                    self.fire("fill", f)
                    self.capacity = self.used() + f["free"]
                elif k == "unfill":
                    self.capacity = None
                else:
                    raise HarnessError("unknown fault kind " + k)
        st = self.sticky.get((proc.idx, op))
        if st:
            self.fire("errno:" + st)
            self.hit(proc, op, label, "errno")
            self.dead_output.add((proc.idx, op))
            raise oserr(getattr(E, st), path)
        proc.last = (op, label)
        if op == "open" and label in self.world_paths:
            proc.curfile = label
            proc.nlines = 0
        return after

    def leave(self, proc, after, op, canon=None, mutated=False, node=None):
        if mutated:
            self.mutations.append((self.step, proc.idx, op, canon))
            for ob in self.observers:
                ob(self, proc, op, canon)
        if after:
            k = after["kind"]
            if k == "kill_after":
                self.fire("kill", after)
                self.kill(proc)
            elif k == "power_after":
                self.fire("power", after)
                self.power_loss(after)
            elif k == "kbd_after":
                self.fire("kbd", after)
                self.hit(proc, proc.last[0], proc.last[1], "kbd_after")
                self.interrupt(proc)

    def interrupt(self, proc):
        """SIGINT arrives: the handler the process has installed runs, if any."""
        proc.interrupted = True
        if 2 in proc.signals and self.deliver is not None:
            self.deliver(proc, 2)
        else:
            raise KeyboardInterrupt()

    def kill(self, proc):
        proc.dead = proc.killed = True
        proc.fds.clear()
        raise ProcessKilled()

    def power_loss(self, f):
        """All processes die; only durable state survives (see DESIGN.md, durability model)."""
        self.power_lost = True
        # 1. metadata journal: an ordered prefix of the unsynced operations survives
        n = len(self.meta_log)
        keep = f.get("meta_keep")
        keep = self.rnd(n + 1) if keep is None else min(keep, n)
        dirs = {k: dict(v) for k, v in self._durable_dirs.items()}
        for op in self.meta_log[:keep]:
            if op[0] == "link":
                dirs.setdefault(op[1], {})[op[2]] = op[3]
                if op[3].kind == "d":
                    dirs.setdefault(op[3].ino, {})
            elif op[0] == "unlink":
                dirs.get(op[1], {}).pop(op[2], None)
            elif op[0] == "rename":
                dirs.get(op[1], {}).pop(op[2], None)
                dirs.setdefault(op[3], {})[op[4]] = op[5]
        # 2. file data: a prefix of the unsynced data operations survives, the last one torn
        done = set()

        def settle(node):
            if node.ino in done or node.kind != "f":
                return
            done.add(node.ino)
            data = bytearray(node.durable)
            m = len(node.pending)
            k = f.get("data_keep")
            k = self.rnd(m + 1) if k is None else min(k, m)
            for j in range(k):
                o = node.pending[j]
                if o[0] == "trunc":
                    del data[o[1]:]
                    data.extend(b"\0" * (o[1] - len(data)))
                else:
                    off, b = o[1], o[2]
                    if j == k - 1 and f.get("torn", 1):
                        b = b[:self.rnd(len(b) + 1)]
                    if len(data) < off:
                        data.extend(b"\0" * (off - len(data)))
                    data[off:off + len(b)] = b
            node.data = data
            node.durable = bytes(data)
            node.pending = []
            node.version += 1

        def rebuild(d):
            d.entries = dict(dirs.get(d.ino, {}))
            for c in d.entries.values():
                if c.kind == "d":
                    rebuild(c)
                else:
                    settle(c)
        rebuild(self.root)
        self.meta_log = []
        self._durable_dirs = self._snap_dirs()
        for p in self.procs:
            if not p.finished:
                p.dead = p.killed = True
                p.fds.clear()
        for ob in self.observers:
            ob(self, None, "power", None)
        raise ProcessKilled()

    def settle_all(self):
        """Sync everything (between phases, where time passes quietly)."""
        def rec(d):
            for c in d.entries.values():
                if c.kind == "d":
                    rec(c)
                elif c.kind == "f":
                    c.durable = bytes(c.data)
                    c.pending = []
        rec(self.root)
        self.meta_log = []
        self._durable_dirs = self._snap_dirs()

    def env_action(self, f):
        """Another program acts on the tree (as root, atomically)."""
        do, path = f["do"], f["path"]
        self.env_touched.add(path)
        try:
            d, name, dpath, _ = self._lookup_parent(None, path)
        except OSError:
            return
        if name is None:
            return
        self.env_touched.add(dpath + "/" + name)
        n = d.entries.get(name)
        if n is not None and n.kind == "f" and n.nlink > 1:
            self.env_touched.update(self._names_of(n))
        if do == "unlink" and n is not None and n.kind != "d":
            n.nlink -= 1
            del d.entries[name]
            self.meta_log.append(("unlink", d.ino, name))
        elif do == "chmod" and n is not None:
            n.mode = f["mode"]
        elif do == "create" and n is None:
            x = self._new("f", 0o644, 1000, 1000, d.dev)
            x.data = bytearray(f["data"].encode("utf-8", "surrogateescape"))
            x.durable = bytes(x.data)
            x.nlink = 1
            d.entries[name] = x
            self.meta_log.append(("link", d.ino, name, x))
        elif do == "mkdirover" and n is not None and n.kind == "f":
            x = self._new("d", 0o755, 1000, 1000, d.dev)
            x.nlink = 2
            d.entries[name] = x
            self.meta_log.append(("link", d.ino, name, x))

    def _names_of(self, inode):
        out = []

        def rec(d, p):
            for nm, c in d.entries.items():
                if c is inode:
                    out.append(p + "/" + nm)
                elif c.kind == "d":
                    rec(c, p + "/" + nm)
        rec(self.root, "")
        return out

    def used(self):
        seen = {}

        def rec(d):
            for c in d.entries.values():
                if c.kind == "d":
                    rec(c)
                elif c.kind == "f":
                    seen[c.ino] = len(c.data)
        rec(self.root)
        for p in self.procs:
            for of in p.fds.values():
                if of.inode.kind == "f":
                    seen[of.inode.ino] = len(of.inode.data)
        return sum(seen.values())

    # -------------------------------------------------------------- system calls
    def _dirfd(self, proc, path, dir_fd):
        if dir_fd is None or path.startswith("/"):
            return path
        return proc.fds[dir_fd].path + "/" + path

    def open(self, proc, path, flags, mode=0o777, dir_fd=None):
        path0 = path
        path = self._dirfd(proc, self._fs(path), dir_fd)
        if path == "/dev/null":
            proc.next_fd += 1
            proc.fds[proc.next_fd] = OpenFile(NULL, flags, "<null>", path)
            return proc.next_fd
        canon = self.canon(proc, path)
        label = self.label(canon)
        wr = (flags & O_ACCMODE) != _os.O_RDONLY or flags & (_os.O_CREAT | _os.O_TRUNC)
        after = self.enter(proc, "openw" if wr else "open", label, path0)
        mutated = False
        depth = 0
        while True:
            if path == "":
                raise oserr(E.ENOENT, path0)
            try:
                d, name, dpath, must_dir = self._lookup_parent(proc, path)
            except OSError as e:
                raise oserr(e.errno, path0) from None
            node = d.entries.get(name) if name is not None else self.root
            if flags & _os.O_CREAT and must_dir:
                self._special(proc, path, E.EEXIST if flags & _os.O_EXCL else E.EISDIR, E.EISDIR)
                raise oserr(E.EISDIR, path0)
            if node is not None and node.kind == "l":
                if flags & _os.O_NOFOLLOW or (flags & _os.O_CREAT and flags & _os.O_EXCL):
                    raise oserr(E.EEXIST if flags & _os.O_EXCL else E.ELOOP, path0)
                depth += 1
                if depth > 40:
                    raise oserr(E.ELOOP, path0)
                path = node.target if node.target.startswith("/") else dpath + "/" + node.target
                continue
            break
        if node is None:
            if not flags & _os.O_CREAT:
                raise oserr(E.ENOENT, path0)
            if not self._perm(proc, d, 3):
                raise oserr(E.EACCES, path0)
            if self.capacity is not None and self.used() >= self.capacity + 4096:
                self.fire("errno:ENOSPC")
                self.hit(proc, "openw", label, "errno")
                raise oserr(E.ENOSPC, path0)
            node = self._new("f", mode & ~proc.umask & 0o7777, proc.uid, proc.gid, d.dev)
            node.nlink = 1
            d.entries[name] = node
            self.meta_log.append(("link", d.ino, name, node))
            mutated = True
        else:
            if flags & _os.O_CREAT and flags & _os.O_EXCL:
                raise oserr(E.EEXIST, path0)
            acc = flags & O_ACCMODE
            if node.kind == "d":
                if acc != _os.O_RDONLY or flags & _os.O_CREAT:
                    raise oserr(E.EISDIR, path0)
            elif must_dir or flags & _os.O_DIRECTORY:
                raise oserr(E.ENOTDIR, path0)
            want = {_os.O_RDONLY: 4, _os.O_WRONLY: 2, _os.O_RDWR: 6}[acc]
            if not self._perm(proc, node, want):
                raise oserr(E.EACCES, path0)
            if node.kind == "s":
                raise oserr(E.ENXIO, path0)
            if node.kind == "p" and acc != _os.O_RDWR:
                self._fifo(flags, path0)
            if flags & _os.O_TRUNC and node.kind == "f":
                if node.data:
                    mutated = True
                    node.pending.append(("trunc", 0))
                    node.data = bytearray()
                    node.version += 1
                    node.mtime = self.wall()
        proc.next_fd += 1
        fd = proc.next_fd
        proc.fds[fd] = OpenFile(node, flags, label, dpath + "/" + (name or ""))
        self.leave(proc, after, "open", dpath + "/" + (name or ""), mutated, node)
        return fd

    def _fifo(self, flags, path):
        """Nobody ever opens the other end of a FIFO."""
        if not flags & _os.O_NONBLOCK:
            raise StepLimit("open(%r) waits forever: a FIFO without a peer" % (path,))
        if flags & O_ACCMODE == _os.O_WRONLY:
            raise oserr(E.ENXIO, path)

    def _of(self, proc, fd):
        if proc.dead:
            raise ProcessKilled()
        of = proc.fds.get(fd)
        if of is None:
            raise oserr(E.EBADF)
        return of

    def close(self, proc, fd):
        of = self._of(proc, fd)
        if of.inode is NULL:
            proc.fds.pop(fd, None)
            return
        try:
            after = self.enter(proc, "closew" if of.flags & O_ACCMODE else "close", of.label)
        except BaseException:
            proc.fds.pop(fd, None)     # Linux releases the descriptor even when close fails
            raise
        proc.fds.pop(fd, None)
        self.leave(proc, after, "close")

    def read(self, proc, fd, n):
        of = self._of(proc, fd)
        if of.inode is NULL:
            return b""
        after = self.enter(proc, "read", of.label)
        if of.inode.kind == "d":
            raise oserr(E.EISDIR)
        if (of.flags & O_ACCMODE) == _os.O_WRONLY:
            raise oserr(E.EBADF)
        if after and after["kind"] == "short":
            self.fire("short_read", after)
            n = max(1, min(n, after["n"]))
        if proc.rlim and n > proc.rlim:
            n = 1 + self.rnd(proc.rlim)
            self.fire("short_read")
        b = bytes(of.inode.data[of.pos:of.pos + n])
        of.pos += len(b)
        self.leave(proc, after, "read")
        return b

    def write(self, proc, fd, b):
        b = bytes(b)
        of = self._of(proc, fd)
        if of.inode is NULL:
            return len(b)
        after = self.enter(proc, "write", of.label)
        if (of.flags & O_ACCMODE) == _os.O_RDONLY:
            raise oserr(E.EBADF)
        node = of.inode
        n = len(b)
        if after and after["kind"] == "short" and n > 1:
            self.fire("short_write", after)
            n = max(1, min(n, after["n"]))
        if proc.wlim and n > proc.wlim:
            n = 1 + self.rnd(proc.wlim)
            self.fire("short_write")
        pos = len(node.data) if of.flags & _os.O_APPEND else of.pos
        if self.capacity is not None:
            grow = max(0, pos + n - len(node.data))
            free = max(0, self.capacity - self.used())
            if grow > free:
                n = n - (grow - free)
                if n <= 0:
                    self.fire("errno:ENOSPC")
                    self.hit(proc, "write", of.label, "errno")
                    raise oserr(E.ENOSPC)
                self.fire("short_write")
        b = b[:n]
        if len(node.data) < pos:
            node.data.extend(b"\0" * (pos - len(node.data)))
        changed = bytes(node.data[pos:pos + n]) != b
        node.data[pos:pos + n] = b
        node.pending.append(("write", pos, b))
        of.pos = pos + n
        node.version += 1
        node.mtime = self.wall()
        self.leave(proc, after, "write", of.path, changed, node)
        return n

    def pread(self, proc, fd, n, off):
        of = self._of(proc, fd)
        pos, of.pos = of.pos, off
        try:
            return self.read(proc, fd, n)
        finally:
            of.pos = pos

    def pwrite(self, proc, fd, b, off):
        of = self._of(proc, fd)
        pos, of.pos = of.pos, off
        try:
            return self.write(proc, fd, b)
        finally:
            of.pos = pos

    def dup(self, proc, fd):
        of = self._of(proc, fd)
        proc.next_fd += 1
        proc.fds[proc.next_fd] = of
        return proc.next_fd

    def dup2(self, proc, fd, fd2, inheritable=True):
        proc.fds[fd2] = self._of(proc, fd)
        return fd2

    def flock(self, proc, fd, op):
        """Advisory lock of an open file; a waiting process lets the others run."""
        of = self._of(proc, fd)
        self.leave(proc, self.enter(proc, "flock", of.label), "flock")
        node = of.inode

        def held():
            node.locks = [x for x in node.locks if not x[0].dead and not x[0].finished
                          and any(o is x[1] for o in x[0].fds.values())]
            return [x for x in node.locks if x[1] is not of]
        held()
        node.locks = [x for x in node.locks if x[1] is not of]
        if op & 8:
            return
        ex = bool(op & 2)
        while any(ex or x[2] for x in held()):
            if op & 4:
                raise oserr(E.EAGAIN)
            owner = next(x[0] for x in held() if ex or x[2])
            if self.sched is None or owner is proc or len([p for p in self.procs if not p.finished]) < 2:
                raise StepLimit("process %d waits for ever for a lock" % proc.idx)
            self.fire("lock-wait")
            self.sched.switch(proc, owner.idx)
            if proc.dead:
                raise ProcessKilled()
        node.locks.append((proc, of, ex))

    def statvfs(self, proc, path):
        if not isinstance(path, int):
            path = self._fs(path)
            self.leave(proc, self.enter(proc, "statvfs", self.label(self.canon(proc, path)), path), "statvfs")
            self._resolve(proc, path)
        free = (1 << 30) if self.capacity is None else max(0, self.capacity - self.used())
        return _os.statvfs_result((4096, 4096, 1 << 20, free // 4096, free // 4096, 1 << 20, 1 << 19, 1 << 19, 0, 255))

    def lseek(self, proc, fd, off, whence):
        of = self._of(proc, fd)
        if whence == 0:
            of.pos = off
        elif whence == 1:
            of.pos += off
        else:
            of.pos = len(of.inode.data) + off
        return of.pos

    def ftruncate(self, proc, fd, n):
        of = self._of(proc, fd)
        after = self.enter(proc, "ftruncate", of.label)
        if (of.flags & O_ACCMODE) == _os.O_RDONLY or of.inode.kind == "d":
            raise oserr(E.EINVAL)
        self._trunc(of.inode, n)
        self.leave(proc, after, "ftruncate", of.path, True, of.inode)

    def _trunc(self, node, n):
        del node.data[n:]
        node.data.extend(b"\0" * (n - len(node.data)))
        node.pending.append(("trunc", n))
        node.version += 1
        node.mtime = self.wall()

    def truncate(self, proc, path, n):
        path = self._fs(path)
        canon = self.canon(proc, path)
        after = self.enter(proc, "truncate", self.label(canon), path)
        node = self._resolve(proc, path)
        if node.kind == "d":
            raise oserr(E.EISDIR, path)
        if not self._perm(proc, node, 2):
            raise oserr(E.EACCES, path)
        self._trunc(node, n)
        self.leave(proc, after, "truncate", canon, True, node)

    def fsync(self, proc, fd):
        of = self._of(proc, fd)
        after = self.enter(proc, "fsync", of.label)
        node = of.inode
        if node.kind == "f":
            node.durable = bytes(node.data)
            node.pending = []
        else:
            # directory fsync: the journal up to here is committed
            self._commit_journal()
        self.leave(proc, after, "fsync")

    def _commit_journal(self):
        dirs = self._durable_dirs
        for op in self.meta_log:
            if op[0] == "link":
                dirs.setdefault(op[1], {})[op[2]] = op[3]
            elif op[0] == "unlink":
                dirs.get(op[1], {}).pop(op[2], None)
            elif op[0] == "rename":
                dirs.get(op[1], {}).pop(op[2], None)
                dirs.setdefault(op[3], {})[op[4]] = op[5]
        self.meta_log = []

    def _mkstat(self, n):
        t = n.mtime
        s = t // 1_000_000_000
        size = len(n.data) if n.kind == "f" else (len(n.target) if n.kind == "l" else 4096)
        nlink = n.nlink if n.kind != "d" else 2
        return _stat_result(
            (n.fmt | n.mode, n.st_ino, n.dev, nlink, n.uid, n.gid, size, s, s, s),
            {"st_atime": t / 1e9, "st_mtime": t / 1e9, "st_ctime": t / 1e9,
             "st_atime_ns": t, "st_mtime_ns": t, "st_ctime_ns": t,
             "st_blksize": 4096, "st_blocks": (size + 511) // 512, "st_rdev": 0})

    def stat(self, proc, path, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int):
            return self.fstat(proc, path)
        path = self._dirfd(proc, self._fs(path), dir_fd)
        canon = self.canon(proc, path)
        after = self.enter(proc, "stat" if follow_symlinks else "lstat", self.label(canon), path)
        n = self._resolve(proc, path, follow_symlinks)
        r = self._mkstat(n)
        self.leave(proc, after, "stat")
        return r

    def fstat(self, proc, fd):
        of = self._of(proc, fd)
        after = self.enter(proc, "fstat", of.label)
        r = self._mkstat(of.inode)
        self.leave(proc, after, "fstat")
        return r

    def access(self, proc, path, mode, dir_fd=None, follow_symlinks=True, **_k):
        path = self._dirfd(proc, self._fs(path), dir_fd)
        try:
            after = self.enter(proc, "access", self.label(self.canon(proc, path)), path)
            n = self._resolve(proc, path, follow_symlinks)
        except OSError:
            return False
        self.leave(proc, after, "access")
        return mode == 0 or self._perm(proc, n, mode)

    def readlink(self, proc, path, dir_fd=None):
        path = self._dirfd(proc, self._fs(path), dir_fd)
        after = self.enter(proc, "readlink", self.label(self.canon(proc, path)), path)
        n = self._resolve(proc, path, False)
        if n.kind != "l":
            raise oserr(E.EINVAL, path)
        self.leave(proc, after, "readlink")
        return n.target

    def _wdir(self, proc, d, path):
        if not self._perm(proc, d, 3):
            raise oserr(E.EACCES, path)

    def _stick(self, proc, d, node, path):
        if d.mode & 0o1000 and proc.uid not in (0, d.uid, node.uid):
            raise oserr(E.EPERM, path)

    def _special(self, proc, path, no_dot, no_dotdot):
        """Paths ending in `.` or `..` cannot be created, removed or renamed."""
        base = path.rstrip("/").rsplit("/", 1)[-1]
        if base in (".", "..") or not base:
            self._resolve(proc, path)
            raise oserr(no_dotdot if base == ".." else no_dot, path)
        return path.endswith("/")

    def _below(self, top, node):
        return top is node or any(c.kind == "d" and self._below(c, node) for c in top.entries.values())

    def rename(self, proc, src, dst, src_dir_fd=None, dst_dir_fd=None):
        src = self._dirfd(proc, self._fs(src), src_dir_fd)
        dst = self._dirfd(proc, self._fs(dst), dst_dir_fd)
        cdst = self.canon(proc, dst)
        after = self.enter(proc, "rename", self.label(cdst), src)
        for q in (src, dst):
            self._special(proc, q, E.EBUSY, E.EBUSY)
        sd, sn, sp, _ = self._lookup_parent(proc, src)
        dd, dn, dp, _ = self._lookup_parent(proc, dst)
        node = sd.entries.get(sn) if sn else None
        if node is None:
            raise oserr(E.ENOENT, src, dst)
        if node.kind != "d" and (src.endswith("/") or dst.endswith("/")):
            raise oserr(E.ENOTDIR, src, dst)
        if node.kind == "d" and self._below(node, dd):
            raise oserr(E.EINVAL, src, dst)
        if node.kind == "d" and node.dev != sd.dev:
            raise oserr(E.EBUSY, src, dst)
        if node.dev != dd.dev:
            raise oserr(E.EXDEV, src, dst)
        self._wdir(proc, sd, src)
        self._wdir(proc, dd, dst)
        self._stick(proc, sd, node, src)
        old = dd.entries.get(dn)
        if old is node:
            self.leave(proc, after, "rename")
            return
        if old is not None:
            self._stick(proc, dd, old, dst)
            if old.kind == "d" and node.kind != "d":
                raise oserr(E.EISDIR, src, dst)
            if old.kind != "d" and node.kind == "d":
                raise oserr(E.ENOTDIR, src, dst)
            if old.kind == "d" and old.entries:
                raise oserr(E.ENOTEMPTY, src, dst)
            old.nlink -= 1
        del sd.entries[sn]
        dd.entries[dn] = node
        self.meta_log.append(("rename", sd.ino, sn, dd.ino, dn, node))
        self.mutations.append((self.step, proc.idx, "rename-from", sp + "/" + sn))
        self.leave(proc, after, "rename", cdst, True, node)

    def unlink(self, proc, path, dir_fd=None):
        path = self._dirfd(proc, self._fs(path), dir_fd)
        canon = self.canon(proc, path)
        after = self.enter(proc, "unlink", self.label(canon), path)
        d, name, dp, _ = self._lookup_parent(proc, path)
        node = d.entries.get(name) if name else None
        slash = self._special(proc, path, E.EISDIR, E.EISDIR)
        if node is None:
            raise oserr(E.ENOENT, path)
        if node.kind == "d":
            raise oserr(E.EISDIR, path)
        if slash:
            raise oserr(E.ENOTDIR, path)
        self._wdir(proc, d, path)
        self._stick(proc, d, node, path)
        del d.entries[name]
        node.nlink -= 1
        self.meta_log.append(("unlink", d.ino, name))
        self.leave(proc, after, "unlink", canon, True, node)

    def mkdir(self, proc, path, mode=0o777, dir_fd=None):
        path = self._dirfd(proc, self._fs(path), dir_fd)
        canon = self.canon(proc, path)
        after = self.enter(proc, "mkdir", self.label(canon), path)
        d, name, dp, _ = self._lookup_parent(proc, path)
        self._special(proc, path, E.EEXIST, E.EEXIST)
        if name is None or name in d.entries:
            raise oserr(E.EEXIST, path)
        self._wdir(proc, d, path)
        x = self._new("d", mode & ~proc.umask & 0o7777, proc.uid, proc.gid, d.dev)
        x.nlink = 2
        d.entries[name] = x
        self.meta_log.append(("link", d.ino, name, x))
        self.leave(proc, after, "mkdir", canon, True, x)

    def rmdir(self, proc, path, dir_fd=None):
        path = self._dirfd(proc, self._fs(path), dir_fd)
        canon = self.canon(proc, path)
        after = self.enter(proc, "rmdir", self.label(canon), path)
        d, name, dp, _ = self._lookup_parent(proc, path)
        self._special(proc, path, E.EINVAL, E.ENOTEMPTY)
        x = d.entries.get(name) if name else None
        if x is None:
            raise oserr(E.ENOENT, path)
        if x.kind != "d":
            raise oserr(E.ENOTDIR, path)
        if x.dev != d.dev:
            raise oserr(E.EBUSY, path)
        if x.entries:
            raise oserr(E.ENOTEMPTY, path)
        self._wdir(proc, d, path)
        del d.entries[name]
        self.meta_log.append(("unlink", d.ino, name))
        self.leave(proc, after, "rmdir", canon, True, x)

    def link(self, proc, src, dst, src_dir_fd=None, dst_dir_fd=None, follow_symlinks=True):
        src, dst = self._fs(src), self._fs(dst)
        canon = self.canon(proc, dst)
        after = self.enter(proc, "link", self.label(canon), src)
        n = self._resolve(proc, src, False)
        d, name, dp, _ = self._lookup_parent(proc, dst)
        slash = self._special(proc, dst, E.EEXIST, E.EEXIST)
        if name is None or name in d.entries:
            raise oserr(E.EEXIST, src, dst)
        if slash:
            raise oserr(E.ENOENT, src, dst)
        if n.kind == "d":
            raise oserr(E.EPERM, src, dst)
        if n.dev != d.dev:
            raise oserr(E.EXDEV, src, dst)
        self._wdir(proc, d, dst)
        d.entries[name] = n
        n.nlink += 1
        self.meta_log.append(("link", d.ino, name, n))
        self.leave(proc, after, "link", canon, True, n)

    def symlink(self, proc, target, path, target_is_directory=False, dir_fd=None):
        path = self._dirfd(proc, self._fs(path), dir_fd)
        canon = self.canon(proc, path)
        after = self.enter(proc, "symlink", self.label(canon), path)
        d, name, dp, _ = self._lookup_parent(proc, path)
        slash = self._special(proc, path, E.EEXIST, E.EEXIST)
        if name is None or name in d.entries:
            raise oserr(E.EEXIST, path)
        if slash:
            raise oserr(E.ENOENT, path)
        self._wdir(proc, d, path)
        x = self._new("l", 0o777, proc.uid, proc.gid, d.dev)
        x.target = self._fs(target)
        x.nlink = 1
        d.entries[name] = x
        self.meta_log.append(("link", d.ino, name, x))
        self.leave(proc, after, "symlink", canon, True, x)

    def chmod(self, proc, path, mode, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int):
            return self.fchmod(proc, path, mode)
        path = self._dirfd(proc, self._fs(path), dir_fd)
        canon = self.canon(proc, path)
        after = self.enter(proc, "chmod", self.label(canon), path)
        n = self._resolve(proc, path, follow_symlinks)
        if proc.uid not in (0, n.uid):
            raise oserr(E.EPERM, path)
        ch = n.mode != (mode & 0o7777)
        n.mode = mode & 0o7777
        self.leave(proc, after, "chmod", canon, ch, n)

    def fchmod(self, proc, fd, mode):
        of = self._of(proc, fd)
        after = self.enter(proc, "chmod", of.label)
        n = of.inode
        if proc.uid not in (0, n.uid):
            raise oserr(E.EPERM)
        ch = n.mode != (mode & 0o7777)
        n.mode = mode & 0o7777
        self.leave(proc, after, "chmod", of.path, ch, n)

    def _chown(self, proc, n, uid, gid, path=None):
        uid = n.uid if uid == -1 else uid
        gid = n.gid if gid == -1 else gid
        if proc.uid != 0 and (uid != n.uid or (gid != n.gid and not (
                n.uid == proc.uid and gid in (proc.gid, *proc.spec.get("groups", []))))):
            raise oserr(E.EPERM, path)
        ch = (uid, gid) != (n.uid, n.gid)
        n.uid, n.gid = uid, gid
        if ch and n.kind == "f":
            n.mode &= ~0o6000
        return ch

    def chown(self, proc, path, uid, gid, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int):
            return self.fchown(proc, path, uid, gid)
        path = self._dirfd(proc, self._fs(path), dir_fd)
        canon = self.canon(proc, path)
        after = self.enter(proc, "chown", self.label(canon), path)
        n = self._resolve(proc, path, follow_symlinks)
        ch = self._chown(proc, n, uid, gid, path)
        self.leave(proc, after, "chown", canon, ch, n)

    def fchown(self, proc, fd, uid, gid):
        of = self._of(proc, fd)
        after = self.enter(proc, "chown", of.label)
        ch = self._chown(proc, of.inode, uid, gid)
        self.leave(proc, after, "chown", of.path, ch, of.inode)

    def utime(self, proc, path, times=None, ns=None, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int):
            n = self._of(proc, path).inode
            canon = self._of(proc, path).path
        else:
            path = self._dirfd(proc, self._fs(path), dir_fd)
            canon = self.canon(proc, path)
            n = self._resolve(proc, path, follow_symlinks)
        after = self.enter(proc, "utime", self.label(canon), path)
        if proc.uid not in (0, n.uid):
            raise oserr(E.EPERM, path)
        if ns is not None:
            n.mtime = ns[1]
        elif times is not None:
            n.mtime = int(times[1] * 1e9)
        else:
            n.mtime = self.wall()
        self.leave(proc, after, "utime", canon, True, n)

    def scandir_entries(self, proc, path):
        """-> (list of (name, inode), error to raise after k entries or None)."""
        if isinstance(path, int):
            of = self._of(proc, path)
            node, canon, shown = of.inode, of.path, path
        else:
            shown = path = self._fs(path)
            canon = self.canon(proc, path)
            node = None
        after = self.enter(proc, "scandir", self.label(canon), shown)
        if node is None:
            node = self._resolve(proc, path)
        if node.kind != "d":
            raise oserr(E.ENOTDIR, shown)
        if not self._perm(proc, node, 4):
            raise oserr(E.EACCES, shown)
        ents = sorted(node.entries.items(), key=lambda kv: self._order(node, kv[0]))
        self.leave(proc, after, "scandir")
        return ents, canon

    def _order(self, d, name):
        # a fixed pseudo-random listing order per salt; independent of hash() and inodes
        h = (self.order * 1000003 + 17) & 0xFFFFFFFF
        for c in name:
            h = ((h ^ ord(c)) * 16777619) & 0xFFFFFFFF
        h ^= h >> 15
        h = (h * 2246822519) & 0xFFFFFFFF
        h ^= h >> 13
        return (h, name)

    def chdir(self, proc, path):
        path = self._fs(path)
        n = self._resolve(proc, path)
        if n.kind != "d":
            raise oserr(E.ENOTDIR, path)
        proc.cwd = self.canon(proc, path)

    def write_std(self, proc, fd, b):
        b = bytes(b)
        if fd in proc.fds and proc.fds[fd].inode is NULL:
            return len(b)              # the program pointed its output at /dev/null
        after = self.enter(proc, "stdout" if fd == 1 else "stderr", "<std>")
        if after and after["kind"] == "short" and fd == 1 and len(b) > 1:
            self.fire("short", after)
            b = b[:max(1, min(after["n"], len(b) - 1))]
            after = None
        (proc.out if fd == 1 else proc.err).extend(b)
        for ob in self.std_observers:
            ob(self, proc)
        self.leave(proc, after, "stdout")
        return len(b)
