"""Checks of the machinery itself (not of the package).

python -m dst.selftest determinism [N]   same seeds, other worker counts, processes and hash seeds
python -m dst.selftest cli [N]           command-line runs: simulated kernel against a real directory
python -m dst.selftest calls [N]         random system calls: simulated kernel against a real directory

The real side runs as an unprivileged user inside a scratch directory that is removed again.
"""
import json
import os
import random
import re
import shutil
import socket
import stat
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UID = 1000


def determinism(n):
    bad = 0
    d = tempfile.mkdtemp()
    try:
        for k in range(1, 25):
            pid = "C%02d" % k
            got = []
            for j, (workers, hs) in enumerate(((1, "0"), (3, "1"), (8, "77"), (5, "0"))):
                f = os.path.join(d, "%s.%d" % (pid, j))
                env = dict(os.environ, DST_HASHSEED=hs)
                m = max(2, n // 8) if pid in ("C11", "C12", "C13", "C14", "C22") else n
                r = subprocess.run([sys.executable, "-m", "dst.run", "--property", pid, "--sessions", str(m),
                                    "--workers", str(workers), "--no-evidence", "--digests", f], cwd=HERE, env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode:
                    print(pid, "exit", r.returncode, r.stdout.decode()[-500:])
                with open(f) as fh:
                    got.append(json.load(fh))
            diff = [i for i in got[0] if any(g.get(i) != got[0][i] for g in got[1:])]
            print("%s: %d sessions x %d configurations, %d differ %s" % (pid, len(got[0]), len(got), len(diff), diff[:5]))
            bad += len(diff)
    finally:
        shutil.rmtree(d)
    return bad


# ------------------------------------------------------------------ real directories
def materialise(top, nodes):
    os.makedirs(top + "/home/u", exist_ok=True)
    for d in ("/tmp", "/dev"):
        os.makedirs(top + d, exist_ok=True)
    modes = []

    def mkdirs(p, uid=UID, gid=UID):
        cur = top
        for part in [x for x in p.split("/") if x]:
            cur += "/" + part
            if not os.path.isdir(cur):
                os.mkdir(cur)
                os.chown(cur, uid, gid)
    os.chown(top + "/home/u", UID, UID)
    for n in nodes:
        p = top + n["path"]
        if n["kind"] == "m":                      # no mount can be made here: an ordinary directory
            continue
        if n["kind"] == "d":
            mkdirs(n["path"], n.get("uid", UID), n.get("gid", UID))
            if "mode" in n:
                modes.append((p, n["mode"]))
            continue
        mkdirs(os.path.dirname(n["path"]))
        if n["kind"] == "f":
            with open(p, "wb") as f:
                f.write(n["data"])
            os.chown(p, n.get("uid", UID), n.get("gid", UID))
            os.chmod(p, n.get("mode", 0o644))
        elif n["kind"] == "h":
            os.link(top + n["target"], p)
        elif n["kind"] == "p":
            os.mkfifo(p)
            os.chown(p, n.get("uid", UID), n.get("gid", UID))
            os.chmod(p, n.get("mode", 0o644))
        elif n["kind"] == "s":
            here = os.getcwd()
            os.chdir(os.path.dirname(p))             # the name of a socket has a short limit
            with socket.socket(socket.AF_UNIX) as so:
                so.bind(os.path.basename(p))
            os.chdir(here)
            os.chown(p, n.get("uid", UID), n.get("gid", UID))
            os.chmod(p, n.get("mode", 0o644))
        else:
            t = n["target"]
            os.symlink(top + t if t.startswith("/") else t, p)
            os.lchown(p, UID, UID)
    for p, m in modes:
        os.chmod(p, m)


def snapshot(top):
    out = {}
    for root, dirs, files in os.walk(top + "/home/u"):
        for nm in dirs + files:
            p = os.path.join(root, nm)
            st = os.lstat(p)
            rel = p[len(top):]
            if os.path.islink(p):
                t = os.readlink(p)
                out[rel] = ("l", 0o777, st.st_uid, st.st_gid, t[len(top):] if t.startswith(top) else t)
            elif stat.S_ISFIFO(st.st_mode) or stat.S_ISSOCK(st.st_mode):
                out[rel] = ("p" if stat.S_ISFIFO(st.st_mode) else "s", st.st_mode & 0o7777, st.st_uid, st.st_gid, None)
            elif os.path.isdir(p):
                out[rel] = ("d", st.st_mode & 0o7777, st.st_uid, st.st_gid, None)
            else:
                with open(p, "rb") as f:
                    out[rel] = ("f", st.st_mode & 0o7777, st.st_uid, st.st_gid, f.read())
    return out


def user():
    os.setgroups([])
    os.setgid(UID)
    os.setuid(UID)


def cli(n):
    from . import judge, model, profiles as P, rng, sim, world as W
    ref = model.Ref()
    bad = done = 0
    for i in range(n):
        r = rng.derive(20, "selftest", i)
        case = P.make(r, ref, W.WRITING + W.READONLY, over={"missing": .2, "overlap": .2}, files=(1, 7), bad=.4, perm=.3,
                      readonly_dir=.2, links=.5, invalid=.3, kn=0)
        s = case["phases"][0][0]
        if s.get("cwd") == "/" and any(a.startswith("..") for a in s["args"]):
            continue
        if any("\udc80" <= c <= "\udcff" for f in case["world"]["files"] for c in f["path"]):
            continue
        res = sim.run(judge.run_case_plan(case))
        p = res.procs[0]
        top = tempfile.mkdtemp(prefix="dst-")
        try:
            os.chmod(top, 0o755)
            materialise(top, W.nodes(case["world"]))
            args = [top + a if a.startswith("/") else a for a in s["args"]]
            env = {k: v.replace("/home/u", top + "/home/u") for k, v in s.get("env", {}).items()
                   if v is not None and not k.startswith(("PYTHON", "LC_", "LANG"))}
            env |= {"PATH": "/usr/bin:/bin", "PYTHONPATH": os.environ.get("DST_REPO", "/repo"), "LC_ALL": "C.UTF-8",
                   "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}
            q = subprocess.run([sys.executable, "-m", "sqlvalidator.main"] + args,
                               cwd=top + s.get("cwd", W.PROJ), env=env, preexec_fn=user, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=120, umask=0o022)
            def norm(out):
                return sorted(re.sub(r"\.sqlvalidator-\w{8}\.", "", out.replace(top, "")).splitlines())
            real = (q.returncode, norm(q.stdout.decode()))
            simd = (p.exit_code, norm(bytes(p.out).decode()))
            rt = snapshot(top)
            st = {k: v for k, v in res.trees[-1].items() if k.startswith("/home/u/")}
            done += 1
            what = None
            if real != simd:
                what = "real %s\nsimulated %s" % (real, simd)
            elif rt != st:
                k = sorted(k for k in set(rt) | set(st) if rt.get(k) != st.get(k))[0]
                what = "%s: real %s simulated %s" % (k, rt.get(k), st.get(k))
            if what:
                bad += 1
                print("DIFFERENT session %d %s (cwd %s)\n%s" % (i, s["args"], s.get("cwd"), what))
        finally:
            shutil.rmtree(top)
    print("cli: %d runs compared, %d differ" % (done, bad))
    return bad


# ------------------------------------------------------------------ random system calls
NAMES = ["a", "b", "c.py", "d", "e"]


def rpath(r):
    parts = [r.choice(NAMES + [".."] * (r.random() < .1) + ["."] * (r.random() < .1)) for _ in range(r.choice([1, 1, 2, 2, 3]))]
    return "/".join(parts) + ("/" if r.random() < .03 else "")


def rop(r):
    """Left out: precedence of two applicable errors for paths ending in `.`/`..`, and a working
    directory whose own ancestors lose their search permission."""
    while True:
        op = _rop(r)
        ps = [x.rstrip("/").rsplit("/", 1)[-1] for x in op[1:] if isinstance(x, str)]
        if op[0] in ("rename", "open", "pywrite", "truncate") and any(x in (".", "..") for x in ps):
            continue
        if op[0] == "chmod" and ".." in op[1]:
            continue
        if op[0] == "open" and op[2] & os.O_NOFOLLOW and op[1].endswith("/"):
            continue
        return op


def _rop(r):
    c = r.choice(["open", "open", "open", "read", "write", "close", "rename", "unlink", "mkdir", "rmdir", "symlink",
                  "symlink", "link", "stat", "lstat", "readlink", "chmod", "listdir", "access", "truncate", "lseek",
                  "fstat", "ftruncate", "pyread", "pywrite", "realpath", "walk", "isfile", "dup", "pread", "glob"])
    if c == "open":
        fl = r.choice([os.O_RDONLY, os.O_WRONLY, os.O_RDWR, os.O_WRONLY | os.O_CREAT, os.O_WRONLY | os.O_CREAT | os.O_EXCL,
                       os.O_RDWR | os.O_CREAT | os.O_TRUNC, os.O_WRONLY | os.O_APPEND, os.O_RDONLY | os.O_NOFOLLOW,
                       os.O_RDONLY | os.O_DIRECTORY])
        return [c, rpath(r), fl, r.choice([0o644, 0o600, 0o400, 0o200])]
    if c in ("read", "pread"):
        return [c, r.randrange(4), r.randrange(12)]
    if c == "write":
        return [c, r.randrange(4), "x" * r.randrange(9) + "\n"]
    if c in ("close", "fstat", "dup"):
        return [c, r.randrange(4)]
    if c in ("rename", "link"):
        return [c, rpath(r), rpath(r)]
    if c == "symlink":
        return [c, r.choice([rpath(r), rpath(r), "../" + rpath(r), ".", "a", "b"]), rpath(r)]
    if c == "chmod":
        return [c, rpath(r), r.choice([0o755, 0o644, 0o400, 0o000, 0o555, 0o777])]
    if c == "access":
        return [c, rpath(r), r.choice([0, 1, 2, 4, 6])]
    if c == "truncate":
        return [c, rpath(r), r.randrange(20)]
    if c in ("lseek", "ftruncate"):
        return [c, r.randrange(4), r.randrange(20)] + ([r.randrange(3)] if c == "lseek" else [])
    if c == "pywrite":
        return [c, rpath(r), r.choice(["w", "a", "x", "r+", "w+"]), "abc\ndef" * r.randrange(4)]
    return [c, rpath(r)]


def perform(op, fds):
    import errno
    c, a = op[0], op[1:]

    def mode(st):
        return [st.st_mode, st.st_uid, st.st_gid, st.st_size if (st.st_mode & 0o170000) != 0o040000 else 0,
                st.st_nlink if (st.st_mode & 0o170000) != 0o040000 else 0]
    try:
        if c == "open":
            fds.append(os.open(*a))
            return len(fds)
        if c in ("read", "write", "close", "fstat", "lseek", "ftruncate", "dup", "pread"):
            if not fds:
                return None
            fd = fds[a[0] % len(fds)]
            if c == "read":
                return os.read(fd, a[1]).decode()
            if c == "pread":
                return os.pread(fd, 7, a[1]).decode()
            if c == "write":
                return os.write(fd, a[1].encode())
            if c == "close":
                fds.remove(fd)
                return os.close(fd)
            if c == "fstat":
                return mode(os.fstat(fd))
            if c == "dup":
                fds.append(os.dup(fd))
                return len(fds)
            if os.fstat(fd).st_mode & 0o170000 == 0o040000:
                return None
            return getattr(os, c)(fd, *a[1:])
        if c in ("stat", "lstat"):
            return mode(getattr(os, c)(*a))
        if c == "listdir":
            return sorted(os.listdir(*a))
        if c == "pyread":
            with open(a[0]) as f:
                return f.read()
        if c == "pywrite":
            with open(a[0], a[1]) as f:
                return f.write(a[2])
        if c == "realpath":
            x = os.path.realpath(a[0])
            cwd = os.path.realpath(".")
            return os.path.relpath(x, cwd)
        if c == "isfile":
            return [os.path.isfile(a[0]), os.path.isdir(a[0]), os.path.islink(a[0]), os.path.exists(a[0])]
        if c == "walk":
            return sorted([x, sorted(y), sorted(z)] for x, y, z in os.walk(a[0]))
        if c == "glob":
            import glob
            import pathlib
            return [sorted(glob.glob(a[0] + "/*")), sorted(map(str, pathlib.Path(a[0]).rglob("*"))),
                    sorted(glob.glob("*/*")), sorted(glob.glob("*/*/*.py"))]
        return getattr(os, c)(*a)
    except OSError as e:
        return "E:" + errno.errorcode.get(e.errno, str(e.errno))


def sequence(ops):
    fds = []
    out = []
    for op in ops:
        out.append(perform(op, fds))
    for fd in fds:
        try:
            os.close(fd)
        except OSError:
            pass
    return json.loads(json.dumps(out))


def calls(n):
    from . import kernel, rng, seam
    bad = 0
    total = 0
    for i in range(n):
        r = rng.derive(21, "calls", i)
        ops = [rop(r) for _ in range(r.randint(5, 60))]
        # simulated
        k = kernel.Kernel([{"kind": "d", "path": "/home/u/proj"}], [], step_limit=1000000)
        p = kernel.Proc(0, {"args": []})
        seam.CUR.kernel, seam.CUR.proc = k, p
        try:
            simd = sequence(ops)
        finally:
            seam.CUR.proc = seam.CUR.kernel = None
        st = {q: e for q, e in k.tree("/home/u").items()}
        top = tempfile.mkdtemp(prefix="dst-")
        try:
            os.chmod(top, 0o755)
            materialise(top, [{"kind": "d", "path": "/home/u/proj"}])
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    user()
                    os.umask(0o022)
                    os.chdir(top + "/home/u/proj")
                    with os.fdopen(wr, "w") as f:
                        f.write(json.dumps(sequence(ops)))
                finally:
                    os._exit(0)
            os.close(wr)
            with os.fdopen(rd) as f:
                real = json.loads(f.read())
            os.waitpid(pid, 0)
            rt = snapshot(top)
        finally:
            shutil.rmtree(top)
        total += len(ops)
        for j, (a, b) in enumerate(zip(simd, real)):
            if a != b:
                bad += 1
                print("DIFFERENT session %d call %d %s: simulated %s, real %s; before: %s" % (
                    i, j, ops[j], a, b, ops[max(0, j - 8):j]))
                break
        else:
            if st != rt:
                bad += 1
                q = sorted(q for q in set(rt) | set(st) if rt.get(q) != st.get(q))[0]
                print("DIFFERENT session %d tree %s: simulated %s, real %s" % (i, q, st.get(q), rt.get(q)))
    print("calls: %d sequences, %d calls compared, %d differ" % (n, total, bad))
    return bad


def main():
    what = sys.argv[1] if len(sys.argv) > 1 else "all"
    n = int(sys.argv[2]) if len(sys.argv) > 2 else None
    bad = 0
    if what in ("determinism", "all"):
        bad += determinism(n or 40)
    if what in ("cli", "calls", "all"):
        from . import seam
        seam.install()
        from . import loader
        loader.compile_all()
        if what in ("calls", "all"):
            bad += calls(n or 2000)
        if what in ("cli", "all"):
            bad += cli(n or 200)
    return 1 if bad else 0


if __name__ == "__main__":
    random.seed(0)
    sys.exit(main())
