"""The same work in interpreters that differ in hash seed, heap layout, process id, clock and
inode numbers: every observable result must be the same (C14).

The interpreters are real processes, since the hash seed of CPython is fixed at start-up; each
is started with a chosen PYTHONHASHSEED, without address randomisation where the platform
allows it, and runs the same simulated machine on the same case.
"""
import json
import os
import random
import shutil
import subprocess
import sys

from . import environ, rng, sqlgen, world as W

SEEDS = list(range(1, 15))
_pool = {}
_aslr = []


def _prefix():
    if not _aslr:
        s = shutil.which("setarch")
        ok = bool(s) and subprocess.run([s, "-R", "true"], stdout=subprocess.DEVNULL,
                                        stderr=subprocess.DEVNULL).returncode == 0
        _aslr.append([s, "-R"] if ok else [])
    return _aslr[0]


def child(seed):
    p = _pool.get(seed)
    if p is None or p.poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE="1")
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        p = subprocess.Popen(_prefix() + [sys.executable, "-m", "dst.hashrun", str(seed)], cwd=here, env=env,
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        _pool[seed] = p
    return p


def close():
    for p in _pool.values():
        p.stdin.close()
        p.kill()
        p.wait()
    _pool.clear()


def ask(seeds, case):
    line = json.dumps(case).encode() + b"\n"
    for s in seeds:
        p = child(s)
        p.stdin.write(line)
        p.stdin.flush()
    out = []
    for s in seeds:
        ans = child(s).stdout.readline()
        if not ans:
            raise RuntimeError("interpreter with hash seed %s ended" % s)
        out.append(json.loads(ans))
    return out


def evaluate(case, ctx):
    from .judge import V
    seeds = case["seeds"]
    ans = ask(seeds, {"sqls": case["sqls"], "runs": case["runs"]})
    st = ctx.stats
    st.runs += len(seeds) * (len(case["runs"]) + 1)
    st.procs += len(seeds)
    st.probe("hash_seed_evaluations", len(seeds) * len(case["sqls"]))
    out = []
    if any("error" in a for a in ans):
        raise RuntimeError([a for a in ans if "error" in a][0]["error"])
    for a in ans:
        st.events += a["events"]
        st.sim_ns += a["sim_ns"]
    import hashlib
    for x in ans[0]["api"] + ans[0]["cli"]:
        st.digests.add(hashlib.sha256(json.dumps(x).encode()).hexdigest()[:24])
    for key, cls in (("api", "api-differs"), ("cli", "cli-differs")):
        for j in range(len(ans[0][key])):
            for s, a in zip(seeds[1:], ans[1:]):
                if a[key][j] != ans[0][key][j]:
                    what = case["sqls"][j] if key == "api" else " ".join(case["runs"][j]["phases"][0][0]["args"])
                    out.append(V({"C14"}, cls, "%r: under hash seed %s %s, under %s %s" % (
                        what[:300], seeds[0], _short(ans[0][key][j], a[key][j]), s,
                        _short(a[key][j], ans[0][key][j]))))
                    break
            if out:
                break

    class R:
        pass
    return out, R()


def _short(x, y):
    if isinstance(x, dict) and isinstance(y, dict):
        x = {k: v for k, v in x.items() if v != y.get(k)}
    s = json.dumps(x)
    return s if len(s) < 500 else s[:500] + "..."


# ------------------------------------------------------------------ the child
def work(msg, seed):
    from . import api, judge, loader, sim
    out = {"api": [], "cli": [], "events": 0, "sim_ns": 0}
    with api.clocked(seed):
        mods = loader.fresh(("sqlvalidator",))
        loader.activate(mods)
        try:
            for q in msg["sqls"]:
                out["api"].append([api.perform(mods, [], {"op": k, "sql": q}) for k in ("fmt", "new", "newfmt")])
        finally:
            loader.drop()
    for c in msg["runs"]:
        c = dict(c, salt=seed * 7 + 3)
        for ph in c["phases"]:
            for s in ph:
                s["pidoff"] = 37 * seed
                if seed % 3:
                    s["env"] = environ.variant(random.Random(seed))
        res = sim.run(judge.run_case_plan(c))
        out["events"] += len(res.log)
        out["sim_ns"] += max(0, res.kernel.clock - res.kernel.t0)
        out["cli"].append({
            "procs": [[p.exit_code, p.exc and p.exc[0], bytes(p.out).decode("latin-1"), bytes(p.err).decode("latin-1")]
                      for p in res.procs],
            "tree": sorted([p, list(e[:4]) + [e[4].decode("latin-1") if isinstance(e[4], bytes) else e[4]]]
                           for p, e in res.trees[-1].items() if not p.startswith("/tmp"))})
    return out


def serve(seed):
    from . import loader, seam
    seam.install()
    loader.fresh()
    r = random.Random(seed)
    for name, value in environ.variant(r).items():
        if value is None:
            os.environ.pop(name, None)
        elif not name.startswith(("PYTHON", "LC_", "LANG", "TMP", "TEMP")):
            os.environ[name] = value
    junk = [bytearray(r.randrange(1, 600)) for _ in range(2000 + 500 * (seed % 13))]
    junk += [{j: None} for j in range(r.randrange(3000))]
    keep = [x for x in junk if r.random() < .5]
    del junk
    _ = keep
    out = sys.stdout.buffer
    while True:
        line = sys.stdin.buffer.readline()
        if not line:
            return
        rd, wr = os.pipe()
        pid = os.fork()               # every case starts from the same heap
        if pid == 0:
            os.close(rd)
            try:
                ans = work(json.loads(line), seed)
            except BaseException as e:
                import traceback
                ans = {"error": "%s\n%s" % (e, traceback.format_exc())}
            with os.fdopen(wr, "wb") as f:
                f.write(json.dumps(ans).encode() + b"\n")
            os._exit(0)
        os.close(wr)
        with os.fdopen(rd, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        out.write(data)
        out.flush()


# ------------------------------------------------------------------ generation
TYPED = ["1 {c}", "true {c}", "'s' {c}", "count(*) {c}", "u.{c}", "{c}", "max(q) as {c}", "date('2020-01-01') {c}",
         "1.5 as {c}", "null {c}", "(1+2) {c}", "a = 1 {c}", "cast(z as int64) {c}", "case when a then 1 else 2 end {c}"]
NM = ["x", "y", "z", "aa", "bb", "col"]


class Ambig:
    """Queries whose known columns are duplicated, ambiguous or missing."""

    def __init__(self, r):
        self.r = r
        self.nm = r.sample(NM, r.choice([1, 2, 2, 3, 6]))
        self.typed = r.sample(TYPED, r.choice([2, 3, 5, len(TYPED)]))
        self.extra = r.choice([0, .3, 1])        # how many clauses besides the plain ones

    def items(self, n):
        r = self.r
        out = [r.choice(self.typed).format(c=r.choice(self.nm)) for _ in range(n)]
        if r.random() < .15 * self.extra:
            out.append(r.choice(["*", "a.*", "t.*"]))
        return ", ".join(out)

    def source(self, d):
        r = self.r
        if d <= 0 or r.random() < .2:
            return r.choice(["t", "u", "`p.d.t`"])
        return "(%s)" % self.query(d - 1)

    def query(self, d=2):
        r = self.r
        q = "SELECT %s FROM %s" % (self.items(r.randint(1, 5)), self.source(d))
        if r.random() < .6 * self.extra:
            q += " " + r.choice(["a", "b", "t"])
        for _ in range(r.choice([0, 0, 1, 1, 2]) if r.random() < self.extra else 0):
            q += r.choice([" JOIN ", " LEFT JOIN ", " CROSS JOIN ", ", "]) + self.source(d - 1) + " " + r.choice("abt")
            if r.random() < .6:
                q += " ON " + self.cond() if r.random() < .6 else " USING (%s)" % ", ".join([r.choice(self.nm) for _ in range(r.choice([1, 2]))])
        if r.random() < .5:
            q += " WHERE " + self.cond()
        if r.random() < .4 * self.extra:
            q += " GROUP BY " + ", ".join(r.choice(self.nm + ["1", "2", "9", "a.x"]) for _ in range(r.randint(1, 3)))
            if r.random() < .5:
                q += " HAVING " + self.cond()
        if r.random() < .35 * self.extra:
            q += " ORDER BY " + ", ".join(r.choice(self.nm + ["1", "7", "b.y desc"]) for _ in range(r.randint(1, 3)))
        if r.random() < .3 * self.extra:
            q += " LIMIT " + r.choice(["x", "1", "-1", "y"])
        if d == 2 and r.random() < .2:
            q += r.choice([" UNION ALL ", " UNION ", " EXCEPT DISTINCT "]) + self.query(1)
        return q

    def cond(self):
        r = self.r
        c = r.randrange(6) if r.random() < self.extra else 0
        v = r.choice(self.nm)
        w = r.choice(["a.", "b.", "t.", "q.", ""]) + r.choice(self.nm)
        return [v, "%s AND %s" % (v, w), "%s = %s" % (v, w), w, "NOT " + v, "%s OR %s > 1" % (w, v)][c]


def session(i, r, ctx, deep):
    from . import api, profiles as P
    sqls = []
    for _ in range(60):
        c = r.random()
        if c < .6:
            sqls.append(Ambig(r).query(r.choice([1, 2, 2])))
        elif c < .75:
            sqls.append(sqlgen.Gen(r, escapes=True, sane=False).query())
        else:
            sqls.append(api.query(r, False))
    runs = []
    for _ in range(3):
        case = P.make(r, ctx.ref, W.WRITING + W.READONLY * 2, files=(1, 6), bad=.3, invalid=.4,
                      over={"overlap": .3, "missing": .2})
        w = case["world"]
        for f in w["files"]:
            if r.random() < .5 and "enc" not in f:
                f["items"].insert(0, 'q = """%s"""\n' % Ambig(r).query())
        if r.random() < .6:
            a = case["phases"][0][0]["args"]
            case["phases"][0][0]["args"] = [x for x in a if x not in ("--validate", "--verbose-validate")] + [
                "--verbose-validate"]
        runs.append({k: v for k, v in case.items() if k not in ("salt",)})
    n = len(SEEDS) if not deep else 40
    seeds = SEEDS if not deep else [1 + (i * 40 + j) % 160 for j in range(n)]
    yield {"kind": "hash", "seeds": seeds, "sqls": sqls, "runs": runs}, None


if __name__ == "__main__":
    serve(int(sys.argv[1]))
