"""python -m dst.run --property Cxx [--replay FILE] [--sessions N] [--seed S] [--selftest]

Exit 0: the property held in everything explored; 1: VIOLATION line; 2: the check itself failed.
"""
import argparse
import json
import mmap
import os
import signal
import struct
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def fixed_interpreter():
    """Everything below runs under one hash seed: the runs must not depend on the environment."""
    want = {"PYTHONHASHSEED": os.environ.get("DST_HASHSEED", "0"), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONUTF8": "0", "LC_ALL": "C.UTF-8"}
    if any(os.environ.get(k) != v for k, v in want.items()):
        os.environ.update(want)
        os.execv(sys.executable, [sys.executable, "-m", "dst.run"] + sys.argv[1:])


#            quick sessions, thorough factor
SESSIONS = {"C01": 450, "C02": 1200, "C03": 1800, "C04": 600, "C05": 2200, "C06": 3000, "C07": 3000, "C08": 1200,
            "C09": 700, "C10": 650, "C11": 1400, "C12": 600, "C13": 280, "C14": 130, "C15": 5000, "C16": 3500,
            "C17": 800, "C18": 2000,
            "C19": 2400, "C20": 800, "C21": 2400, "C22": 450, "C23": 2600, "C24": 800}
LEVEL = {"C01": "fault_enumeration"}
THOROUGH = 20
CASE_WALL = 120
DIGESTS = []
WALL = {"quick": 420, "thorough": 820}


def load_known():
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return json.load(f)


def describe(case):
    out = {"kind": case["kind"]}
    if "world" in case:
        w = case["world"]
        out["files"] = {f["path"]: "".join(f.get("items", [f.get("raw", "")]))[:200] for f in w["files"][:6]}
        out["dirs"] = [d["path"] for d in w["dirs"]]
        out["links"] = {x["path"]: x["target"] for x in w["links"]}
        out["phases"] = [[s["args"] for s in ph] for ph in case["phases"]]
    for k in ("faults", "lines", "variant", "objects", "plan", "scope", "seeds"):
        if case.get(k):
            out[k] = case[k][:12] if isinstance(case[k], list) else case[k]
    if "threads" in case:
        out["threads"] = [t[:6] for t in case["threads"]]
    if "sqls" in case:
        out["sqls"] = case["sqls"][:3]
    return out


class Hang(BaseException):
    pass


def indices(tok, n):
    """The next session nobody has taken: a counter that travels through a pipe."""
    while True:
        i = struct.unpack("q", os.read(tok[0], 8))[0]
        os.write(tok[1], struct.pack("q", i + 1))
        if i >= n:
            return
        yield i


def worker(w, nw, pid, seed, n, deep, best, wr, deadline, tok):
    from . import cases, profiles, rng
    ctx = cases.Ctx()
    found = None
    errors = []
    done = ncases = 0
    samples = []
    perses = {}          # self-test only: what each session saw
    cur = {}

    def report(**more):
        st = ctx.stats
        ans = {"found": found, "errors": errors[:3], "nerrors": len(errors), "done": done, "cases": ncases,
               "samples": samples, "runs": st.runs, "procs": st.procs, "events": st.events, "sim_ns": st.sim_ns,
               "fired": st.fired, "switches": st.switches, "digests": sorted(st.digests), "watch": st.watch,
               "probes": st.probes, "perses": perses}
        ans.update(more)
        with os.fdopen(wr, "wb") as f:
            f.write(json.dumps(ans).encode())

    def alarm(_s, _f):
        sys.setrecursionlimit(20000)          # may have interrupted code at its limit
        try:
            report(hang=cur)
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    signal.signal(signal.SIGALRM, alarm)
    for i in indices(tok, n):
        if i > struct.unpack("q", best[:8])[0] or time.time() > deadline:
            break
        r = rng.derive(seed, pid, i)
        if DIGESTS:
            ctx.stats.digests = set()
            mark = (ctx.stats.runs, ctx.stats.events, set())
        try:
            cur.clear()
            signal.alarm(CASE_WALL)
            for case, base in profiles.session(pid, i, r, ctx, deep):
                cur.update(i=i, case=case)
                signal.alarm(CASE_WALL)
                ncases += 1
                v, _res = cases.evaluate(case, ctx, base)
                if len(samples) < 1 and (case.get("faults") or case.get("plan") or pid in ("C06", "C14")):
                    samples.append(dict(describe(case), session=i))
                v = [x for x in v if pid in x.props]
                if v:
                    found = {"i": i, "case": case, "cls": v[0].cls, "msg": v[0].msg, "all": sorted({x.cls for x in v})}
                    break
        except Exception:
            errors.append("session %d: %s" % (i, traceback.format_exc()[-2000:]))
            if cur:
                errors[-1] += "\ncase: " + json.dumps(cur.get("case"))[:3000]
            if len(errors) > 20:
                break
        signal.alarm(0)
        done += 1
        if DIGESTS:
            perses[i] = [ctx.stats.runs - mark[0], ctx.stats.events - mark[1], sorted(ctx.stats.digests - mark[2])]
        ctx.trim()
        if found:
            b = struct.unpack("q", best[:8])[0]
            if i < b:
                best[:8] = struct.pack("q", i)
            break
    report()


def parallel(pid, seed, n, nw, deep, deadline):
    best = mmap.mmap(-1, 4096)
    best[:8] = struct.pack("q", 1 << 60)
    kids = []
    tok = os.pipe()
    os.write(tok[1], struct.pack("q", 0))
    for w in range(nw):
        rd, wr = os.pipe()
        sys.stdout.flush()
        p = os.fork()
        if p == 0:
            os.close(rd)
            code = 0
            try:
                worker(w, nw, pid, seed, n, deep, best, wr, deadline, tok)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                try:
                    if pid == "C14":
                        from . import hashrun
                        hashrun.close()
                finally:
                    os._exit(code)
        os.close(wr)
        kids.append((p, rd))
    os.close(tok[0])
    os.close(tok[1])
    import selectors
    sel = selectors.DefaultSelector()
    bufs = {}
    for p, rd in kids:
        bufs[rd] = []
        sel.register(rd, selectors.EVENT_READ)
    while sel.get_map():
        for key, _ in sel.select():
            b = os.read(key.fd, 1 << 20)
            if b:
                bufs[key.fd].append(b)
            else:
                sel.unregister(key.fd)
                os.close(key.fd)
    out = []
    for p, rd in kids:
        _, st = os.waitpid(p, 0)
        data = b"".join(bufs[rd])
        out.append(json.loads(data) if data else {"dead": st})
    return out


def save_replay(pid, case, cls, msg, seed, i, evals):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-s%s-%s.json" % (pid, seed, i))
    with open(path, "w") as f:
        json.dump({"property": pid, "class": cls, "message": msg, "seed": seed, "session": i,
                   "minimiser_evaluations": evals, "case": case}, f, indent=1)
    return path


def replay(pid, path):
    from . import cases
    with open(path) as f:
        d = json.load(f)
    pid = pid or d["property"]
    ctx = cases.Ctx()
    v, res = cases.evaluate(d["case"], ctx)
    v = [x for x in v if pid in x.props]
    if getattr(res, "kernel", None) is not None:
        for e in res.log:
            print("  %-4s %-10s %s" % (e[0], e[1], " ".join(str(x) for x in e[2:])))
        for p in res.procs:
            print("process %d: %s -> exit %s%s%s" % (p.idx, " ".join(p.args), p.exit_code,
                                                    " killed" if p.killed else "", " %s" % (p.exc,) if p.exc else ""))
            sys.stdout.write(bytes(p.out).decode("utf-8", "backslashreplace"))
    for x in v:
        print("%s: %s" % (x.cls, x.msg.encode("utf-8", "backslashreplace").decode()))
    if v:
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1 if v else 0


def confirm(pid, path):
    from . import effects
    effects.restore()                 # a child inherits ignored signals, the environment and the directory
    r = subprocess.run([sys.executable, "-m", "dst.run", "--property", pid, "--replay", path], cwd=HERE,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
    return r.returncode == 1


def known(pid, ctx):
    """Prints the recorded findings that still occur; -> list of (id, classes)."""
    from . import cases
    out = []
    for k in load_known()["findings"]:
        if k["property"] != pid:
            continue
        try:
            v, _res = cases.evaluate(k["case"], ctx)
        except Exception:                    # the sessions will meet it, too
            continue
        v = [x for x in v if pid in x.props]
        new = [x for x in v if x.cls not in k["classes"]]
        if new:
            out.append((k, new[0]))
        elif v:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--replay")
    ap.add_argument("--sessions", type=int)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick") or "quick")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--digests", help="self-test: write what each session saw to this file")
    a = ap.parse_args()
    fixed_interpreter()
    t0 = time.time()
    from . import seam
    seam.install()
    from . import cases, evidence, loader, minimise
    sys.setrecursionlimit(1000)
    loader.compile_all()
    if a.replay:
        return replay(a.property, a.replay)
    pid = a.property
    deep = a.tier == "thorough"
    n = a.sessions or SESSIONS[pid] * (THOROUGH if deep else 1)
    print("property %s, tier %s, seed %d, %d sessions on %d workers" % (pid, a.tier, a.seed, n, a.workers))
    sys.stdout.flush()
    ctx = cases.Ctx()
    fresh_known = known(pid, ctx)
    DIGESTS.extend([1] if a.digests else [])
    res = parallel(pid, a.seed, n, a.workers, deep, t0 + WALL[a.tier])
    if a.digests:
        with open(a.digests, "w") as f:
            json.dump({k: v for r in res for k, v in r.get("perses", {}).items()}, f)
    errors = [e for r in res for e in r.get("errors", [])]
    dead = [r for r in res if "dead" in r]
    hangs = [r["hang"] for r in res if r.get("hang")]
    live = [r for r in res if "dead" not in r]
    founds = sorted((r["found"] for r in live if r["found"]), key=lambda f: f["i"])
    for k, x in fresh_known:
        founds.append({"i": "known-" + k["id"], "case": k["case"], "cls": x.cls, "msg": x.msg})
    if pid in ("C18", "C11", "C12", "C13") and not founds:
        for h in hangs:
            if "case" not in h:
                continue
            c = h["case"]
            if pid == "C18" and c["kind"] == "run":
                cap = 200000 + 20000 * len(json.dumps(c["world"]))
                c = dict(c, line_cap=cap, line_scope="all")
                ev, _r = cases.evaluate(c, ctx)
                if any(pid in x.props for x in ev):
                    founds.append({"i": h["i"], "case": c, "cls": ev[0].cls, "msg": ev[0].msg})
                    break
    status = 0
    violations = 0
    if founds:
        f = founds[0]
        violations = len(founds)
        case, evals = f["case"], 0
        path = save_replay(pid, case, f["cls"], f["msg"], a.seed, f["i"], 0)
        try:
            small, evals = minimise.minimise(case, pid, f["cls"], ctx)
            v, _r = cases.evaluate(small, ctx)
            v = [x for x in v if pid in x.props and x.cls == f["cls"]]
            if v:
                mp = save_replay(pid, small, f["cls"], v[0].msg, a.seed, f["i"], evals)
                if confirm(pid, mp):
                    f = dict(f, msg=v[0].msg)
                else:
                    path = save_replay(pid, case, f["cls"], f["msg"], a.seed, f["i"], 0)
        except Exception:
            traceback.print_exc()
        ok = any(confirm(pid, path) for _ in range(3))
        print("session %s: %s: %s" % (f["i"], f["cls"], f["msg"].encode("utf-8", "backslashreplace").decode()[:1500]))
        if ok:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            status = 1
        else:
            print("the failure does not replay: nondeterminism outside the simulator")
            status = 2
    elif errors or dead or hangs:
        for e in errors[:3]:
            print(e)
        for h in hangs[:3]:
            print("hung: session %s: %s" % (h.get("i"), json.dumps(h.get("case"))[:3000]))
        print("%d sessions failed inside the harness, %d workers died %s, %d hung" % (
            sum(r.get("nerrors", 0) for r in live), len(dead), [d["dead"] for d in dead], len(hangs)))
        status = 2
    if pid == "C14":
        from . import hashrun
        hashrun.close()
    if not a.no_evidence:
        evidence.write(pid, a.tier, a.seed, n, live, time.time() - t0, violations, LEVEL.get(pid, "exploration"))
    tot = sum(r["runs"] for r in live)
    print("%d sessions, %d simulated runs, %d distinct outcomes, %.1f s" % (
        sum(r["done"] for r in live), tot, len({d for r in live for d in r["digests"]}), time.time() - t0))
    return status


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
