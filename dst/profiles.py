"""Per property: which simulated executions one seed stands for.

session(pid, i, r, ctx, deep) yields (case, base) pairs; base is the Result of the undisturbed
run of the same case when one is at hand (it only saves time)."""
from . import environ, faults as F, judge, model, sim, sqlgen, world as W
from .cases import same_file_twice

RO, WR = W.READONLY, W.WRITING
PROJ = W.PROJ


def spec(r, args, cwd=PROJ, **kw):
    s = {"args": args}
    if cwd != PROJ:
        s["cwd"] = cwd
    s.update(kw)
    return s


def knobs(r, s):
    """Swarm: I/O sizes and process environment of one process."""
    if r.random() < .3:
        s["bufsize"] = r.choice([1, 16, 64, 512, 65536])
    if r.random() < .3:
        s["chunk"] = r.choice([1, 3, 16, 100])
    if r.random() < .15:
        s["wlim"] = r.choice([1, 5, 40])
    if r.random() < .15:
        s["rlim"] = r.choice([1, 5, 40])
    if r.random() < .2:
        s["umask"] = r.choice([0o000, 0o077, 0o027, 0o002])
    if r.random() < .1:
        s["tty"] = True
    return s


def cwd_of(r, w):
    c = r.randrange(8)
    if c == 0:
        return "/"
    if c == 1:
        return "/home/u"
    if c == 2 and w["dirs"]:
        d = r.choice(w["dirs"])
        if "mode" not in d:
            return d["path"]
    return PROJ


def make(r, ref, flags, over=None, srcs=None, kn=.4, scale=0, **cfg):
    w = W.gen(r, ref, **cfg)
    if r.random() < scale and W.scale_up(r, w, ref):
        kn = 0
    cwd = cwd_of(r, w)
    s = spec(r, r.choice(flags) + (srcs(r, w, cwd) if srcs else W.gen_sources(r, w, cwd, **(over or {}))), cwd)
    if r.random() < kn:
        knobs(r, s)
    if r.random() < .25:
        s["env"] = environ.variant(r, [PROJ] + [d["path"] for d in w["dirs"]] + [
            f["path"].rsplit("/", 1)[0] for f in w["files"] if f["path"].startswith(PROJ + "/")])
    return {"kind": "run", "world": w, "phases": [[s]], "faults": [], "salt": r.randrange(50),
            "seed": r.randrange(1 << 30), "order": r.randrange(1 << 20)}


def dry(case, count=False, scope="grammar"):
    c = dict(judge.undisturbed(case))
    if count:
        c["count_lines"] = True
        c["line_scope"] = scope
    res = sim.run(judge.run_case_plan(c))
    cut = links_to_dirs(case, res)
    res.log = [e for e in res.log if not (e[1] == "lstat" and e[2] in cut)]
    return res


def deeper(r, case, kinds, wfiles=()):
    """One more fault somewhere on the path that the faults of `case` lead to."""
    if not case["faults"]:
        return None
    res = sim.run(judge.run_case_plan(dict(case, lines=[])))
    first = {(f["proc"], f["op"], f["label"], f["occ"]) for f in case["faults"]}
    at = [i for i, e in enumerate(res.log) if tuple(e) in first]
    if not at or any(p.killed and p.idx == res.log[at[0]][0] for p in res.procs):
        return None
    cut = links_to_dirs(case, res)
    log = [e for e in res.log[at[0] + 1:] if not (e[1] == "lstat" and e[2] in cut)]
    if r.random() < .7:
        log = log[:12]
    fs = one_fault(r, log, kinds, wfiles) if log else []
    return with_faults(case, fs) if fs else None


def links_to_dirs(case, res):
    """os.walk() takes a link whose lstat fails for a directory and descends (known finding):
    no such failure is drawn at random."""
    fs = model.FS(res.trees[0], 0, 0)
    return {ln["path"] for ln in case["world"]["links"] if fs.kind(ln["path"], False) == "d"}


def with_faults(case, fs, **kw):
    return dict(case, faults=case.get("faults", []) + fs, **kw)


def one_fault(r, log, kinds, wfiles=(), procs=None):
    k = r.choice(kinds)
    if k == "crash":
        return F.crash(r, log, procs)
    if k == "kbd":
        return F.interrupt(r, log, procs)
    if k == "errno":
        return F.error(r, log, procs)
    if k == "nomem":
        return F.memory(r, log, procs)
    if k == "fill":
        return F.fill(r, log, procs)
    if k == "benign":
        return F.benign(r, log, procs)
    if k == "env":
        return F.env(r, log, list(wfiles), procs)
    raise KeyError(k)


def several(r, log, kinds, wfiles=(), lo=1, hi=3):
    out = []
    for _ in range(r.choice([lo, lo, lo, hi, r.randint(lo, hi)])):
        out += one_fault(r, log, kinds, wfiles)
    return out


def pfiles(case):
    return [f["path"] for f in case["world"]["files"]]


def file_target(r, w, cwd):
    """Mostly few explicit files."""
    return W.gen_sources(r, w, cwd, overlap=.1, missing=.05)


# --------------------------------------------------------------------------- C01
def c01(i, r, ctx, deep):
    if i % 3 == 0:
        # systematic: every event of the run x every kind that applies there
        case = make(r, ctx.ref, WR, files=(1, 2), dirs=(0, 1), bad=.1, decoys=.1, links=.15, items=(1, 2),
                    perm=.05, readonly_dir=0, bigfile=0, deep=0)
        base = dry(case)
        yield case, base
        for e in thin(r, base.log):
            for f in every(r, e):
                yield with_faults(case, [f]), base
        # an operation of the replacement fails, and then the power
        win = [e for e in base.log if F.in_window(e) and e[1] in F.ERRNOS]
        ren = [e for e in base.log if e[1] == "rename"]
        for e in win if len(win) < 9 else r.sample(win, 9):
            c2 = with_faults(case, [dict(F.sig(e), kind="errno", errno=r.choice(F.ERRNOS[e[1]]))])
            for x in [x for x in ren if base.log.index(x) > base.log.index(e)][:1]:
                yield with_faults(c2, [dict(F.sig(x), kind="power_after", meta_keep=99, data_keep=0, torn=0)]), base
            c3 = deeper(r, c2, ["crash", "crash", "errno", "kbd", "nomem", "fill"])
            if c3:
                yield c3, base
    else:
        case = make(r, ctx.ref, WR, files=(1, 4), perm=.1)
        base = dry(case)
        for _ in range(12):
            fs = several(r, base.log, ["crash", "crash", "errno", "fill", "kbd", "nomem", "benign"])
            c2 = with_faults(case, fs)
            if r.random() < .25:
                c2 = deeper(r, c2, ["crash", "errno", "fill", "kbd", "nomem"]) or c2
            yield c2, base
        if i % 3 == 1:
            lb = dry(case, True, "all")
            for _ in range(3):
                ls = F.line_fault(r, lb.kernel.line_counts, "kbd")
                if ls:
                    yield dict(case, lines=ls, line_scope="all"), base


def thin(r, log, keep=6):
    """Of long series of the same call on the same file, the ends and some in between."""
    groups = {}
    for i, e in enumerate(log):
        groups.setdefault((e[0], e[1], e[2]), []).append(i)
    out = []
    for ix in groups.values():
        if len(ix) > keep:
            ix = ix[:2] + r.sample(ix[2:-2], min(keep - 4, len(ix) - 4)) + ix[-2:]
        out += ix
    return [log[i] for i in sorted(out)]


def every(r, e):
    s = F.sig(e)
    if e[2] == "<std>":
        yield dict(s, kind="kill")
        yield dict(s, kind="power")
        return
    yield dict(s, kind="kill")
    win = F.in_window(e)
    if win:
        yield dict(s, kind="kill_after")
        yield dict(s, kind="power_after", meta_keep=99, data_keep=0, torn=0)
        yield dict(s, kind="power_after", meta_keep=99, data_keep=r.randrange(3))
        yield dict(s, kind="power_after")
    yield dict(s, kind="power")
    yield dict(s, kind="kbd")
    if win:
        yield dict(s, kind="kbd_after")
    if e[1] in F.FILE_OPS:
        yield dict(s, kind="nomem")
    for no in F.ERRNOS.get(e[1], ())[:3 if win else 1]:
        yield dict(s, kind="errno", errno=no)
    if e[1] in ("write", "read"):
        yield dict(s, kind="short", n=r.choice([1, 3, 10]))
    if win:
        for free in (0, 1, r.randrange(2, 120)):
            yield dict(s, kind="fill", free=free)


# --------------------------------------------------------------------------- C02
def c02(i, r, ctx, deep):
    case = make(r, ctx.ref, WR, files=(1, 4), bad=.45, perm=.3, readonly_dir=.08, deep=.04,
                srcs=file_target if i % 2 else None, scale=0.01)
    base = dry(case)
    yield case, base
    for _ in range(9):
        fs = several(r, base.log, ["errno", "errno", "errno", "fill", "fill", "nomem", "benign"])
        c2 = with_faults(case, fs)
        if r.random() < .2:
            c2 = deeper(r, c2, ["errno", "errno", "fill", "nomem"]) or c2
        yield c2, base
    if i % 3 == 0:
        fs = several(r, base.log, ["kbd"])
        yield with_faults(case, fs), base
    if i % 4 == 0:                      # every failing operation of one window
        evs = [e for e in base.log if F.in_window(e)][:12]
        for e in evs:
            for no in F.ERRNOS.get(e[1], ()):
                yield with_faults(case, [dict(F.sig(e), kind="errno", errno=no)]), base
    if i % 5 == 0:
        # text that the locale cannot encode once reformatted
        yield from unencodable(r, ctx)


def unencodable(r, ctx):
    case = make(r, ctx.ref, WR, files=(1, 3), bad=.1, enc="latin-1", links=.1)
    case["phases"][0][0]["locale"] = "latin-1"
    for f in case["world"]["files"]:
        if r.random() < .5 and f.get("enc"):
            fn = r.choice(["µ", "ÿ", "ßx", "maxÿ"])
            f["items"].insert(r.randint(0, len(f["items"])), "q = 'select %s(a) from t'\n" % fn)
    yield case, None
    base = dry(case)
    yield with_faults(case, several(r, base.log, ["errno", "crash", "fill"])), base


# --------------------------------------------------------------------------- C03
def c03(i, r, ctx, deep):
    case = make(r, ctx.ref, RO, files=(1, 5), bad=.3, perm=.2, over={"overlap": .4})
    base = dry(case)
    yield case, base
    for _ in range(4):
        fs = several(r, base.log, ["errno", "fill", "nomem", "kbd", "crash", "benign", "env"], pfiles(case))
        yield with_faults(case, fs), base
    if i % 2 == 0:
        for _ in range(4):
            c2 = concurrent(r, ctx, case, [r.choice(RO)])
            b2 = dry(c2)
            yield with_faults(c2, F.switches(r, b2.log, len(c2["phases"][0]))), None


def concurrent(r, ctx, case, flags, same=.7):
    """More processes over the same tree."""
    w = case["world"]
    procs = list(case["phases"][0])
    for fl in flags:
        if r.random() < same:
            src = model.sources_of(procs[0]["args"])
            cwd = procs[0].get("cwd", PROJ)
        else:
            cwd = cwd_of(r, w)
            src = W.gen_sources(r, w, cwd)
        s = spec(r, fl + src, cwd)
        if r.random() < .3:
            knobs(r, s)
        procs.append(s)
    return dict(case, phases=[procs])


# --------------------------------------------------------------------------- C04-C06
def c04(i, r, ctx, deep):
    cfg = dict(files=(2, 7), bad=.5, perm=.3, surrogate=.3 if i % 3 == 0 else 0, deep=0 if i % 2 == 0 else .12, readonly_dir=.1, links=.4)
    case = make(r, ctx.ref, WR + RO, over={"missing": .35, "overlap": .15}, **cfg, scale=0.02)
    if i % 3 == 0 and r.random() < .7:
        case["phases"][0][0]["outenc"] = r.choice(["ascii", "latin-1", "utf-8"])
    base = dry(case, i % 2 == 0)
    yield case, base
    for _ in range(5):
        fs = several(r, base.log, ["errno", "errno", "nomem", "fill"])
        c2 = with_faults(case, fs)
        if r.random() < .15:
            c2 = deeper(r, c2, ["errno", "errno", "nomem"]) or c2
        yield c2, base
    if i % 2 == 0:
        for _ in range(4):
            ls = F.line_fault(r, base.kernel.line_counts, "nomem")
            if ls:
                yield dict(case, lines=ls), base
    if i % 4 == 1:
        fs = several(r, base.log, ["env", "errno"], pfiles(case))
        yield with_faults(case, fs), base


def c05(i, r, ctx, deep):
    case = make(r, ctx.ref, WR + RO, over={"missing": .5, "overlap": .2}, files=(1, 6), bad=.5, perm=.4,
                readonly_dir=.25, links=.5, dirs=(0, 4), deep=.1 if i % 4 == 0 else 0, scale=0.05)
    base = dry(case)
    yield case, base
    for _ in range(6):
        ok = None
        if r.random() < .4:
            ok = (lambda e: e[1] in ("scandir", "getdents", "stat", "lstat", "open", "read"))
        fs = F.error(r, base.log, bias=.3, ok=ok)
        if r.random() < .25:
            fs += several(r, base.log, ["errno", "nomem", "fill", "benign"])
        yield with_faults(case, fs), base
    for _ in range(2):
        fs = F.env(r, base.log, pfiles(case))
        yield with_faults(case, fs), base


def c06(i, r, ctx, deep):
    case = make(r, ctx.ref, WR + RO + RO, over={"overlap": .25}, files=(1, 8), bad=.25, invalid=.4, clean=.25,
                perm=.15, items=(1, 6), deep=.04, twin=.25, scale=0.03)
    base = dry(case)
    yield case, base
    for _ in range(3):
        fs = several(r, base.log, ["errno", "errno", "nomem", "fill", "benign"])
        yield with_faults(case, fs), base


# --------------------------------------------------------------------------- C07
def c07(i, r, ctx, deep):
    def srcs(r, w, cwd):
        c = W.gen_sources(r, w, cwd, overlap=1, missing=.05)
        if r.random() < .4:
            r.shuffle(c)
        if r.random() < .3:
            c = c + [W.spell(r, PROJ, cwd)]
        return c
    case = make(r, ctx.ref, WR + RO, srcs=srcs, files=(1, 5), bad=.4, perm=.15, invalid=.3, clean=.25, deep=.06,
                scale=0.015)
    base = dry(case)
    yield case, base
    for _ in range(3):
        fs = several(r, base.log, ["errno", "errno", "nomem", "fill"])
        yield with_faults(case, fs), base


# --------------------------------------------------------------------------- C08
def c08(i, r, ctx, deep):
    for _ in range(6):
        case = make(r, ctx.ref, WR + RO, over={"overlap": .4, "missing": .15}, files=(2, 8), bad=.35, perm=.15,
                    invalid=.3, kn=.2, dirs=(1, 4), deep=.04, twin=.35, scale=0.005)
        case["phases"][0][0].pop("wlim", None)
        b = dry(case)
        vw = judge.ProcView(b.procs[0], b.trees[0], ctx.ref, ctx.memo)
        if not same_file_twice(vw):
            break
    else:
        return
    fs = []
    if r.random() < .5:
        # a failure tied to a file, hence the same one in every order
        evs = [e for e in b.log if e[1] in ("open", "read") and e[3] == 0 and e[2].endswith(".py")]
        for e in r.sample(evs, min(len(evs), r.choice([1, 1, 2]))):
            f = F.errno_at(r, e, 0)
            fs.append(f)
    case = with_faults(case, fs)
    s = case["phases"][0][0]
    for _ in range(3):
        flags = [a for a in s["args"] if a.startswith("--")]
        src = model.sources_of(s["args"])
        r.shuffle(src)
        perm = flags + src if r.random() < .7 else src + flags
        yield dict(case, kind="pair", mode="order", variant={
            "order": r.randrange(1 << 20), "salt": r.randrange(50),
            "phases": [[dict(s, args=perm)]]}), None


# --------------------------------------------------------------------------- C09
def c09(i, r, ctx, deep):
    for _ in range(6):
        case = make(r, ctx.ref, [["--format"]], files=(1, 5), bad=.25,
                    perm=0, readonly_dir=0, links=.2, simple=.35)
        s = case["phases"][0][0]
        b = dry(case)
        vw = judge.ProcView(b.procs[0], b.trees[0], ctx.ref, ctx.memo)
        if not same_file_twice(vw):
            break
    else:
        return
    src = model.sources_of(s["args"])
    clean = {k: v for k, v in s.items() if k in ("cwd",)}
    tail = [[dict(clean, args=["--format"] + src)], [dict(clean, args=["--check-format"] + src)],
            [dict(clean, args=["--format"] + src)]]
    log = [e for e in b.log]
    yield dict(case, kind="history", faulted=1, phases=[[s]] + tail), None
    for _ in range(5):
        n = r.choice([1, 1, 2, 3])
        fs = []
        for j in range(n):
            for f in several(r, log, ["crash", "crash", "errno", "fill", "kbd", "nomem", "benign"], hi=2):
                fs.append(dict(f, proc=j))
        yield dict(case, kind="history", faulted=n, phases=[[s]] * n + tail, faults=fs,
                   seed=r.randrange(1 << 30)), None


# --------------------------------------------------------------------------- C10
def c10(i, r, ctx, deep):
    n = r.choice([2, 2, 2, 3, 3, 4])
    case = make(r, ctx.ref, WR, files=(1, 4), dirs=(0, 2), bad=.2, perm=.05, readonly_dir=0, links=.15,
                over={"missing": 0})
    pool = WR + WR + RO
    case = concurrent(r, ctx, case, [r.choice(pool) for _ in range(n - 1)])
    b = dry(case)
    yield case, b
    for _ in range(8):
        fs = F.switches(r, b.log, n)
        c = r.random()
        if c < .2:
            fs += [f for f in F.crash(r, b.log) if not f["kind"].startswith("power")]
        elif c < .3:
            fs += F.benign(r, b.log)
        elif c < .4:
            fs += F.error(r, b.log)
        yield with_faults(case, fs), b
    # pairs of tight races on one file
    evs = [e for e in b.log if e[0] == 0 and (F.in_window(e) or e[1] in ("open", "read", "lstat", "access", "close"))]
    for e in r.sample(evs, min(6, len(evs))):
        fs = [dict(F.sig(e), kind="switch", to=1)]
        ev1 = [x for x in b.log if x[0] == 1]
        if ev1 and r.random() < .7:
            fs.append(dict(F.sig(r.choice(ev1)), kind="switch", to=0))
        yield with_faults(case, fs), b


# --------------------------------------------------------------------------- C15
LOC = ["utf-8", "utf-8", "latin-1", "cp1252", "iso8859-15"]


def c15(i, r, ctx, deep):
    loc = r.choice(LOC)
    case = make(r, ctx.ref, WR, files=(1, 5), bad=.1, layout=.8, crlf=.45, modes=.7, perm=.4, links=.5,
                enc=loc if loc != "utf-8" else None, readonly_dir=.04, kn=.6, encmix=.35,
                scale=.02)
    s = case["phases"][0][0]
    if loc != "utf-8":
        s["locale"] = loc
    if r.random() < .15:
        s["uid"] = s["gid"] = 0
    if r.random() < .2:
        s["groups"] = [1000, 50, 60]
    for f in case["world"]["files"]:
        if r.random() < .15:
            f["gid"] = r.choice([50, 60, 70])
        if r.random() < .1:
            f["uid"] = r.choice([1001, 0])
            f["mode"] = r.choice([0o644, 0o666, 0o664, 0o646])
        if r.random() < .03:
            f["mode"] = r.choice([0o000, 0o111, 0o7777, 0o4711])
        if "groups" in s and r.random() < .2:        # a colleague's file, shared by its group
            f.update(uid=r.choice([1001, 0]), gid=r.choice([50, 60]), mode=r.choice([0o664, 0o660, 0o775]))
    base = dry(case)
    yield case, base
    for _ in range(2):
        fs = several(r, base.log, ["benign", "errno", "fill", "benign"])
        yield with_faults(case, fs), base
    if i % 4 == 0:
        yield from unencodable(r, ctx)


# --------------------------------------------------------------------------- C16
def c16(i, r, ctx, deep):
    case = make(r, ctx.ref, WR, files=(1, 4), dirs=(1, 4), decoys=1, links=.7, weird=.6, bad=.15, scale=0.015)
    base = dry(case)
    yield case, base
    for _ in range(5):
        fs = several(r, base.log, ["crash", "errno", "fill", "kbd", "nomem"])
        c2 = with_faults(case, fs)
        if r.random() < .2:
            c2 = deeper(r, c2, ["crash", "errno", "kbd", "nomem"]) or c2
        yield c2, base


# --------------------------------------------------------------------------- C17
def c17(i, r, ctx, deep):
    case = make(r, ctx.ref, WR + RO, files=(1, 4), bad=.2, crlf=.35, kn=0, bigfile=.08, layout=.5, perm=.1,
                scale=.03)
    b = dry(case)
    s = case["phases"][0][0]
    for _ in range(5):
        v = dict(s)
        for k, opts, p in (("rlim", [1, 2, 3, 7, 64, 1000], .6), ("wlim", [1, 2, 3, 7, 64, 1000], .6),
                           ("bufsize", [1, 2, 16, 100, 1 << 16, 1 << 20], .5),
                           ("chunk", [1, 2, 3, 7, 100, 1 << 20], .5), ("outbuf", [1, 16, 1 << 16], .3)):
            if r.random() < p:
                v[k] = r.choice(opts)
        fs = F.benign(r, b.log, n=6)
        yield dict(case, kind="pair", mode="io", variant={"phases": [[v]], "faults": fs,
                                                          "salt": r.randrange(50),
                                                          "seed": r.randrange(1 << 30)}), None


# --------------------------------------------------------------------------- C18
def c18(i, r, ctx, deep):
    case = make(r, ctx.ref, WR + RO, files=(1, 5), links=1, dirs=(1, 4), over={"overlap": .4})
    d = [PROJ] + [x["path"] for x in case["world"]["dirs"]]
    for k in range(r.randint(0, 4)):            # more link structure: cycles of directories and files
        a = r.choice(d)
        case["world"]["links"].append({"path": "%s/L%d%s" % (a, k, r.choice(["", ".py", ".d"])),
                                       "target": r.choice(d + [".", "..", "../..", "L%d" % k, "L%d.py" % (k + 1),
                                                               "/", "/home/u"])})
    case["world"]["links"] = list({x["path"]: x for x in case["world"]["links"]}.values())
    names = {f["path"] for f in case["world"]["files"]} | set(d)
    case["world"]["links"] = [x for x in case["world"]["links"] if x["path"] not in names]
    base = dry(case, i % 3 == 0, "all")
    cap = 20000 + 4000 * sum(len(W.file_bytes(f)) for f in case["world"]["files"])
    yield dict(case, line_cap=cap, line_scope="all"), base
    for _ in range(4):
        fs = []
        for _ in range(r.choice([1, 1, 2, 4])):
            fs += F.error(r, base.log, sticky=.6)
        c2 = with_faults(case, fs)
        if r.random() < .2:
            c2 = deeper(r, c2, ["errno", "kbd", "nomem"]) or c2
        yield c2, base
    fs = several(r, base.log, ["nomem", "fill", "benign", "env"], pfiles(case))
    yield with_faults(case, fs), base
    for _ in range(3):
        yield with_faults(case, F.interrupt(r, base.log)), base
    if i % 3 == 0:
        for _ in range(3):
            ls = F.line_fault(r, base.kernel.line_counts, "kbd")
            if ls:
                yield dict(case, lines=ls, line_scope="all"), base


# --------------------------------------------------------------------------- C19
STD_ERR = ["EPIPE", "EPIPE", "ENOSPC", "EIO", "EAGAIN", "EBADF"]


def std_faults(r, log):
    evs = [e for e in log if e[2] == "<std>"]
    out = []
    for _ in range(r.choice([1, 1, 2])):
        if not evs:
            break
        e = r.choice(evs)
        f = dict(F.sig(e), kind="errno", errno=r.choice(STD_ERR))
        if f["errno"] != "EAGAIN" and r.random() < .65:
            f["sticky"] = True
        out.append(f)
    return out


def c19(i, r, ctx, deep):
    case = make(r, ctx.ref, WR + WR + RO, files=(1, 6), bad=.25, invalid=.3, perm=.1, kn=.5)
    s = case["phases"][0][0]
    s.pop("outbuf", None)           # smaller buffers than the real ones lose text at the first flush
    if r.random() < .7:
        s["tty"] = True             # line buffered: a write per line
    case["extra"] = "std"
    base = dry(case)
    for _ in range(6):
        fs = std_faults(r, base.log)
        if r.random() < .4:
            fs += several(r, base.log, ["errno", "errno", "fill", "nomem", "kbd", "benign"], hi=2)
        yield with_faults(case, fs), base
    if i % 3 == 0:
        for e in [e for e in base.log if e[2] == "<std>"][:10]:
            yield with_faults(case, [dict(F.sig(e), kind="errno", errno="EPIPE", sticky=True)]), base


# --------------------------------------------------------------------------- C20
def c20(i, r, ctx, deep):
    case = make(r, ctx.ref, WR + RO, files=(2, 5), bad=.4, perm=.15, deep=0, kn=.2, links=.3, scale=0.03)
    w = case["world"]
    dirs = [d["path"] for d in w["dirs"] if "mode" not in d] + [PROJ]
    proto = [f for f in w["files"] if f["path"].endswith(".py")]
    flat = r.choice([dirs[-1:], dirs])
    flat = list(flat)
    for k in range(r.choice([0, 4, 12, 30, 60])):
        w["dirs"].append({"path": "%s/m%02d" % (r.choice(flat), k)})
        dirs.append(w["dirs"][-1]["path"])
    d = r.choice(dirs)
    for k in range(r.choice([0, 0, 3, 9])):       # a long chain
        d += "/n"
        if d not in dirs:
            w["dirs"].append({"path": d})
            dirs.append(d)
    if proto:
        for k in range(r.choice([25, 40, 60])):
            f = dict(r.choice(proto))
            f["path"] = "%s/c%03d.py" % (r.choice(dirs), k)
            w["files"].append(f)
    s = case["phases"][0][0]
    c = r.randrange(3)
    flags = [a for a in s["args"] if a.startswith("--")]
    if c == 0:
        s["args"] = flags + [PROJ]
    elif c == 1:
        s["args"] = flags + sorted(f["path"] for f in w["files"])
    case["extra"] = "fds"
    base = dry(case)
    yield case, None
    for _ in range(3):
        ops = r.choice([["open"], ["read"], ["openw", "write", "fsync", "rename"], ["scandir", "getdents"],
                        ["closew", "close"], list(F.FILE_OPS)])
        evs = [e for e in base.log if e[1] in ops and e[2] != "<std>"]
        p = r.choice([.1, .5, 1])
        fs = [f for f in (F.errno_at(r, e, 0) for e in evs if r.random() < p) if f]
        if r.random() < .3:
            fs += [dict(F.sig(e), kind="nomem") for e in evs if r.random() < .3]
        yield with_faults(case, fs), None
    yield with_faults(case, several(r, base.log, ["errno", "fill", "benign"]) ), None


# --------------------------------------------------------------------------- C21
def c21(i, r, ctx, deep):
    case = make(r, ctx.ref, WR, files=(1, 6), bad=.2, perm=.15, kn=.4, clean=.2, scale=0.02)
    s = case["phases"][0][0]
    c = r.randrange(4)
    if c == 0:
        s["tty"] = True
    elif c < 3:
        s["outbuf"] = r.choice([1, 16, 40, 120])
    case["extra"] = "told"
    base = dry(case)
    yield case, None
    for _ in range(8):
        fs = several(r, base.log, ["crash", "errno", "errno", "fill", "kbd", "kbd", "nomem", "benign"])
        if r.random() < .2:
            fs += std_faults(r, base.log)
        c2 = with_faults(case, fs)
        if r.random() < .2:
            c2 = deeper(r, c2, ["crash", "errno", "kbd", "nomem"]) or c2
        yield c2, None
    if i % 3 == 0:
        lb = dry(case, True, "all")
        for _ in range(3):
            ls = F.line_fault(r, lb.kernel.line_counts, "kbd")
            if ls:
                yield dict(case, lines=ls, line_scope="all"), None


# --------------------------------------------------------------------------- C23
def c23(i, r, ctx, deep):
    case = make(r, ctx.ref, WR, files=(2, 7), bad=.2, perm=.15, kn=.4, clean=.6, links=.35, decoys=.6,
                over={"overlap": .3}, scale=0.015)
    s = case["phases"][0][0]
    case["extra"] = "untouched"
    if i % 3 == 0:                      # a second run finds everything in order
        case["phases"].append([dict(s, args=r.choice(WR) + model.sources_of(s["args"]))])
    base = dry(case)
    yield case, None
    for _ in range(5):
        fs = several(r, base.log, ["errno", "errno", "fill", "nomem", "kbd", "benign", "benign"])
        yield with_faults(case, fs), None
    if i % 4 == 1:
        c2 = concurrent(r, ctx, dict(case, phases=case["phases"][:1]), [r.choice(WR + RO)])
        b2 = dry(c2)
        yield with_faults(c2, F.switches(r, b2.log, len(c2["phases"][0]))), None


# --------------------------------------------------------------------------- C24
def c24(i, r, ctx, deep):
    for _ in range(6):
        case = make(r, ctx.ref, WR + RO, over={"overlap": .3, "missing": .2}, files=(2, 7), bad=.3, perm=.1,
                    invalid=.3, kn=.2, dirs=(1, 4), deep=.03, twin=.3, scale=0.005)
        case["phases"][0][0].pop("wlim", None)
        b = dry(case)
        vw = judge.ProcView(b.procs[0], b.trees[0], ctx.ref, ctx.memo)
        if not same_file_twice(vw):
            break
    else:
        return
    s = case["phases"][0][0]
    w = case["world"]
    flags = [a for a in s["args"] if a.startswith("--")]
    src = model.sources_of(s["args"])
    cwd = s.get("cwd", PROJ)
    yield from split(r, ctx, case, b, flags, src, cwd)
    fs = []
    if r.random() < .5:
        evs = [e for e in b.log if e[1] in ("open", "read") and e[3] == 0 and e[2].endswith(".py")]
        for e in r.sample(evs, min(len(evs), r.choice([1, 1, 2]))):
            fs.append(F.errno_at(r, e, 0))
    case = with_faults(case, [f for f in fs if f])
    dirs = [d["path"] for d in w["dirs"] if "mode" not in d and not closed(w, d["path"])]
    for _ in range(3):
        to = r.choice(["/", "/home/u", PROJ, PROJ] + dirs)
        args = flags + [respell(r, x, cwd, to) for x in src]
        v = dict(s, args=args)
        v.pop("cwd", None)
        if to != PROJ:
            v["cwd"] = to
        yield dict(case, kind="pair", mode="name", variant={"phases": [[v]]}), None


def closed(w, path):
    """Whether a directory on the way has its own mode."""
    return any("mode" in d and (path + "/").startswith(d["path"] + "/") for d in w["dirs"])


def respell(r, x, cwd, to):
    """The same input by another name, seen from the directory `to`."""
    import posixpath as pp
    a = pp.join(cwd, x)
    if "//" in a or "/." in a or x.endswith("/") or x in (".", ".."):
        # dots or slashes that a lexical name would drop: only made absolute
        return a if to != cwd else x
    c = r.randrange(5)
    if c < 2:
        return a
    rel = pp.relpath(a, to)
    return "./" + rel if c == 2 else rel


def split(r, ctx, case, b, flags, src, cwd):
    """One run over all inputs = one run per group of inputs that share no file."""
    if len(src) < 2:
        return
    fs = model.FS(b.trees[0])
    parts = []
    for x in src:
        visits, _bad, dirs = model.select(fs, [x], cwd)
        mine = set(visits) | {v.real for v in visits.values() if v.real} | set(dirs) | {model.absnorm(cwd, x)}
        for q in [q for q in parts if q[1] & mine]:
            parts.remove(q)
            mine |= q[1]
            x = q[0] + ([x] if isinstance(x, str) else x)
        parts.append(([x] if isinstance(x, str) else x, mine))
    if len(parts) < 2:
        return
    r.shuffle(parts)
    s = case["phases"][0][0]
    yield dict(case, kind="pair", mode="split", variant={"phases": [[dict(s, args=flags + q[0])] for q in parts]}), None


PROFILES = {"C23": c23, "C24": c24, "C19": c19, "C20": c20, "C21": c21, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08,
            "C09": c09, "C10": c10, "C15": c15, "C16": c16, "C17": c17, "C18": c18}


def session(pid, i, r, ctx, deep=False):
    if pid in PROFILES:
        return PROFILES[pid](i, r, ctx, deep)
    if pid == "C14":
        from . import hashrun
        return hashrun.session(i, r, ctx, deep)
    from . import api
    return api.session(pid, i, r, ctx, deep)
