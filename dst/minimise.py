"""Shrinks a failing case while the same property and violation class persist."""
import copy
import posixpath
import re
import time

from . import cases, model

KNOBS = ("bufsize", "chunk", "wlim", "rlim", "umask", "tty", "outenc", "outbuf", "locale", "groups", "pidoff", "env",
         "uid", "gid", "cwd")
FKEYS = ("mode", "uid", "gid", "nl", "tail")


def minimise(case, pid, cls, ctx, max_evals=500, max_wall=60.0):
    t0 = time.time()
    n = [0]

    def fails(c):
        if n[0] >= max_evals or time.time() - t0 > max_wall:
            return False
        n[0] += 1
        try:
            v, _res = cases.evaluate(c, ctx)
        except Exception:
            return False
        return any(pid in x.props and x.cls == cls for x in v)

    best = case
    progress = True
    while progress and n[0] < max_evals and time.time() - t0 < max_wall:
        progress = False
        for cand in candidates(best):
            if size(cand) < size(best) and fails(cand):
                best = cand
                progress = True
                break
    return best, n[0]


def size(c):
    import json
    return len(json.dumps(c))


def without(lst, i, k=1):
    return lst[:i] + lst[i + k:]


def chunks(lst):
    """Indices to cut: halves first, then single elements."""
    n = len(lst)
    k = n // 2
    while k > 1:
        for i in range(0, n, k):
            yield i, k
        k //= 2
    for i in range(n):
        yield i, 1


def candidates(c):
    kind = c["kind"]
    if kind == "api":
        yield from api_candidates(c)
        return
    if kind == "hash":
        yield from hash_candidates(c)
        return
    for key in ("faults", "lines", "api_after"):
        if c.get(key):
            for i, k in chunks(c[key]):
                yield dict(c, **{key: without(c[key], i, k)})
    if "variant" in c and c["variant"].get("faults"):
        fs = c["variant"]["faults"]
        for i, k in chunks(fs):
            yield dict(c, variant=dict(c["variant"], faults=without(fs, i, k)))
    yield from proc_candidates(c)
    for w in world_candidates(c["world"], used_sources(c)):
        yield dict(c, world=w)
    yield from spec_candidates(c)
    for key in ("salt", "seed", "order"):
        if c.get(key):
            yield dict(c, **{key: 0})
            if c[key] > 9:
                yield dict(c, **{key: 1})
    for key in ("line_cap", "step_limit", "count_lines"):
        if key in c and not c[key]:
            yield {k: v for k, v in c.items() if k != key}


def used_sources(c):
    out = set()
    for ph in c["phases"]:
        for s in ph:
            out.update(model.absnorm(s.get("cwd", "/home/u/proj"), a) for a in model.sources_of(s["args"]))
    return out


def _remap(c, gone):
    """Removes the faults of process `gone`, renumbers the others."""
    def fix(fs):
        out = []
        for f in fs:
            if f["proc"] == gone:
                continue
            f = dict(f)
            if f["proc"] > gone:
                f["proc"] -= 1
            if "to" in f and f["to"] > gone:
                f["to"] -= 1
            out.append(f)
        return out
    for key in ("faults", "lines"):
        if c.get(key):
            c[key] = fix(c[key])
    return c


def proc_candidates(c):
    if c["kind"] == "pair":
        return
    idx = 0
    total = sum(len(ph) for ph in c["phases"])
    for n, ph in enumerate(c["phases"]):
        for j in range(len(ph)):
            me = idx
            idx += 1
            if total <= 1:
                continue
            if c["kind"] == "history":
                if n >= c["faulted"] or c["faulted"] <= 1:
                    continue
            d = copy.deepcopy(c)
            del d["phases"][n][j]
            if not d["phases"][n]:
                del d["phases"][n]
                if c["kind"] == "history":
                    d["faulted"] -= 1
            yield _remap(d, me)


def world_candidates(w, used):
    for key in ("files", "links", "hard", "special", "dirs", "mounts"):
        for i, k in chunks(w.get(key, [])):
            cut = w[key][i:i + k]
            if key == "dirs":
                ds = [x["path"] for x in cut]
                if any(posixpath.dirname(o["path"]) == d or o["path"].startswith(d + "/")
                       for d in ds for kk in ("files", "links", "hard", "special") for o in w.get(kk, ())):
                    continue
            yield dict(w, **{key: without(w[key], i, k)})
    for i, f in enumerate(w["files"]):
        def put(g):
            return dict(w, files=w["files"][:i] + [g] + w["files"][i + 1:])
        for j, k in chunks(f.get("items", [])):
            yield put(dict(f, items=without(f["items"], j, k)))
        for key in FKEYS:
            if key in f and not (key == "nl" and f[key] == "\n") and not (key == "tail" and f[key]):
                yield put({k: v for k, v in f.items() if k != key})
        for j, it in enumerate(f.get("items", [])):
            for s in shrink_text(it):
                yield put(dict(f, items=f["items"][:j] + [s] + f["items"][j + 1:]))


SIMPLE = "q = 'select a from t'\n"


def shrink_text(t):
    if len(t) > len(SIMPLE):
        yield SIMPLE
    if len(t) > 300:
        return
    toks = re.findall(r"\w+|\s+|[^\w\s]", t)
    for i, k in chunks(toks):
        if k >= 1 and len(toks) <= 60:
            yield "".join(without(toks, i, k))


def spec_candidates(c):
    for n, ph in enumerate(c["phases"]):
        for j, s in enumerate(ph):
            def put(t):
                d = dict(c)
                d["phases"] = c["phases"][:n] + [ph[:j] + [t] + ph[j + 1:]] + c["phases"][n + 1:]
                if c["kind"] == "history":
                    # all runs of a history name the same inputs
                    src = model.sources_of(t["args"])
                    d["phases"] = [[dict(x, args=[a for a in x["args"] if a.startswith("--")] + src) for x in p]
                                   for p in d["phases"]]
                return d
            if c["kind"] != "pair":
                for a in model.sources_of(s["args"]):
                    if len(model.sources_of(s["args"])) > 1:
                        args = list(s["args"])
                        args.remove(a)
                        yield put(dict(s, args=args))
            else:
                yield from pair_candidates(c, s)
                continue
            for k in KNOBS:
                if k in s:
                    yield put({x: y for x, y in s.items() if x != k})
            for fl in ("--validate", "--verbose-validate", "--check-format"):
                if fl in s["args"] and len([a for a in s["args"] if a.startswith("--")]) > 1:
                    yield put(dict(s, args=[a for a in s["args"] if a != fl]))


def pair_candidates(c, s):
    """Both sides of a pair stay the same run, apart from what the variant varies."""
    v = c["variant"]
    vph = v.get("phases", [[s]])
    src = model.sources_of(s["args"])

    def put(t, phases):
        return dict(c, phases=[[t]], variant=dict(v, phases=phases))
    for i, a in enumerate(src):
        if len(src) < 2:
            break
        t = dict(s, args=[x for x in s["args"] if x.startswith("--")] + without(src, i))
        if len(vph) == 1:
            vs = vph[0][0]
            vsrc = model.sources_of(vs["args"])
            j = i if c["mode"] == "name" else vsrc.index(a) if a in vsrc else None
            if j is not None and len(vsrc) == len(src):
                yield put(t, [[dict(vs, args=[x for x in vs["args"] if x.startswith("--")] + without(vsrc, j))]])
            continue
        left = []
        for ph in vph:
            q = ph[0]
            n = [x for x in q["args"] if x != a]
            if model.sources_of(n):
                left.append([dict(q, args=n)])
        if len(left) > 1 and src.count(a) == 1:
            yield put(t, left)
    for k in KNOBS:
        if k in s and k != "cwd":
            def cut(d):
                return {x: y for x, y in d.items() if x != k}
            yield put(cut(s), vph if c["mode"] == "io" else [[cut(ph[0])] for ph in vph])
    for fl in ("--validate", "--verbose-validate", "--check-format"):
        if fl in s["args"] and len([a for a in s["args"] if a.startswith("--")]) > 1:
            def cut(d):
                return dict(d, args=[a for a in d["args"] if a != fl])
            yield put(cut(s), [[cut(ph[0])] for ph in vph])


def api_candidates(c):
    for i, k in chunks(c["plan"]):
        yield dict(c, plan=without(c["plan"], i, k))
    for t in range(len(c["threads"])):
        if len(c["threads"]) > 1:
            plan = []
            for a in c["plan"]:
                if a["t"] == t:
                    continue
                a = dict(a)
                if a["t"] > t:
                    a["t"] -= 1
                if a.get("to", -1) > t:
                    a["to"] -= 1
                plan.append(a)
            yield dict(c, threads=without(c["threads"], t), plan=plan)
        ops = c["threads"][t]
        for i, k in chunks(ops):
            if len(ops) > k:
                gone = {o["id"] for o in ops[i:i + k]}
                yield dict(c, threads=c["threads"][:t] + [without(ops, i, k)] + c["threads"][t + 1:],
                           plan=[a for a in c["plan"] if not (a["t"] == t and a["op"] in gone)])
    if len(c["objects"]) > 1:
        for o in range(len(c["objects"])):
            if not any(op.get("o") == o for t in c["threads"] for op in t):
                th = [[dict(op, o=op["o"] - (op["o"] > o)) for op in t] for t in c["threads"]]
                yield dict(c, objects=without(c["objects"], o), threads=th)
    for o, q in enumerate(c["objects"]):
        for s in shrink_sql(q):
            yield dict(c, objects=c["objects"][:o] + [s] + c["objects"][o + 1:])
    for t, ops in enumerate(c["threads"]):
        for i, op in enumerate(ops):
            if "sql" in op and len(ops) < 12:
                for s in shrink_sql(op["sql"]):
                    th = [[dict(p, sql=s) if p.get("sql") == op["sql"] else p for p in u] for u in c["threads"]]
                    yield dict(c, threads=th)
    if c["scope"] != "core" and not c["plan"]:
        yield dict(c, scope="core")


def shrink_sql(q):
    toks = re.findall(r"\w+|\s+|[^\w\s]", q)
    if len(toks) > 80:
        return
    for i, k in chunks(toks):
        yield "".join(without(toks, i, k))


def hash_candidates(c):
    if len(c["seeds"]) > 2:
        for s in c["seeds"][1:]:
            yield dict(c, seeds=[c["seeds"][0], s])
    for key in ("runs", "sqls"):
        if c[key]:
            yield dict(c, **{key: []})
            for i, k in chunks(c[key]):
                yield dict(c, **{key: without(c[key], i, k)})
    if len(c["sqls"]) == 1:
        for s in shrink_sql(c["sqls"][0]):
            yield dict(c, sqls=[s])
    if len(c["runs"]) == 1:
        r = c["runs"][0]
        for w in world_candidates(r["world"], ()):
            yield dict(c, runs=[dict(r, world=w)])
        for d in spec_candidates(r):
            yield dict(c, runs=[d])
