"""Evaluation of one concrete case (JSON) -> violations. Replay files hold exactly one case."""
import re

from . import judge, model, sim, world as W
from .judge import V


class Ctx:
    def __init__(self):
        self.ref = model.Ref()
        self.memo = {}
        self.stats = Stats()

    def trim(self):
        if len(self.memo) > 4000:
            self.memo.clear()
            self.ref.fmt.clear()
            self.ref.val.clear()


class Stats:
    def __init__(self):
        self.runs = 0            # simulated executions (machines booted)
        self.procs = 0
        self.events = 0
        self.sim_ns = 0
        self.fired = {}
        self.switches = 0
        self.digests = set()
        self.watch = 0
        self.probes = {}

    def add(self, res):
        self.runs += 1
        self.procs += len(res.procs)
        self.events += len(res.log)
        self.sim_ns += max(0, res.kernel.clock - res.kernel.t0)
        self.switches += res.switches
        for k, n in res.fired.items():
            self.fired[k] = self.fired.get(k, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n


def tree_of(res, n=-1):
    return {p: e for p, e in res.trees[n].items() if p != "/tmp" and not p.startswith("/tmp/")}


def view(p, before, ctx):
    vw = judge.ProcView(p, before, ctx.ref, ctx.memo)
    rep = judge.Report(p, vw.visits, vw.bad, vw.dirs)
    return vw, rep


def same_file_twice(vw):
    seen = set()
    for v in vw.visits.values():
        if v.real is not None and v.real in seen:
            return True
        seen.add(v.real)
    return False


def evaluate(case, ctx, base=None):
    kind = case["kind"]
    if kind == "run":
        out, res = judge.evaluate_run(case, ctx.ref, ctx.memo, base)
        note(ctx, res)
        ctx.stats.watch += res.watch_checks
        return out, res
    if kind == "pair":
        return pair(case, ctx)
    if kind == "history":
        return history(case, ctx)
    if kind == "share":
        return share(case, ctx)
    if kind == "api":
        from . import api
        return api.evaluate(case, ctx)
    if kind == "hash":
        from . import hashrun
        return hashrun.evaluate(case, ctx)
    raise ValueError(kind)


def note(ctx, res):
    ctx.stats.add(res)
    if res.fired or res.switches or any(b"SQL)" in p.out for p in res.procs):
        ctx.stats.digests.add(sim.digest(res)[:24])


def pos_free(b):
    """Which of two defects of a failing file is met first may depend on the chunking."""
    b = re.sub(rb"(error analysing [^\n]*) \(\w+: [^\n]*\)", rb"\1", b)
    return b.replace(b"could not analyse ", b"error analysing ")


def pair(case, ctx):
    """The same run twice: as `case`, and as its variant (other order, or other I/O chunking)."""
    out, a = judge.evaluate_run(case, ctx.ref, ctx.memo)
    note(ctx, a)
    var = dict(case, **case["variant"])
    var.pop("variant")
    out2, b = judge.evaluate_run(var, ctx.ref, ctx.memo)
    note(ctx, b)
    out = out + out2
    pid = {"order": "C08", "io": "C17", "name": "C24", "split": "C24"}[case["mode"]]

    def bad(cls, msg):
        out.append(V({pid}, cls, msg))
    if any(p.killed or p.exc for p in a.procs + b.procs):
        for p, q in zip(a.procs, b.procs):
            if (p.exc is None) != (q.exc is None):
                bad("pair-abort", "one of the two runs aborts: %s / %s" % (p.exc, q.exc))
        return out, b
    ta, tb = tree_of(a), tree_of(b)
    if ta != tb:
        d = sorted(p for p in set(ta) | set(tb) if ta.get(p) != tb.get(p))
        x, y = ta.get(d[0]), tb.get(d[0])
        bad("pair-tree", "%s differs: %s / %s" % (d[0], x and judge._ent(x), y and judge._ent(y)))
    if case["mode"] == "split":
        split(a, b, ctx, bad)
        return out, b
    for p, q in zip(a.procs, b.procs):
        if p.exit_code != q.exit_code:
            bad("pair-exit", "exit status %s / %s" % (p.exit_code, q.exit_code))
        if pid == "C17":
            if pos_free(bytes(p.out)) != pos_free(bytes(q.out)) or pos_free(bytes(p.err)) != pos_free(bytes(q.err)):
                bad("pair-output", "output differs: %r / %r" % (bytes(p.out)[-300:], bytes(q.out)[-300:]))
            continue
        va, ra = view(p, a.trees[0], ctx)
        vb, rb = view(q, b.trees[0], ctx)
        for nm in ("ref", "inv", "verbose"):
            x, y = getattr(ra, nm), getattr(rb, nm)
            if x != y:
                k = sorted(k for k in set(x) | set(y) if x.get(k) != y.get(k))[0]
                bad("pair-report", "%s: %s / %s" % (k, x.get(k), y.get(k)))
        na = {model.absnorm(p.cwd, w[1]) for w in ra.named}
        nb = {model.absnorm(q.cwd, w[1]) for w in rb.named}
        if na != nb:
            bad("pair-named", "paths with an error message differ: %s" % sorted(na ^ nb))
        if ra.sumf != rb.sumf or ra.sumv != rb.sumv:
            bad("pair-summary", "summaries %s %s / %s %s" % (ra.sumf, ra.sumv, rb.sumf, rb.sumv))
    return out, b


def split(a, b, ctx, bad):
    """One run (a) against one run per group of inputs (b): the reports add up."""
    p = a.procs[0]
    _v, ra = view(p, a.trees[0], ctx)
    rb = [view(q, b.trees[n], ctx)[1] for n, q in enumerate(b.procs)]
    if p.exit_code != max(q.exit_code for q in b.procs):
        bad("pair-exit", "exit status %s / %s" % (p.exit_code, [q.exit_code for q in b.procs]))
    for nm in ("ref", "inv", "verbose"):
        x, y = getattr(ra, nm), {}
        for t in rb:
            y.update(getattr(t, nm))
        if x != y:
            k = sorted(k for k in set(x) | set(y) if x.get(k) != y.get(k))[0]
            bad("pair-report", "%s: together %s, apart %s" % (k, x.get(k), y.get(k)))
    na = {model.absnorm(p.cwd, w[1]) for w in ra.named}
    nb = {model.absnorm(q.cwd, w[1]) for q, t in zip(b.procs, rb) for w in t.named}
    if na != nb:
        bad("pair-named", "paths with an error message differ: %s" % sorted(na ^ nb))
    for nm in ("sumf", "sumv"):
        x = [tuple(l[-2:]) for l in getattr(ra, nm)]
        ys = [tuple(l[-2:]) for t in rb for l in getattr(t, nm)]
        if x and (len(x) != 1 or len(ys) != len(rb) or x[0] != tuple(map(sum, zip(*ys)))) or ys and not x:
            bad("pair-summary", "summary %s together, %s apart" % (x, ys))


def history(case, ctx):
    """Faulted format runs, then undisturbed format / check / format: convergence."""
    out, res = judge.evaluate_run(case, ctx.ref, ctx.memo)
    note(ctx, res)
    n = case["faulted"]
    spec = case["phases"][n][0]
    single = {"kind": "run", "world": case["world"], "phases": [[spec]], "faults": []}
    base = sim.run(judge.run_case_plan(single))
    note(ctx, base)
    vw, _rep = view(base.procs[0], base.trees[0], ctx)
    want = base.trees[1]
    got = res.trees[n + 1]
    reals = sorted({v.real for v in vw.visits.values() if v.real is not None})
    for q in reals:
        a, b = got.get(q), want.get(q)
        if (a and a[4]) != (b and b[4]):
            out.append(V({"C09"}, "diverged", "%s after the faulted runs and one undisturbed run: %s" % (
                q, "missing" if a is None else judge._diff(a[4], b[4]))))
    chk, last = res.procs[-2], res.procs[-1]
    if chk.exit_code != 0 or "No file would be reformatted." not in chk.lines():
        out.append(V({"C09"}, "check-not-clean", "--check-format after --format: exit %s, %r" % (
            chk.exit_code, bytes(chk.out)[-300:])))
    for q in reals:
        a, b = res.trees[n + 1].get(q), res.trees[n + 3].get(q)
        if a != b:
            out.append(V({"C09"}, "not-stable", "a second --format changes %s" % q))
    if b"No file reformatted." not in bytes(last.out):
        out.append(V({"C09"}, "not-stable", "a second --format reports %r" % bytes(last.out)[-300:]))
    return out, res


def share(case, ctx):
    """Command-line entry calls one after the other in one interpreter = in fresh interpreters."""
    fresh = dict(case, phases=[[{k: v for k, v in s.items() if k != "share_modules"} for s in ph]
                               for ph in case["phases"]])
    a = sim.run(judge.run_case_plan(fresh))
    b = sim.run(judge.run_case_plan(case))
    note(ctx, a)
    note(ctx, b)
    out = []
    # a call that is aborted at an arbitrary line is not compared itself, only what follows it
    skip = {f["proc"] for f in case.get("lines", ()) if f["kind"] != "switch"}
    for p, q in zip(a.procs, b.procs):
        if p.idx in skip:
            continue
        if (p.exit_code, p.exc and p.exc[0], bytes(p.out), bytes(p.err)) != (
                q.exit_code, q.exc and q.exc[0], bytes(q.out), bytes(q.err)):
            out.append(V({"C13"}, "cli-history", "call %d (%s): fresh %s %s %r, after the earlier calls %s %s %r" % (
                p.idx, " ".join(p.args), p.exit_code, p.exc, bytes(p.out)[-300:],
                q.exit_code, q.exc, bytes(q.out)[-300:])))
            break
    else:
        for i in range(len(a.trees)):
            if tree_of(a, i) != tree_of(b, i):
                out.append(V({"C13"}, "cli-history", "trees differ after phase %d" % i))
                break
    ops = case.get("api_after")
    if ops and not out:
        from . import api, loader
        ref = api.fref(ctx)
        want = [ref.get(op, []) for op in ops]
        mods = b.procs[-1].modules
        loader.activate(mods)
        try:
            got = [api.perform(mods, [], op) for op in ops]
        finally:
            loader.drop()
        for op, g, w in zip(ops, got, want):
            if g != w:
                out.append(V({"C13"}, "api-after-cli", "%s(%r) after command-line calls returned %s, alone %s" % (
                    op["op"], op["sql"][:200], api.short(g), api.short(w))))
                break
    return out, b
