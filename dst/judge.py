"""The oracle of simulated command-line runs: history + final trees -> violations.

A violation is (properties, class, message). `properties` is the set of property ids whose
statement the observation contradicts; `class` is stable under minimisation.
"""
import posixpath
import re

from . import model, sim, world as W

RE_REF = re.compile(r"^(reformatted|would reformat) (.*) \((\d+) changed SQL\)$", re.S)
RE_INV = re.compile(r"^invalid queries in (.*) \((\d+) invalid SQL\)$", re.S)
RE_LNO = re.compile(r"^L(\d+) - (.*)$", re.S)
RE_SUMF = re.compile(r"^(\d+) files? (reformatted|would be reformatted) \((\d+) changed SQL quer(?:y|ies)\)\.$")
RE_SUMF0 = re.compile(r"^No files? (reformatted|would be reformatted)\.$")
RE_SUMV = re.compile(r"^(\d+) files? detected with invalid SQL \((\d+) invalid SQL quer(?:y|ies)\)\.$")
RE_SUMV0 = re.compile(r"^No invalid quer(?:y|ies) found\.$")

FAILING = ("errno", "nomem")


class V:
    __slots__ = ("props", "cls", "msg")

    def __init__(self, props, cls, msg):
        self.props, self.cls, self.msg = frozenset(props), cls, msg

    def __repr__(self):
        return "%s %s: %s" % (sorted(self.props), self.cls, self.msg)


def shown(path, enc):
    """The forms in which a path can appear in output decoded with surrogateescape."""
    out = {path}
    for errors in ("backslashreplace", "surrogateescape", "replace", "surrogatepass"):
        try:
            out.add(path.encode(enc, errors).decode("utf-8", "surrogateescape"))
        except UnicodeError:
            pass
    return out


class Report:
    """The parsed output of one process."""

    def __init__(self, p, visits, bad, dirs, env=()):
        enc = p.spec.get("outenc", "utf-8")
        self.names = {}

        def reg(display, what):
            for s in shown(display, enc):
                self.names.setdefault(s, what)
        for v in visits.values():
            for s in v.spellings:
                reg(s, ("f", v.key))
            reg(v.key, ("f", v.key))
        for b in bad:
            reg(b, ("b", b))
            reg(model.absnorm(p.cwd, b), ("b", b))
        for c, ds in dirs.items():
            for d in ds:
                reg(d, ("d", c))
            reg(c, ("d", c))
        for s in p.sources:
            reg(s, ("b", s))
        for q in env:
            if q.endswith(".py") and ("f", q) not in self.names.values():
                reg(q, ("f", q))
                for c, ds in dirs.items():
                    for d in ds:
                        if posixpath.dirname(q) in (c, model.absnorm(p.cwd, d)):
                            reg(posixpath.join(d, posixpath.basename(q)), ("f", q))
        self.ref, self.inv, self.named, self.namedcount = {}, {}, set(), {}
        self.verbose = {}
        self.unknown = []
        self.sumf = []
        self.sumv = []
        self.other = []
        self.ordered = sorted(self.names, key=lambda s: -len(s))
        text = bytes(p.out).decode("utf-8", "surrogateescape")
        etext = bytes(p.err).decode("utf-8", "surrogateescape")
        last = None
        for line in text.split("\n"):
            if not line:
                continue
            m = RE_REF.match(line)
            if m:
                self._rep(self.ref, m.group(2), (m.group(1), int(m.group(3))), line)
                last = None
                continue
            m = RE_INV.match(line)
            if m:
                last = self._rep(self.inv, m.group(1), int(m.group(2)), line)
                continue
            m = RE_LNO.match(line)
            if m and last is not None:
                self.verbose.setdefault(last, []).append((int(m.group(1)), m.group(2)))
                continue
            last = None
            m = RE_SUMF.match(line)
            if m:
                self.sumf.append((m.group(2), int(m.group(1)), int(m.group(3))))
                continue
            m = RE_SUMF0.match(line)
            if m:
                self.sumf.append((m.group(1), 0, 0))
                continue
            m = RE_SUMV.match(line)
            if m:
                self.sumv.append((int(m.group(1)), int(m.group(2))))
                continue
            if RE_SUMV0.match(line):
                self.sumv.append((0, 0))
                continue
            self._name(line)
        for line in etext.split("\n"):
            if line:
                self._name(line)

    def _rep(self, table, path, val, line):
        w = self.names.get(path)
        if w is None or w[0] != "f":
            self.unknown.append(line)
            return None
        table.setdefault(w[1], []).append(val)
        return w[1]

    def _name(self, line):
        self.other.append(line)
        best = None
        for s in self.ordered:
            start = 0
            while s:
                i = line.find(s, start)
                if i < 0:
                    break
                start = i + 1
                left = i == 0 or line[i - 1] in " '\"`:=([<"
                j = i + len(s)
                right = j == len(line) or line[j] in " '\"`:,)]>" or line[j:] == "."
                if left and right:
                    if best is None or i < best[0]:
                        best = (i, s)
                    break
        if best is not None:
            w = self.names[best[1]]
            self.named.add(w)
            self.namedcount[w] = self.namedcount.get(w, 0) + 1


class ProcView:
    """What one process of a phase was asked to do, and what it should do on a given tree."""

    def __init__(self, p, tree, ref, memo):
        self.p = p
        p.sources = model.sources_of(p.args)
        self.flags = model.flags_of(p.args)
        self.fs = model.FS(tree, p.uid, p.gid, p.spec.get("groups", ()))
        self.visits, self.bad, self.dirs = model.select(self.fs, p.sources, p.cwd)
        self.exp = {k: model.file_expect(self.fs, v, self.flags, p.locale, ref, memo)
                    for k, v in self.visits.items()}
        self.ref = ref
        self.memo = memo
        self._links = None
        self._root = None

    def anyones(self, key):
        """What the path leads to, whatever the permissions."""
        if self._root is None:
            self._root = model.FS(self.fs.t, 0, 0)
        return self._root.resolve(key)

    def links_to(self, real):
        if self._links is None:
            self._links = {}
            for q, e in self.fs.t.items():
                if e[0] == "l":
                    self._links.setdefault(self.fs.resolve(q), set()).add(q)
        return self._links.get(real, ())

    def after_new(self, key, content):
        """Expectation for the same path once it holds `content`."""
        v = self.visits[key]
        t = dict(self.fs.t)
        e = t[v.real]
        t[v.real] = e[:4] + (content,)
        fs = model.FS.__new__(model.FS)
        fs.t, fs.uid, fs.gid, fs.kids = t, self.p.uid, self.p.gid, self.fs.kids
        fs.groups = self.fs.groups
        return model.file_expect(fs, v, self.flags, self.p.locale, self.ref, self.memo)


def watch_contents(case_phases, tree, ref, memo, base):
    """{real path: set of contents it may ever hold} for paths selected by a formatting process."""
    allowed = {}
    for specs in case_phases:
        for spec in specs:
            fl = model.flags_of(spec["args"])
            if not fl["format"]:
                continue
            fs = model.FS(tree, spec.get("uid", 1000), spec.get("gid", 1000), spec.get("groups", ()))
            cwd = spec.get("cwd", W.PROJ)
            visits, _b, _d = model.select(fs, model.sources_of(spec["args"]), cwd)
            for v in visits.values():
                if v.real is None:
                    continue
                x = model.file_expect(fs, v, fl, spec.get("locale", "utf-8"), ref, memo)
                if x.old is None:
                    continue
                s = allowed.setdefault(v.real, set())
                s.add(x.old)
                s.add(x.new)
    if base is not None:
        for t in base.trees:
            for p, s in allowed.items():
                e = t.get(p)
                if e is not None and e[0] == "f":
                    s.add(e[4])
    return allowed


class Watcher:
    """Checks, after every mutating system call, what a concurrent reader would see."""

    def __init__(self, allowed):
        self.allowed = allowed
        self.bad = []
        self.checks = 0

    def __call__(self, k, proc, op, canon):
        if self.bad:
            return
        for path, ok in self.allowed.items():
            if path in k.env_touched:
                continue
            self.checks += 1
            c = k.read_path(path)
            if c is None:
                self.bad.append(("missing", path, op, len(k.log), None))
            elif c not in ok:
                self.bad.append(("torn", path, op, len(k.log), c))


def judge_run(case, res, watcher, ref, memo):
    out = []
    k = res.kernel
    multi = any(len(ph) > 1 for ph in case["phases"])
    for kind, path, op, pos, c in watcher.bad if watcher else ():
        props = {"C01"}
        if multi:
            props.add("C10")
        out.append(V(props, "instant-" + kind,
                     "after event %d (%s) a reader of %s sees %s" % (
                         pos, op, path, "no file" if c is None else
                         "neither the old nor the new content (%d bytes: %r)" % (len(c), c[:60]))))
    hits = {}
    for h in k.hits:
        hits.setdefault(h[1], []).append(h)
    i = 0
    for n, ph in enumerate(case["phases"]):
        procs = res.procs[i:i + len(ph)]
        i += len(ph)
        judge_phase(out, case, res, res.trees[n], res.trees[n + 1], procs, hits, ref, memo)
    return out


def _below(path, d):
    return d == "/" or path == d or path.startswith(d + "/")


def judge_phase(out, case, res, before, after, procs, hits, ref, memo):
    k = res.kernel
    conc = len(procs) > 1
    views = [ProcView(p, before, ref, memo) for p in procs]
    env = k.env_touched
    allhits = [h for p in procs for h in hits.get(p.idx, ())]
    killed = any(p.killed for p in procs)
    selected = {}                       # real path -> [(view, key)] for formatting processes
    for vw in views:
        if vw.flags["format"]:
            for key, v in vw.visits.items():
                if v.real is not None:
                    selected.setdefault(v.real, []).append((vw, key))
    anyfmt = any(vw.flags["format"] for vw in views)

    # ---- read-only processes issue no effective mutation at all
    for vw in views:
        if not vw.flags["format"]:
            for m in k.mutations:
                if m[1] == vw.p.idx:
                    out.append(V({"C03"}, "ro-mutation",
                                 "process %d (%s) performed %s on %s" % (
                                     vw.p.idx, " ".join(vw.p.args), m[2], m[3])))
                    break

    # ---- the tree
    new_paths = [q for q in after if q not in before and q not in env]
    gone = [q for q in before if q not in after and q not in env]
    debris_ok = sum(1 for p in procs if p.killed)
    for p in procs:
        for h in hits.get(p.idx, ()):
            # an interrupt inside mkstemp (name unknown to the caller), at an arbitrary line,
            # or a failing removal make a left-over unavoidable
            if h[4] in ("kbd", "kbd_after") and (h[2] == "line" or (h[2] == "openw" and h[3].endswith("<new>"))):
                debris_ok += 1
            if h[2] == "unlink":
                debris_ok += 1
    sel_dirs = {posixpath.dirname(q) for q in selected}
    for q in new_paths:
        fine = (debris_ok > 0 and anyfmt and posixpath.dirname(q) in sel_dirs
                and not q.endswith(".py") and after[q][0] == "f")
        if fine:
            debris_ok -= 1
            continue
        props = {"C16"}
        if not killed:
            props.add("C02")
        if conc:
            props.add("C10")
        if not anyfmt:
            props.add("C03")
        out.append(V(props, "extra-path", "the run left %s behind" % q))
    for q in gone:
        props = {"C01"} if q in selected else {"C16"}
        if not anyfmt:
            props.add("C03")
        if conc:
            props.add("C10")
        out.append(V(props, "path-gone", "%s disappeared" % q))
    for q, e in before.items():
        a = after.get(q)
        if a is None or a == e or q in env:
            continue
        if q in selected and a[0] == "f":
            continue
        props = {"C16"}
        if not anyfmt:
            props.add("C03")
        if e[0] == "l":
            props.add("C15")
        if any(q == v.key or q == v.real for vw in views for v in vw.visits.values()) and e[0] == "f":
            props.add("C02")
        out.append(V(props, "foreign-change", "%s was modified (%s -> %s) although no format run selects it" % (
            q, _ent(e), _ent(a))))

    # ---- reports of each process
    anyfail = bool(allhits) or any(vw.bad or any(x.status == "fail" for x in vw.exp.values()) for vw in views)
    for vw in views:
        judge_proc(out, case, res, vw, views, before, after, hits.get(vw.p.idx, []), anyfail, conc, env)

    # ---- final contents of selected files
    for real, users in selected.items():
        if real in env:
            continue
        e, a = before[real], after.get(real)
        if a is None or a[0] != "f":
            continue
        ok = {e[4]}
        must = False
        for vw, key in users:
            x = vw.exp[key]
            if x.status in ("ok", "either"):
                ok.add(x.new)
        if a[4] not in ok:
            props, how = _wrong_content(users, a[4], e[4], ok, allhits, conc, real, killed, procs, k)
            out.append(V(props, "content-" + how, "%s ends up with %s: %r" % (real, how, _diff(a[4], users[0][0].exp[users[0][1]].new))))
        if a[1:4] != e[1:4]:
            keep = [_may_keep(vw.p, e) for vw, _k in users]
            changed = a[4] != e[4]
            if a[1] != e[1] or a[2] != e[2] and all(u for u, _g in keep) or a[3] != e[3] and all(g for _u, g in keep):
                props = {"C15"} if changed else {"C02", "C15"}
                if allhits and not changed:
                    props.add("C02")
                out.append(V(props, "attrs", "%s: mode/owner %o %d:%d became %o %d:%d" % (
                    (real,) + e[1:4] + a[1:4])))
        if conc:
            must = any(vw.exp[key].status == "ok" and vw.exp[key].changed and vw.p.exc is None
                       and not vw.p.killed and not hits.get(vw.p.idx) for vw, key in users)
            if must and a[4] == e[4] and len(ok) > 1:
                out.append(V({"C10"}, "conc-unformatted", "%s was not reformatted by any of the concurrent runs" % real))


def _may_keep(p, e):
    """Whether the process has the privilege to give its new file the old owner, the old group."""
    return p.uid in (0, e[2]), p.uid == 0 or e[3] == p.gid or e[3] in p.spec.get("groups", [])


def _ent(e):
    return "%s %o %d:%d %s" % (e[0], e[1], e[2], e[3], ("%d bytes" % len(e[4])) if isinstance(e[4], bytes) else e[4])


def _diff(a, b):
    n = 0
    while n < min(len(a), len(b)) and a[n] == b[n]:
        n += 1
    return "at byte %d got %r, expected %r (lengths %d, %d)" % (n, a[n:n + 40], b[n:n + 40], len(a), len(b))


def _wrong_content(users, got, old, ok, hits, conc, real, killed, procs, k):
    norm = got.replace(b"\r\n", b"\n")
    if any(norm == o.replace(b"\r\n", b"\n") for o in ok):
        return ({"C15"} | ({"C10"} if conc else set())), "other line endings"
    if conc:
        return {"C10", "C01"}, "content of no sequential run"
    partial = len(got) < len(old) and any(o.startswith(got) for o in ok)
    if hits or killed or partial or k.fired.get("short_write"):
        return {"C01", "C02"} | (set() if partial else {"C15"}), "partial content" if partial else "wrong content"
    return {"C15"}, "wrong content"


def _affected(vw, key, hits, res):
    """-> (may this file legitimately have failed, which things may carry the message)."""
    v = vw.visits[key]
    paths = {key, v.real}
    paths.update(vw.links_to(v.real))
    carriers = {("f", key)}
    hit = False
    d = posixpath.dirname(v.real) if v.real else None
    for (_pos, _idx, op, label, kind) in hits:
        if kind not in FAILING:
            continue
        if label in paths:
            hit = True
        elif label.endswith("/<new>") and posixpath.dirname(label) == d:
            hit = True
        elif op in ("scandir", "getdents"):
            if _below(key, label) or (v.real and _below(v.real, label)) or any(
                    _below(key, x) for dd in vw.dirs.get(label, ()) for x in [model.absnorm(vw.p.cwd, dd)]):
                hit = True
                carriers.add(("d", label))
        elif label != "<std>" and (_below(key, label) or (v.real and _below(v.real, label))):
            hit = True
            carriers.add(("d", label))
            carriers.update(("b", a) for a in v.args)
        elif label == "<std>":
            hit = True
    for a in v.args:
        canon = vw.fs.resolve(posixpath.join(vw.p.cwd, a), True, False)
        if hit and canon is not None:
            carriers.add(("b", a))
            carriers.add(("d", canon))
    return hit, carriers


def judge_proc(out, case, res, vw, views, before, after, hits, anyfail, conc, env):
    p = vw.p
    fl = vw.flags
    if p.killed:
        return
    kbd = any(h[4] in ("kbd", "kbd_after") for h in hits)
    std = any(h[3] == "<std>" for h in hits)
    if p.exc is not None and p.exc[0] == "StepLimit":
        out.append(V({"C18"}, "no-end", "process %d: %s" % (p.idx, p.exc[1])))
        return
    if kbd:
        first = min(h[0] for h in hits if h[4] in ("kbd", "kbd_after"))
        if case.get("strict") or not any(h[0] >= first and h[4] in FAILING for h in hits):
            judge_interrupt(out, case, res, vw, hits)
        return
    if std:
        return
    tag = (lambda *s: set(s) | {"C10"}) if conc else (lambda *s: set(s))
    if p.exc is not None:
        out.append(V(tag("C04"), "traceback:" + p.exc[0], "process %d (%s) aborted with %s: %s" % (
            p.idx, " ".join(p.args), p.exc[0], p.exc[1][:200])))
        return
    if p.flush_exc:
        out.append(V(tag("C04", "C05"), "flush", "output could not be written: " + p.flush_exc))
        return
    rep = Report(p, vw.visits, vw.bad, vw.dirs, sorted(env))
    fp = {"C04"} if anyfail else set()
    for line in rep.unknown:
        out.append(V(tag("C06"), "unknown-report", "process %d reports a path it was not asked to process: %r" % (p.idx, line)))

    groups = {}
    for key, v in vw.visits.items():
        groups.setdefault(v.real, []).append(key)
    others_fmt = {}
    if conc:
        for o in views:
            if o is not vw and o.flags["format"]:
                for key2, v2 in o.visits.items():
                    if v2.real is not None and o.exp[key2].status in ("ok", "either") and o.exp[key2].changed:
                        others_fmt.setdefault(v2.real, set()).add(o.exp[key2].new)

    nref = {}
    badkeys = {model.absnorm(p.cwd, b) for b in vw.bad}
    for key, v in vw.visits.items():
        x = vw.exp[key]
        R = rep.ref.get(key, [])
        inv = rep.inv.get(key, [])
        named = ("f", key) in rep.named
        stathit = any(h[2] == "stat" and h[4] in FAILING and (h[3] in (key, v.real) or _below(key, h[3]))
                      for h in hits)
        twice = (rep.namedcount.get(("f", key), 0) > 1 and key not in badkeys and not stathit
                 and key not in env and v.real not in env)
        if len(R) > 1 or len(inv) > 1 or twice:
            out.append(V(tag("C07"), "reported-twice", "%s is reported more than once: %s" % (
                key, [ln for ln in p.lines() if posixpath.basename(key)[:3] in ln][:4])))
        aff, carriers = _affected(vw, key, hits, res)
        if v.real in env or key in env or (env and v.real is None and vw.anyones(key) in env):
            judge_env(out, vw, rep, key, res, named or any(c in rep.named for c in carriers), tag)
            continue
        alts = [x]
        alias = len(groups[v.real]) > 1 and v.real is not None and fl["format"]
        if alias and x.changed and x.status != "fail":
            alts.append(vw.after_new(key, x.new))
        for nc in others_fmt.get(v.real, ()):
            alts.append(vw.after_new(key, nc))
        a = after.get(v.real) if v.real else None
        content = a[4] if a is not None and a[0] == "f" else None
        word = "reformatted" if fl["format"] else "would reformat"

        def exact(y):
            if y.status == "fail":
                return False
            wantR = [(word, y.changed)] if y.changed and (fl["format"] or fl["check"]) else []
            wantI = [y.invalid] if y.invalid and fl["validate"] else []
            if R[:1] != wantR or inv[:1] != wantI or (named and not stathit):
                return False
            if fl["verbose"] and wantI:
                want = [(ln, ", ".join(es)) for ln, es in y.verbose]
                if rep.verbose.get(key, []) != want:
                    return False
            if conc or not fl["format"]:
                return True
            if alias:
                return content == x.new
            return content == y.new
        if R:
            nref[v.real] = nref.get(v.real, 0) + 1
        covered = named or any(c in rep.named for c in carriers)

        def failed():
            if R or inv or not covered:
                return False
            if conc or not fl["format"] or alias or content is None:
                return True
            return content == x.old
        st = x.status
        if any(y.status != "fail" and exact(y) for y in alts):
            if alias and fl["format"] and x.changed and nref.get(v.real, 0) > 1:
                out.append(V({"C06"}, "alias-twice", "%s was announced as reformatted under two names" % v.real))
            continue
        if (st in ("fail", "either") or aff) and failed():
            if named or st != "ok" or aff:
                continue
        # ---- something is wrong: say what
        desc = "%s (expected: %s%s, %d changed, %d invalid; got: %s%s%s%s)" % (
            key, st, " [%s]" % x.why if x.why else "", x.changed, x.invalid,
            "report %s " % R if R else "no report ", "invalid %s " % inv if inv else "",
            "named in an error " if named else "",
            "content unchanged" if content == x.old else "content new" if content == x.new else "content different")
        wr = {"C15"} if x.why == "not writable" else set()
        if st == "fail":
            if content is not None and x.old is not None and content != x.old and fl["format"] and not conc:
                out.append(V({"C02"} | wr, "failed-changed", "a failing file was modified: " + desc))
            elif R or inv:
                out.append(V(tag("C02", "C06"), "failed-reported", "a failing file is announced as processed: " + desc))
            elif not covered:
                out.append(V(tag("C05") | wr, "silent", "failure without a word: " + desc))
            continue
        if aff or st == "either":
            if fl["format"] and not conc and content not in (x.old, x.new):
                out.append(V({"C01", "C02"}, "affected-content", desc))
            elif R or inv or (fl["format"] and not conc and content == x.new and x.changed):
                out.append(V(tag("C02", "C06"), "affected-report", "outcome and report disagree: " + desc))
            else:
                out.append(V(tag("C05"), "silent", "failure without a word: " + desc))
            continue
        # unaffected file with an expected success
        # (C15: a link whose target was not updated)
        lp = fp | {"C15"} if fl["format"] and v.real not in (None, key) and x.changed else fp
        if fl["format"] and not conc and content is not None and content not in (x.old, x.new):
            continue                      # judged with the contents
        if named:
            out.append(V(tag("C06") | lp, "spurious-error", "a file that should have been processed is reported as failing: " + desc))
        elif fl["format"] and not conc and x.changed and content == x.old and not R:
            out.append(V(tag("C05") | lp, "omitted", "a selected file was skipped: " + desc))
        elif not R and not inv and (x.changed or x.invalid) and not fl["format"]:
            out.append(V(tag("C06", "C05") | lp, "omitted", "a selected file is not reported: " + desc))
        else:
            out.append(V(tag("C06") | lp, "misreport", "report differs from what happened: " + desc))

    # ---- inputs and directories that could not be processed
    named_abs = {model.absnorm(p.cwd, w[1]) for w in rep.named}
    for w in rep.named:
        if w[0] == "d":
            named_abs.update(model.absnorm(p.cwd, d) for d in vw.dirs.get(w[1], ()))
    unlisted = set()                    # directories that a failing call may have hidden
    for (_pos, _idx, op, label, kind) in hits:
        if kind in FAILING and op in ("stat", "lstat", "scandir", "getdents"):
            unlisted.add(label)
            unlisted.update(model.absnorm(p.cwd, d) for d in vw.dirs.get(label, ()))
    for b, why in vw.bad.items():
        if b not in p.sources and any(_below(model.absnorm(p.cwd, b), u) for u in unlisted):
            continue
        if model.absnorm(p.cwd, b) not in named_abs:
            out.append(V(tag("C05"), "silent-input", "%r (%s) is not identified in the output" % (b, why)))
    for (_pos, _idx, op, label, kind) in hits:
        if kind in FAILING and op in ("scandir", "getdents"):
            ok = ("d", label) in rep.named or any(("b", d) in rep.named for d in vw.dirs.get(label, ()))
            if not ok and label in vw.dirs:
                out.append(V(tag("C05"), "silent-dir", "listing of %s failed (%s) without a word" % (label, op)))
        if kind in FAILING and op == "stat":
            args = [a for a in p.sources if model.absnorm(p.cwd, a) == label]
            if args and label not in named_abs:
                v = vw.visits.get(label)
                if v is None or not (vw.exp[label].status == "ok"):
                    if not _all_done(vw, rep, label, after, fl):
                        out.append(V(tag("C05"), "silent-input", "stat of input %s failed without a word" % label))

    # ---- summary and exit status
    fc = {"C02", "C04"} if anyfail else set()
    nfiles = sum(1 for r in rep.ref.values() for _ in r)
    nsql = sum(r[1] for rs in rep.ref.values() for r in rs)
    if fl["format"] or fl["check"]:
        want = ("reformatted" if fl["format"] else "would be reformatted", nfiles, nsql)
        if rep.sumf != [want]:
            out.append(V(tag("C06") | fc, "summary", "process %d: format summary %s, report lines give %s" % (p.idx, rep.sumf, want)))
    elif rep.sumf:
        out.append(V(tag("C06"), "summary", "unexpected format summary %s" % (rep.sumf,)))
    ni = sum(1 for r in rep.inv.values() for _ in r)
    ns = sum(n for rs in rep.inv.values() for n in rs)
    if fl["validate"]:
        if rep.sumv != [(ni, ns)]:
            out.append(V(tag("C06") | fc, "summary", "process %d: validation summary %s, report lines give %s" % (p.idx, rep.sumv, (ni, ns))))
    elif rep.sumv:
        out.append(V(tag("C06"), "summary", "unexpected validation summary %s" % (rep.sumv,)))
    want = 1 if (fl["check"] and nsql > 0) or (fl["validate"] and ns > 0) else 0
    if p.exit_code != want:
        out.append(V(tag("C06") | fp, "exit", "process %d (%s): exit status %s, reports call for %s" % (
            p.idx, " ".join(p.args), p.exit_code, want)))

    # ---- at most one replacement per path
    if fl["format"]:
        cnt = {}
        for m in res.kernel.mutations:
            if m[1] == p.idx and m[2] in ("rename", "open") and m[3] is not None:
                cnt[m[3]] = cnt.get(m[3], 0) + 1
        for q, n in cnt.items():
            if n > 1 and len(groups.get(q, [0])) <= 1:
                out.append(V(tag("C07"), "rewritten-twice", "%s was replaced %d times in one run" % (q, n)))


def _all_done(vw, rep, label, after, fl):
    """Every selected file below label was processed as if nothing had happened."""
    for key, v in vw.visits.items():
        if _below(key, label) or (v.real and _below(v.real, label)):
            x = vw.exp[key]
            if x.status != "ok":
                continue
            if (fl["format"] or fl["check"]) and x.changed and key not in rep.ref:
                return False
            if fl["validate"] and x.invalid and key not in rep.inv:
                return False
    return True


def judge_env(out, vw, rep, key, res, covered, tag):
    """Another program touched the path: what is left to judge is silence about a file that
    the run met and did not process."""
    x, v, fl = vw.exp[key], vw.visits[key], vw.flags
    alone = sum(1 for o in vw.visits.values() if o.real == v.real) == 1
    met = alone and (any(model.absnorm(vw.p.cwd, a) == key for a in vw.p.sources) or any(
        e[0] == vw.p.idx and e[1] == "open" and e[2] in (key, v.real) for e in res.log))
    due = x.status == "ok" and ((x.changed and (fl["format"] or fl["check"])) or (x.invalid and fl["validate"]))
    if met and due and not covered and not rep.ref.get(key) and not rep.inv.get(key):
        out.append(V(tag("C05"), "silent-env", "%s changed under the run and is not mentioned" % key))


def judge_interrupt(out, case, res, vw, hits):
    p = vw.p
    first = min(h[0] for h in hits if h[4] in ("kbd", "kbd_after"))
    if p.unraisable:
        return
    n = 0
    for e in res.log[first:]:
        if e[0] == p.idx and e[1] == "open" and e[2] in vw.fs.t and e[2] != getattr(p, "cur_at_kbd", None):
            n += 1
    if p.exc is None or p.exc[0] != "KeyboardInterrupt":
        out.append(V({"C18"}, "sigint-ignored", "process %d went on after SIGINT: exit %s, %s, %d further files opened" % (
            p.idx, p.exit_code, p.exc, n)))
    elif n:
        out.append(V({"C18"}, "sigint-late", "process %d opened %d further files after SIGINT" % (p.idx, n)))


def run_case_plan(case):
    phases = case["phases"]
    if W.nbytes(case["world"]) > 150000:        # byte-wise transfers of a megabyte only cost time
        phases = [[{k: max(v, 2048) if k in ("bufsize", "chunk", "rlim", "wlim") and v else v
                    for k, v in s.items()} for s in ph] for ph in phases]
    return {"world": W.nodes(case["world"]), "phases": phases, "faults": case.get("faults", []),
            "salt": case.get("salt", 0), "seed": case.get("seed", 0), "order": case.get("order", 0),
            "lines": case.get("lines", []), "count_lines": case.get("count_lines", False),
            "step_limit": case.get("step_limit") or step_bound(case), "line_cap": case.get("line_cap"),
            "line_scope": case.get("line_scope", "grammar")}


def step_bound(case):
    """A bound proportional to directory entries and bytes below the inputs (C18)."""
    w = case["world"]
    entries = sum(len(w.get(x, ())) for x in ("dirs", "files", "links", "hard", "special")) + 8
    args = max(len(model.sources_of(s["args"])) for ph in case["phases"] for s in ph)
    return 300 + 80 * entries * (args + 1) + 8 * W.nbytes(w)


def undisturbed(case):
    c = dict(case, faults=[f for f in case.get("faults", []) if f["kind"] == "__none__"], lines=[])
    return c


SAFETY = ("instant-", "extra-path", "path-gone", "foreign-change", "content-", "attrs", "ro-mutation")


def judge_std(out, case, res):
    """C19: what a failing output stream must not do."""
    for v in list(out):
        if v.cls.startswith(SAFETY):
            out.append(V({"C19"}, "std-" + v.cls, v.msg))
    lost = {}
    for h in res.kernel.hits:
        if h[3] == "<std>" and h[2] == "stdout":
            lost.setdefault(h[1], []).append(h)
    for p in res.procs:
        if p.exc is not None and p.exc[0] == "StepLimit":
            out.append(V({"C19"}, "std-no-end", "process %d never ends when its output fails" % p.idx))
        if lost.get(p.idx) and (p.idx, "stdout") in res.kernel.dead_output and p.exit_code == 0 and not p.killed:
            out.append(V({"C19"}, "std-success", "process %d exits with status 0 although its report was lost (%d failed writes)" % (
                p.idx, len(lost[p.idx]))))


def judge_fds(out, case, res):
    """C20: open descriptors."""
    depth = max([0] + [d["path"].count("/") - 2 for d in case["world"]["dirs"]])
    limit = 10 + 3 * depth
    for p in res.procs:
        if p.fds.peak > limit:
            out.append(V({"C20"}, "fds-peak", "process %d held %d descriptors at once (%d files, %d directories, depth %d)" % (
                p.idx, p.fds.peak, len(case["world"]["files"]), len(case["world"]["dirs"]), depth)))
        if p.left and p.exc is None:
            out.append(V({"C20"}, "fds-left", "process %d never closed %s" % (p.idx, p.left[:5])))


def stamps(k):
    """{path: (inode, modification time, mode, owner)} of every entry."""
    out = {}

    def rec(prefix, d):
        for name, c in d.entries.items():
            p = prefix + "/" + name
            out[p] = (c.kind, c.ino, None if c.kind == "d" else c.mtime, c.mode, c.uid, c.gid)
            if c.kind == "d":
                rec(p, c)
    rec("", k.root)
    return out


def judge_untouched(out, case, res, was, ref, memo):
    """C23: what a format run may write, and nothing else."""
    k = res.kernel
    ever = set()
    i = 0
    for n, ph in enumerate(case["phases"]):
        may, near = set(), set()
        before = res.trees[n]
        for spec in ph:
            fl = model.flags_of(spec["args"])
            if fl["format"]:
                fs = model.FS(before, spec.get("uid", 1000), spec.get("gid", 1000), spec.get("groups", ()))
                visits, _b, _d = model.select(fs, model.sources_of(spec["args"]), spec.get("cwd", W.PROJ))
                for v in visits.values():
                    if v.real is not None:
                        x = model.file_expect(fs, v, fl, spec.get("locale", "utf-8"), ref, memo)
                        if x.changed:
                            may.add(v.real)
                            near.add(v.real.rpartition("/")[0])
        ever |= may
        procs = {p.idx for p in res.procs[i:i + len(ph)]}
        i += len(ph)
        for _s, idx, op, path in k.mutations:
            if idx not in procs or path is None or path in may or path in k.env_touched:
                continue
            if path not in before and path.rpartition("/")[0] in near:
                continue            # a temporary file next to one that is about to change
            out.append(V({"C23"}, "touched", "process %d: %s of %s, which has nothing to reformat" % (idx, op, path)))
            return
    now = stamps(k)
    for path, a in was.items():
        if path not in ever and path not in k.env_touched and now.get(path) != a:
            out.append(V({"C23"}, "stamp", "%s has nothing to reformat; (kind, inode, mtime, mode, owner) %s became %s" % (
                path, a, now.get(path))))
            return


class Told:
    """C21: at each write to the output, what the announced files hold."""

    def __init__(self, case, ref, memo):
        self.case, self.ref, self.memo = case, ref, memo
        self.tree = None
        self.rep = {}
        self.bad = []
        self.lines = 0

    def start(self, k):
        self.tree = k.tree("/")

    def announced(self, proc, text):
        """{path: line} of the complete `reformatted` lines in `text`."""
        vw = self.rep.get(proc.idx)
        if vw is None:
            vw = self.rep[proc.idx] = ProcView(proc, self.tree, self.ref, self.memo)
        if not vw.flags["format"]:
            return vw, {}
        q = lambda: None
        q.spec, q.cwd, q.sources, q.err = proc.spec, proc.cwd, proc.sources, b""
        q.out = text[:text.rfind(b"\n") + 1]
        r = Report(q, vw.visits, vw.bad, vw.dirs)
        return vw, {key: v for key, v in r.ref.items()}

    def __call__(self, k, proc, final=False):
        if self.bad or b"reformatted " not in proc.out:
            return
        vw, said = self.announced(proc, bytes(proc.out))
        self.lines += len(said)
        for key in said:
            x = vw.exp[key]
            real = vw.visits[key].real
            if x.old is None or x.status not in ("ok", "either") or real in k.env_touched:
                continue
            now = k.read_path(real)
            if now != x.new:
                self.bad.append("%s: the output says `reformatted`, but the file holds %s content%s" % (
                    key, "its old" if now == x.old else "other", " at the end" if final else ""))


def evaluate_run(case, ref, memo, base=None, keep=None):
    """Runs and judges one case of kind 'run'. -> (violations, Result)."""
    extra = case.get("extra")
    if extra == "told":
        t = Told(case, ref, memo)
        res = sim.run(dict(run_case_plan(case), no_settle=True), observers=[], std_observers=[t], started=t.start)
        for p in res.procs:
            if not any(f["kind"].startswith("power") for f in case.get("faults", ())):
                t(res.kernel, p, True)
        res.watch_checks = t.lines
        return [V({"C21"}, "told-early", m) for m in t.bad], res
    if extra == "fds":
        res = sim.run(dict(run_case_plan(case), count_fds=True))
        res.watch_checks = len(res.procs)
        out = []
        judge_fds(out, case, res)
        return out, res
    if extra == "untouched":
        was = {}
        res = sim.run(dict(run_case_plan(case), no_settle=True), started=lambda k: was.update(stamps(k)))
        res.watch_checks = len(was)
        out = []
        judge_untouched(out, case, res, was, ref, memo)
        return out, res
    out, res = _evaluate_run(case, ref, memo, base, keep)
    if extra == "std":
        judge_std(out, case, res)
    return out, res


def _evaluate_run(case, ref, memo, base=None, keep=None):
    if base is None:
        base = sim.run(run_case_plan(undisturbed(case)))
    allowed = watch_contents(case["phases"], base.trees[0], ref, memo, base)
    w = Watcher(allowed)
    res = sim.run(run_case_plan(case), observers=[w])
    out = judge_run(case, res, w, ref, memo)
    res.watch_checks = w.checks
    return out, res
