"""Independent reference: what a run is expected to do, computed without file_handler/main.

SQL semantics (how one query is formatted, what is invalid) come from the library API of the
tree under test, on a copy of the package that the simulated run does not share.
"""
import io
import posixpath
import tokenize

from . import loader, seam


class Ref:
    """The library API as a pure function, memoised."""

    def __init__(self):
        self.mods = loader.fresh()
        self.fmt = {}
        self.val = {}

    def _call(self, f, *a):
        saved = seam.CUR.proc
        seam.CUR.proc = None
        loader.activate(self.mods)
        try:
            return ("ok", f(*a))
        except Exception as e:
            return ("err", type(e).__name__)
        finally:
            loader.drop()
            seam.CUR.proc = saved

    def format(self, sql):
        r = self.fmt.get(sql)
        if r is None:
            r = self.fmt[sql] = self._call(self.mods["sqlvalidator"].format_sql, sql)
        return r

    def verdict(self, sql):
        r = self.val.get(sql)
        if r is None:
            def f():
                q = self.mods["sqlvalidator"].parse(sql)
                v = q.is_valid()
                return (v, tuple(q.errors))
            r = self.val[sql] = self._call(f)
        return r


class Expect:
    __slots__ = ("fail", "changed", "invalid", "text", "verbose")

    def __init__(self, fail=None, changed=0, invalid=0, text=None, verbose=()):
        self.fail, self.changed, self.invalid = fail, changed, invalid
        self.text, self.verbose = text, verbose


def split_literal(tok):
    """STRING token -> (prefix, quote, body)."""
    i = 0
    while tok[i] not in "'\"":
        i += 1
    q = tok[i:i + 3] if tok[i:i + 3] in ('"""', "'''") and len(tok) >= i + 6 else tok[i]
    return tok[:i], q, tok[i + len(q):len(tok) - len(q)]


def is_select(body):
    s = body.lstrip(" \n").lower()
    return s.startswith("select") and len(s) > 6 and s[6] in " \n"


def requote(prefix, q, formatted):
    if "\n" in formatted:
        q3 = q if len(q) == 3 else q * 3
        return prefix + q3 + "\n" + formatted + "\n" + q3
    return prefix + q + formatted + q


def expected(text, fmt, val, ref):
    """What one file with this (decoded, \\n-terminated) text should yield."""
    try:
        toks = list(tokenize.generate_tokens(io.StringIO(text).readline))
    except (tokenize.TokenError, SyntaxError) as e:
        return Expect(fail="not Python: " + type(e).__name__)
    marks = [t for t in toks if t.type in (tokenize.STRING, tokenize.COMMENT)]
    changed = invalid = 0
    verbose = []
    repl = []
    for i, t in enumerate(marks):
        if t.type != tokenize.STRING:
            continue
        prefix, q, body = split_literal(t.string)
        if not is_select(body):
            continue
        nxt = marks[i + 1] if i + 1 < len(marks) else None
        com = nxt.string if nxt is not None and nxt.type == tokenize.COMMENT else None
        nofmt = com is not None and "nosqlformat" in com
        noval = com is not None and "nosqlvalidation" in com
        do_val = val and not noval
        do_fmt = fmt and not nofmt
        if com is not None and not do_fmt and not do_val:
            continue
        f = ref.format(body)
        if f[0] == "err":
            if f[1] == "ParsingError" and do_val:
                new = t.string
            else:
                return Expect(fail="SQL: " + f[1])
        else:
            new = requote(prefix, q, f[1])
        if new != t.string and not nofmt:
            changed += 1
            repl.append((t.start, t.end, new))
        if do_val:
            v = ref.verdict(body)
            if v[0] == "err":
                return Expect(fail="validation: " + v[1])
            if not v[1][0]:
                invalid += 1
                verbose.append((t.start[0], v[1][1]))
    lines = io.StringIO(text).readlines()
    for (sr, sc), (er, ec), new in reversed(repl):
        head = lines[sr - 1][:sc]
        tail = lines[er - 1][ec:]
        lines[sr - 1:er] = [head + new + tail]
        # keep line indexing simple: everything before sr is still one entry per line
    return Expect(changed=changed, invalid=invalid, text="".join(lines), verbose=verbose)


class FS:
    """Read-only view of a tree snapshot with POSIX path resolution and permissions."""

    def __init__(self, tree, uid=1000, gid=1000, groups=()):
        self.t = tree
        self.uid, self.gid, self.groups = uid, gid, groups
        self.kids = {}
        for p in tree:
            d, b = posixpath.split(p)
            self.kids.setdefault(d if d != "/" else "", []).append(b)

    def perm(self, ent, want):
        if self.uid == 0:
            return True
        m = ent[1]
        if self.uid == ent[2]:
            m >>= 6
        elif ent[3] == self.gid or ent[3] in self.groups:
            m >>= 3
        return (m & want) == want

    def resolve(self, path, follow=True, check=True, budget=40):
        """-> canonical path or None (missing, loop, no search permission)."""
        parts = [p for p in path.split("/") if p and p != "."]
        cur = ""
        while parts:
            if cur:
                e = self.t.get(cur)
                if e is None or e[0] != "d":
                    return None
                if check and not self.perm(e, 1):
                    return None
            p = parts.pop(0)
            if p == "..":
                cur = cur.rsplit("/", 1)[0] if cur else ""
                continue
            nxt = cur + "/" + p
            e = self.t.get(nxt)
            if e is None:
                return None
            if e[0] == "l" and (parts or follow):
                budget -= 1
                if budget <= 0:
                    return None
                tp = [x for x in e[4].split("/") if x and x != "."]
                if e[4].startswith("/"):
                    cur = ""
                parts = tp + parts
                continue
            cur = nxt
        return cur or "/"

    def kind(self, path, check=True):
        c = self.resolve(path, True, check)
        if c is None:
            return None
        return "d" if c == "/" else self.t[c][0]


class Visit:
    """One selected source path: every spelling it may be printed under."""
    __slots__ = ("key", "spellings", "args", "real", "linked")

    def __init__(self, key):
        self.key = key
        self.spellings = set()
        self.args = set()
        self.real = None
        self.linked = False


def absnorm(cwd, p):
    return posixpath.normpath(posixpath.join(cwd, p))


def select(fs, sources, cwd):
    """-> (visits {key: Visit}, bad inputs {arg or dir display: reason}, covered dirs)."""
    visits = {}
    bad = {}
    dirs = {}          # canonical directory -> set of displays under which it is listed

    def add(display, arg):
        key = absnorm(cwd, display)
        v = visits.get(key)
        if v is None:
            v = visits[key] = Visit(key)
            v.real = fs.resolve(key)
            v.linked = v.real != key
        v.spellings.add(display)
        v.args.add(arg)

    def walk(display, canon, arg):
        dirs.setdefault(canon, set()).add(display)
        if canon != "/" and not fs.perm(fs.t[canon], 4):
            bad[display] = "unreadable directory"
            return
        for name in fs.kids.get(canon if canon != "/" else "", []):
            p = (canon if canon != "/" else "") + "/" + name
            disp = posixpath.join(display, name)
            e = fs.t[p]
            k = e[0]
            if k == "d":
                if canon != "/" and not fs.perm(fs.t[canon], 1):
                    bad[disp] = "directory without search permission"
                    continue
                walk(disp, p, arg)
            elif k == "l" and fs.kind(p, False) == "d":
                continue
            elif name.endswith(".py"):
                add(disp, arg)

    for s in sources:
        ap = posixpath.join(cwd, s)
        if s == "":
            bad[s] = "empty input"
            continue
        c = fs.resolve(ap)
        k = None if c is None else ("d" if c == "/" else fs.t[c][0])
        if c is not None and s.endswith("/") and k != "d":
            k = None
        if k == "d":
            walk(s, c, s)
        elif k == "f":
            add(s, s)
        else:
            bad[s] = "no such input"
    return visits, bad, dirs


def decode(data, encoding):
    """Bytes -> (text with \\n, newline convention or None if mixed/absent) ; raises UnicodeError."""
    t = io.TextIOWrapper(io.BytesIO(data), encoding=encoding)
    text = t.read()
    nl = t.newlines
    return text, nl


def encode(text, nl, encoding):
    if isinstance(nl, str) and nl != "\n":
        text = text.replace("\n", nl)
    return text.encode(encoding)


class FileExp:
    """Expected treatment of one selected path by one undisturbed process."""
    __slots__ = ("status", "why", "old", "new", "changed", "invalid", "verbose", "ent", "mixed")


def file_expect(fs, visit, flags, locale, ref, memo=None):
    x = FileExp()
    x.status, x.why, x.changed, x.invalid, x.verbose = "ok", None, 0, 0, ()
    x.mixed = False
    x.old = x.new = x.ent = None
    real = visit.real
    if real is None or fs.t[real][0] != "f":
        x.status, x.why = "fail", "missing or not a file"
        return x
    ent = x.ent = fs.t[real]
    x.old = x.new = ent[4]
    if not fs.perm(ent, 4):
        x.status, x.why = "fail", "not readable"
        return x
    fmt = flags["format"] or flags["check"]
    val = flags["validate"]
    mk = (ent[4], fmt, val, locale)
    got = memo.get(mk) if memo is not None else None
    if got is None:
        try:
            text, nl = decode(ent[4], locale)
        except (UnicodeError, LookupError):
            got = ("fail", "undecodable", None, None)
        else:
            e = expected(text, fmt, val, ref)
            if e.fail:
                got = ("fail", e.fail, None, None)
            else:
                new = ent[4]
                why = None
                if e.changed:
                    try:
                        new = encode(e.text, nl, locale)
                    except UnicodeError:
                        why = "unencodable"
                got = ("ok", why, e, new, isinstance(nl, tuple))
        if memo is not None:
            memo[mk] = got
    if got[0] == "fail":
        x.status, x.why = "fail", got[1]
        return x
    e = got[2]
    x.changed, x.invalid, x.verbose = e.changed, e.invalid, e.verbose
    x.mixed = got[4]
    x.new = got[3]
    if flags["format"] and e.changed:
        if got[1]:
            x.status, x.why, x.new = "fail", got[1], ent[4]
        elif not fs.perm(ent, 2):
            x.status, x.why, x.new = "fail", "not writable", ent[4]
        else:
            d = posixpath.dirname(real)
            de = fs.t.get(d)
            if de is not None and (not fs.perm(de, 3) or de[1] & 0o1000):
                x.status = "either"
    return x


def flags_of(args):
    v = "--verbose-validate" in args
    return {"format": "--format" in args, "check": "--check-format" in args,
            "validate": "--validate" in args or v, "verbose": v}


def sources_of(args):
    return [a for a in args if not a.startswith("--")]
