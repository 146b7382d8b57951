"""Seeded generator of source trees and command lines, and their concrete (JSON) form.

A world is {"dirs": [...], "files": [...], "raws": [...], "links": [...]}; everything in it is
plain JSON, so that a replay file holds the complete tree and the minimiser can cut it down.
"""
import unicodedata

from . import sqlgen

PROJ = "/home/u/proj"


# ------------------------------------------------------------------ concrete form
def file_bytes(f):
    if "raw" in f:
        return f["raw"].encode("utf-8", "surrogateescape")
    text = "".join(f["items"])
    if not f.get("tail", True) and text.endswith("\n"):
        text = text[:-1]
    return text.replace("\n", f.get("nl", "\n")).encode(f.get("enc", "utf-8"), "surrogateescape")


def nodes(world):
    out = [{"path": p, "kind": "m"} for p in world.get("mounts", ())]
    out += [dict(d, kind="d") for d in world.get("dirs", [])]
    for f in world.get("files", []):
        out.append({"path": f["path"], "kind": "f", "mode": f.get("mode", 0o644),
                    "uid": f.get("uid", 1000), "gid": f.get("gid", 1000), "data": file_bytes(f)})
    out += world.get("special", ())
    for ln in world.get("links", []):
        out.append({"path": ln["path"], "kind": "l", "target": ln["target"]})
    have = {f["path"] for f in world.get("files", [])}
    for h in world.get("hard", []):                # a second name of the same inode
        if h["of"] in have:
            out.append({"path": h["path"], "kind": "h", "target": h["of"]})
    return out


# ------------------------------------------------------------------ Python text
CODE = [
    "import os, sys\n",
    "x = 1 ;  y=2\n",
    "t = (1,\n     2 ,   # two\n     3)\n",
    "def helper(a, *b, c = 3, **d) -> int :\n    \"\"\"Doc  string.\"\"\"\n    return a+c\n",
    "class Klass( object ):\n\n    attr : int = 3\n\n    def m(self): return self.attr\n",
    "# a comment with 'quotes' and select in it\n",
    "#!no shebang,   just a comment\n",
    "text = 'plain ' \"strings\"\n",
    "raw = r'\\d+\\s' + b'bytes'.decode()\n",
    "long = '''\n  multi\n    line \\\n text\n'''\n",
    "d = { 'a':1 , 'b' : [ 1,2 , 3 ] }\n",
    "if x :\n    pass\nelif  y:\n    y  +=  1\nelse:\n    z = lambda q : q**2\n",
    "f_str = f\"{x!r:>{y}} and {{braces}}\"\n",
    "ünïcode = 'naïve ☃' # ünï\n",
    "s = \"insert into t values (1)\"\n",
    "s2 = 'update t set a = 1'\n",
    "s3 = 'please select a from t'\n",
    "s4 = 'selection from t'\n",
    "\n\n",
    "    \n",
    "assert x  ==  1 , 'no'\n",
    "for i in range( 3 ):\n    while   True : break\n",
    "@property\ndef prop(self): ...\n",
    "val = x if  y else(3)\n",
    "num = 0xFF + 1_000 + 1e-3 + 2j\n",
    "async def co():\n    await  thing( )\n",
    "try:\n    pass\nexcept (ValueError , KeyError) as e :\n    raise\nfinally:\n    pass\n",
    "matrix = a @ b ; walrus = (n := 10)\n",
    "print( 'x' , end = '' )\n",
    "q.execute('delete from t')  #  trailing\n",
]
# layout that only an exact splice of the literals preserves
LAYOUT = [
    "x = 1\t# tab before the comment\n",
    "y\t=\t2\n",
    "z = 1 + \\\n  2\n",
    "w = 1 +    \\\n\t2\n",
    "if x:\n\ty = 1\n\tz = 2   \n",
    "call(a,\tb)\n",
    "v = 3  \t \n",
    "\x0cdef after_formfeed(): pass\n",
    "u = 'a'   'b'\n",
    "k = 'a''b'\n",
    "lst = [\n\t1,\t2,\n\t\t3,\n]\n",
]
LAT = ["acc = 'été àç'\n", "# commentaire en français: ça\n", "n = 'ñandú'\n"]
BADPY = ["def f(:\n    (\n", "x = '''unterminated\n", "def g():\n        a = 1\n    b = 2\n",
         "y = (1, 2\n", "z = [1,\n", "w = 'unterminated\n"]

TEMPLATES = [
    "{v} = {l}{c}\n",
    "{v} = {l}{c}\n",
    "{v}  =  {l}{c}\n",
    "{v} = f({l}, 1){c}\n",
    "def {v}_fn(a, b = 2):\n    return {l}{c}\n",
    "def {v}_fn():\n\tq = {l}{c}\n\treturn q\n",
    "class C_{v}:\n    q = {l}{c}\n\n    def m(self):\n        return  self.q\n",
    "{v} = [\n    {l},{c}\n    1,\n]\n",
    "{v} = {{'k' : {l} }}{c}\n",
    "cursor.execute(\n    {l},\n    (1,  2),\n){c}\n",
    "{v} = {l}; w = 2{c}\n",
    "{v} = (\n  {l}\n){c}\n",
    "if 1: {v} = {l}{c}\n",
    "{v} : str = {l}{c}\n",
    "    \n{v} = {l}{c}\n",
    "{v} = dict(a = {l} , b=3){c}\n",
    "for {v} in ( {l} ,): pass{c}\n",
    "{v} = {l} % (x ,){c}\n",
    "{v} = {l} .strip( ){c}\n",
]
LTEMPLATES = [
    "{v} =\t{l}{c}\n",
    "{v} = \\\n    {l}{c}\n",
    "{v} = {l}\t{c}\n",
    "{v} = f(\ta,\t{l},\tb){c}\n",
    "{v} = {l}   \\\n  .strip(){c}\n",
]
COMMENTS = ["", "", "", "", "", "  # a comment", "  # nosqlformat", "  # nosqlvalidation",
            "  # noqa nosqlformat", "  # nosqlformat nosqlvalidation", " #trailing  "]


def literal(r, body, quote=None, prefix=None):
    if quote is None:
        opts = ['"""']
        if "'" not in body:
            opts.append("'''")
        if "\n" not in body and '"' not in body:
            opts += ['"', '"']
        if "\n" not in body and "'" not in body:
            opts += ["'", "'"]
        if body.endswith('"'):
            opts = [o for o in opts if o[0] != '"'] or ["'''"]
        quote = r.choice(opts)
    if prefix is None:
        prefix = r.choice(["", "", "", "", "", "", "", "u", "r", "R", "b", "rb", "Rb"])
    if "b" in prefix.lower() and any(ord(c) > 127 for c in body):
        prefix = ""
    return prefix + quote + body + quote


def sql_body(r, kind, multiline=None):
    c = sqlgen.corpus()
    if kind == "good":
        if r.random() < .55:
            b = sqlgen.Gen(r, multiline if multiline is not None else r.random() < .5).query()
        elif r.random() < .75:
            b = r.choice(c["valid"])
        else:
            b = r.choice(c["invalid"])
    elif kind == "invalid":
        b = r.choice(c["invalid"])
    elif kind == "parse":
        b = r.choice(c["parse"])
    elif kind == "internal":
        b = r.choice(c["internal"] + c["valerr"])
    elif kind == "deep":
        b = r.choice(c["deep"])
    else:
        raise KeyError(kind)
    return b


def simple_body(r):
    a, b = r.choice(sqlgen.COLS), r.choice(sqlgen.COLS)
    t = r.choice(sqlgen.TABS)
    return r.choice([
        f"select {a} from {t}", f"select {a},{b} from {t}", f"select * from {t} where {a}=1",
        f"SELECT {a}\nfrom {t}", f"select count(*) from {t}", f"select {a} from (select {b} from {t})",
        f"select {a} from {t} where {b} = 'x y'", f"select {a} from {t} limit -1"])


def clean_literal(r, body, ref):
    """An already formatted literal."""
    o = ref.format(body)
    if o[0] != "ok":
        return None
    f = o[1]
    q = '"""'
    return q + ("\n" + f + "\n" if "\n" in f else f) + q


class Names:
    def __init__(self, r, weird):
        self.r, self.n, self.weird = r, 0, weird
        self.used = []

    def file(self):
        k = self.n
        self.n += 1
        t = "f%02d" % k
        if self.weird:
            t = self.r.choice([t, t, t, t, t + " x", "." + t, t + ".d", t + "é", t + "-(1 changed SQL)",
                               t + "'q'", t + "☃", "py." + t,
                               t + "\x1b[1m", t + "[0-9]", "$HOME" + t, "~" + t, t + "{0}%s", "#" + t + "#",
                               t + "\\n", "test_" + t, t + "*", t + "=a:b,c;d", "@" + t])
        return t + ".py"

    def in_dir(self, r, d, prob, taken):
        """A name for a file of directory d; sometimes one that another directory has, too."""
        if self.used and r.random() < prob:
            nm = r.choice(self.used)
            if r.random() < .3:                  # the same to whoever folds case or normalises Unicode
                nm = nm[:-3].swapcase() + ".py" if r.random() < .7 else unicodedata.normalize("NFD", nm)
            if d + "/" + nm not in taken:
                return nm
        nm = self.file()
        self.used.append(nm)
        return nm

    def dir(self):
        k = self.n
        self.n += 1
        t = "d%02d" % k
        if self.weird:
            t = self.r.choice([t, t, t, t + " y", t + ".py", "." + t, t + "é", "__pycache__" + t, "~", "$HOME",
                               t + "[ab]", "build", "node_modules", "venv", ".git", "tests", "__pycache__"])
        return t

    def other(self, suf):
        k = self.n
        self.n += 1
        return "o%02d%s" % (k, suf)


DEFAULT = dict(files=(2, 7), dirs=(0, 3), bad=.25, invalid=.2, clean=.15, layout=.35, crlf=.25,
               perm=.15, links=.25, decoys=.35, weird=.4, items=(1, 4), enc=None, simple=.5,
               readonly_dir=.05, modes=.3, surrogate=0.0, bigfile=.03, deep=0, notail=.2, twin=.12, encmix=0,
               samename=.25, copy=.12, hard=.08, pad=.04, special=.1)


def twin(r, b):
    """A statement that is almost, but not quite, one that was seen before."""
    c = r.randrange(11)
    if c > 7:
        return sqlgen.step(r, b)
    if c == 0:
        return b.swapcase()
    if c == 1:
        for x in sqlgen.COLS + sqlgen.TABS:
            if x in b:
                return b.replace(x, x.capitalize())
        return b.upper()
    if c == 2:
        return b + r.choice([" ", "  ", ";", " limit 3", " limit -1"])
    if c == 3:
        return b.replace(" ", "  ", 1)
    if c == 4:
        return b.replace("\n", " ")
    if c == 5:
        for x in sqlgen.COLS:
            if x in b:
                return b.replace(x, r.choice(sqlgen.COLS))
    return b


def padding(r):
    n = r.choice([4096, 8192, 8192, 16384, 65536 if r.random() < .2 else 9000]) + r.randint(-200, 200)
    width = r.choice([60, 200, 1000, 5000])
    line = "# " + r.choice(["x", "-", "pad ", "é"]) * width
    line = line[:width] + "\n"
    return line * (n // len(line.encode()) + 1)


def gen_file(r, path, cfg, ref, role):
    items = []
    enc = cfg["enc"] or "utf-8"
    if enc != "utf-8" and r.random() < cfg["encmix"]:
        enc = "utf-8"
    bodies = cfg.setdefault("bodies", [])
    nl = "\r\n" if r.random() < cfg["crlf"] else "\n"

    def sql(kind):
        if kind == "good" and r.random() < cfg["simple"]:
            b = simple_body(r)
        else:
            b = sql_body(r, kind)
        if kind == "good" and bodies and r.random() < cfg["twin"]:
            b = twin(r, r.choice(bodies))
        elif len(b) < 600:
            bodies.append(b)
        if nl == "\r\n" and "\r" in b:
            b = b.replace("\r", "")
        lit = None
        if kind == "clean":
            lit = clean_literal(r, b, ref)
        if lit is None:
            lit = literal(r, b)
        tpl = r.choice(LTEMPLATES) if r.random() < cfg["layout"] * .5 else r.choice(TEMPLATES)
        return tpl.format(v=r.choice(["q", "sql", "query", "a1"]), l=lit, c=r.choice(COMMENTS))

    n = r.randint(*cfg["items"])
    if r.random() < cfg["bigfile"]:
        n = r.randint(20, 60)
    for _ in range(n):
        c = r.random()
        if c < .35:
            pool = CODE
            if r.random() < cfg["layout"]:
                pool = LAYOUT
            if enc != "utf-8" and r.random() < .4:
                pool = LAT
            it = r.choice(pool)
            items.append(it)
        elif c < .35 + cfg["clean"]:
            b = simple_body(r)
            items.append("q = %s%s\n" % (clean_literal(r, b, ref), r.choice(COMMENTS)))
        elif role != "clean":
            items.append(sql("good"))
    if role == "good" and not any("elect" in i.lower() for i in items):
        items.append(sql("good"))
    if role == "invalid":
        items.insert(r.randint(0, len(items)), sql("invalid"))
    if role in ("parse", "internal", "deep"):
        items.insert(r.randint(0, len(items)), sql(role))
    if role == "badpy":
        items.append(r.choice(BADPY))
    if role == "empty":
        items = []
    if r.random() < cfg["pad"] and role != "empty":     # larger than any buffer on the way
        items.insert(r.randint(0, len(items)), padding(r))
    f = {"path": path, "items": items, "nl": nl, "tail": r.random() >= cfg["notail"]}
    if enc != "utf-8":
        f["enc"] = enc
        ok = []
        for it in items:
            try:
                it.encode(enc)
                ok.append(it)
            except UnicodeEncodeError:
                pass
        f["items"] = ok
    if role == "undecodable":
        f["items"].insert(r.randint(0, len(f["items"])), "# caf\udce9 \udcff\n")
    if role == "noperm":
        f["mode"] = r.choice([0o000, 0o200, 0o044])
    elif role == "readonly":
        f["mode"] = r.choice([0o444, 0o555, 0o400])
    elif r.random() < cfg["modes"]:
        f["mode"] = r.choice([0o600, 0o640, 0o755, 0o664, 0o777, 0o700, 0o4755, 0o2644])
    return f


def gen(r, ref, **over):
    cfg = dict(DEFAULT, **over)
    cfg["bodies"] = []
    w = {"dirs": [], "files": [], "links": []}
    names = Names(r, r.random() < cfg["weird"])
    dirs = [PROJ]
    for _ in range(r.randint(*cfg["dirs"])):
        d = r.choice(dirs)
        if d != PROJ and r.random() < cfg["samename"] * .5:
            d += "/" + d.rsplit("/", 1)[1]
        elif d != PROJ and r.random() < cfg["samename"] * .2:
            d = d.rsplit("/", 1)[0] + "/" + d.rsplit("/", 1)[1].swapcase()
        else:
            d += "/" + names.dir()
        if d in dirs:
            continue
        dirs.append(d)
        w["dirs"].append({"path": d})
    nf = r.randint(*cfg["files"])
    taken = set()
    for i in range(nf):
        c = r.random()
        role = "good"
        if c < cfg["bad"]:
            role = r.choice(["parse", "internal", "badpy", "undecodable", "noperm", "readonly", "empty", "parse"])
            if role in ("noperm", "readonly") and r.random() > cfg["perm"] * 5:
                role = "parse"
            if r.random() < cfg["deep"]:
                role = "deep"
        elif c < cfg["bad"] + cfg["invalid"]:
            role = "invalid"
        elif c < cfg["bad"] + cfg["invalid"] + .1:
            role = "clean"
        d = r.choice(dirs)
        nm = names.in_dir(r, d, cfg["samename"] if len(dirs) > 1 else cfg["samename"] * .3, taken)
        if cfg["surrogate"] and r.random() < cfg["surrogate"] and not nm.endswith("\udcff.py"):
            nm = nm[:-3] + "\udcff.py"
            if d + "/" + nm in taken:
                continue
        taken.add(d + "/" + nm)
        if w["files"] and r.random() < cfg["copy"]:
            w["files"].append(dict(r.choice(w["files"]), path=d + "/" + nm))
        else:
            w["files"].append(gen_file(r, d + "/" + nm, cfg, ref, role))
    if r.random() < cfg["decoys"]:
        for _ in range(r.randint(1, 4)):
            suf = r.choice([".txt", ".pyi", ".py.bak", ".pyc", ".PY", ".py~", ".pyx", "", ".sql", "py", ".py.tmp"])
            f = gen_file(r, r.choice(dirs) + "/" + names.other(suf), dict(cfg, bigfile=0), ref, "good")
            w["files"].append(f)
    if r.random() < cfg["links"]:
        for _ in range(r.randint(1, 3)):
            c = r.randrange(6)
            d = r.choice(dirs)
            if c == 0:                         # link to a file outside the inputs
                t = "/home/u/lib/" + names.file()
                w["files"].append(gen_file(r, t, dict(cfg, bigfile=0), ref, "good"))
                w["links"].append({"path": d + "/" + names.file(),
                                   "target": r.choice([t, rel(t, d)])})
            elif c == 1:                       # link to a file that is not *.py
                t = "/home/u/lib/" + names.other(r.choice([".txt", "", ".pyi"]))
                w["files"].append(gen_file(r, t, dict(cfg, bigfile=0), ref, "good"))
                w["links"].append({"path": d + "/" + names.file(), "target": t})
            elif c == 2:                       # dangling or looping
                p = d + "/" + names.file()
                w["links"].append({"path": p, "target": r.choice(["nowhere.py", "/nope/x.py", p])})
            elif c == 3:                       # link to a directory (possibly a cycle)
                w["links"].append({"path": d + "/" + names.dir(),
                                   "target": r.choice([".", "..", PROJ, "/home/u/lib2", "/"])})
                if r.random() < .5:
                    w["dirs"].append({"path": "/home/u/lib2"})
                    w["files"].append(gen_file(r, "/home/u/lib2/" + names.file(), cfg, ref, "good"))
            elif c == 4:                       # non-.py link to a Python file
                t = "/home/u/lib/" + names.file()
                w["files"].append(gen_file(r, t, dict(cfg, bigfile=0), ref, "good"))
                w["links"].append({"path": d + "/" + names.other(".lnk"), "target": t})
            else:                              # link to a link
                t = "/home/u/lib/" + names.file()
                w["files"].append(gen_file(r, t, dict(cfg, bigfile=0), ref, "good"))
                l1 = d + "/" + names.other(".l1")
                w["links"].append({"path": l1, "target": t})
                w["links"].append({"path": d + "/" + names.file(), "target": rel(l1, d)})
    seen = set()
    w["dirs"] = [x for x in w["dirs"] if not (x["path"] in seen or seen.add(x["path"]))]
    if r.random() < cfg["readonly_dir"] and w["dirs"]:
        r.choice(w["dirs"])["mode"] = r.choice([0o555, 0o000, 0o311, 0o444])
    there = {d["path"] for d in w["dirs"]} | {f["path"] for f in w["files"]}
    w["links"] = [x for x in w["links"] if x["path"] not in there]
    if r.random() < cfg["special"]:
        w["special"] = []
        for _ in range(r.choice([1, 1, 2])):
            p = r.choice(dirs) + "/" + (names.file() if r.random() < .75 else names.other(r.choice([".fifo", "", ".sock"])))
            w["special"].append({"path": p, "kind": r.choice("pps")})
            if r.random() < .25:
                w["links"].append({"path": r.choice(dirs) + "/" + names.file(), "target": p})
    if w["files"] and r.random() < cfg["hard"]:
        w["hard"] = []
        for _ in range(r.choice([1, 1, 2])):
            d = r.choice(dirs + ["/home/u/sib"])
            w["hard"].append({"path": d + "/" + (names.file() if r.random() < .7 else names.other(r.choice([".txt", ".orig"]))),
                              "of": r.choice(w["files"])["path"]})
    # siblings that no generated command line selects
    if r.random() < .5:
        w["files"].append(gen_file(r, "/home/u/sib/" + names.file(), dict(cfg, bigfile=0), ref, "good"))
    if r.random() < .2:
        mount(r, w)
    return w


def mount(r, w):
    """Some directories are file systems of their own."""
    cand = sorted({d["path"] for d in w["dirs"]} | {PROJ, "/home/u/lib", "/home/u/sib"})
    for p in r.sample(cand, min(len(cand), r.choice([1, 1, 2, 3]))):
        if not any((h["path"] + "/").startswith(p + "/") != (h["of"] + "/").startswith(p + "/") for h in w.get("hard", ())):
            w.setdefault("mounts", []).append(p)


def scale_up(r, w, ref):
    """One dimension of the world far beyond the usual."""
    fs = [f for f in w["files"] if f["path"].startswith(PROJ + "/") and "items" in f and f["path"].endswith(".py")]
    if not fs:
        return None
    f = r.choice(fs)
    at = r.randint(0, len(f["items"]))
    c = r.choice(["crowd", "huge", "wide", "many", "chain", "flat"])
    dirs = [PROJ] + [d["path"] for d in w["dirs"] if d["path"].startswith(PROJ + "/") and "mode" not in d]
    if c == "crowd":
        d = r.choice(dirs)
        for k in range(r.choice([70, 130, 260])):
            w["files"].append({"path": "%s/k%03d.py" % (d, k), "nl": "\n", "tail": True,
                               "items": ["q = '%s'\n" % r.choice(["select a from t", "SELECT a\\nfrom t", "x", "select a from",
                                                                   "SELECT a FROM t;", "select 1 limit -1"])]})
    elif c == "huge":
        f["items"].insert(at, "# " + r.choice(["x", "pad "]) * r.choice([300000, 600000]) + "\n")
    elif c == "wide":
        n = r.choice([400, 900])
        f["items"].insert(at, 'q = """select %s from t%s"""\n' % (
            ", ".join("column_%d" % k for k in range(n)), r.choice(["", " where a = 1", " limit -1"])))
    elif c == "many":
        for k in range(r.choice([70, 120])):
            f["items"].insert(r.randint(0, len(f["items"])), "q = 'select a%d from t%s'  # c\n" % (k, r.choice(["", "", " limit -1"])))
    elif c == "chain":
        d = r.choice(dirs)
        for k in range(r.choice([12, 25])):
            d += "/" + r.choice(["n", "nn"])
            w["dirs"].append({"path": d})
        w["files"].append(dict(f, path=d + "/k.py"))
    else:
        d = r.choice(dirs)
        for k in range(r.choice([30, 60])):
            w["dirs"].append({"path": "%s/k%02d" % (d, k)})
            if r.random() < .4:
                w["files"].append(dict(r.choice(fs), path="%s/k%02d/%s.py" % (d, k, r.choice(["a", "b"]))))
    return c


def rel(target, base):
    import posixpath
    return posixpath.relpath(target, base)


# ------------------------------------------------------------------ command lines
READONLY = [["--check-format"], ["--validate"], ["--verbose-validate"],
            ["--check-format", "--validate"], ["--check-format", "--verbose-validate"]]
WRITING = [["--format"], ["--format"], ["--format"], ["--format", "--validate"],
           ["--format", "--verbose-validate"]]


def gen_sources(r, world, cwd, overlap=.2, missing=.1, maxargs=4):
    """Command-line inputs: mostly the project directory, sometimes parts and overlaps."""
    c = r.random()
    srcs = []
    pdirs = [d["path"] for d in world["dirs"] if d["path"].startswith(PROJ + "/")]
    pfiles = [f["path"] for f in world["files"] if f["path"].startswith(PROJ + "/")]
    plinks = [x["path"] for x in world["links"]]
    special = [x["path"] for x in world.get("special", ())]
    if c < .45:
        srcs = [PROJ]
    elif c < .6 and pdirs:
        srcs = r.sample(pdirs, r.randint(1, min(3, len(pdirs))))
    elif pfiles:
        srcs = r.sample(pfiles, r.randint(1, min(maxargs, len(pfiles))))
    else:
        srcs = [PROJ]
    if r.random() < .3 and pfiles:
        srcs.append(r.choice(pfiles))
    if r.random() < .1 and plinks:
        srcs.append(r.choice(plinks))
    if special and r.random() < .2:
        srcs.append(r.choice(special))
    if r.random() < overlap:
        for _ in range(r.randint(1, 3)):
            srcs.append(r.choice(srcs + [PROJ] + pdirs + pfiles))
    if r.random() < missing:
        srcs.insert(r.randint(0, len(srcs)), r.choice([PROJ + "/m77.py", "/home/u/m78", PROJ + "/m79/x.py"]))
    return [spell(r, s, cwd, s == PROJ or s in pdirs) for s in srcs]


def spell(r, path, cwd, isdir=False):
    import posixpath
    c = r.randrange(11)
    rl = posixpath.relpath(path, cwd)
    if c == 8 and isdir:
        return r.choice([rl, path]) + r.choice(["/", "/", "/.", "//"])
    if c == 9:
        d, b = posixpath.split(rl)
        return posixpath.join(d, "", "", b).replace("/", "//") if d and d[0] != "/" else rl
    if c == 10 and path.startswith(PROJ + "/"):
        return posixpath.join(posixpath.dirname(path), "..", posixpath.basename(posixpath.dirname(path)),
                              posixpath.basename(path))
    if c < 3:
        return rl
    if c == 3:
        return path
    if c == 4:
        return "./" + rl if not rl.startswith("..") else rl
    if c == 5:
        return posixpath.join("..", posixpath.relpath(path, posixpath.dirname(cwd)))
    if c == 6 and not path.endswith(".py"):
        return rl if path != cwd else "./"
    if c == 7:
        d, b = posixpath.split(path)
        return posixpath.join(d, ".", b)
    return rl


def nbytes(world):
    return sum(len(file_bytes(f)) for f in world["files"])


def model_files(world):
    return [f["path"] for f in world["files"]]


