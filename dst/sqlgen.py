"""Seeded generator of SQL workload: random queries from a grammar plus a fixed corpus.

The grammar stays within what the README promises (SELECT statements) and within constructs
that round-trip through a Python literal without escapes.
"""
import json
import os
import re

COLS = ["id", "name", "amount", "created_at", "qty", "price", "user_id", "status", "kind", "x", "y"]
TABS = ["users", "orders", "t", "items", "logs", "my_table", "proj.ds.tab"]
FUNCS = ["max", "min", "sum", "coalesce", "lower", "upper", "date", "concat", "abs", "length"]
STRS = ["abc", "x y", "2020-01-01", "%a%", "select", "A,B", "é"]
# contents that would mean something outside of a string, and strings of several lines
ODD = ["(", ")", "[", "]", "case", "end", "from", "where", "as", ",", ";", "and", "order", "limit", "(a)", "a)", ".", ""]
LINES = ["x\ny", "\n", "a\n b\n", "from\n(", "  \nz"]
ALS = ["a", "b", "c1", "total", "u", "o", "res", "sub"]


def kw(r, s):
    c = r.randrange(4)
    return s.upper() if c == 0 else s.capitalize() if c == 1 else s


def ws(r):
    return r.choice([" ", " ", " ", " ", "  ", "\n", "\n  "])


class Gen:
    def __init__(self, r, multiline=True, rich=None, escapes=False, sane=True):
        self.r = r
        self.sane = sane                 # only what the formatter understands: formatting it twice changes nothing
        self.escapes = escapes           # backslashes: not for what becomes a literal of a program
        self.ml = multiline
        # how much of the rarer syntax there is
        self.rich = rich if rich is not None else r.choice([0, 0, .25, .6])

    def alias(self, optional=.3):
        """An alias, with the blank before it; quoted from time to time."""
        r = self.r
        if r.random() < optional:
            return ""
        a = r.choice(ALS)
        if r.random() < .3 * self.rich:
            a = r.choice(["`%s`", "'%s'"]) % r.choice(ALS + ["a b", "select"])
        return r.choice([" as ", " AS ", " "]) + a

    def rare(self, d):
        """An expression of the rarer kinds."""
        r = self.r
        c = r.randrange(19)
        if self.sane and (c in (8, 9, 12, 14) and d != 0 or c in (4, 7)):
            c = 17
        col = r.choice(COLS)
        if c == 0:
            return "((%s))" % self.expr(d + 1)
        if c == 1:
            return "array_agg(%s%s%s%s%s)" % (
                r.choice(["", "distinct "]), col, r.choice(["", " ignore nulls", " respect nulls", " respects nulls"]),
                r.choice(["", " order by x", " order by x desc, y"]), r.choice(["", " limit 3"]))
        if c == 2:
            return "%s over (%s%s%s)" % (
                r.choice(["row_number()", "rank()", "sum(%s)" % col, "lag(x, 1)"]),
                r.choice(["", "partition by %s " % col, "partition by %s, y " % col]),
                r.choice(["", "order by %s " % col, "order by x desc, %s " % col]),
                r.choice(["", "rows between 1 preceding and current row",
                          "range between unbounded preceding and 2 following"]))
        if c == 3:
            return "%s + %s * %s" % (
                r.choice(["1.5", "2.0", self.atom(d)]), r.choice(["1.5", "0.25", col]), self.atom(d))
        if c == 4:
            return "%s %s %s" % (self.atom(d), r.choice(["|", "&", "^", "<<", ">>", "||"]), self.atom(d))
        if c == 5:
            return "%s[%s]" % (col, r.choice(["0", "offset(1)", "ordinal(2)", col]))
        if c == 6:
            return "%s(%s) filter (where %s)" % (r.choice(FUNCS[:3]), col, self.conds(2))
        if c == 7:
            return "not %s" % self.atom(d)
        if c == 8:
            return "* %s(%s)" % (r.choice(["except", "except "]), r.choice(["a", "a, b", col]))
        if c == 9:
            return "* replace (%s%s%s)" % (self.atom(d), r.choice([" as ", " as ", " as ", " "]), r.choice(ALS))
        if c == 10:
            return "(%s)" % self.query(d + 2)
        if c == 11:
            return "%s(%s)" % (r.choice(["date_trunc", "timestamp_trunc"]), col + ", " + r.choice(["month", "day", "YEAR"]))
        if c == 12:
            return "%s'%s'" % (r.choice(["r", "r", "R"] if self.sane else ["r", "b", "R"]), r.choice(STRS[:4]))
        if c == 13:
            return "case %s when %s then %s else %s end" % (col, self.atom(d), self.atom(d), self.rare(d + 1) if d < 2 else "0")
        if c == 14:
            return r.choice(ALS) + ".*"
        if c == 15:
            return "a.b.c." + col
        if c == 16:
            if self.escapes and r.random() < .6:
                return r.choice(["'it\\'s'", "'\\''", '"a\\"b"', "'\\\\'", "'a\\nb'", "'\\"])
            return '"%s"' % r.choice(STRS[:4])
        if c == 17:
            return "long_column_name_number_%d" % r.randrange(10 ** r.randrange(1, 30))
        return "%s(%s)" % (r.choice(FUNCS), ", ".join("argument_%d" % r.randrange(10 ** 8) for _ in range(r.randrange(1, 8))))

    def rare_source(self, d):
        r = self.r
        c = r.randrange(10)
        if c == 0:
            return "[%s]%s" % (r.choice(["t", "p:d.t", "users"]), self.alias())
        if c == 1:
            return "unnest(%s)%s%s" % (r.choice(["[1, 2]", "xs", "a.b"]), self.alias(),
                                       r.choice(["", " with offset", " with offset as o", " with offset o"]))
        if c == 2:
            return "((%s))%s" % (self.query(d + 1), self.alias())
        if c in (3, 4):
            s = self.part(d)
            for _ in range(r.choice([1, 1, 2])):
                s = self.j(s, kw(r, r.choice(["union all", "union", "union distinct", "except distinct", "intersect distinct"])),
                           self.part(d))
            return s + self.alias(.6)
        if c == 5:
            return "`p`.`d`." + r.choice(TABS) + self.alias()
        if c == 6:
            return "(%s join %s on a.x = b.x)%s" % (r.choice(TABS), r.choice(TABS), self.alias(.5))
        if c == 7:
            s = r.choice(TABS) + self.alias()
            for _ in range(r.choice([1, 2])):
                t = r.choice(["(%s)", "((%s))"]) % self.query(d + 2) if r.random() < .5 else r.choice(TABS)
                s = self.j(s, kw(r, r.choice(["join", "full outer join", "left join"])), t + self.alias(),
                           r.choice(["on ((a.x = b.x))", "using (%s, y)" % r.choice(COLS), "on a.x = b.x and a.y = b.y",
                                     "on (a.x = b.x and a.y = b.y)", "on (a.x in (%s))" % self.query(d + 2), "on (not a.x)",
                                     "using (%s)" % ", ".join("column_%d" % r.randrange(10 ** 9) for _ in range(r.randrange(1, 9)))]))
            return s
        if c == 8:
            return ", ".join(r.choice([r.choice(TABS), "(%s)" % self.query(d + 2)]) + self.alias() for _ in range(r.choice([2, 3])))
        return r.choice(TABS) + self.alias(0)

    def part(self, d):
        r = self.r
        c = r.randrange(3)
        return r.choice(TABS) if c == 0 else "(%s)" % self.query(d + 1) if c == 1 else "select %s from %s" % (
            r.choice(COLS), r.choice(TABS))

    def slip(self, s):
        """A mistake in the SQL."""
        r = self.r
        c = r.randrange(10)
        if c == 0:
            k = r.randrange(1, 4)
            return " by ".join(s.split(" by ")[:k]) + " " + " by ".join(s.split(" by ")[k:])
        if c == 1:
            return s.replace("(", "", 1)
        if c == 2:
            return s.replace(")", "", 1)
        if c == 3:
            return s + r.choice(["'x", " '", " `", " (", " )", " order", " group x", " limit", " having", " where"])
        if c == 4:
            return s.replace(" as ", " as as ", 1)
        if c == 5:
            return s.replace("over (", "over ", 1).replace("except (", "except ", 1).replace("replace (", "replace ", 1)
        if c == 6:
            k = r.randrange(len(s) + 1)
            return s[:k]
        if c == 7:
            return s.replace("select", "", 1)
        if c == 8:
            return s.replace(" between ", " between 1 or ", 1).replace(" end", "", 1)
        w = s.split(" ")
        w.pop(r.randrange(len(w)))
        return " ".join(w)

    def sp(self):
        if not self.ml:
            return self.r.choice([" ", " ", " ", "  "])
        return ws(self.r)

    def j(self, *parts):
        out = []
        for p in parts:
            if p:
                out.append(p)
        res = out[0]
        for p in out[1:]:
            res += self.sp() + p
        return res

    def string(self):
        r = self.r
        c = r.random()
        return r.choice(STRS if c < .7 else ODD if c < .93 or not self.ml else LINES)

    def atom(self, d):
        r = self.r
        c = r.randrange(12)
        if c < 5:
            return r.choice(COLS)
        if c == 5:
            return str(r.randrange(0, 1000))
        if c == 6:
            return "'%s'" % self.string()
        if c == 7:
            return r.choice(ALS) + "." + r.choice(COLS)
        if c == 8:
            return r.choice(["1.5", "0.25", "10.0"])
        if c == 9:
            return r.choice(["true", "FALSE", "null", "NULL"])
        if c == 10:
            return "`%s`" % r.choice(COLS)
        return "-" + str(r.randrange(1, 50))

    def expr(self, d=0):
        r = self.r
        if d > 2:
            return self.atom(d)
        if r.random() < .5 * self.rich:
            return self.rare(d)
        c = r.randrange(16)
        if c < 6:
            return self.atom(d)
        if c == 6:
            return "%s(%s)" % (r.choice(FUNCS), ", ".join(
                self.expr(d + 1) for _ in range(r.choice([1, 1, 1, 2, 3]))))
        if c == 7:
            return "%s %s %s" % (self.atom(d), r.choice(["+", "-", "*", "/"]), self.atom(d))
        if c == 8:
            return "count(%s%s)" % (r.choice(["", "", "distinct "]), r.choice(["*"] + COLS))
        if c == 9:
            return "cast(%s as %s)" % (r.choice(COLS), r.choice(["int64", "string", "date", "float"]))
        if c == 10:
            s = "case"
            for _ in range(r.choice([1, 1, 2])):
                s += " when %s then %s" % (self.cond(d + 2), self.atom(d))
            if r.random() < .6:
                s += " else %s" % self.atom(d)
            return s + " end"
        if c == 11:
            return "(%s)" % self.expr(d + 1)
        if c == 12:
            return "[%s]" % ", ".join(self.atom(d) for _ in range(r.randrange(1, 3)))
        if c == 13:
            return "row_number() over (partition by %s order by %s%s)" % (
                r.choice(COLS), r.choice(COLS), r.choice(["", " desc"]))
        if c == 14:
            return "array_agg(%s%s)" % (r.choice(COLS), r.choice(["", " ignore nulls", " order by x", " limit 3"]))
        return "extract(%s from %s)" % (r.choice(["year", "month", "day"]), r.choice(COLS))

    def cond(self, d=0):
        r = self.r
        if r.random() < .3 * self.rich:
            c = r.randrange(6)
            if c == 0 and d < 2:
                return "((%s))" % self.conds(d + 1)
            if c == 1:
                return "not (%s)" % self.conds(2)
            if c == 2:
                return "(%s, %s) in ((1, 2))" % (r.choice(COLS), r.choice(COLS))
            if c == 3 and d < 2:
                return "exists (%s)" % self.query(d + 2)
            if c == 4 and not self.sane:
                return "%s not %s %s" % (r.choice(COLS), r.choice(["like", "between 1 and", ""]), self.atom(d))
            return "%s %s %s" % (self.rare(2), r.choice(["=", "is not", ">", "not in"]), self.rare(2))
        c = r.randrange(12)
        if c < 4:
            s = "%s %s %s" % (self.atom(d), r.choice(["=", "<", ">", "<=", ">=", "!=", "<>"]), self.atom(d))
        elif c == 4:
            s = "%s like '%s'" % (r.choice(COLS), r.choice(["%x%", "a%"]))
        elif c == 5:
            s = "%s in (%s)" % (r.choice(COLS), ", ".join(str(r.randrange(9)) for _ in range(r.randrange(1, 4))))
        elif c == 6:
            s = "%s is %snull" % (r.choice(COLS), r.choice(["", "not "]))
        elif c == 7:
            s = "%s between %d and %d" % (r.choice(COLS), r.randrange(5), r.randrange(5, 50))
        elif c == 8 and d < 2:
            s = "(%s)" % self.conds(d + 1)
        elif c == 9 and d < 1:
            s = "%s in (%s)" % (r.choice(COLS), self.query(d + 2))
        elif c == 10:
            s = "%s not in (%s)" % (r.choice(COLS), "1, 2")
        else:
            s = "%s(%s) = %s" % (r.choice(FUNCS), r.choice(COLS), self.atom(d))
        return s

    def conds(self, d=0):
        n = self.r.choice([1, 1, 2, 2, 3, 5])
        s = self.cond(d)
        for _ in range(n - 1):
            s = self.j(s, kw(self.r, self.r.choice(["and", "and", "or"])), self.cond(d))
        return s

    def item(self, d):
        r = self.r
        e = self.expr(d)
        c = r.randrange(5)
        if c == 0:
            return self.j(e, kw(r, "as"), r.choice(ALS))
        if c == 1 and not e.endswith("end"):
            return self.j(e, r.choice(ALS))
        return e

    def source(self, d):
        r = self.r
        if d < 2 and r.random() < .5 * self.rich:
            return self.rare_source(d)
        c = r.randrange(8)
        if c < 4 or d > 1:
            s = r.choice(TABS)
            if c == 0:
                s += r.choice([" as ", " "]) + r.choice(ALS)
        elif c == 4:
            s = "`%s`" % r.choice(["proj.ds.t", "users"])
        elif c in (5, 6):
            s = "(%s)" % self.query(d + 1)
            if r.random() < .6:
                s += r.choice([" as ", " "]) + r.choice(ALS)
        else:
            s = r.choice(TABS) + r.choice([" as ", " "]) + r.choice(ALS)
        for _ in range(r.choice([0, 0, 0, 1, 1, 2]) if d < 2 else 0):
            k = r.choice(["join", "left join", "inner join", "cross join", "left outer join", "right join"])
            t = r.choice(TABS) if r.random() < .7 or d > 0 else "(%s)" % self.query(d + 2)
            if k == "cross join":
                s = self.j(s, kw(r, k), t)
                break
            t += r.choice(["", " ", " as "]) and r.choice([" ", " as "]) + r.choice(ALS)
            if r.random() < .3:
                s = self.j(s, kw(r, k), t, kw(r, "using"), "(%s)" % r.choice(COLS))
            else:
                s = self.j(s, kw(r, k), t, kw(r, "on"), "%s.id = %s.id" % (r.choice(ALS), r.choice(ALS)))
        return s

    def query(self, d=0):
        r = self.r
        n = r.choice([1, 1, 2, 3, 4]) if d == 0 else r.choice([1, 1, 2])
        head = kw(r, "select")
        c = r.randrange(10)
        if c == 0:
            head += " " + kw(r, "distinct")
        elif r.random() < .2 * self.rich:
            head += " " + r.choice(["all", "ALL", "distinct on (x)", "distinct on (x, y)"])
        items = ["*"] if r.random() < .2 else [self.item(d) for _ in range(n)]
        s = head + " " + ("," + self.sp()).join(items)
        if r.random() < .93:
            s = self.j(s, kw(r, "from"), self.source(d))
            if r.random() < .5:
                s = self.j(s, kw(r, "where"), self.conds(d))
            if r.random() < .25:
                s = self.j(s, kw(r, "group by"), ", ".join(
                    r.choice(COLS + ["1", "2"]) for _ in range(r.choice([1, 1, 2]))))
                if r.random() < .2 * self.rich:
                    s = r.choice([s.replace("group by", "group each by"), s.replace("group by", "group by rollup")])
                if r.random() < .4:
                    s = self.j(s, kw(r, "having"), self.conds(d + 1))
            if r.random() < .25:
                s = self.j(s, kw(r, "order by"), ", ".join(
                    r.choice(COLS + ["1"]) + r.choice(["", " asc", " DESC"]) for _ in range(r.choice([1, 1, 2]))))
            if r.random() < .25:
                s = self.j(s, kw(r, "limit"), str(r.randrange(1, 100)) if r.random() > .3 * self.rich else r.choice(["all", "2 + 3"]))
                if r.random() < .4:
                    s = self.j(s, kw(r, "offset"), str(r.randrange(0, 50)))
        if d == 0 and r.random() < .15 * self.rich:
            s = "with %s %s" % (", ".join("%s as (%s)" % (a, self.query(1)) for a in r.sample(ALS + TABS[:6], r.choice([1, 1, 2]))), s)
        if d == 0 and r.random() < .3:
            s += ";"
        if d == 0 and not self.sane and r.random() < .12 * self.rich:
            s = self.slip(s)
        return s


_corpus = None


def corpus():
    global _corpus
    if _corpus is None:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "corpus.json")) as f:
            _corpus = json.load(f)
    return _corpus


# one step of the syntax apart: what a memo with too coarse a key takes for the same
STEPS = [(re.compile(a, re.I), b) for a, b in [
    (r"\bfrom (\w+)", r"from [\1]"), (r"\[(\w+)\]", r"\1"), (r"'([^']*)'", r'"\1"'), (r'"([^"]*)"', r"'\1'"),
    (r"`([^`]*)`", r"'\1'"), (r"\b(\w+)\b", r"`\1`"), (r" as ", " "), (r"\) (\w)", r") as \1"),
    (r"\((\w+)\)", r"(distinct \1)"), (r"distinct ", ""), (r"\bselect ", "select distinct "), (r"\bselect ", "select all "),
    (r" desc\b", ""), (r" asc\b", " desc"), (r"\border by (\w+)", r"order by \1 desc"), (r" ignore nulls", ""),
    (r"\bis not\b", "is"), (r"\bnot in\b", "in"), (r"\bnot ", ""), (r"\((\w+)\)", r"((\1))"), (r"\(\((.*?)\)\)", r"(\1)"),
    (r"\bleft join\b", "join"), (r"\bjoin\b", "left join"), (r"\bunion all\b", "union distinct"), (r" < ", " > "), (r" = ", " != "),
    (r"\band\b", "or"), (r"\bor\b", "and"), (r"\brollup ?\((.*?)\)", r"\1"), (r"\bwith offset\b( as)?( \w+)?", ""),
    (r" limit \d+", ""), (r" offset \w+", ""), (r" over \(.*?\)", ""), (r" else [^ ]+", ""), (r"\b1\b", "'1'"), (r"\b(\d+)\b", r"\1.0"),
    (r"(\d)\.0\b", r"\1"), (r"\bcase (\w+) when", "case when"), (r"\b(rows|range) between", "range between"), (r";$", ""),
    (r"\busing \((\w+)\)", r"on \1"), (r"\bexcept\b", "replace"), (r"\btrue\b", "null"), (r"\bnull\b", "false"), (r"r'", "b'"),
    (r"<=", "<>"), (r"<>", "!="), (r"!=", ">="), (r">=", "||"), (r" = ", " <= "), (r"\bgroup by\b", "group each by"),
    (r"\bgroup each by\b", "group by"), (r"\b(day|month|week|year|date)\b", "week"), (r"\b(\w+)\(", r"cast("), (r"\b(\w+)\(", r"f("),
    (r"(\w+)\.(\w+)", r"\2.\1"), (r"(\w+)\.(\w+)", r"\1"), (r"'([^'\"]*)'", r"'\"\1'"), (r"\"([^'\"]*)\"", r"\"'\1\"")]]


def step(r, q):
    for _ in range(6):
        a, b = r.choice(STEPS)
        m = list(a.finditer(q))
        if m:
            m = r.choice(m)
            return q[:m.start()] + m.expand(b) + q[m.end():]
    return q
