"""Simulated threads over the library API: every bytecode of the package is a scheduling and
abort point (sys.monitoring INSTRUCTION / LINE events); a baton lets exactly one thread run.

A case is {"kind": "api", "prop": pid, "scope": core|lines|all, "objects": [sql, ...],
"threads": [[op, ...], ...], "plan": [action, ...]}
  op     {"id": k, "op": valid|format (on shared object "o") | new|newfmt|fmt (on text "sql")}
  action {"t": thread, "op": id, "n": event number within the op, "kind": switch{to}|nomem|kbd}
         {"t", "op", "kind": "reclimit", "n": stack frames left}
"""
import _thread
import dis
import json
import operator
import random
import sys
import threading
import time

from . import effects, judge, loader, model, seam, sim, sqlgen, world as W
from .judge import V

TOOL = 2
BURST = 150000        # events after which the processor goes to another thread anyhow
OPCAP = 6000000       # events of a single call: it will not end any more


class Deadlock(BaseException):
    pass


class NoEnd(BaseException):
    pass


_allocate_lock, _rlock = _thread.allocate_lock, _thread.RLock
_racquire = _rlock.acquire
RUN = None            # the active ApiRun
_real = {}


# ------------------------------------------------------------------ primitives for the package
def _wait(lock, blocking, timeout):
    """-> False: the lock stays taken. Called when a first attempt has failed."""
    if not blocking:
        return False
    run = RUN
    if run is None:
        raise RuntimeError("deadlock on a lock outside the simulated threads")
    if not run.block(lock):
        if timeout is not None and timeout >= 0:
            return False
        run.deadlock = True
        raise Deadlock()
    return True


class SimLock:
    """A lock on which simulated threads wait; releasing it takes no Python frame, as with a real one."""

    def __init__(self):
        self.real = _allocate_lock()
        self._release, self._exit, self._locked = self.real.release, self.real.__exit__, self.real.locked

    def acquire(self, blocking=True, timeout=-1):
        while not self.real.acquire(False):
            if not _wait(self, blocking, timeout):
                return False
        return True

    __enter__ = acquire
    release = property(operator.attrgetter("_release"))
    __exit__ = property(operator.attrgetter("_exit"))
    locked = property(operator.attrgetter("_locked"))

    def free(self):
        return not self.real.locked()


class SimRLock(_rlock):
    def acquire(self, blocking=True, timeout=-1):
        while not _racquire(self, False):
            if not _wait(self, blocking, timeout):
                return False
        return True

    __enter__ = acquire

    def free(self):
        return repr(self).startswith("<unlocked")


def _sleep(secs):
    if RUN is not None and not RUN.inmain():
        RUN.switch(RUN.cur, RUN.cur + 1)
    else:
        _real["sleep"](secs)


class primitives:
    """Locks and sleeps of the package go to the simulator while this is active."""

    def __enter__(self):
        _real.update(Lock=threading.Lock, RLock=threading.RLock, alloc=threading._allocate_lock,
                     sleep=time.sleep, ident=threading.get_ident)
        threading.Lock, threading.RLock, threading._allocate_lock = SimLock, SimRLock, SimLock
        _thread.allocate_lock, _thread.RLock = SimLock, SimRLock
        time.sleep = _sleep

    def __exit__(self, *a):
        threading.Lock, threading.RLock = _real["Lock"], _real["RLock"]
        threading._allocate_lock, time.sleep = _real["alloc"], _real["sleep"]
        _thread.allocate_lock, _thread.RLock = _allocate_lock, _rlock


class Clock:
    """What a library call sees as time and as random bytes. With a seed: readings that stand still, creep,
    leap ahead or (the wall clock) jump back; without: a microsecond from one reading to the next."""

    def __init__(self, seed=None):
        self.r = random.Random(seed) if seed is not None else None
        self.mono, self.off, self.k = 1000 * 10 ** 9, 1_700_000_000 * 10 ** 9, 0
        self.read = 0

    def monotonic(self):
        self.read += 1
        d = 1000
        if self.r is not None:
            d = self.r.choice([0, 0, 1000, 10 ** 6, 10 ** 6, 7 * 10 ** 8, 5 * 10 ** 9, 3600 * 10 ** 9])
        self.mono += d
        return self.mono

    def wall(self):
        if self.r is not None and self.r.random() < .15:
            self.off += self.r.choice([-1, 1]) * self.r.choice([10 ** 9, 3600 * 10 ** 9, 400 * 86400 * 10 ** 9])
        return self.monotonic() + self.off

    def rnd(self, n):
        self.k += 1
        return self.r.randrange(n) if self.r is not None else self.k * 37 % n


class clocked:
    """The clock and the random numbers of the package are simulated while this is active."""

    def __init__(self, seed=None):
        self.clock = Clock(seed)

    def __enter__(self):
        self.saved, seam.VIRTUAL[0] = seam.VIRTUAL[0], self.clock
        self.rand = random.getstate()
        random.seed(self.clock.rnd(1 << 30))
        return self.clock

    def __exit__(self, *a):
        seam.VIRTUAL[0] = self.saved
        random.setstate(self.rand)


# ------------------------------------------------------------------ monitoring
_codes = {}
_mon_on = [False, None]


def _scope_of(code):
    f = code.co_filename
    if "/grammar/" in f:
        return "grammar"
    if f.endswith("file_handler.py") or f.endswith("main.py"):
        return "cli"
    return "core"


def monitor(scope):
    mon = sys.monitoring
    if not _mon_on[0]:
        mon.use_tool_id(TOOL, "dst-api")
        mon.register_callback(TOOL, mon.events.INSTRUCTION, _hit)
        mon.register_callback(TOOL, mon.events.LINE, _hit)
        _mon_on[0] = True
    if _mon_on[1] == scope:
        return
    ins, line = mon.events.INSTRUCTION, mon.events.LINE
    for c in loader.all_code_objects():
        s = _scope_of(c)
        ev = 0
        if scope is not None and s == "core":
            ev = ins
        elif s == "grammar":
            ev = {"all": ins, "lines": line}.get(scope, 0)
        mon.set_local_events(TOOL, c, ev)
    _mon_on[1] = scope


_exits = {}


def no_abort(code):
    """Whether the frame of this code is where no interrupt and no failing allocation can strike: at an
    instruction that does nothing, or about to call the __exit__ of a `with` (outside of the range the
    compiler protects: aborted there, every lock would stay locked for good)."""
    at = _exits.get(code)
    if at is None:
        at = _exits[code] = unreal(code)
    if not at:
        return False
    f = sys._getframe(1)
    while f is not None and f.f_code is not code:
        f = f.f_back
    return f is not None and f.f_lasti in at


def unreal(code):
    ins = list(dis.get_instructions(code))
    out = set()
    for i, x in enumerate(ins):
        if x.opname == "NOP":
            out.add(x.offset)
        elif x.opname == "CALL" and x.arg == 2 and i >= 3 and all(
                y.opname == "LOAD_CONST" and y.argval is None for y in ins[i - 3:i]):
            out.update(y.offset for y in ins[i - 3:i + 1])
            k = i - 4
            while k >= 0 and ins[k].opname == "SWAP":
                out.add(ins[k].offset)
                k -= 1
        elif x.opname == "WITH_EXCEPT_START":
            out.update(y.offset for y in ins[i - 1:i + 1])
    return out


def _hit(code, off):
    run = RUN
    if run is not None:
        run.event(code, off)


class ApiRun:
    def __init__(self, case, mods, trace=False):
        self.case, self.mods = case, mods
        self.nt = len(case["threads"])
        self.plan, self.rec = {}, {}
        for a in case["plan"]:
            if a["kind"] == "reclimit":
                self.rec[(a["t"], a["op"])] = a
            else:
                self.plan.setdefault((a["t"], a["op"]), {}).setdefault(a["n"], a)
        self.now = [None] * self.nt          # plan of the op each thread is in
        self.n = [0] * self.nt
        self.trace = {} if trace else None
        self.tr = [None] * self.nt
        self.burst = 0
        self.total = 0
        self.cur = None
        self.baton = [_allocate_lock() for _ in range(self.nt)]
        for b in self.baton:
            b.acquire()
        self.done = [False] * self.nt
        self.blocked = [None] * self.nt
        self.main = _allocate_lock()
        self.main.acquire()
        self.results = [[] for _ in range(self.nt)]
        self.deadlock = False
        self.switches = 0
        self.effects = []
        self.fired = {}
        self.sched = []
        self.bug = None

    def inmain(self):
        return self.cur is None

    def fire(self, k):
        self.fired[k] = self.fired.get(k, 0) + 1

    # ---- called in the running thread at every event of the package
    def event(self, code, off):
        t = self.cur
        if t is None or self.now[t] is None:
            return
        n = self.n[t] = self.n[t] + 1
        if self.tr[t] is not None:
            self.tr[t].append((code, off))
        a = self.now[t].get(n)
        if a is not None:
            if a["kind"] == "switch":
                self.switch(t, a["to"])
            elif no_abort(code):
                self.now[t].setdefault(n + 1, a)
            else:
                self.fire(a["kind"])
                raise (MemoryError if a["kind"] == "nomem" else KeyboardInterrupt)()
        self.burst += 1
        if self.burst > BURST:
            if n > OPCAP:
                raise NoEnd()
            self.switch(t, t + 1)
            self.burst = 0

    def runnable(self, t):
        b = self.blocked[t]
        return not self.done[t] and (b is None or b.free())

    def pick(self, me, to):
        for k in range(self.nt):
            c = (to + k) % self.nt
            if c != me and self.runnable(c):
                return c
        return None

    def switch(self, me, to):
        c = self.pick(me, to % self.nt)
        if c is None:
            return False
        self.switches += 1
        self.fire("switch")
        self.sched.append((me, self.n[me], c))
        self._go(me, c)
        return True

    def _go(self, me, c):
        self.burst = 0
        self.cur = c
        self.baton[c].release()
        self.baton[me].acquire()
        self.burst = 0

    def block(self, lock):
        me = self.cur
        self.blocked[me] = lock
        c = self.pick(me, me + 1)
        if c is None:
            self.blocked[me] = None
            return False
        self.fire("lock-wait")
        self._go(me, c)
        self.blocked[me] = None
        return True

    # ---- threads
    def body(self, t):
        self.baton[t].acquire()
        try:
            for op in self.case["threads"][t]:
                key = (t, op["id"])
                self.n[t] = 0
                if self.trace is not None:
                    self.tr[t] = self.trace[key] = []
                rec = self.rec.get(key)
                watch = self.case.get("effects")
                if watch:
                    effects.take()
                    before = effects.settings()
                self.now[t] = self.plan.get(key, {})
                if rec is not None:
                    self.fire("reclimit")
                    monitor(None)         # the simulator's own frames must not be what exceeds the limit
                    r = limited(rec["n"], perform, self.mods, self.objs, op)
                    monitor(self.case["scope"])
                else:
                    r = perform(self.mods, self.objs, op)
                self.now[t] = None
                if watch:
                    seen = effects.take()
                    after = effects.settings()
                    diff = effects.changed(before, after)
                    if seen or diff:
                        self.effects.append((t, op, seen[:3], ["%s: %s -> %s" % (
                            k, str(before[k])[:80], str(after[k])[:80]) for k in diff[:3]]))
                        sys.setrecursionlimit(before["recursion limit"])
                self.results[t].append((op, r))
        except BaseException as e:          # a fault of the harness itself
            self.bug = e
        self.now[t] = None
        self.done[t] = True
        c = self.pick(t, t + 1)
        if c is None:
            self.cur = None
            self.main.release()
        else:
            self.burst = 0
            self.cur = c
            self.baton[c].release()

    def run(self):
        global RUN
        monitor(self.case["scope"])
        loader.activate(self.mods)
        sl = sys.getrecursionlimit()
        try:
            with primitives(), clocked(self.case.get("clock")):
                self.objs = [self.mods["sqlvalidator"].parse(s) for s in self.case["objects"]]
                for i in range(len(self.objs)):
                    for k in self.case.get("warm", ()):
                        perform(self.mods, self.objs, {"op": k, "o": i})
                RUN = self
                if self.nt == 1 and self.case.get("main"):
                    self.cur = 0
                    self.baton[0].release()
                    self.body(0)
                else:
                    for t in range(self.nt):
                        _thread.start_new_thread(self.body, (t,))
                    self.cur = 0
                    self.baton[0].release()
                if not self.main.acquire(timeout=300):
                    raise RuntimeError("simulated threads did not finish within 300 s")
                RUN = None
                self.final = [[perform(self.mods, self.objs, {"op": k, "o": i}) for k in ("valid", "format", "valid")]
                              for i in range(len(self.objs))] if not self.bug else []
        finally:
            RUN = None
            sys.setrecursionlimit(sl)
            loader.drop()
        if self.bug is not None:
            raise self.bug
        return self


def depth():
    f, n = sys._getframe(), 0
    while f is not None:
        n += 1
        f = f.f_back
    return n


def limited(left, f, *a):
    """Calls f with only `left` more stack frames: a real RecursionError when it needs more."""
    old = sys.getrecursionlimit()
    try:
        sys.setrecursionlimit(depth() + 4 + left)
    except RecursionError:
        return f(*a)
    try:
        return f(*a)
    except RecursionError:
        return ("err", "RecursionError")
    finally:
        sys.setrecursionlimit(old)


def perform(mods, objs, op):
    with effects.guard():
        return _perform(mods, objs, op)


def _perform(mods, objs, op):
    k = op["op"]
    api = mods["sqlvalidator"]
    try:
        if k == "valid":
            o = objs[op["o"]]
            v = o.is_valid()
            return ("ok", v, tuple(o.errors))
        if k == "format":
            return ("ok", objs[op["o"]].format())
        if k == "fmt":
            return ("ok", api.format_sql(op["sql"]))
        if k == "new":
            o = api.parse(op["sql"])
            v = o.is_valid()
            return ("ok", v, tuple(o.errors))
        if k == "newfmt":
            return ("ok", api.parse(op["sql"]).format())
    except (Deadlock, NoEnd) as e:
        return ("stuck", type(e).__name__)
    except BaseException as e:
        n = type(e).__name__
        return ("err", n, str(e)) if n == "ParsingError" else ("err", n)
    raise KeyError(k)


# ------------------------------------------------------------------ reference
class FreshRef:
    """Each answer comes from a brand-new copy of the package, and is remembered."""

    def __init__(self):
        self.memo = {}

    def get(self, op, objects):
        k = op["op"]
        sql = objects[op["o"]] if "o" in op else op["sql"]
        kind = {"format": "newfmt", "valid": "new"}.get(k, k)
        key = (kind, sql)
        if key not in self.memo:
            if len(self.memo) > 20000:
                self.memo.clear()
            with clocked():
                mods = loader.fresh(("sqlvalidator",))
            loader.activate(mods)
            try:
                with clocked():
                    self.memo[key] = perform(mods, [], {"op": kind, "sql": sql})
            finally:
                loader.drop()
        return self.memo[key]


def fref(ctx):
    if not hasattr(ctx, "fref"):
        ctx.fref = FreshRef()
    return ctx.fref


ABORT = {"nomem": "MemoryError", "kbd": "KeyboardInterrupt", "reclimit": "RecursionError"}


class Outcome:
    """What evaluate() returns next to the violations (shape shared with sim.Result)."""


def evaluate(case, ctx):
    ref = fref(ctx)
    want, wfin = {}, []
    if case.get("effects"):
        effects.restore()
    else:
        for t in case["threads"]:
            for op in t:
                want[op["id"]] = ref.get(op, case["objects"])
        wfin = [[ref.get({"op": k, "o": i}, case["objects"]) for k in ("valid", "format", "valid")]
                for i in range(len(case["objects"]))]
    with primitives(), clocked(case.get("clock")):
        mods = loader.fresh(("sqlvalidator",))
    run = ApiRun(case, mods).run()
    st = ctx.stats
    st.runs += 1
    st.procs += run.nt
    st.events += sum(run.n)
    st.switches += run.switches
    for k, n in run.fired.items():
        st.fired[k] = st.fired.get(k, 0) + n
    out = []
    pid = case["prop"]
    aborted = {(a["t"], a["op"]) for a in case["plan"] if a["kind"] in ABORT}
    mt = run.nt > 1

    def bad(cls, msg):
        out.append(V({pid}, cls, msg))
    for t, res in enumerate(run.results):
        for op, got in res:
            w = want.get(op["id"])
            what = "%s(%r) in thread %d" % (op["op"], (case["objects"][op["o"]] if "o" in op else op["sql"])[:200], t)
            if got[0] == "stuck":
                bad(got[1], "%s never returns" % what)
            elif got != w:
                if (t, op["id"]) in aborted and got[0] == "err":
                    continue
                bad("wrong-" + ("answer" if got[0] == "ok" else "exception"),
                    "%s returned %s, alone it returns %s" % (what, short(got), short(w)))
    if case.get("effects"):
        st.probe("calls whose settings and audit events were compared", sum(map(len, run.results)))
        del out[:]
        for t, op, seen, diff in run.effects:
            bad("effect-" + ("outside" if seen else "settings"), "%s(%r): %s" % (
                op["op"], (case["objects"][op["o"]] if "o" in op else op["sql"])[:200], "; ".join(seen + diff)))
    for i, fin in enumerate(run.final if not case.get("effects") else ()):
        for j, (g, w) in enumerate(zip(fin, wfin[i])):
            if g != w:
                bad("wrong-later", "a later call on %r returned %s, on a fresh object %s" % (
                    case["objects"][i][:200], short(g), short(w)))
                break
    h = json.dumps([run.sched, [[list(map(str, g)) for _o, g in r] for r in run.results]])
    st.digests.add(hash_of(h))
    _ = mt
    res = Outcome()
    res.run = run
    return out, res


def hash_of(s):
    import hashlib
    return hashlib.sha256(s.encode("utf-8", "surrogateescape")).hexdigest()[:24]


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


# ------------------------------------------------------------------ generation
MULTI = [
    "SELECT a, b, c FROM (SELECT d FROM t) WHERE e AND f",
    "SELECT a, b FROM (SELECT c FROM t) LIMIT -1",
    "SELECT x.a, y.b FROM (SELECT d FROM t) x, (SELECT e FROM t) y",
    "select a from (select b from t) where 'x' order by 4",
    "SELECT a FROM (SELECT b FROM t) UNION SELECT c FROM (SELECT d FROM u)",
]


# every construct of the grammar, alone and in combination (the sweeps below stop at each line)
FEATURES = [
    "SELECT a, b FROM t GROUP BY (a), ((b)), 3, c",
    "SELECT a FROM t GROUP BY ROLLUP(a, b) HAVING a ORDER BY (1), ((9)), b DESC, c ASC LIMIT (3) OFFSET ((x))",
    "SELECT a FROM (SELECT b AS a, 1 c FROM t) GROUP BY a, d, c ORDER BY a, 5 LIMIT -2 OFFSET -1",
    "SELECT DISTINCT ON (a, b) a, b FROM t WHERE (a = 1 AND (b = 2 OR c IS NOT NULL)) AND d BETWEEN 1 AND 3",
    "SELECT x.a, y.b, * FROM (SELECT a FROM t) x JOIN (SELECT b FROM u) AS y ON x.a = y.b AND x.q = 1",
    "SELECT a FROM (SELECT a, 's' b FROM t) x LEFT JOIN (SELECT a FROM u) y USING (a) WHERE a AND b",
    "SELECT a FROM ((SELECT b FROM t)) INNER JOIN u USING (b) CROSS JOIN v",
    "SELECT CASE WHEN a = 1 THEN 2 WHEN (b AND c) THEN 'x' ELSE NULL END, CASE d WHEN 1 THEN 2 END e FROM t",
    "SELECT COUNT(DISTINCT a), SUM(b) FILTER (WHERE c > 1), CAST(d AS int64), EXTRACT(year FROM e) FROM t",
    "SELECT row_number() OVER (PARTITION BY a, b ORDER BY c, d DESC ROWS BETWEEN 1 PRECEDING AND CURRENT ROW) FROM t",
    "SELECT ARRAY_AGG(DISTINCT a IGNORE NULLS ORDER BY b, c LIMIT 3), [1, 2, 3], d[0], e[OFFSET(1)] FROM t",
    "SELECT * EXCEPT (a, b), * REPLACE (c AS d) FROM t",
    "SELECT * REPLACE (b AS a, c AS x) FROM (SELECT a FROM t) WHERE 'x'",
    "SELECT a | b, c << 2, d || 'x', -3, -1.5, NOT e, NOT (f) FROM t HAVING 3",
    "SELECT a FROM UNNEST([1, 2]) AS a WITH OFFSET AS o JOIN t ON a = b",
    "SELECT a FROM t UNION ALL SELECT b FROM (SELECT c FROM u) EXCEPT SELECT d FROM v",
    "WITH x AS (SELECT a FROM t), y AS (SELECT b FROM x) SELECT a, b FROM x, y WHERE a = b",
    "SELECT a AS b, c d, 'it', `q`, r'raw', 1.5, true FROM [p:d.t] WHERE a NOT IN (SELECT b FROM u WHERE c LIKE '%x')",
    "SELECT date_trunc(a, month), timestamp_trunc(b, day), f(g(h(1), 2), 'x') FROM `p`.`d`.t AS z",
    "SELECT aaaaaaaaaaaaaaaaaaaaaaaaa, bbbbbbbbbbbbbbbb FROM t WHERE aaaaaaaaaaaaaaaaaaaaaaaaa = 1 AND"
    " bbbbbbbbbbbbbbbbbbbbbbbb = 2 AND (cccccccccccccccccc = 3 OR ddddddddddddddddddd = 4 OR"
    " eeeeeeeeeeeeeeeeeeeeeeeeeeeee = 5 OR ffffffffffffffffffffffff IN (1, 2, 3))",
    "SELECT coalesce(aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa, bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb, cccccccccccccccc,"
    " max((SELECT d FROM e))) AS f FROM t",
    "SELECT a FROM (SELECT b FROM (SELECT c, 1 d FROM (SELECT e FROM t) x) y) z WHERE a OR 1 LIMIT y OFFSET 'k'",
    "SELECT a.b.c, x.* FROM (SELECT d, d FROM t) x, (SELECT d FROM u) y ORDER BY d, x.d, q.r",
    "SELECT a, FROM t GROUP EACH BY a HAVING (a) AND 'x' ORDER BY (a) LIMIT 1;",
    "SELECT a FROM t JOIN ((SELECT b FROM u)) USING (x) LEFT JOIN (((SELECT c FROM v))) AS w ON ((w.a = t.b))",
    "SELECT ALL a FROM ((SELECT b FROM t)) AS `x` JOIN ((u)) ON (t.a = u.b AND t.c IN (SELECT d FROM v))",
    "SELECT a FROM ((t JOIN u USING (a, b))) WHERE ((a = 1)) AND ((b IN ((1, 2)))) GROUP BY ((a)), (b) HAVING ((c))",
    "SELECT ARRAY_AGG(a), ARRAY_AGG(DISTINCT a LIMIT 2), COUNT(a), COUNT(*), SUM(a) OVER (), RANK() OVER (ORDER BY a)"
    " FROM [t], UNNEST(xs) x WITH OFFSET o, UNNEST([1, 2]) WITH OFFSET, `p.d.t` AS 'q'",
    "SELECT CASE WHEN a THEN CASE b WHEN 1 THEN 2 ELSE 3 END ELSE CASE WHEN c THEN (SELECT 1 FROM t) END END FROM t",
    "WITH t AS (SELECT a FROM u), u AS (SELECT b FROM t x) SELECT a, b FROM t x JOIN u AS y ON x.a = y.b",
    "SELECT f((SELECT a FROM t LIMIT -1), g((SELECT b FROM u WHERE 'x'))), h((SELECT c FROM v)) FROM t",
    "SELECT 1 + a * 2 - b / c, (d), ((e + 1)), f(DISTINCT g) FROM t WHERE (1) AND NOT x = 'y' OR z IS NULL;",
]


def _ruler(lo, hi, deep=True):
    """Function calls and conditions around the line length: any other length changes the answer."""
    calls = ", ".join("f(%s, b)" % ("a" * (n - 3)) for n in range(lo, hi))
    conds = ", ".join("case when %s = 1 and b = 2 then 3 end" % ("c" * (n - 14)) for n in range(lo, hi))
    src = "(SELECT %s FROM (SELECT %s FROM t))" % (calls, conds) if deep else "t"
    return "SELECT %s, %s FROM %s WHERE %s = 1 AND (b = 2 OR c IN (SELECT %s FROM u))" % (
        calls, conds, src, "d" * (hi - 25), calls)


RULER = _ruler(84, 93)
FEATURES += [_ruler(87, 90), _ruler(88, 90, False)]


# places from which the errors of a sub-query (and of a bad clause) reach the verdict, and some from which not
NESTS = ["SELECT f(({q})) FROM t", "SELECT f(({q}), g(({p}))) FROM t", "SELECT a FROM t WHERE b IN ({q})",
         "SELECT a FROM t WHERE b = 1 AND c IN ({q}) OR d NOT IN ({p})", "SELECT a FROM ({q}) x", "SELECT ({q}) AS b, ({p}) c FROM t",
         "SELECT a FROM t ORDER BY ({q}), ({p})", "SELECT sum(({q})) OVER (PARTITION BY ({p})) FROM t", "SELECT a FROM unnest(({q}))",
         "SELECT CASE WHEN a THEN ({q}) END FROM t", "SELECT a FROM t UNION ALL SELECT b FROM ({q})", "SELECT a FROM t JOIN ({q}) USING (a)",
         "WITH t AS ({q}), u AS ({p}) SELECT a FROM t x JOIN u AS y ON x.a = y.b", "SELECT [({q})], NOT ({p}) FROM t"]
INNER = ["SELECT a FROM t LIMIT -1", "SELECT a, b FROM (SELECT c FROM t)", "select a from t where 'x'", "select a from t x",
         "SELECT a FROM t GROUP BY 9", "SELECT a FROM u AS y LIMIT 'k'"]


def nest(r, q=None):
    for _ in range(r.choice([1, 1, 2])):
        q = r.choice(NESTS).format(q=q or r.choice(INNER), p=r.choice(INNER))
    return q


# one word in every place where the grammar may look at it: what a call remembers of a word
# (a type, a function, a table, an alias) shows where another call uses it as something else
WORDS = ["a", "b", "t", "x", "week", "day", "month", "monday", "timestamp", "date", "int64", "numeric", "bool", "string", "nfc",
         "_partitiondate", "true", "yes", "null", "count", "cast", "array_agg", "unnest", "timestamp_trunc", "extract", "f", "sum",
         "offset", "rows", "each", "all", "rollup", "left", "full", "by", "first", "end", "filter", "over", "r", "value", "key", "1"]
ROLES = ["select {w} from t", "select cast(a as {w}) from t", "select max(timestamp_trunc(a, {w})) from t", "select extract({w} from a) from t",
         "select {w}(a) from t", "select {w}(b, c), {w}() from t", "select a {w} from t", "select a as {w}, b from t", "select a from {w}",
         "select a from {w} x", "select a from t as {w}", "select {w}.a from t {w}", "select a.{w} from (select b from t) a",
         "select '{w}' from t", "select `{w}` from t", 'select "{w}" from t', "select a from `{w}`", "select a from [{w}]",
         "with {w} as (select a from t) select b from {w}", "with {w} as (select a from t) select b from {w} y join {w} z on y.a = z.a",
         "select a from (select b as {w} from t) group by {w}", "select {w} from (select b {w} from t) order by {w}",
         "select a from (select 1 as {w} from t) where {w}", "select a from (select 's' as {w} from t) having {w}",
         "select a from t {w} join u on {w}.a = u.b", "select a from t join {w} using ({w})", "select a from t limit {w}",
         "select a from t offset {w}", "select a from unnest(x) as {w}", "select a from unnest({w}) with offset {w}",
         "select a from t where {w} is null and not {w}", "select array_agg({w} order by {w}) from t", "select count(distinct {w}) from t",
         "select f(a) over (partition by {w} order by {w}) from t", "select distinct on ({w}) a from t", "select a from t group each by {w}",
         "select a from t group by {w}", "select a from t group by rollup({w})", "select a from (select b from t) {w} where {w}.b",
         "select f({w}), g(a, {w}, {w}(b)) from t", "select date_trunc(a, {w}) from t", "select case {w} when {w} then {w} else a end from t",
         "select {w}[0], [{w}, 1] from t", "select a from t where b in (select {w} from u)", "select * except ({w}) from t",
         "select * replace (a as {w}) from t", "select {w} + {w} * -{w} from t", "select a from t where {w} between {w} and b",
         "select sum(a) filter (where {w}) from t", "select all {w} from t", "select a from t cross join {w}", "select {w} {w} from {w} {w}"]


def theme(r):
    ws = r.sample(WORDS, r.choice([1, 1, 1, 2, 3]))
    out = []
    for q in r.sample(ROLES, r.randint(6, 20)) + (r.sample(ROLES[:5], 3) if r.random() < .5 else []):
        w = r.choice(ws)
        q = q.format(w=r.choice([w, w, w, w.upper(), w.capitalize()]))
        out.append(r.choice([q, q, q, q.upper()]))
    r.shuffle(out)
    return out


# short, so that a call can be stopped at every line it executes
MICRO = ["select a from t where b <= c", "select a<>b, c!=d from t", "select a>=b,c||d,e<<f from t", "select \"it's\", a from t", "select 'say \"x\"' from t where b", "select a from `it's`",
         "select 'a', \"b\" from t", "select a.b, 1.5, c . d from t", "select f(a, (b)) from t;",
         "select a from t group each by b", "select a from t group by b", "select a from t group by rollup(b)", "select -1, - 2, -a, 3 - 4 from t",
         "select [a], b[0], c from [t]", "select 'it\\'s', r'x' from t", "select case when a then b else c end from t",
         "select cast(a as day) from t", "select timestamp_trunc(a, day) from t", "select extract(day from a) from t", "select true, null, not a from t",
         "select count(distinct a), count(b) from t", "select array_agg(a ignore nulls limit 2) from t", "select f(a) over (partition by b order by c) from t",
         "select a from (select b from t) x", "select a from (select b from t) limit -1", "with x as (select a from t) select b from x",
         "select a from t join u using (b)", "select a from t left join u on b = c", "select a from t union all select b from u",
         "select a as b, c d from t as u", "select * except (a) from t", "select * replace (a as b) from t", "select a from unnest(b) c with offset d",
         "select distinct on (a) b from t", "select all a from t offset 3", "select a from t order by 1 desc, b asc", "select a from t where 'x' having 3",
         "select a, 'b\nc' from t where (d and (e or f))", "select a from (select b, b from t) x, (select b from u) y where b group by b",
         "select a from t where b between 1 and 2", "select a from t limit all", "select a from", "select ((a from t", "select 'a from t"]
SWAP = str.maketrans("'\"<>tu", "\"'><ut")


def micro(r):
    c = r.random()
    if c < .7:
        q = r.choice(MICRO)
    elif c < .85:
        q = r.choice(ROLES).format(w=r.choice(WORDS))
    else:
        q = W.simple_body(r)
    return q


def micro13(k, r, ctx, deep):
    """A short call stopped at every distinct place it executes, while another one runs."""
    q = MICRO[k % len(MICRO)] if r.random() < .8 else micro(r)
    c = r.random()
    o = q.translate(SWAP) if c < .25 else sqlgen.step(r, q) if c < .5 else r.choice(MICRO) if c < .9 else q
    kinds = ["fmt", "fmt", "new", "newfmt"]
    case = {"kind": "api", "prop": "C13", "scope": "lines", "objects": [], "plan": [], "threads": [
        [{"id": 0, "op": r.choice(kinds), "sql": q}], [{"id": 1, "op": r.choice(kinds), "sql": o}]]}
    tr = traces(case, ctx)
    n0, n1 = len(tr[(0, 0)]), len(tr.get((1, 1), ()))
    at = set(range(1, n0 + 1))
    if not deep and n0 > 260:
        at = set(stops(r, tr[(0, 0)], 300)) | set(r.sample(sorted(at), 40))
    for n in sorted(at):
        sw = {"t": 0, "op": 0, "n": n, "kind": "switch", "to": 1}
        yield dict(case, plan=[sw] if n1 == 0 or r.random() < .6 else
                   [sw, {"t": 1, "op": 1, "n": r.randint(1, n1), "kind": "switch", "to": 0}]), None


def query(r, smallish=True):
    if r.random() < .12:
        return nest(r)
    c = r.random()
    k = sqlgen.corpus()
    if c < .12:
        return r.choice(FEATURES)
    if c < .25:
        return W.simple_body(r)
    if c < .4:
        return r.choice(MULTI)
    if c < .6:
        q = r.choice(k["invalid"])
    elif c < .7:
        q = r.choice(k["valid"])
    elif c < .76:
        q = r.choice(k["parse"])
    elif c < .82:
        q = r.choice(k["internal"] + k["valerr"])
    else:
        q = sqlgen.Gen(r, rich=r.choice([0, .3, .6]), escapes=True, sane=False).query()
    if smallish and len(q) > 400:
        return W.simple_body(r)
    return q


# nested too deeply, by far, for the usual recursion limit
DEEP = "select " + "(" * 600 + "a" + ")" * 600 + " from t"
DEEPER = "select a from (" * 450 + "select a from t" + ")" * 450


def wide(r):
    n = r.choice([150, 300, 700])
    return "select %s from %s" % (", ".join("%s%d" % (r.choice(sqlgen.COLS), j) for j in range(n)), r.choice(sqlgen.TABS))


def variants(r, q):
    out = [q]
    for _ in range(r.randint(1, 4)):
        b = r.choice(out)
        c = r.randrange(16)
        if c >= 10:
            out.append(sqlgen.step(r, b))
            continue
        if c == 0:
            v = b.upper()
        elif c == 1:
            v = b.lower()
        elif c == 2:
            v = " ".join(b.split())
        elif c == 3:
            v = b + r.choice([" ", "\n", ";", " limit -1", " limit 3", " where 'x'"])
        elif c == 4:
            v = b[:r.randint(0, len(b))]
        elif c == 5:
            v = b.replace(r.choice(sqlgen.COLS), r.choice(sqlgen.COLS))
        elif c == 6:
            v = b.replace("t", "u", 1)
        elif c == 7:
            i = r.randrange(len(b) + 1)
            v = b[:i] + r.choice(["x", "'", "(", " ", "1"]) + b[i:]
        elif c == 8:
            v = b.swapcase()
        else:
            v = b.replace(" ", "  ")
        out.append(v)
    return out


def core_index(trace):
    """Event numbers of the core code of one op, and one number per distinct location."""
    core = [i + 1 for i, (c, _o) in enumerate(trace) if _scope_of(c) == "core"]
    first, last = {}, {}
    for i, (c, o) in enumerate(trace):
        first.setdefault((c, o), i + 1)
        last[(c, o)] = i + 1
    return core, list(first.values()), list(last.values())


def traces(case, ctx):
    c = dict(case, plan=[])
    with primitives(), clocked():
        mods = loader.fresh(("sqlvalidator",))
    return ApiRun(c, mods, trace=True).run().trace


class Points:
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.tr = traces(case, ctx)
        self.idx = {}
        self.ops = {(t, op["id"]): op for t, ops in enumerate(case["threads"]) for op in ops}

    def alone(self, op):
        """The trace of a call on an object of its own: what it does when no other call has done it before."""
        k = (op["op"], op["o"])
        if k not in self.tr:
            self.tr[k] = traces(dict(self.case, threads=[[op]]), self.ctx).get((0, op["id"]))
        return k

    def pick(self, r, t, op):
        k, o = (t, op), self.ops.get((t, op))
        if o and "o" in o and r.random() < .6:
            k = self.alone(o)
        tr = self.tr.get(k)
        if not tr:
            return 1
        ix = self.idx.get(k)
        if ix is None:
            ix = self.idx[k] = core_index(tr)
        core, first, last = ix
        c = r.random()
        if c < .5 and core:
            return r.choice(core)
        if c < .65:
            return r.choice(first)
        if c < .8:
            return r.choice(last)
        return r.randint(1, len(tr))


def switch_plan(r, case, pts, k=None):
    out = []
    nt = len(case["threads"])
    for _ in range(k or r.choice([1, 2, 2, 3, 4, 6, 10])):
        t = r.randrange(nt)
        if not case["threads"][t]:
            continue
        op = r.choice(case["threads"][t])["id"]
        out.append({"t": t, "op": op, "n": pts.pick(r, t, op), "kind": "switch", "to": r.randrange(nt)})
    return out


def scope(r, core=.45, lines=.4):
    c = r.random()
    return "core" if c < core else "lines" if c < core + lines else "all"


def shared_case(r, pid, nt=None):
    nobj = 1 if r.random() < .75 else 2
    objs = [query(r) for _ in range(nobj)]
    nt = nt or r.choice([2, 2, 2, 3, 4])
    k = 0
    threads = []
    for _ in range(nt):
        ops = []
        for _ in range(r.choice([1, 1, 2, 3])):
            ops.append({"id": k, "op": r.choice(["valid", "valid", "valid", "format"]), "o": r.randrange(nobj)})
            k += 1
        threads.append(ops)
    return {"kind": "api", "prop": pid, "scope": scope(r), "objects": objs, "threads": threads, "plan": []}


def c11(i, r, ctx, deep):
    if i % 4 == 0:
        # every single preemption point of the core code, for one pair of calls
        q = r.choice([r.choice(MULTI), query(r), W.simple_body(r)])
        a, b = r.choice([("valid", "valid"), ("valid", "valid"), ("valid", "format"), ("format", "valid")])
        case = {"kind": "api", "prop": "C11", "scope": "core", "objects": [q],
                "threads": [[{"id": 0, "op": a, "o": 0}], [{"id": 1, "op": b, "o": 0}]], "plan": []}
        n0, n1 = (len(x) for x in (lambda tr: (tr[(0, 0)], tr[(1, 1)]))(traces(case, ctx)))
        n1 = max(n1, n0)
        for n in range(1, n0 + 1):
            sw = {"t": 0, "op": 0, "n": n, "kind": "switch", "to": 1}
            yield dict(case, plan=[sw]), None
            for m in sorted(r.sample(range(1, n1 + 1), min(3, n1))):
                yield dict(case, plan=[sw, {"t": 1, "op": 1, "n": m, "kind": "switch", "to": 0}]), None
        return
    if i % 4 == 2:
        yield from sweep11(i, r, ctx, deep)
        return
    case = shared_case(r, "C11")
    pts = Points(case, ctx)
    for _ in range(30 if case["scope"] == "core" else 10):
        plan = switch_plan(r, case, pts)
        if r.random() < .1:
            t = r.randrange(len(case["threads"]))
            op = r.choice(case["threads"][t])["id"]
            plan.append({"t": t, "op": op, "n": pts.pick(r, t, op), "kind": "nomem"})
        yield dict(case, plan=plan), None


def sweep11(i, r, ctx, deep):
    """Stop one call at each line of the grammar it executes while another call runs in full (or
    up to a line of its own)."""
    q = FEATURES[i // 4 % len(FEATURES)] if r.random() < .75 else query(r)
    a, b = r.choice([("valid", "valid"), ("valid", "format"), ("format", "valid"), ("format", "format")])
    case = {"kind": "api", "prop": "C11", "scope": "lines", "objects": [q], "warm": r.choice([[], ["format"], ["format"]]),
            "threads": [[{"id": 0, "op": a, "o": 0}], [{"id": 1, "op": b, "o": 0}, {"id": 2, "op": a, "o": 0}]],
            "plan": []}
    tr = traces(case, ctx)
    pa = stops(r, tr[(0, 0)], 90 if not deep else 400)
    alone = traces(dict(case, threads=[case["threads"][1][:1]]), ctx).get((0, 1), [])
    pb = stops(r, alone, 1000)
    parsed = max([k + 1 for k, e in enumerate(tr[(0, 0)]) if e[0].co_filename.endswith(("lexer.py", "tokeniser.py"))] or [0])
    for n in pa:
        sw = {"t": 0, "op": 0, "n": n, "kind": "switch", "to": 1}
        yield dict(case, plan=[sw]), None
        if pb and r.random() < .7:
            if r.random() < .4:
                m = r.choice(pb)
            else:                               # about where the first one is: the same work, side by side
                m = max(1, (n if n <= parsed else n - parsed) + r.randint(-45, 8))
            yield dict(case, plan=[sw, {"t": 1, "op": 1, "n": m, "kind": "switch", "to": 0}]), None


def stops(r, trace, cap):
    """Event numbers: the first, the last and one more visit of every distinct location."""
    at = {}
    for i, (c, o) in enumerate(trace):
        at.setdefault((c, o), []).append(i + 1)
    out = set()
    for v in at.values():
        out.add(v[0])
        out.add(v[-1])
        if len(v) > 2:
            out.add(r.choice(v))
    out = sorted(out)
    return out if len(out) <= cap else sorted(r.sample(out, cap))


def sweep12(i, r, ctx, deep):
    """Abort one call at each line of the grammar it executes."""
    q = FEATURES[i // 3 % len(FEATURES)] if r.random() < .75 else query(r)
    a = r.choice(["valid", "valid", "format"])
    ops = [{"id": 0, "op": a, "o": 0}] + [{"id": k + 1, "op": r.choice(["valid", "format"]), "o": 0}
                                          for k in range(r.randint(0, 2))]
    case = {"kind": "api", "prop": "C12", "scope": r.choice(["lines", "lines", "all"]), "objects": [q],
            "warm": r.choice([[], ["format"], ["format"]]), "threads": [ops], "plan": []}
    for n in stops(r, traces(case, ctx)[(0, 0)], 120 if not deep else 1000):
        yield dict(case, plan=[{"t": 0, "op": 0, "n": n, "kind": r.choice(["nomem", "kbd"])}]), None


def storm12(i, r, ctx, deep):
    """Many aborted calls, then ones that are left alone."""
    q = r.choice(FEATURES + MULTI)
    ops = [{"id": k, "op": r.choice(["valid", "format"]), "o": 0} if r.random() < .3 else
           {"id": k, "op": r.choice(["new", "fmt", "newfmt"]), "sql": q} for k in range(160)]
    case = {"kind": "api", "prop": "C12", "scope": "lines", "objects": [q], "threads": [ops], "plan": []}
    pts = Points(dict(case, threads=[ops[:8]]), ctx)
    plan = []
    for op in ops[:-3]:
        like = r.choice([o["id"] for o in ops[:8] if o["op"] == op["op"]] or [0])
        if r.random() < .1:
            continue
        if r.random() < .9:
            plan.append({"t": 0, "op": op["id"], "n": pts.pick(r, 0, like), "kind": r.choice(["nomem", "kbd"])})
        else:
            plan.append({"t": 0, "op": op["id"], "n": r.randint(1, 45), "kind": "reclimit"})
    yield dict(case, plan=plan), None


def c12(i, r, ctx, deep):
    if i % 15 == 8:
        yield from storm12(i, r, ctx, deep)
        return
    if i % 3 == 1:
        yield from sweep12(i, r, ctx, deep)
        return
    if i % 3 == 0:
        q = r.choice([r.choice(MULTI), query(r), query(r)])
        ops = [{"id": 0, "op": r.choice(["valid", "valid", "format"]), "o": 0}]
        for k in range(r.randint(1, 3)):
            ops.append({"id": k + 1, "op": r.choice(["valid", "format"]), "o": 0})
        case = {"kind": "api", "prop": "C12", "scope": r.choice(["core", "core", "lines"]), "objects": [q],
                "threads": [ops], "plan": []}
        tr = traces(case, ctx)[(0, 0)]
        core, first, last = core_index(tr)
        for n in core + (r.sample(sorted(set(first + last)), min(60, len(set(first + last))))
                         if case["scope"] != "core" else []):
            kind = r.choice(["nomem", "kbd"])
            yield dict(case, plan=[{"t": 0, "op": 0, "n": n, "kind": kind}]), None
        for left in range(1, 40, 1 if deep else 3):
            yield dict(case, plan=[{"t": 0, "op": 0, "n": left, "kind": "reclimit"}]), None
        return
    case = shared_case(r, "C12", nt=1 if r.random() < .8 else 2)
    for t in case["threads"]:
        while len(t) < 3:
            t.append({"id": 100 + len(t) + 10 * r.randrange(1000), "op": r.choice(["valid", "valid", "format"]), "o": 0})
    pts = Points(case, ctx)
    for _ in range(16 if case["scope"] != "all" else 8):
        plan = []
        for _ in range(r.choice([1, 1, 2, 3])):
            t = r.randrange(len(case["threads"]))
            op = r.choice(case["threads"][t][:-1])["id"]
            kind = r.choice(["nomem", "nomem", "kbd", "kbd", "reclimit"])
            n = r.randint(1, 45) if kind == "reclimit" else pts.pick(r, t, op)
            plan.append({"t": t, "op": op, "n": n, "kind": kind})
        if len(case["threads"]) > 1:
            if any(a["kind"] == "reclimit" for a in plan):      # one limit for the whole process
                continue
            plan += switch_plan(r, case, pts)
        yield dict(case, plan=plan), None


def first_use(first, again):
    """Event numbers of a call in code that the same call, made once more, does not run as often."""
    left = {}
    for e in again:
        left[e] = left.get(e, 0) + 1
    seen, out = {}, []
    for i, e in enumerate(first):
        seen.setdefault(e, []).append(i + 1)
    for e, v in seen.items():
        if len(v) > left.get(e, 0):
            out += v
    return sorted(out)


def sweep13(i, r, ctx, deep):
    """The very first call of a process, stopped at each line it executes while another thread makes its
    own first calls."""
    q = FEATURES[i // 6 % len(FEATURES)] if r.random() < .6 else query(r)
    other = [r.choice(FEATURES) if r.random() < .6 else query(r) for _ in range(2)]
    if r.random() < .3:
        other[0] = q
    kinds = ["fmt", "fmt", "new", "newfmt"]
    if r.random() < .35:                        # two verdicts in the making
        q, other, kinds = nest(r), [nest(r), nest(r, query(r))], ["new"]
    case = {"kind": "api", "prop": "C13", "scope": "lines", "objects": [], "plan": [], "threads": [
        [{"id": 0, "op": r.choice(kinds), "sql": q}],
        [{"id": 1 + k, "op": r.choice(kinds), "sql": s} for k, s in enumerate(other)]]}
    twice = traces(dict(case, threads=[case["threads"][0] + [dict(case["threads"][0][0], id=99)], case["threads"][1]]), ctx)
    tr = traces(case, ctx)
    once = first_use(tr[(0, 0)], twice.get((0, 99), []))
    n1 = 40 if not deep else 400
    at = set(once if len(once) <= n1 else r.sample(once, n1)) | set(stops(r, tr[(0, 0)], 20 if not deep else 400))
    for n in sorted(at):
        sw = {"t": 0, "op": 0, "n": n, "kind": "switch", "to": 1}
        yield dict(case, plan=[sw]), None
        if n in once and r.random() < .5:
            yield dict(case, plan=[dict(sw, kind=r.choice(["nomem", "kbd"]))]), None
        if r.random() < .3 and tr.get((1, 1)):
            yield dict(case, plan=[sw, {"t": 1, "op": 1, "n": r.randint(1, len(tr[(1, 1)])), "kind": "switch", "to": 0}]), None


def stopped13(r, ctx, deep):
    """One call stops at a point of the core code while another thread makes very many."""
    k = r.choice([20, 40, 80, 150, 280])
    op = r.choice(["fmt", "fmt", "fmt", "new", "newfmt"])
    some = ["select %s%d from %s" % (r.choice(sqlgen.COLS), j, r.choice(sqlgen.TABS)) for j in range(k)]
    if r.random() < .3:
        some = ["select a%d from (select b%d from t)" % (j, j) for j in range(k)]
    ops = [{"id": 10 + j, "op": op, "sql": q} for j, q in enumerate(some)]
    mine = r.choice([some[0], "select a from t", r.choice(some), query(r)])
    case = {"kind": "api", "prop": "C13", "scope": "core", "objects": [], "plan": [],
            "threads": [[{"id": 0, "op": op, "sql": mine}, {"id": 1, "op": op, "sql": mine}], ops]}
    core, _f, _l = core_index(traces(dict(case, threads=[case["threads"][0], []]), ctx)[(0, 0)])
    core = core[-60:]
    for n in core if len(core) <= 14 or deep else sorted(r.sample(core, 14)):
        sw = {"t": 0, "op": 0, "n": n, "kind": "switch", "to": 1}
        yield dict(case, plan=[sw]), None


def c13(i, r, ctx, deep):
    if i % 6 == 5:
        yield from sweep13(i, r, ctx, deep)
        return
    if i % 3 == 0:
        yield from share_cases(i, r, ctx, deep)
        return
    pool = []
    for _ in range(r.randint(2, 6)):
        pool += variants(r, query(r))
    if r.random() < .3:
        pool = theme(r) + r.sample(pool, min(2, len(pool)))
    elif r.random() < .2:
        pool = [micro(r) for _ in range(r.randint(5, 15))]
    if i % 6 == 1:
        yield from stopped13(r, ctx, deep)
    if i % 6 == 2:
        yield from micro13(i // 6, r, ctx, deep)
    long = i % 11 == 1
    nt = 1 if long else r.choice([1, 1, 1, 2, 3])
    n = r.randint(150, 320) if long else r.randint(4, 30)
    storm = long and i % 2 == 1
    if storm:                                   # most calls fail, for every kind of reason
        k = sqlgen.corpus()
        pool = ["select a from (", "select f(", "", "drop table t", "select a from t group a", "select case",
                "select a from (select b from t where", "with x as (select", DEEP, "select cast(a as",
                "select a from t order x", "select 'a from t"] + r.sample(k["parse"] + k["internal"], 5) + pool[:3]
        pool += [x + y for x in pool[:8] for y in (" ", "x")]
    elif long:
        pool += ["select %s%d from %s" % (r.choice(sqlgen.COLS), j, r.choice(sqlgen.TABS)) for j in range(n)]
        pool += ["select a%d from (select b%d from t)" % (j % 7, j) for j in range(n // 2)]
    threads = [[] for _ in range(nt)]
    for k in range(n):
        threads[r.randrange(nt)].append({"id": k, "op": r.choice(["fmt", "new", "new", "newfmt"]),
                                         "sql": r.choice(pool)})
    objs = []
    if r.random() < .5:                         # objects that are used again after other calls
        objs = [r.choice(pool) for _ in range(r.randint(1, 4))]
        for t in threads:
            for j, op in enumerate(t):
                if r.random() < .35:
                    t[j] = {"id": op["id"], "op": r.choice(["valid", "format"]), "o": r.randrange(len(objs))}
    case = {"kind": "api", "prop": "C13", "scope": "core" if long else scope(r, .2, .6), "objects": objs,
            "threads": threads, "plan": []}
    if r.random() < .4:                         # at the end, something for which every setting matters
        t = r.choice(threads)
        t.append({"id": n + 5000, "op": r.choice(["fmt", "newfmt"]), "sql": RULER})
    if storm:
        last = threads[0]
        for q in [W.simple_body(r), r.choice(FEATURES), r.choice(MULTI), query(r), DEEP]:
            last.append({"id": len(last) + 1000, "op": r.choice(["fmt", "new", "newfmt"]), "sql": q})
    elif i % 11 == 4:                           # a very long statement, and one nested too deeply
        t = r.choice(threads)
        for q in r.sample([wide(r), wide(r), DEEP, DEEPER, W.simple_body(r)], 5) + [DEEP]:
            t.append({"id": len(t) + 1000 * (1 + threads.index(t)), "op": r.choice(["fmt", "new", "newfmt"]), "sql": q})
        case["scope"] = "core"
    yield case, None
    if long:
        return
    pts = Points(case, ctx)
    for _ in range(5):
        plan = switch_plan(r, case, pts, r.choice([3, 6, 12, 25])) if nt > 1 else []
        for t in range(nt):
            for op in threads[t]:
                if r.random() < .2:
                    kind = r.choice(["nomem", "kbd"]) if nt > 1 else r.choice(["nomem", "kbd", "reclimit"])
                    n = r.randint(1, 45) if kind == "reclimit" else pts.pick(r, t, op["id"])
                    plan.append({"t": t, "op": op["id"], "n": n, "kind": kind})
        yield dict(case, plan=plan), None


def c22(i, r, ctx, deep):
    """Histories like those of C12 and C13, one thread, looking at what a call leaves in the process."""
    c = i % 4
    if c == 0:
        src = storm12(i, r, ctx, deep)
    elif c == 1:
        src = sweep12(i, r, ctx, deep)
    elif c == 2:
        src = c12(r.choice([1, 2, 3, 5, 6]), r, ctx, deep)
    else:
        src = c13(r.choice([1, 4, 5, 7, 10, 13]), r, ctx, deep)
    some = [k for k, _b in src if k["kind"] == "api" and len(k["threads"]) == 1]
    for case in some if len(some) <= 12 else r.sample(some, 12):
        yield dict(case, prop="C22", effects=True), None


def share_cases(i, r, ctx, deep):
    """Command-line entry calls one after the other in one interpreter."""
    from . import faults as F, profiles as P
    case = P.make(r, ctx.ref, W.WRITING + W.READONLY, files=(1, 5), bad=.35, perm=.1, invalid=.35, kn=.1, deep=0, twin=.4)
    w = case["world"]
    s0 = dict(case["phases"][0][0])
    phases = []
    nph = r.randint(2, 5)
    for k in range(nph):
        if r.random() < .5:
            s = dict(s0, args=r.choice(W.WRITING + W.READONLY * 2) + model.sources_of(s0["args"]))
        else:
            cwd = P.cwd_of(r, w)
            s = P.spec(r, r.choice(W.WRITING + W.READONLY * 2) + W.gen_sources(r, w, cwd, overlap=.3), cwd)
        s["share_modules"] = True
        phases.append([s])
    case = dict(case, kind="share", phases=phases)
    after = []
    pool = []
    for _ in range(3):
        pool += variants(r, query(r))
    for k in range(r.randint(2, 6)):
        after.append({"id": k, "op": r.choice(["fmt", "new", "newfmt"]), "sql": r.choice(pool)})
    if r.random() < .5:
        after.append({"id": 99, "op": r.choice(["fmt", "newfmt"]), "sql": RULER})
    case["api_after"] = after
    yield case, None
    fresh = dict(case, phases=[[{k: v for k, v in s.items() if k != "share_modules"} for s in ph] for ph in phases])
    base = P.dry(fresh)
    n = len(phases)
    for _ in range(3):
        fs = []
        for _ in range(r.choice([1, 1, 2, 3])):
            fs += F.error(r, base.log) if r.random() < .6 else F.interrupt(r, base.log) + F.memory(r, base.log)
        yield P.with_faults(case, fs), None
    if i % 2 == 0:
        yield from thread_calls(r, case, phases)
    # aborts in the middle of the parser during read-only calls
    ro = [k for k in range(n - 1) if "--format" not in phases[k][0]["args"]]
    if ro:
        b = sim.run(judge.run_case_plan(dict(fresh, faults=[], count_lines=True, line_scope="all")))
        cand = [x for x in b.kernel.line_counts.items() if x[0][0] in ro and x[1] > 0]
        for _ in range(3):
            if not cand:
                break
            (proc, cf), cnt = r.choice(sorted(cand, key=lambda x: (x[0][0], str(x[0][1]))))
            yield dict(case, lines=[{"proc": proc, "file": cf, "n": r.randint(1, cnt),
                                     "kind": r.choice(["nomem", "kbd"])}], line_scope="all"), None


def thread_calls(r, case, phases):
    """Two or three entry calls at the same time in threads of one interpreter (the last phase)."""
    from . import faults as F, profiles as P
    w = case["world"]
    first = dict(phases[-1][0])
    both = [first]
    lines = r.random() < .5
    for _ in range(r.choice([1, 1, 2])):
        s = {k: v for k, v in first.items() if k != "args"}
        cwd = s.get("cwd", W.PROJ)
        src = model.sources_of(first["args"]) if r.random() < .5 else W.gen_sources(r, w, cwd, overlap=.3)
        s["args"] = r.choice(W.WRITING + W.READONLY) + src
        both.append(s)
    if lines:                   # where a call may be faster after others: nothing that depends on the schedule
        for s in both:
            s["args"] = r.choice(W.READONLY) + model.sources_of(s["args"])
    case = dict(case, phases=phases[:r.choice([0, 0, 1])] + [both])
    case["phases"] = [[dict(s) for s in ph] for ph in case["phases"]]
    fresh = dict(case, phases=[[{k: v for k, v in s.items() if k != "share_modules"} for s in ph] for ph in case["phases"]])
    if lines:
        b = sim.run(judge.run_case_plan(dict(fresh, faults=[], count_lines=True, line_scope="all")))
        base = len(case["phases"][0]) if len(case["phases"]) > 1 else 0
        cand = sorted((k for k, n in b.kernel.line_counts.items() if n > 0 and k[0] >= base), key=lambda k: (k[0], str(k[1])))
        if not cand:
            return
        for _ in range(4):
            ls = []
            for _ in range(r.choice([1, 2, 4, 8, 20])):
                k = r.choice(cand)
                ls.append({"proc": k[0], "file": k[1], "n": r.randint(1, b.kernel.line_counts[k]), "kind": "switch",
                           "to": r.choice([x for x in range(base, base + len(both)) if x != k[0]])})
            yield dict(case, lines=ls, line_scope="all"), None
        return
    log = P.dry(fresh).log
    base = len(case["phases"][0]) if len(case["phases"]) > 1 else 0
    log = [e for e in log if e[0] >= base and e[2] != "<std>"]
    if not log:
        return
    for _ in range(4):
        fs = []
        for _ in range(r.choice([1, 2, 4, 8])):
            e = r.choice(log)
            fs.append(dict(F.sig(e), kind="switch", to=r.choice([x for x in range(base, base + len(both)) if x != e[0]])))
        if r.random() < .3:
            fs += F.error(r, log)
        yield P.with_faults(case, fs), None


def session(pid, i, r, ctx, deep=False):
    for case, base in {"C11": c11, "C12": c12, "C13": c13, "C22": c22}[pid](i, r, ctx, deep):
        if case["kind"] == "api" and len(case["threads"]) == 1 and r.random() < .5:
            case["main"] = True                       # the thread that may set signal handlers
        if case["kind"] == "api" and pid in ("C11", "C13") and r.random() < .4:
            case["clock"] = r.randrange(1 << 16)      # time passes while a thread waits, and between calls
        yield case, base
