"""Runs a Plan: phases of concurrent simulated processes over one simulated machine."""
import gc
import hashlib
import random
import sys
import tempfile
import threading

from . import environ, loader, seam
from .kernel import HarnessError, Kernel, Proc, ProcessExit, ProcessKilled, StepLimit

CUR = seam.CUR


def _real_exit_code(e):
    c = e.code
    if c is None:
        return 0
    if isinstance(c, int):
        return c & 0xFF
    return 1


class Sched:
    """Cooperative scheduler: real threads, exactly one of which ever runs."""

    def __init__(self, kernel):
        self.k = kernel
        self.sems = {}
        self.cur = None
        self.main = threading.Semaphore(0)
        self.live = []
        self.switches = 0

    def _save(self, p):
        p.ctx = {"argv": sys.argv, "stdout": sys.stdout, "stderr": sys.stderr, "tempdir": tempfile.tempdir,
                 "env": environ.current()}

    def _load(self, p):
        sys.argv = p.ctx["argv"]
        sys.stdout = p.ctx["stdout"]
        sys.stderr = p.ctx["stderr"]
        tempfile.tempdir = p.ctx["tempdir"]
        environ.use(p.ctx["env"])
        loader.activate(p.modules)
        CUR.proc = p
        self.cur = p

    def switch(self, me, to_idx):
        to = next((p for p in self.live if p.idx == to_idx and not p.finished), None)
        if to is None:
            others = [p for p in self.live if p is not me and not p.finished]
            if not others:
                return
            to = others[0]
        if to is me:
            return
        self.switches += 1
        self._save(me)
        CUR.proc = None
        self._handoff(to)
        self.sems[me.idx].acquire()
        self._load(me)

    def _handoff(self, to):
        self.sems[to.idx].release()

    def finish(self, me):
        CUR.proc = None
        rest = [p for p in self.live if not p.finished]
        if rest:
            self._handoff(rest[0])
        else:
            self.main.release()


def _exec_proc(k, p):
    """The life of one process, from exec to exit. CUR.proc is p."""
    main_mod = p.modules["sqlvalidator.main"]
    code = None
    try:
        try:
            main_mod._main()
            code = 0
        except SystemExit as e:
            code = _real_exit_code(e)
        except (ProcessKilled, ProcessExit):
            raise
        except StepLimit as e:
            p.exc = ("StepLimit", str(e))
            code = 1
        except HarnessError:
            raise
        except KeyboardInterrupt:
            p.exc = ("KeyboardInterrupt", "")
            code = 130
        except BaseException as e:
            p.exc = (type(e).__name__, str(e))
            p.exc_obj = e
            code = 1
        # interpreter shutdown: a first flush whose failure is ignored, exit handlers, a second one
        try:
            sys.stdout.flush()
        except (ProcessKilled, ProcessExit, HarnessError):
            raise
        except BaseException:
            pass
        while p.atexit:
            fn, a, kw = p.atexit.pop()
            try:
                fn(*a, **kw)
            except (ProcessKilled, ProcessExit, HarnessError):
                raise
            except BaseException as e:
                print("Exception ignored in atexit callback: %s: %s" % (type(e).__name__, e), file=sys.stderr)
        try:
            sys.stdout.flush()
        except (ProcessKilled, ProcessExit):
            raise
        except BaseException as e:
            p.flush_exc = type(e).__name__
            code = 120
        p.exit_code = code
    except ProcessKilled:
        p.killed = p.dead = True
    except ProcessExit as e:
        p.exit_code = e.code
    except HarnessError as e:
        p.harness_error = e
    finally:
        if k.count_fds and not p.killed:
            sys.last_value = None
            gc.collect()
            p.left = sorted(of.label for fd, of in p.fds.items() if fd > 2) + ["directory"] * p.fds.scans
        CUR.proc = None
        p.fds.clear()
        p.finished = True


def _prepare(k, p):
    p.modules = loader.fresh()
    random.seed(k.salt * 1000 + p.idx)
    if "logging" in sys.modules:
        sys.modules["logging"].root.handlers.clear()
    p.harness_error = None
    p.exc_obj = None
    p.flush_exc = None
    p.ctx = {"argv": ["/usr/bin/sqlvalidator"] + p.args,
             "stdout": seam.std_stream(p, k, 1), "stderr": seam.std_stream(p, k, 2),
             "tempdir": None, "env": environ.initial(p.spec, p.cwd)}


class Result:
    pass


class Lines:
    """Counts executed lines of the package and raises at chosen ones (sys.monitoring)."""
    TOOL = 3

    def __init__(self, plan, k):
        self.k = k
        self.cap = plan.get("line_cap")
        self.faults = {(f["proc"], f["file"], f["n"]): f for f in plan.get("lines", ())}
        scope = plan.get("line_scope", "grammar")
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "dst")
        mon.register_callback(self.TOOL, mon.events.LINE, self.hit)
        self.codes = [c for c in loader.all_code_objects()
                      if scope == "all" or "/grammar/" in c.co_filename
                      or c.co_filename.endswith("sql_validator.py")]
        for c in self.codes:
            mon.set_local_events(self.TOOL, c, mon.events.LINE)

    def close(self):
        mon = sys.monitoring
        for c in self.codes:
            mon.set_local_events(self.TOOL, c, 0)
        mon.register_callback(self.TOOL, mon.events.LINE, None)
        mon.free_tool_id(self.TOOL)

    def hit(self, code, line):
        p = CUR.proc
        if p is None or p.finished or p.dead:
            return
        p.nlines += 1
        p.tlines += 1
        if self.cap and p.tlines > self.cap:
            raise StepLimit("more than %d lines of the package executed" % self.cap)
        key = (p.idx, p.curfile)
        self.k.line_counts[key] = max(self.k.line_counts.get(key, 0), p.nlines)
        f = self.faults.get((p.idx, p.curfile, p.nlines))
        if f is not None and f["kind"] == "switch":
            self.k.fire("switch", f)
            if self.k.sched:
                self.k.sched.switch(p, f["to"])
                if p.dead:
                    raise ProcessKilled()
        elif f is not None:
            from . import api
            if api.no_abort(code):
                self.faults.setdefault((p.idx, p.curfile, p.nlines + 1), f)
                return
            self.k.fire("line:" + f["kind"], f)
            self.k.hit(p, "line", p.curfile or "<none>", f["kind"])
            if f["kind"] == "nomem":
                raise MemoryError()
            self.k.interrupt(p)


def _restore(saved):
    sys.argv, sys.stdout, sys.stderr, tempfile.tempdir = saved[:4]
    environ.use(saved[4])


def run(plan, observers=(), keep_log=True, std_observers=(), started=None):
    """plan: {world, phases: [[proc spec, ...], ...], faults, salt, seed, step_limit}"""
    if not seam.REAL:
        raise HarnessError("seam.install() was not called: the program would run on the real system")
    k = Kernel(plan["world"], plan.get("faults", []), plan.get("step_limit", 20000),
               plan.get("salt", 0), plan.get("seed", 0), plan.get("order", 0))
    for ob in observers:
        k.observers.append(ob)
    k.std_observers.extend(std_observers)
    k.count_fds = plan.get("count_fds", False)
    if started is not None:
        started(k)
    CUR.kernel = k
    k.deliver = seam.deliver
    reclimit = sys.getrecursionlimit()
    saved = (sys.argv, sys.stdout, sys.stderr, tempfile.tempdir, environ.current())
    res = Result()
    res.kernel = k
    res.procs = []
    res.trees = [k.tree("/")]
    res.phase_start = []
    idx = 0
    res.switches = 0
    lines = None
    if plan.get("lines") or plan.get("count_lines") or plan.get("line_cap"):
        lines = Lines(plan, k)
    try:
        shared = before = None
        for nph, phase in enumerate(plan["phases"]):
            procs = []
            for spec in phase:
                p = Proc(idx, spec)
                idx += 1
                _prepare(k, p)
                if spec.get("share_modules"):      # same interpreter as the previous run
                    if shared is not None:
                        p.modules = shared
                    shared = p.modules
                    if before is not None:         # ... with what that run left of the process
                        if spec.get("cwd") == before.spec.get("cwd"):
                            p.cwd = before.cwd
                        if spec.get("umask") == before.spec.get("umask"):
                            p.umask = before.umask
                        p.signals = before.signals
                        if spec.get("env") == before.spec.get("env"):
                            p.ctx["env"] = before.env or before.ctx["env"]
                        p.ctx["tempdir"] = before.tempdir
                    before = p
                procs.append(p)
            k.procs = procs
            res.procs.extend(procs)
            res.phase_start.append(len(k.mutations))
            sched = Sched(k)
            sched.live = procs
            k.sched = sched
            if len(procs) == 1:
                sched._load(procs[0])
                _exec_proc(k, procs[0])
            else:
                threads = []
                for p in procs:
                    sched.sems[p.idx] = threading.Semaphore(0)

                    def body(p=p):
                        sched.sems[p.idx].acquire()
                        sched._load(p)
                        if p.dead:
                            p.finished = True
                            CUR.proc = None
                        else:
                            _exec_proc(k, p)
                        sched.finish(p)
                    t = threading.Thread(target=body, daemon=True)
                    t.start()
                    threads.append(t)
                sched._handoff(procs[0])
                if not sched.main.acquire(timeout=300):
                    raise HarnessError("simulated processes did not finish within 300 s")
                for t in threads:
                    t.join()
            res.switches += sched.switches
            for p in procs[-1:]:
                p.env, p.tempdir = environ.current(), tempfile.tempdir
            _restore(saved)
            nxt = plan["phases"][nph + 1:nph + 2]
            if not (nxt and nxt[0] and nxt[0][0].get("share_modules")):
                sys.setrecursionlimit(reclimit)
            for p in procs:
                if p.harness_error:
                    raise p.harness_error
            res.trees.append(k.tree("/"))
            k.capacity = None
            k.sticky = {}
            k.procs = []
            if not plan.get("no_settle"):
                k.settle_all()
    finally:
        if lines is not None:
            lines.close()
        CUR.proc = None
        CUR.kernel = None
        sys.setrecursionlimit(reclimit)
        _restore(saved)
        loader.drop()
    res.fired = dict(k.fired)
    res.log = k.log
    return res


def digest(res):
    """A hash of everything observable: the event log, outputs, exits, final trees."""
    h = hashlib.sha256()
    for e in res.log:
        h.update(repr(e).encode("utf-8", "surrogateescape"))
    for p in res.procs:
        h.update(repr((p.idx, p.exit_code, p.killed, p.exc, bytes(p.out), bytes(p.err))).encode(
            "utf-8", "surrogateescape"))
    for t in res.trees:
        h.update(repr(sorted(t.items())).encode("utf-8", "surrogateescape"))
    return h.hexdigest()
