"""Deterministic thread scheduler.

Real Python threads, but exactly one of them is ever runnable: the others are
parked on private semaphores.  Control changes hands only at yield points
(every source line of the package under test, every simulated file-system
call, every lock operation), and a seeded policy decides who continues.  The
sequence of decisions is recorded as a list of (thread, local_step, next) and
can be replayed exactly.
"""
import _thread
import builtins
import importlib
import random
import sys
import threading
from boot import CURRENT_SCHED, PKG

TOOL = 3


class SimAbort(BaseException):
    """The simulation cannot continue (deadlock, blocking call, budget)."""


class Policy:
    def __init__(self, spec, n):
        self.spec = spec
        self.kind = spec["kind"]
        self.r = random.Random("sched/%s" % (spec.get("seed"),))
        self.n = n
        if self.kind == "rand":
            self.p = spec["p"]
            # geometric gaps instead of one draw per step
            self.gap = self._gap()
        elif self.kind == "pct":
            self.prio = list(range(n))
            self.r.shuffle(self.prio)
            self.changes = sorted(self.r.randrange(1, max(2, spec["len"])) for _ in range(spec["d"]))
            self.low = -1
        elif self.kind == "explicit":
            self.sw = {(a, b): c for a, b, c in spec["switches"]}

    def _gap(self):
        import math
        u = 1.0 - self.r.random()
        return max(1, int(math.log(u) / math.log(1.0 - self.p)) + 1)

    def at_step(self, sched, me):
        """Return thread to run next (may be me)."""
        if self.kind == "rand":
            self.gap -= 1
            if self.gap > 0:
                return me
            self.gap = self._gap()
            others = [t for t in sched.runnable() if t is not me]
            return self.r.choice(others) if others else me
        if self.kind == "pct":
            if self.changes and sched.steps >= self.changes[0]:
                self.changes.pop(0)
                self.prio[me.tid] = self.low
                self.low -= 1
                return self.best(sched)
            return me
        if self.kind == "explicit":
            to = self.sw.get((me.tid, me.local))
            if to is not None and to != me.tid:
                t = sched.threads[to]
                if t.state == "ready":
                    return t
            return me
        return me

    def best(self, sched):
        return max(sched.runnable(), key=lambda t: self.prio[t.tid])

    def next_after_block(self, sched, key=None):
        run = sched.runnable()
        if self.kind == "pct":
            return self.best(sched)
        if self.kind == "rand":
            return self.r.choice(run)
        if self.kind == "explicit":
            to = self.sw.get(key)
            if to is not None and sched.threads[to] in run:
                return sched.threads[to]
        return run[0]


class T:
    def __init__(self, tid, fn):
        self.tid = tid
        self.fn = fn
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.state = "ready"
        self.local = 0
        self.result = None
        self.waiting = None


class Scheduler:
    def __init__(self, fns, policy, extra_files=("/\0",), max_steps=20_000_000, on_overrun=None, rec=False):
        self.threads = [T(i, f) for i, f in enumerate(fns)]
        self.policy = Policy(policy, len(fns))
        self.by_ident = {}
        self.current = None
        self.steps = 0
        self.switches = []
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.deadlock = None
        self.extra = tuple(extra_files)
        self.max_steps = max_steps
        self.overrun = False
        self.on_overrun = on_overrun
        self.cover = 0
        # per thread: {place: [(thread-local step, global step), ...]}
        self.rec = [{} for _ in fns] if rec else None
        # places executed while the process-wide state differed from the initial one
        self.hot = [{} for _ in fns] if rec else None
        self.probe = None
        self.calm = None
        self.last_switch = 0
        self.importing = {}

    # ------------------------------------------------------------ queries
    def owns(self, ident):
        return ident in self.by_ident and self.deadlock is None

    def runnable(self):
        return [t for t in self.threads if t.state == "ready"]

    # ------------------------------------------------------- control flow
    # switches are (tid, key, next): key >= 0 a yield point (thread-local step),
    # -1 start / thread exit, <= -2 blocked on a lock at thread-local step -key-2
    def _switch(self, me, to, key=None):
        self.switches.append((me.tid, me.local if key is None else key, to.tid))
        self.cover = (self.cover * 1000003 ^ (me.tid * 8191 + me.local * 31 + to.tid)) & 0xFFFFFFFFFFFF
        self.current = to
        self.last_switch = self.steps
        to.sem.release()
        me.sem.acquire()
        if self.deadlock is not None and me.state != "done":
            raise SimAbort("deadlock")

    def yield_point(self, kind=""):
        me = self.by_ident.get(_thread.get_ident())
        if me is None or self.deadlock is not None or me is not self.current:
            return
        if self.importing.get(me.tid):
            return  # the import system's own locks are real ones
        self.steps += 1
        me.local += 1
        if self.rec is not None:
            d = self.rec[me.tid]
            e = d.get(kind)
            if e is None:
                e = d[kind] = []
            if len(e) < 8 or self.steps % 61 == 0:
                e.append((me.local, self.steps))
                if self.probe is not None and self.probe() != self.calm:
                    self.hot[me.tid].setdefault(kind, []).append((me.local, self.steps))
        if self.steps > self.max_steps:
            self.overrun = True
            if self.on_overrun:
                self.on_overrun()
            return
        to = self.policy.at_step(self, me)
        if to is not me:
            self._switch(me, to)

    def block_on(self, lock):
        me = self.by_ident[_thread.get_ident()]
        me.state = "blocked"
        me.waiting = lock
        run = self.runnable()
        if not run:
            self.deadlock = [(t.tid, t.local) for t in self.threads if t.state == "blocked"]
            for t in self.threads:
                if t is not me and t.state == "blocked":
                    t.state = "ready"
                    t.sem.release()
            me.state = "ready"
            raise SimAbort("deadlock")
        key = -me.local - 2
        to = self.policy.next_after_block(self, (me.tid, key))
        self._switch(me, to, key)

    def unblocked(self, lock):
        for t in self.threads:
            if t.state == "blocked" and t.waiting is lock:
                t.state = "ready"
                t.waiting = None

    def _body(self, t):
        self.by_ident[_thread.get_ident()] = t
        t.sem.acquire()
        try:
            t.result = ("ok", t.fn())
        except SimAbort as e:
            t.result = ("abort", str(e))
        except BaseException as e:  # recorded, judged by the oracle
            t.result = ("exc", type(e).__name__, str(e)[:300])
        t.state = "done"
        if self.deadlock is not None:
            if all(x.state == "done" for x in self.threads):
                self.done.release()
            return
        run = self.runnable()
        if run:
            to = self.policy.next_after_block(self, (t.tid, -1))
            self.switches.append((t.tid, -1, to.tid))
            self.current = to
            self.last_switch = self.steps
            to.sem.release()
        elif any(x.state == "blocked" for x in self.threads):
            self.deadlock = [(x.tid, x.local) for x in self.threads if x.state == "blocked"]
            for x in self.threads:
                if x.state == "blocked":
                    x.state = "ready"
                    x.sem.release()
        else:
            self.done.release()

    def run(self):
        mon = sys.monitoring
        extra = self.extra
        rec = self.rec is not None

        def guarded(fn):
            def imp(*a, **k):
                me = self.by_ident.get(_thread.get_ident())
                if me is None:
                    return fn(*a, **k)
                self.importing[me.tid] = self.importing.get(me.tid, 0) + 1
                try:
                    return fn(*a, **k)
                finally:
                    self.importing[me.tid] -= 1
            return imp
        imports = builtins.__import__, importlib.import_module

        def on_line(code, line):
            fn = code.co_filename
            if not (fn.startswith(PKG) or fn.endswith(extra)):
                return mon.DISABLE
            if rec:
                self.yield_point(fn[fn.rfind("/") + 1:] + ":%d" % line)
            else:
                self.yield_point()

        mon.use_tool_id(TOOL, "l2jsched")
        CURRENT_SCHED[0] = self
        builtins.__import__, importlib.import_module = guarded(imports[0]), guarded(imports[1])
        try:
            for t in self.threads:
                _thread.start_new_thread(self._body, (t,))
            while len(self.by_ident) < len(self.threads):
                pass
            mon.register_callback(TOOL, mon.events.LINE, on_line)
            mon.set_events(TOOL, mon.events.LINE)
            mon.restart_events()
            if self.probe is not None:
                self.calm = self.probe()
            first = self.policy.next_after_block(self, (-1, -1))
            self.switches.append((-1, -1, first.tid))
            self.current = first
            first.sem.release()
            self.done.acquire()
        finally:
            mon.set_events(TOOL, 0)
            mon.register_callback(TOOL, mon.events.LINE, None)
            mon.free_tool_id(TOOL)
            builtins.__import__, importlib.import_module = imports
            CURRENT_SCHED[0] = None
        return [t.result for t in self.threads]
