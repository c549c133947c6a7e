"""Controlled scheduler for real Python threads.

install() replaces the primitives of the threading module (Lock, RLock, Thread, and through them
Condition, Event, Semaphore, Barrier, queue.Queue ...), queue.SimpleQueue and the clocks of the time module
by versions that behave normally outside an exploration and, inside one, hand a single baton from thread to
thread.  Exactly one controlled thread runs at any time; at every scheduling point (before each lock
acquisition, thread start/join, sleep, and before every executed line - or opcode - of the code under test)
the explorer decides who runs next.  All schedules with at most `bound` deviations are enumerated, a
deviation being a preemption of a runnable thread or a timeout that fires although some thread could run.
"""
import _thread
import dis
import os
import queue
import sys
import threading
import time

import core
from core import Violation, quiet, describe_exc, gc_tick, pmap, NPROC

_alloc = _thread.allocate_lock
_ident = _thread.get_ident
_real_time = time.time
_real_monotonic = time.monotonic
_real_perf = time.perf_counter
_real_sleep = time.sleep
_RealThread = threading.Thread
_RealRLock = _thread.RLock

TARGET = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "nion/utils/")

_exec = None          # the execution in progress
_threads = {}         # ident -> _T


class SchedAbort(BaseException):
    pass


class Diverged(RuntimeError):
    pass


class _T:
    __slots__ = ("tid", "name", "baton", "status", "wait_lock", "deadline", "timed_out", "thread", "daemon", "error", "wait_thread", "held")

    def __init__(self, tid, name, daemon):
        self.tid = tid
        self.name = name
        self.baton = _alloc()
        self.baton.acquire()
        self.status = "run"      # run / block / done
        self.wait_lock = None
        self.wait_thread = None
        self.deadline = None
        self.timed_out = False
        self.thread = None
        self.daemon = daemon
        self.error = None
        self.held = 0


def me():
    if _exec is None:
        return None
    return _threads.get(_ident())


class Execution:
    def __init__(self, prefix, *, opcodes=False, horizon=60000, timeout_budget=40):
        self.prefix = prefix
        self.trace = []          # (chosen index, [costs])
        self.decisions = []
        self.T = []
        self.now = 1000.0
        self.aborting = False
        self.deadlock = None
        self.horizon = horizon
        self.points = 0
        self.done = _alloc()
        self.done.acquire()
        self.opcodes = opcodes
        self.timeout_budget = timeout_budget
        self.error = None
        self.leftover = []
        self.diverged = False
        self.live = 0
        self.all_gone = _alloc()
        self.all_gone.acquire()

    # ---- scheduling

    def _enabled(self, t):
        if t.status == "run":
            return True
        if t.status == "block":
            if t.wait_lock is not None:
                return not t.wait_lock._held_by_other(t)
            if t.wait_thread is not None:
                return t.wait_thread.status == "done"
        return False

    def _alternatives(self, cur):
        alts = []
        cur_ok = cur is not None and self._enabled(cur)
        if cur_ok:
            alts.append(("run", cur, 0))
        for t in self.T:
            if t is not cur and self._enabled(t):
                alts.append(("run", t, 1 if cur_ok else 0))
        timed = [t for t in self.T if t.status == "block" and t.deadline is not None and not self._enabled(t)]
        if timed:
            dl = min(t.deadline for t in timed)
            cost = 1 if alts else 0
            for t in timed:
                if t.deadline <= dl:
                    alts.append(("timeout", t, cost))
        return alts

    def decide(self, cur):
        """Choose the next thread; returns it, or None when the execution is over."""
        alts = self._alternatives(cur)
        if alts and self.T[0].status == "done" and all(t.daemon or t.status == "done" for t in self.T) and all(a[0] == "timeout" for a in alts):
            self.timeout_budget -= 1
            if self.timeout_budget < 0:
                alts = []
        if not alts:
            blocked = [t for t in self.T if t.status != "done"]
            if self.T[0].status != "done" or any(not t.daemon for t in blocked):
                if blocked:
                    self.deadlock = "deadlock: " + ", ".join("%s waits for %s" % (t.name, "a thread to end" if t.wait_thread else "a lock or event") for t in blocked)
            self.leftover = [t.name for t in blocked]
            return None
        if len(alts) == 1:
            i = 0
        else:
            k = len(self.trace)
            i = self.prefix[k] if k < len(self.prefix) else 0
            if i >= len(alts):
                self.diverged = True
                return None
            self.trace.append((i, [a[2] for a in alts]))
        kind, t, _ = alts[i]
        if kind == "timeout":
            self.now = max(self.now, t.deadline)
            t.timed_out = True
            t.status = "run"
            t.deadline = None
            t.wait_lock = t.wait_thread = None
        return t

    def _switch(self, cur, nxt):
        if nxt is cur:
            return
        if nxt is None:
            self.finish()
            if cur is not None and cur.status != "done":
                cur.baton.acquire()
                raise SchedAbort()
            return
        nxt.baton.release()
        if cur is not None and cur.status != "done":
            cur.baton.acquire()
            if self.aborting:
                raise SchedAbort()

    def finish(self):
        """No thread can run any more: unwind the leftover threads one at a time."""
        self.aborting = True
        self.done.release()

    def point(self, cur):
        if self.aborting:
            raise SchedAbort()
        self.points += 1
        if self.points > self.horizon:
            self.deadlock = "no end within %d scheduling points (livelock)" % self.horizon
            self._switch(cur, None)
        nxt = self.decide(cur)
        self._switch(cur, nxt)

    def block(self, cur, *, lock=None, thread=None, timeout=None):
        """Block cur until the lock is free / the thread is done / the timeout fires. Returns False on timeout."""
        if self.aborting:
            raise SchedAbort()
        cur.status = "block"
        cur.wait_lock = lock
        cur.wait_thread = thread
        cur.timed_out = False
        cur.deadline = None if timeout is None else self.now + max(timeout, 0.0)
        nxt = self.decide(cur)
        self._switch(cur, nxt)
        cur.status = "run"
        cur.wait_lock = cur.wait_thread = None
        cur.deadline = None
        return not cur.timed_out

    # ---- threads

    def spawn(self, run, name, daemon, thread=None):
        t = _T(len(self.T), name, daemon)
        t.thread = thread
        self.T.append(t)
        self.live += 1

        def boot():
            ident = _ident()
            t.baton.acquire()
            try:
                if self.aborting:
                    return
                _threads[ident] = t
                if thread is not None:
                    thread._ident = ident
                    threading._active[ident] = thread
                try:
                    run()
                except SchedAbort:
                    pass
                except BaseException as e:
                    t.error = e
            finally:
                _threads.pop(ident, None)
                if thread is not None:
                    threading._active.pop(ident, None)
                t.status = "done"
                self.live -= 1
                if self.aborting:
                    self.all_gone.release()
                else:
                    nxt = self.decide(t)
                    if nxt is None:
                        self.finish()
                    else:
                        nxt.baton.release()
        _thread.start_new_thread(boot, ())
        return t


# --------------------------------------------------------------------------- scheduling points in the code under test

_mon = sys.monitoring
_TOOL = 3
_codes = []
_mode = None


def _on_point(code, where):
    t = _threads.get(_ident())
    if t is not None and not _exec.aborting:
        _exec.point(t)


# instructions that only touch the frame of the running thread: switching before them is the same as switching
# before the next instruction that is not in this list, so no scheduling point is placed there
_LOCAL_OPS = frozenset(dis.opmap[n] for n in (
    "RESUME", "NOP", "CACHE", "PUSH_NULL", "LOAD_CONST", "LOAD_FAST", "LOAD_FAST_CHECK", "LOAD_FAST_AND_CLEAR", "COPY", "SWAP", "JUMP_FORWARD", "JUMP_BACKWARD",
    "JUMP_BACKWARD_NO_INTERRUPT", "EXTENDED_ARG", "KW_NAMES", "COPY_FREE_VARS", "MAKE_CELL", "LOAD_CLOSURE", "MAKE_FUNCTION", "IS_OP", "RETURN_CONST", "POP_JUMP_IF_NONE", "POP_JUMP_IF_NOT_NONE") if n in dis.opmap)


def _on_instruction(code, where):
    if code.co_code[where] in _LOCAL_OPS:
        return _mon.DISABLE
    t = _threads.get(_ident())
    if t is not None and not _exec.aborting:
        _exec.point(t)


def _collect_codes():
    seen = set()

    def walk(code):
        if code in seen or not code.co_filename.startswith(TARGET):
            return
        seen.add(code)
        for c in code.co_consts:
            if isinstance(c, type(code)):
                walk(c)

    def visit(obj, depth=0):
        if isinstance(obj, (staticmethod, classmethod)):
            obj = obj.__func__
        if isinstance(obj, property):
            for f in (obj.fget, obj.fset, obj.fdel):
                if f is not None:
                    visit(f)
            return
        code = getattr(obj, "__code__", None)
        if code is not None:
            walk(code)
            w = getattr(obj, "__wrapped__", None)
            if w is not None:
                visit(w)
        elif isinstance(obj, type) and depth < 4:
            for v in list(vars(obj).values()):
                visit(v, depth + 1)
    for name, mod in list(sys.modules.items()):
        if name.startswith("nion.utils") and mod is not None:
            for v in list(vars(mod).values()):
                visit(v)
    return sorted(seen, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))


def set_granularity(opcodes):
    """Place a scheduling point before every line (or every bytecode) of the code under test."""
    global _mode, _codes
    mode = _mon.events.INSTRUCTION if opcodes else _mon.events.LINE
    if _mode is None:
        _mon.use_tool_id(_TOOL, "mc-sched")
        _mon.register_callback(_TOOL, _mon.events.LINE, _on_point)
        _mon.register_callback(_TOOL, _mon.events.INSTRUCTION, _on_instruction)
        _codes = _collect_codes()
        if not _codes:
            raise RuntimeError("no code under test found")
    if mode != _mode:
        for c in _codes:
            _mon.set_local_events(_TOOL, c, mode)
        _mode = mode


# --------------------------------------------------------------------------- primitives

class CLock:
    def __init__(self):
        self._real = _alloc()
        self._owner = None
        self._ex = None

    def _held_by_other(self, t):
        return self._owner is not None and self._ex is _exec

    def acquire(self, blocking=True, timeout=-1):
        t = me()
        if t is None:
            return self._real.acquire(blocking, timeout)
        ex = _exec
        if ex.aborting:
            raise SchedAbort()
        if self._ex is not ex:
            self._ex = ex
            self._owner = None
        ex.point(t)
        while self._owner is not None:
            if not blocking:
                return False
            if timeout == 0:
                return False
            if not ex.block(t, lock=self, timeout=None if timeout is None or timeout < 0 else timeout):
                return False
        self._owner = t
        return True

    def release(self):
        t = me()
        if t is None:
            if _exec is not None and _exec.aborting:
                return
            return self._real.release()
        if _exec.aborting:
            return
        if self._owner is None or self._ex is not _exec:
            raise RuntimeError("release unlocked lock")
        self._owner = None

    def locked(self):
        t = me()
        if t is None:
            return self._real.locked()
        return self._owner is not None and self._ex is _exec

    def _is_owned(self):
        # Condition asks whether somebody holds the lock
        return self.locked()

    def _at_fork_reinit(self):
        self._real = _alloc()
        self._owner = None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked


class CRLock:
    def __init__(self):
        self._real = _RealRLock()
        self._owner = None
        self._count = 0
        self._ex = None

    def _held_by_other(self, t):
        return self._ex is _exec and self._owner is not None and self._owner is not t

    def acquire(self, blocking=True, timeout=-1):
        t = me()
        if t is None:
            return self._real.acquire(blocking, timeout)
        ex = _exec
        if ex.aborting:
            raise SchedAbort()
        if self._ex is not ex:
            self._ex = ex
            self._owner = None
            self._count = 0
        if self._owner is t:
            self._count += 1
            return True
        ex.point(t)
        while self._owner is not None:
            if not blocking or timeout == 0:
                return False
            if not ex.block(t, lock=self, timeout=None if timeout is None or timeout < 0 else timeout):
                return False
        self._owner = t
        self._count = 1
        return True

    def release(self):
        t = me()
        if t is None:
            if _exec is not None and _exec.aborting:
                return
            return self._real.release()
        if _exec.aborting:
            return
        if self._ex is not _exec or self._owner is not t:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def _is_owned(self):
        t = me()
        if t is None:
            return self._real._is_owned()
        return self._ex is _exec and self._owner is t

    def _release_save(self):
        t = me()
        if t is None:
            return self._real._release_save()
        c = self._count
        self._count = 0
        self._owner = None
        return c

    def _acquire_restore(self, state):
        t = me()
        if t is None:
            return self._real._acquire_restore(state)
        self.acquire()
        self._count = state

    def _recursion_count(self):
        return self._count

    def _at_fork_reinit(self):
        self._real = _RealRLock()
        self._owner = None
        self._count = 0

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class CThread(_RealThread):
    _ctrl = None

    def start(self):
        t = me()
        if t is None:
            return super().start()
        if self._ctrl is not None:
            raise RuntimeError("threads can only be started once")
        ex = _exec
        self._started.set()
        self._ctrl = ex.spawn(self.run, "thread-%d" % len(ex.T), bool(self.daemon), self)
        ex.point(t)

    def join(self, timeout=None):
        t = me()
        if self._ctrl is None:
            if t is not None:
                raise RuntimeError("cannot join thread before it is started")
            return super().join(timeout)
        if t is None:
            return
        if self._ctrl is t:
            raise RuntimeError("cannot join current thread")
        ex = _exec
        ex.point(t)
        if self._ctrl.status != "done":
            ex.block(t, thread=self._ctrl, timeout=timeout)

    def is_alive(self):
        if self._ctrl is None:
            return super().is_alive()
        return self._ctrl.status != "done"


def _vtime(real):
    def f():
        t = me()
        return _exec.now if t is not None else real()
    return f


def _vsleep(d):
    t = me()
    if t is None:
        return _real_sleep(d)
    _exec.block(t, timeout=d)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    threading.Lock = CLock
    threading._allocate_lock = CLock
    threading.RLock = CRLock
    threading._CRLock = CRLock
    threading.Thread = CThread
    queue.SimpleQueue = queue._PySimpleQueue
    time.time = _vtime(_real_time)
    time.monotonic = _vtime(_real_monotonic)
    time.perf_counter = _vtime(_real_perf)
    time.sleep = _vsleep
    threading._time = time.monotonic
    queue.time = time.monotonic


# --------------------------------------------------------------------------- explorer

class Outcome:
    __slots__ = ("violation", "observed", "trace", "points", "leftover")


def execute(program, prefix, opcodes=False, horizon=60000):
    """Run program once. program is a class: __init__() builds objects (uncontrolled), main() runs as the
    first controlled thread, check(outcome) runs afterwards and returns what was observed."""
    global _exec
    gc_tick()
    set_granularity(opcodes)
    core.PENDING.clear()
    core.ERR.text = None
    ex = Execution(prefix, opcodes=opcodes, horizon=horizon)
    out = Outcome()
    out.violation = None
    out.observed = None
    with quiet():
        try:
            p = program()
            p.sched = ex
            main_thread = CThread(name="main", daemon=False)
            main_thread._started.set()
            _exec = ex
            t0 = ex.spawn(p.main, "main", False, main_thread)
            main_thread._ctrl = t0
            t0.baton.release()
            if not ex.done.acquire(True, 60):
                # a controlled thread is stuck inside an uncontrolled operation
                ex.aborting = True
                out.violation = "execution stuck (a step did not return within 60s)"
            else:
                for t in list(ex.T):
                    if t.status != "done":
                        t.baton.release()
                        ex.all_gone.acquire(True, 20)
            if out.violation is None:
                if ex.diverged:
                    raise Diverged("replay diverged")
                if ex.deadlock:
                    out.violation = ex.deadlock
        finally:
            _exec = None
        out.trace = ex.trace
        out.points = ex.points
        out.leftover = ex.leftover
        if out.violation is None:
            try:
                for t in ex.T:
                    if t.error is not None:
                        if isinstance(t.error, Violation):
                            raise t.error
                        if not getattr(p, "allow_thread_errors", False):
                            raise Violation("thread %s ended with %s" % (t.name, describe_exc(t.error)))
                core.raise_pending(getattr(p, "TRACEBACKS", True))
                out.observed = p.check(ex)
                core.raise_pending(getattr(p, "TRACEBACKS", True))
            except Violation as v:
                out.violation = str(v)
            except Exception as e:
                out.violation = "unexpected exception " + describe_exc(e)
    return out


def _children(trace, base, bound):
    """Prefixes that differ from this execution for the first time at a point >= base, within the bound."""
    res = []
    cost = 0
    for k, (i, costs) in enumerate(trace):
        if k >= base:
            for alt in range(len(costs)):
                if alt != i and cost + costs[alt] <= bound:
                    res.append([c for c, _ in trace[:k]] + [alt])
        cost += costs[i]
    return res


def explore(result, name, program, *, bound, opcodes=False, horizon=60000, bounds=None):
    """All schedules of program with at most `bound` deviations."""
    if core.REPLAY is not None:
        if core.REPLAY["part"] == name:
            o = execute(program, core.REPLAY["schedule"], opcodes, horizon)
            if o.violation:
                result.violations.append(dict(core.REPLAY, message=o.violation))
        return
    root = execute(program, [], opcodes, horizon)
    again = execute(program, [], opcodes, horizon)
    if repr(root.observed) != repr(again.observed) or root.trace != again.trace:
        if root.violation is None and again.violation is None:
            raise Diverged("%s: the same schedule gave two different executions" % name)
    execs = 1
    points = root.points
    outcomes = {repr(root.observed)}
    if root.violation:
        result.violations.append({"part": name, "schedule": [c for c, _ in root.trace], "message": root.violation})
        result.add_part(name, states=1, transitions=points, traces=1, complete=False)
        return
    seeds = [(p, len(p)) for p in _children(root.trace, 0, bound)]

    def work(seed):
        stack = [seed]
        n = pts = 0
        outs = set()
        while stack:
            prefix, base = stack.pop()
            o = execute(program, prefix, opcodes, horizon)
            n += 1
            pts += o.points
            if o.violation:
                return n, pts, outs, (o.violation, [c for c, _ in o.trace])
            outs.add(repr(o.observed))
            for c in _children(o.trace, base, bound):
                stack.append((c, len(c)))
        return n, pts, outs, None
    viol = None
    for n, pts, outs, v in pmap(work, seeds):
        execs += n
        points += pts
        outcomes |= outs
        if v:
            viol = v
            break
    if viol:
        result.violations.append({"part": name, "schedule": viol[1], "message": viol[0]})
    b = {"deviation_bound": bound, "granularity": "opcode" if opcodes else "line+lock"}
    b.update(bounds or {})
    result.add_part(name, states=len(outcomes), transitions=points, traces=execs, outcomes=len(outcomes), complete=viol is None,
                    sample={"schedule": [c for c, _ in root.trace][:80], "observed": repr(root.observed)[:200]}, bounds=b)
