"""Shared machinery: violations, full-object-graph canonicalisation, explicit-state search,
exhaustive sequence / choice enumeration, worker pool, watchdog.

Everything here executes the real code in /repo; there is no separate model of the implementation.
The reference models live in the harnesses (props/*.py).
"""
import collections
import datetime
import enum
import functools
import gc
import hashlib
import io
import itertools
import multiprocessing.connection
import os
import re
import signal
import sys
import time
import traceback
import types
import uuid
import weakref

REPLAY = None     # a recorded violation to be replayed instead of exploring

NPROC = int(os.environ.get("VERIF_PROCS", "0")) or min(8, os.cpu_count() or 1)


PENDING = []      # violations raised in this execution, also those swallowed by the code under test


class Violation(Exception):
    """The property does not hold in the execution being explored."""

    def __init__(self, *args):
        super().__init__(*args)
        PENDING.append(self)


def raise_pending(tracebacks=False):
    if PENDING:
        raise PENDING[0]
    if tracebacks and ERR.text is not None:
        raise Violation("the code under test reported an internal exception: " + ERR.summary())


class StepTimeout(BaseException):
    """Raised by the watchdog in the main thread of a worker."""


_tick = 0


def gc_tick():
    """Collections never happen inside an execution (owned nondeterminism); only between executions."""
    global _tick
    _tick += 1
    if _tick % 400 == 0:
        gc.collect()


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def fresh(text):
    """an equal string that is another object (names are not only literals)"""
    return "".join(list(text))


def expect_eq(actual, wanted, what):
    if not (actual == wanted):
        raise Violation("%s: got %r, expected %r" % (what, actual, wanted))


# --------------------------------------------------------------------------- watchdog / quiet

class watchdog:
    """Turn an execution that does not come back into a StepTimeout in the main thread."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def handler(signum, frame):
            raise StepTimeout()
        self.old = signal.signal(signal.SIGALRM, handler)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)
        return self

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


class _Null(io.TextIOBase):
    """Swallows output; remembers a printed traceback."""
    text = None

    def write(self, s):
        if self.text is not None:
            if len(self.text) < 20000:
                self.text += s
        elif "Traceback" in s:
            self.text = s
        return len(s)

    def summary(self):
        lines = [x for x in self.text.strip().splitlines() if x.strip()]
        return " | ".join(x.strip() for x in lines[-3:])[:600]


ERR = _Null()


class quiet:
    """Silence stderr/stdout of the code under test (events print tracebacks of listener exceptions)."""

    def __enter__(self):
        self.saved = sys.stderr, sys.stdout
        sys.stderr = sys.stdout = ERR
        return self

    def __exit__(self, *a):
        sys.stderr, sys.stdout = self.saved


# --------------------------------------------------------------------------- canonicalisation

_ATOM = (type(None), bool, str, bytes, float, complex, range, slice, type(Ellipsis))
_UUID_RE = re.compile(r"^[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}$")
_LOCK_TYPES = tuple({type(__import__("_thread").allocate_lock()), type(__import__("_thread").RLock())})
_SKIP_TYPES = (types.ModuleType, types.CodeType, types.FrameType, types.TracebackType)


class Canon:
    """Serialise the complete object graph reachable from the roots (attributes, containers, closure
    cells, default arguments, bound methods, partials, weak references and their callbacks), numbering
    objects by first visit.  Two states with the same serialisation are isomorphic object graphs, so
    they have the same futures; uuids are numbered by first occurrence, timestamps are dropped."""

    def __init__(self):
        self.out = []
        self.memo = {}
        self.uuids = {}
        self.keep = []
        self.bigints = []

    def digest(self, roots):
        for r in roots:
            self.visit(r)
        for pos, value in self.bigints:
            n = self.memo.get(value)
            if n is not None:
                self.out[pos] = "id%d" % n
        return hashlib.blake2b("\x1f".join(self.out).encode("utf-8", "surrogatepass"), digest_size=16).digest()

    def visit(self, root):
        out = self.out
        memo = self.memo
        stack = [root]
        while stack:
            o = stack.pop()
            if isinstance(o, _Tok):
                out.append(o)
                continue
            t = type(o)
            if t is int:
                if o > 1 << 24:
                    self.bigints.append((len(out), o))
                out.append("i%d" % o)
                continue
            if t is str:
                if len(o) == 36 and _UUID_RE.match(o):
                    out.append("u%d" % self.uuids.setdefault(o, len(self.uuids)))
                else:
                    out.append("s" + o)
                continue
            if isinstance(o, _ATOM):
                out.append(repr(o))
                continue
            if t is uuid.UUID:
                out.append("U%d" % self.uuids.setdefault(str(o), len(self.uuids)))
                continue
            if isinstance(o, (datetime.datetime, datetime.date, datetime.timedelta)):
                out.append("dt")
                continue
            if isinstance(o, enum.Enum):
                out.append("E" + str(o))
                continue
            if isinstance(o, type):
                out.append("T" + o.__module__ + "." + o.__qualname__)
                continue
            if isinstance(o, _SKIP_TYPES):
                out.append("X" + t.__name__)
                continue
            if isinstance(o, _LOCK_TYPES):
                out.append("L")
                continue
            if t is tuple:
                out.append("(%d" % len(o))
                stack.extend(reversed(o))
                continue
            if t in (types.BuiltinFunctionType, types.BuiltinMethodType):
                out.append("B" + o.__qualname__)
                s = o.__self__
                if s is not None and not isinstance(s, types.ModuleType):
                    stack.append(s)
                continue
            if t is types.MethodType:
                out.append("M")
                stack.append(o.__self__)
                stack.append(o.__func__)
                continue
            oid = id(o)
            n = memo.get(oid)
            if n is not None:
                out.append("@%d" % n)
                continue
            memo[oid] = len(memo)
            self.keep.append(o)
            if t is list or t is collections.deque:
                out.append("[%d" % len(o))
                stack.extend(reversed(o))
            elif t is dict or t is collections.OrderedDict or t is collections.defaultdict:
                out.append("{%d" % len(o))
                for k, v in reversed(list(o.items())):
                    stack.append(v)
                    stack.append(k)
            elif t is set or t is frozenset:
                out.append("<%d" % len(o))
                stack.extend(reversed(self._order(o)))
            elif t is types.FunctionType:
                out.append("F%s:%d" % (o.__code__.co_qualname, o.__code__.co_firstlineno))
                if o.__closure__:
                    for c in reversed(o.__closure__):
                        try:
                            stack.append(c.cell_contents)
                        except ValueError:
                            stack.append(_Tok("emptycell"))
                if o.__defaults__:
                    stack.append(o.__defaults__)
                if o.__kwdefaults__:
                    stack.append(o.__kwdefaults__)
                if o.__dict__:
                    stack.append(o.__dict__)
            elif t is functools.partial:
                out.append("P")
                stack.append(o.keywords)
                stack.append(o.args)
                stack.append(o.func)
            elif isinstance(o, weakref.ref):
                ref = o()
                out.append("w" if ref is not None else "wdead")
                if o.__callback__ is not None:
                    stack.append(o.__callback__)
                if ref is not None:
                    stack.append(ref)
            else:
                out.append("O" + t.__module__ + "." + t.__qualname__)
                if isinstance(o, dict):
                    stack.append(list(o.items()))
                elif isinstance(o, (list, tuple)):
                    stack.append(list(o))
                elif isinstance(o, (set, frozenset)):
                    stack.append(self._order(o))
                slots = []
                for c in t.__mro__:
                    s = c.__dict__.get("__slots__", ())
                    slots.extend([s] if isinstance(s, str) else s)
                for s in sorted(slots):
                    if s not in ("__dict__", "__weakref__"):
                        try:
                            v = getattr(o, s)
                        except AttributeError:
                            continue
                        stack.append(v)
                        stack.append(_Tok(s))
                d = getattr(o, "__dict__", None)
                if type(d) is dict:
                    for k in sorted(d, reverse=True, key=str):
                        stack.append(d[k])
                        stack.append(_Tok(str(k)))

    @staticmethod
    def _order(s):
        def key(x):
            label = getattr(x, "_mc_label", None)
            return (0, str(label)) if label is not None else (1, repr(x)) if isinstance(x, _ATOM + (int,)) else (2, "")
        return sorted(s, key=key)


class _Tok(str):
    pass


def global_roots(prefix="nion.utils"):
    """Module-level and class-level mutable state of the code under test."""
    roots = []
    for name in sorted(m for m in sys.modules if m.startswith(prefix)):
        mod = sys.modules[name]
        if mod is None or ".test" in name:
            continue
        for k, v in sorted(vars(mod).items()):
            if k.startswith("__"):
                continue
            if isinstance(v, type):
                if v.__module__ == name:
                    for ck, cv in sorted(vars(v).items()):
                        if ck.startswith("__") and ck.endswith("__") or ck.startswith("_abc"):
                            continue
                        if isinstance(cv, (types.FunctionType, staticmethod, classmethod, property, type, types.MemberDescriptorType, types.GetSetDescriptorType)):
                            f = getattr(cv, "__func__", cv)
                            if isinstance(f, types.FunctionType) and f.__defaults__ and any(isinstance(x, (list, dict, set)) for x in f.__defaults__):
                                roots.append(f.__defaults__)
                            continue
                        roots.append(cv)
            elif isinstance(v, types.FunctionType):
                if v.__module__ == name and v.__defaults__ and any(isinstance(x, (list, dict, set)) for x in v.__defaults__):
                    roots.append(v.__defaults__)
            elif isinstance(v, (types.ModuleType, types.BuiltinFunctionType)) or getattr(v, "__module__", "") == "typing":
                continue
            else:
                roots.append(v)
    return roots


def canon(roots):
    return Canon().digest(list(roots) + global_roots())


# --------------------------------------------------------------------------- worker pool

def _worker(conn, fn, args, inherited):
    """Child process: evaluates fn on the arguments whose positions it is sent; ends when the pipe closes."""
    for c in inherited:
        c.close()
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    gc.disable()
    os.environ["VERIF_WORKER"] = "1"
    try:
        while True:
            i = conn.recv()
            try:
                r = (True, fn(args[i]))
            except BaseException as e:
                r = (False, "%r\n%s" % (e, "".join(traceback.format_exception(e)[-8:])))
            conn.send(r)
    except (EOFError, OSError):
        pass
    finally:
        os._exit(0)


def pmap(fn, args, procs=None):
    """Run fn over args in forked workers (fn may be any closure); yields results in order.
    Closing the generator early kills the workers at once; there are no helper threads and no shared locks."""
    procs = procs or NPROC
    args = list(args)
    if procs <= 1 or len(args) <= 1:
        for a in args:
            yield fn(a)
        return
    workers = {}
    try:
        sys.stdout.flush()
        sys.stderr.flush()
        for _ in range(min(procs, len(args))):
            mine, theirs = multiprocessing.Pipe()
            pid = os.fork()
            if pid == 0:
                _worker(theirs, fn, args, [mine] + list(workers))
            theirs.close()
            workers[mine] = pid
        todo = iter(range(len(args)))
        busy = {}
        ready = {}
        want = 0
        for c in workers:
            i = next(todo, None)
            if i is not None:
                c.send(i)
                busy[c] = i
        while busy:
            for c in multiprocessing.connection.wait(list(busy)):
                i = busy.pop(c)
                try:
                    ok, r = c.recv()
                except (EOFError, OSError):
                    raise RuntimeError("a worker process died")
                if not ok:
                    raise RuntimeError("worker failed: " + r)
                ready[i] = r
                i = next(todo, None)
                if i is not None:
                    c.send(i)
                    busy[c] = i
            while want in ready:
                yield ready.pop(want)
                want += 1
    finally:
        for c, pid in workers.items():
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            c.close()
        for pid in workers.values():
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass


# --------------------------------------------------------------------------- results

class Result:
    """What a run covered, merged over parts."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.violations = []   # dicts: {part, message, replay}
        self.known_keys = {}   # key -> text of the committed known findings of this property
        self.known_hit = set() # keys of the known findings that were observed
        self.parts = []
        self.exhaustive = True
        self.notes = []

    def add_part(self, name, *, states, transitions, traces, outcomes=None, complete=True, sample=None, bounds=None, **extra):
        self.states += states
        self.transitions += transitions
        self.traces += traces
        p = {"part": name, "states": states, "transitions": transitions, "traces": traces, "complete": complete}
        if outcomes is not None:
            p["distinct_outcomes"] = outcomes
        if bounds:
            p["bounds"] = bounds
        p.update(extra)
        self.parts.append(p)
        if not complete:
            self.exhaustive = False
        if sample is not None and len(self.samples) < 12:
            self.samples.append({"part": name, "case": sample})


def describe_exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for f in reversed(tb):
        where = " at %s:%d" % (os.path.basename(f.filename), f.lineno)
        break
    return "%s: %s%s" % (type(e).__name__, e, where)


# --------------------------------------------------------------------------- explicit-state search

class Harness:
    """A closed system: the real objects plus a reference model.

    config   a plain value choosing the variant
    ops()    operations enabled now (plain tuples), simplest first
    apply(op)  perform it on the real objects and on the reference model, raising Violation on disagreement
    roots()  objects whose graph is the state
    """
    STEP_TIMEOUT = 20.0
    TRACEBACKS = True     # a traceback printed by the code under test is an internal failure

    def __init__(self, config):
        self.config = config

    def ops(self):
        raise NotImplementedError

    def apply(self, op):
        raise NotImplementedError

    def roots(self):
        return [self.__dict__]

    def observe(self):
        return None

    def finish(self):
        """Checks made once at the end of a history (tear-down)."""


def run_history(cls, config, ops, finish=True):
    """Replay one history against fresh objects; returns the harness; raises Violation."""
    gc_tick()
    PENDING.clear()
    ERR.text = None
    with quiet(), watchdog(cls.STEP_TIMEOUT):
        try:
            h = cls(config)
            raise_pending(cls.TRACEBACKS)
            for op in ops:
                h.apply(op)
                raise_pending(cls.TRACEBACKS)
            if finish:
                h.finish()
                raise_pending(cls.TRACEBACKS)
            return h
        except Violation:
            raise
        except StepTimeout:
            raise Violation("the operation did not return within %gs" % cls.STEP_TIMEOUT)
        except Exception as e:
            raise Violation("unexpected exception " + describe_exc(e))


def _expand(cls, config, path, dedupe):
    """All successors of the state reached by path -> [(op, digest, violation, outcome)]"""
    res = []
    h = run_history(cls, config, path, finish=False)
    ops = list(h.ops())
    for op in ops:
        p = path + (op,)
        try:
            h = run_history(cls, config, p, finish=False)
        except Violation as v:
            res.append((op, None, str(v), None))
            continue
        d = canon(h.roots()) if dedupe else None
        with quiet():
            ob = repr(h.observe())
        try:
            with quiet(), watchdog(cls.STEP_TIMEOUT):
                h.finish()
            raise_pending(cls.TRACEBACKS)
        except Violation as v:
            res.append((op, None, "at tear-down: " + str(v), None))
            continue
        except StepTimeout:
            res.append((op, None, "tear-down did not return", None))
            continue
        except Exception as e:
            res.append((op, None, "at tear-down: unexpected exception " + describe_exc(e), None))
            continue
        res.append((op, d, None, ob))
    return res


def search(result, name, cls, configs, *, max_depth, max_states=10**9, dedupe=True, time_limit=None, stop_on_violation=True):
    """Breadth-first explicit-state search over the real objects, level by level, all configs.
    A state is the history reaching it; dedupe merges isomorphic object graphs."""
    if REPLAY is not None:
        if REPLAY["part"] == name:
            try:
                run_history(cls, REPLAY["config"], REPLAY["ops"])
            except Violation as v:
                result.violations.append(dict(REPLAY, message=str(v)))
        return
    t0 = time.time()
    seen = set()
    states = transitions = 0
    complete = True
    closed = True
    depth = 0
    outcomes = set()
    frontier = []
    for ci, config in enumerate(configs):
        try:
            h = run_history(cls, config, (), finish=False)
            d = canon(h.roots())
            h2 = run_history(cls, config, (), finish=False)
        except Violation as v:
            result.violations.append({"part": name, "harness": cls.__name__, "config": config, "ops": [], "message": str(v)})
            return
        if dedupe and d != canon(h2.roots()):
            result.notes.append("%s: canonical form of the initial state is not stable; merging is only finer" % name)
        seen.add((ci, d))
        states += 1
        frontier.append((ci, ()))
    sample = None
    while frontier and depth < max_depth:
        depth += 1
        nxt = []
        batch = max(1, min(64, len(frontier) // (NPROC * 4) or 1))
        chunks = [frontier[i:i + batch] for i in range(0, len(frontier), batch)]

        def work(chunk):
            return [(ci, path, _expand(cls, configs[ci], path, dedupe)) for ci, path in chunk]
        stop = False
        for out in pmap(work, chunks, procs=NPROC if len(frontier) > 8 else 1):
            for ci, path, succ in out:
                for op, d, viol, ob in succ:
                    transitions += 1
                    if viol is not None:
                        result.violations.append({"part": name, "harness": cls.__name__, "config": configs[ci], "ops": list(path + (op,)), "message": viol})
                        stop = True
                        if stop_on_violation:
                            break
                        continue
                    outcomes.add(hash(ob))
                    if dedupe:
                        k = (ci, d)
                        if k in seen:
                            continue
                        seen.add(k)
                    states += 1
                    nxt.append((ci, path + (op,)))
                if stop and stop_on_violation:
                    break
            if stop and stop_on_violation:
                break
        if stop and stop_on_violation:
            complete = False
            break
        if nxt:
            sample = {"config": repr(configs[nxt[len(nxt) // 2][0]]), "ops": [repr(o) for o in nxt[len(nxt) // 2][1]]}
        frontier = nxt
        if states > max_states or (time_limit and time.time() - t0 > time_limit):
            complete = not frontier
            break
    closed = not frontier
    result.add_part(name, states=states, transitions=transitions, traces=transitions, outcomes=len(outcomes), complete=complete,
                    sample=sample,
                    bounds={"depth_completed": depth, "max_depth": max_depth, "configs": len(configs), "merging": "object-graph isomorphism" if dedupe else "none",
                            "all_reachable_states": bool(closed and complete)})


# --------------------------------------------------------------------------- exhaustive choice enumeration

class Chooser:
    """Replays a prefix of choices, then takes 0; records the branching."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []   # (choice, n)

    def choose(self, n):
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise RuntimeError("replay diverged: choice %d of %d at point %d" % (c, n, i))
        self.trace.append((c, n))
        return c

    def pick(self, seq):
        return seq[self.choose(len(seq))]


def next_prefix(trace):
    t = list(trace)
    while t and t[-1][0] + 1 >= t[-1][1]:
        t.pop()
    if not t:
        return None
    return [c for c, _ in t[:-1]] + [t[-1][0] + 1]


def _run_choice(fn, prefix, timeout):
    gc_tick()
    PENDING.clear()
    ERR.text = None
    ch = Chooser(prefix)
    try:
        with quiet(), watchdog(timeout):
            ob = fn(ch)
        raise_pending(getattr(fn, "TRACEBACKS", True))
        return ch, None, ob
    except Violation as v:
        return ch, str(v), None
    except StepTimeout:
        return ch, "did not return within %gs" % timeout, None
    except RuntimeError as e:
        if "replay diverged" in str(e):
            raise
        return ch, "unexpected exception " + describe_exc(e), None
    except Exception as e:
        return ch, "unexpected exception " + describe_exc(e), None


def enumerate_choices(result, name, fn, *, shards=None, timeout=20.0, bounds=None, key=None, max_runs=None):
    """Run fn(chooser) for every sequence of choices. fn returns an observable outcome; raises Violation.
    Sharded over the first choice points."""
    if REPLAY is not None:
        if REPLAY["part"] == name:
            ch, viol, ob = _run_choice(fn, REPLAY["choices"], timeout)
            if viol is not None:
                result.violations.append(dict(REPLAY, message=viol))
        return
    # build shard prefixes
    target = (shards or NPROC * 6)
    prefixes = [[]]
    finished = []
    while prefixes and len(prefixes) < target:
        new = []
        progressed = False
        for p in prefixes:
            ch, viol, ob = _run_choice(fn, p, timeout)
            if viol is None and len(ch.trace) > len(p):
                n = ch.trace[len(p)][1]
                new.extend([p + [i] for i in range(n)])
                progressed = True
            elif viol is not None and len(ch.trace) > len(p):
                n = ch.trace[len(p)][1]
                new.extend([p + [i] for i in range(n)])
                progressed = True
            else:
                finished.append(p)
        prefixes = new
        if not progressed:
            break

    def work(prefix):
        base = len(prefix)
        cur = list(prefix)
        runs = points = 0
        outcomes = set()
        viol = None
        sample = None
        capped = False
        while True:
            ch, v, ob = _run_choice(fn, cur, timeout)
            runs += 1
            points += len(ch.trace)
            if v is not None:
                viol = (v, [c for c, _ in ch.trace])
                break
            outcomes.add(hash(repr(ob)))
            if sample is None:
                sample = {"choices": [c for c, _ in ch.trace], "outcome": repr(ob)[:300]}
            nx = next_prefix(ch.trace)
            if nx is None or nx[:base] != prefix:
                break
            cur = nx
            if max_runs and runs >= max_runs:
                capped = True
                break
        return runs, points, outcomes, viol, sample, capped

    runs = points = 0
    outcomes = set()
    sample = None
    complete = True
    for r, p, o, v, s, capped in pmap(work, finished + prefixes):
        runs += r
        points += p
        outcomes |= o
        sample = sample or s
        if capped:
            complete = False
        if v is not None:
            result.violations.append({"part": name, "choices": v[1], "message": v[0]})
            complete = False
            break
    result.add_part(name, states=len(outcomes), transitions=points, traces=runs, outcomes=len(outcomes), complete=complete, sample=sample, bounds=bounds)


# --------------------------------------------------------------------------- exhaustive domain enumeration

def enumerate_domain(result, name, items, fn, *, bounds=None, chunk=None):
    """Evaluate fn on every element of a finite domain (the choice tree of a one-step system).
    fn returns an observable outcome or raises Violation."""
    items = [REPLAY["item"]] if REPLAY is not None and REPLAY["part"] == name else list(items) if REPLAY is None else []
    n = len(items)
    chunk = chunk or max(1, n // (NPROC * 8))
    chunks = [items[i:i + chunk] for i in range(0, n, chunk)]

    def work(c):
        outs = set()
        k = 0
        with quiet():
            for it in c:
                k += 1
                PENDING.clear()
                try:
                    with watchdog(20.0):
                        ob = fn(it)
                    raise_pending()
                except Violation as v:
                    return k, outs, (it, str(v))
                except StepTimeout:
                    return k, outs, (it, "did not return within 20s")
                except Exception as e:
                    return k, outs, (it, "unexpected exception " + describe_exc(e))
                outs.add(hash(repr(ob)))
        return k, outs, None
    total = 0
    outs = set()
    complete = True
    for k, o, v in pmap(work, chunks, procs=NPROC if n > 500 else 1):
        total += k
        outs |= o
        if v is not None:
            result.violations.append({"part": name, "item": v[0], "message": v[1]})
            complete = False
            break
    result.add_part(name, states=len(outs), transitions=total, traces=total, outcomes=len(outs), complete=complete,
                    sample=repr(items[n // 2])[:300] if items else None, bounds=bounds)
