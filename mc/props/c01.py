"""Event delivery: explicit-state search over the real Event with re-entrant listeners."""
import gc
import itertools

from core import Harness, Violation, expect, expect_eq, search
from nion.utils import Event


class Boom(Exception):
    pass


class Owner:
    def __init__(self, label):
        self._mc_label = label


class FalsyOwner(Owner):
    def __len__(self):
        return 0


class EqOwner(Owner):
    """Owners may compare equal without being the same object."""
    def __eq__(self, other):
        return isinstance(other, EqOwner)
    __hash__ = None


OWNERS = {"o": Owner, "f": FalsyOwner, "e": EqOwner}


class Matches:
    """equal to everything"""
    def __eq__(self, other):
        return True
    __hash__ = None


# what a listener may return; all of them are true
ODD = {"word": "stop", "number": -1, "equal": Matches(), "exception": Boom(), "class": StopIteration, "dots": ..., "function": len, "list": [False], "not implemented": NotImplemented}


class Rec:
    """Reference record of one registration."""
    def __init__(self, slot):
        self.slot = slot
        self.closed = False
        self.released = False
        self.owner = None


class H(Harness):
    """config: ((behaviour, result, owner), ...) per slot; slots 0..2 plus a spare slot for re-entrant listen"""

    TRACEBACKS = False      # raising listeners are part of the alphabet

    def __init__(self, config):
        pre, config = config
        super().__init__(config)
        self.event = Event.Event()
        self.other = Event.Event()    # a second event: tokens of one event must not affect another
        self.n = len(config)
        self.tokens = [None] * (self.n + 1)
        self.recs = [None] * (self.n + 1)
        self.owners = {}
        self.order = []        # registered records in order
        self.frames = []       # firings in progress: [snapshot, pos, kind, stopped, forbidden]
        for i in range(pre):
            self.do_listen(i, config[i][2])

    def roots(self):
        return [self.event, self.other, self.tokens, [(r.slot, r.closed, r.released, r.owner) if r else None for r in self.recs], [r.slot for r in self.order], self.owners]

    # ---- listeners

    def on_call(self, rec, args, kwargs):
        expect(self.frames, "listener %d called outside a firing", rec.slot)
        fr = self.frames[-1]
        expect_eq((args, kwargs), ((self.arg,), {"key": self.arg + 1}), "arguments received by listener %d" % rec.slot)
        expect(not fr["stopped"], "listener %d called after the firing was decided", rec.slot)
        expect(not rec.closed, "listener %d called although its token is closed or its owner is gone", rec.slot)
        snap = fr["snap"]
        expect(any(r is rec for r in snap), "listener %d called but it was not registered when the firing began", rec.slot)
        i = [k for k, r in enumerate(snap) if r is rec][0]
        expect(i >= fr["pos"], "listener %d called twice or out of order", rec.slot)
        expect(not (rec.released and rec not in fr["held"]), "listener %d called although its token was released before this firing", rec.slot)
        self.check_skipped(fr, i)
        fr["pos"] = i + 1

    def check_skipped(self, fr, upto):
        if fr["raised"]:
            return
        for r in fr["snap"][fr["pos"]:upto]:
            expect(r.closed or r.released, "listener %d was not called", r.slot)

    def make_fn(self, rec, slot):
        # weak capture of the harness is not needed: the token owns the function
        def fn(*args, **kwargs):
            self.on_call(rec, args, kwargs)
            b, res = (self.config[slot][:2]) if slot < self.n else ("n", False)
            depth = len(self.frames)
            if b == "n":
                pass
            elif b == "x":
                self.frames[-1]["raised"] = True      # whether the others are still called is left open
                raise Boom()
            elif b[0] == "c":
                self.do_close(int(b[1]))
            elif b[0] == "r":
                self.do_release(int(b[1]))
            elif b[0] == "o":
                self.do_drop_owner(int(b[1]))
            elif b == "l":
                if self.recs[self.n] is None:
                    self.do_listen(self.n, None)
            elif b == "F" and depth < 2:
                self.do_fire("fire")
            elif b == "G" and depth < 2:
                self.do_fire("all")
            kind = self.frames[-1]["kind"]
            if kind == "any" and res:
                self.frames[-1]["stopped"] = True
                self.frames[-1]["result"] = True
            if kind == "all" and not res:
                self.frames[-1]["stopped"] = True
                self.frames[-1]["result"] = False
            if isinstance(res, str):
                return ODD[res]
            return 1 if res else (None if slot % 2 else 0)
        return fn

    # ---- operations

    def do_listen(self, slot, owner_kind):
        rec = Rec(slot)
        fn = self.make_fn(rec, slot)
        if owner_kind:
            key = owner_kind
            if key not in self.owners:
                self.owners[key] = OWNERS[owner_kind[0]](key)
            rec.owner = key
            self.tokens[slot] = self.event.listen(fn, owner=self.owners[key])
        else:
            self.tokens[slot] = self.event.listen(fn)
        self.recs[slot] = rec
        self.order.append(rec)

    def do_close(self, slot):
        r = self.recs[slot]
        if r is None or r.closed or self.tokens[slot] is None:
            return
        r.closed = True
        self.tokens[slot].close()

    def do_release(self, slot):
        r = self.recs[slot]
        if r is None or r.released or r.closed:
            return
        if r.owner is None:
            r.released = True
            for f in self.frames:
                if any(x is r for x in f["snap"]):
                    for g in self.frames:
                        g["held"].append(r)
        self.tokens[slot] = None

    def do_drop_owner(self, slot):
        r = self.recs[slot]
        if r is None or r.owner is None or r.owner not in self.owners:
            return
        for x in self.recs:
            if x is not None and x.owner == r.owner:
                x.closed = True
        del self.owners[r.owner]

    def do_fire(self, kind):
        snap = [r for r in self.order if not r.closed]
        held = []
        for f in self.frames:
            held += [r for r in f["snap"] if r.released]
        snap = [r for r in snap if not r.released or r in held]
        fr = {"snap": snap, "pos": 0, "kind": kind, "stopped": False, "result": None, "raised": False, "held": held}
        self.arg = getattr(self, "arg", 0) + 1 if not self.frames else self.arg + 10
        arg = self.arg
        self.frames.append(fr)
        fn = {"fire": self.event.fire, "any": self.event.fire_any, "all": self.event.fire_all}[kind]
        try:
            res = fn(arg, key=arg + 1)
        except Boom:
            raise Violation("an exception raised by a listener reached the code that fires")
        finally:
            self.frames.pop()
        if self.frames:
            self.arg = arg - 10
        if not fr["stopped"] and not fr["raised"]:
            self.check_skipped(fr, len(snap))
        if not fr["raised"]:
            if kind == "any":
                expect_eq(bool(res), bool(fr["result"]), "result of fire_any")
            if kind == "all":
                expect_eq(bool(res), fr["result"] is not False, "result of fire_all")
        self.last = (kind, fr["pos"], bool(res))

    def ops(self):
        for s in range(self.n) if self.n < 9 else (0, 1, self.n // 2, self.n - 1):
            r = self.recs[s]
            if r is None:
                yield ("listen", s)
            else:
                if not r.closed and self.tokens[s] is not None:
                    yield ("close", s)
                    yield ("with", s)
                if not r.released and self.tokens[s] is not None:
                    yield ("release", s)
                if r.owner in self.owners:
                    yield ("drop", s)
        yield ("fire", "fire")
        yield ("fire", "any")
        yield ("fire", "all")

    def apply(self, op):
        self.last = None
        self.arg = 0
        if op[0] == "listen":
            s = op[1]
            self.do_listen(s, self.config[s][2])
        elif op[0] == "close":
            self.do_close(op[1])
        elif op[0] == "with":
            r = self.recs[op[1]]
            with self.tokens[op[1]]:
                self.do_fire("fire")
            r.closed = True
        elif op[0] == "release":
            if self.recs[op[1]].closed:
                self.tokens[op[1]] = None
                self.recs[op[1]].released = True
            else:
                self.do_release(op[1])
        elif op[0] == "drop":
            self.do_drop_owner(op[1])
        elif op[0] == "fire":
            self.do_fire(op[1])

    def observe(self):
        return self.last

    def finish(self):
        # from every state: a plain firing reaches exactly the listeners that are left
        self.do_fire("fire")
        self.other.fire(1)


class Falsy:
    """A callable listener that is empty, and equal to every other one."""
    def __init__(self, log, name):
        self.log, self.name = log, name

    def __call__(self, *args, **kwargs):
        self.log.append((self.name, args, kwargs))
        return "yes"

    def __len__(self):
        return 0

    def __eq__(self, other):
        return True

    __hash__ = None

    def method(self, *args, **kwargs):
        self.log.append((self.name + ".method", args, kwargs))
        return "yes"


class Shared(Harness):
    """The same function may be registered many times, under any number of owners: each registration counts.

    config: (functions by registration, owners by registration, whether the event is traced)"""

    TRACEBACKS = False

    def __init__(self, config):
        super().__init__(config)
        self.kinds, self.ownership, trace = config
        self.event = Event.Event(trace=True) if trace else Event.Event()
        self.calls = []
        self.objs = {"a": Falsy(self.calls, "a"), "b": Falsy(self.calls, "b")}
        self.owners = {k: Owner(k) for k in self.ownership if k}
        self.regs = []      # [function, owner, token, alive]

    def roots(self):
        return [self.event, [(r[0], r[1], r[2], r[3]) for r in self.regs], self.owners]

    def fn(self, kind):
        if kind == "x":
            return self.boom
        return self.objs[kind[0]].method if len(kind) > 1 else self.objs[kind]

    def boom(self, *args, **kwargs):
        raise Boom()

    def ops(self):
        if len(self.regs) < len(self.kinds):
            yield ("listen",)
        for i, r in enumerate(self.regs):
            if r[2] is not None and r[3]:
                yield ("close", i)
                yield ("release", i)
        for k in self.owners:
            yield ("drop", k)
        for how in ("fire", "any", "all"):
            for args in range(3):
                yield ("fire", how, args)

    def apply(self, op):
        self.last = None
        if op[0] == "listen":
            i = len(self.regs)
            kw = {"owner": self.owners[self.ownership[i]]} if self.ownership[i] in self.owners else {}
            if self.ownership[i] and not kw:
                self.regs.append([self.kinds[i], None, None, False])
                return
            self.regs.append([self.kinds[i], self.ownership[i], self.event.listen(self.fn(self.kinds[i]), **kw), True])
        elif op[0] == "close":
            self.regs[op[1]][3] = False
            self.regs[op[1]][2].close()
        elif op[0] == "release":
            r = self.regs[op[1]]
            r[2] = None
            if r[1] is None:
                r[3] = False
        elif op[0] == "drop":
            for r in self.regs:
                if r[1] == op[1]:
                    r[3] = False
            del self.owners[op[1]]
        else:
            self.do_fire(op[1], op[2])

    def do_fire(self, how, n):
        args, kwargs = ((), (1,), (1, None))[n], ({}, {}, {"listener": 2})[n]
        del self.calls[:]
        fn = {"fire": self.event.fire, "any": self.event.fire_any, "all": self.event.fire_all}[how]
        try:
            res = fn(*args, **kwargs)
        except Boom:
            raise Violation("an exception raised by a listener reached the code that fires")
        want = [r[0] for r in self.regs if r[3]]
        got = [c[0][0] + ("m" if "." in c[0] else "") for c in self.calls]
        expect(all(c[1] == args and c[2] == kwargs for c in self.calls), "arguments %r", self.calls)
        if "x" in want:
            k = want.index("x")
            if how == "any":
                expect(not k or got == want[:1], "listeners called by fire_any: %r", got)
            else:
                expect_eq(got[:k], want[:k], "listeners called before one that raises")
        elif how == "any":
            expect_eq((got, bool(res)), (want[:1], bool(want)), "listeners called by fire_any")
        else:
            expect_eq(got, want, "listeners called")
            if how == "all":
                expect(res, "fire_all with only agreeing listeners says %r", res)
        self.last = (how, tuple(got))

    def observe(self):
        return self.last

    def finish(self):
        for n in range(3):
            self.do_fire("fire", n)


def check(result, tier):
    quick = tier == "quick"
    beh = ["n", "x", "l", "F", "G", "c0", "c1", "c2", "r0", "r1", "r2", "o0", "o1", "o2"]
    one = []
    # one active listener among passive ones: every behaviour, result and position
    for pos in range(3):
        for b in beh:
            for res in (True, False):
                for owners in [(None, None, None), ("o1", "o2", None), (None, "f1", "f1"), ("e1", "e2", "o1"), (None, None, "o1")]:
                    if b[0] == "o" and owners[int(b[1])] is None:
                        continue
                    for others in (True, False):
                        c = [("n", others, owners[i]) for i in range(3)]
                        c[pos] = (b, res, owners[pos])
                        one.append(tuple(c))
    one = list(dict.fromkeys(one))
    search(result, "one active listener, three registered", H, [(3, c) for c in one], max_depth=3 if quick else 6)
    odd = [tuple(("n", r if i == pos else False if all else True, owner) for i in range(3)) for pos in range(3) for r in ODD for all in (False, True) for owner in (None, "o1") if r != "not implemented" or not all]
    search(result, "returned values", H, [(3, c) for c in odd], max_depth=1 if quick else 3)
    few = [c for c in one if c[0][1] and c[1][1] and c[2][1]]
    search(result, "one active listener, from empty", H, [(0, c) for c in few], max_depth=4 if quick else 6)
    # two active listeners
    two = []
    for p, q in itertools.permutations(range(3), 2):
        for b1, b2 in itertools.product(beh, beh):
            if b1 == "n" or b2 == "n":
                continue
            owners = ("o1", None, "f1")
            if any(b[0] == "o" and owners[int(b[1])] is None for b in (b1, b2)):
                continue
            c = [("n", True, owners[i]) for i in range(3)]
            c[p] = (b1, True, owners[p])
            c[q] = (b2, False, owners[q])
            two.append(tuple(c))
    two = list(dict.fromkeys(two))
    search(result, "two active listeners", H, [(3, c) for c in two], max_depth=2 if quick else 5)
    # many listeners, one of them active
    many = []
    for n, at in ((40, 0), (40, 20), (40, 39)):
        for b in ("n", "l", "F", "c0", "c1", "r1", "o1"):
            for res in (True, False):
                c = [("n", not res, "o1" if i % 3 == 1 else None) for i in range(n)]
                c[at] = (b, res, c[at][2])
                many.append((n, tuple(c)))
    search(result, "many listeners", H, many, max_depth=2 if quick else 3)
    shared = [(k, o, t) for k in (("a", "a", "a"), ("a", "b", "am"), ("am", "am", "b"), ("am", "bm", "am"), ("a", "x", "a"), ("x", "x", "b"))
              for o in ((None, None, None), ("p", "p", None), ("p", "q", "p")) for t in (False, True)]
    search(result, "one function registered many times", Shared, shared, max_depth=5 if quick else 7)
