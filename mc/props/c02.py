"""Events shared by threads: every interleaving of small programs on the real Event."""
import threading

from core import expect, expect_eq
from sched import explore
from nion.utils import Event


class Base:
    def __init__(self):
        self.event = Event.Event()
        self.calls = []
        self.log = []
        self.tokens = {}
        self.setup()

    def setup(self):
        pass

    def fn(self, name):
        def f(*args):
            self.calls.append((name,) + args)
            self.log.append(("call", name) + args)
            return False
        return f

    def listen(self, name, **kw):
        tok = self.event.listen(self.fn(name), **kw)
        self.tokens[name] = tok
        self.log.append(("listening", name))

    def close(self, name):
        self.log.append(("going", name))
        self.tokens[name].close()
        self.log.append(("closed", name))

    def release(self, name):
        self.log.append(("going", name))
        del self.tokens[name]
        self.log.append(("released", name))

    def fire(self, k, how="fire"):
        self.log.append(("fire", k))
        getattr(self.event, how)(k)
        self.log.append(("fired", k))

    def threads(self):
        return []

    def main(self):
        ts = [threading.Thread(target=t) for t in self.threads()]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.fire("final")

    def check(self, ex):
        """Judge the log: each firing calls each listener registered throughout exactly once."""
        log = self.log
        names = {e[1] for e in log if e[0] in ("listening",)} | set(self.initial)
        fires = {e[1] for e in log if e[0] == "fire"}
        for k in fires:
            i, j = log.index(("fire", k)), log.index(("fired", k))
            for n in names:
                reg = -1 if n in self.initial else log.index(("listening", n))
                gone = min([log.index(e) for e in (("closed", n), ("released", n), ("ownergone", n)) if e in log] or [10 ** 9])
                going = log.index(("going", n)) if ("going", n) in log else 10 ** 9
                c = self.calls.count((n, k))
                expect(c <= 1, "listener %s called %d times by one firing", n, c)
                if reg < i and going > j:
                    expect(c == 1, "listener %s, registered throughout firing %s, was not called", n, k)
                if gone < i:
                    expect(c == 0, "listener %s was called by firing %s although it had gone before", n, k)
        final = [c[0] for c in self.calls if c[1] == "final"]
        order = list(self.initial) + [e[1] for e in log if e[0] == "listening"]
        return final, tuple(c for c in self.calls)

    initial = ()


class ListenListenFire(Base):
    def setup(self):
        self.event_tok = None

    def threads(self):
        return [lambda: self.listen("a"), lambda: self.listen("b"), lambda: self.fire(1)]


class CloseWhileFire(Base):
    initial = ("a", "b")

    def setup(self):
        self.tokens["a"] = self.event.listen(self.fn("a"))
        self.tokens["b"] = self.event.listen(self.fn("b"))

    def threads(self):
        return [lambda: (self.close("a"), self.fire(2)), lambda: self.fire(1, "fire_any")]


class ReleaseWhileListen(Base):
    initial = ("a", "b")

    def setup(self):
        self.tokens["a"] = self.event.listen(self.fn("a"))
        self.tokens["b"] = self.event.listen(self.fn("b"))

    def threads(self):
        return [lambda: self.release("a"), lambda: self.listen("c"), lambda: self.fire(1)]


class ReleaseRelease(Base):
    initial = ("a", "b", "c")

    def setup(self):
        for n in self.initial:
            self.tokens[n] = self.event.listen(self.fn(n))

    def threads(self):
        return [lambda: self.release("a"), lambda: self.release("b"), lambda: self.fire(1)]


class OwnerGone(Base):
    initial = ("a", "b")

    class O:
        pass

    def setup(self):
        self.o = self.O()
        self.event.listen(self.fn("a"), owner=self.o)
        self.tokens["b"] = self.event.listen(self.fn("b"))

    def drop(self):
        self.log.append(("going", "a"))
        self.o = None
        self.log.append(("ownergone", "a"))

    def listen_owned(self):
        self.p = self.O()
        self.event.listen(self.fn("c"), owner=self.p)
        self.log.append(("listening", "c"))

    def threads(self):
        return [self.drop, self.listen_owned, lambda: self.fire(1)]


class FireAll(Base):
    initial = ("a",)

    def setup(self):
        self.results = []
        self.tokens["a"] = self.event.listen(self.fn("a"))
        self.tokens["t"] = self.event.listen(lambda k: True)

    def fn(self, name):
        def f(*args):
            self.calls.append((name,) + args)
            self.log.append(("call", name) + args)
            return True
        return f

    def fire_all(self):
        self.results.append(self.event.fire_all(1))

    def threads(self):
        return [lambda: self.close("a"), self.fire_all, lambda: self.tokens.pop("t")]

    def check(self, ex):
        expect_eq(self.results, [True], "fire_all with only agreeing or closed listeners")
        return super().check(ex)


class ListenListen(Base):
    def threads(self):
        return [lambda: self.listen("a"), lambda: self.listen("b")]


class ListenRelease(Base):
    initial = ("a",)

    def setup(self):
        self.tokens["a"] = self.event.listen(self.fn("a"))

    def threads(self):
        return [lambda: self.release("a"), lambda: self.listen("c")]


class SameFunction(Base):
    """one function registered by two threads is called twice, also for one owner"""
    initial = ()
    owned = False

    class O:
        pass

    def setup(self):
        self.o = self.O()
        self.f = self.fn("f")

    def add(self, i):
        tok = self.event.listen(self.f, owner=self.o) if self.owned else self.event.listen(self.f)
        self.tokens[i] = tok

    def threads(self):
        return [lambda: self.add(0), lambda: self.add(1)]

    def main(self):
        super().main()
        if self.owned:
            self.tokens.clear()
            self.fire("held")
            self.o = None
        else:
            self.tokens.pop(0)
            self.fire("held")
            self.tokens.clear()
        self.fire("none")

    def check(self, ex):
        count = [sum(c[1] == k for c in self.calls) for k in ("final", "held", "none")]
        expect_eq(count, [2, 2 if self.owned else 1, 0], "calls of a function registered twice")
        return tuple(count)


class SameOwner(SameFunction):
    owned = True


PROGRAMS = (SameFunction, SameOwner, ListenListen, ListenRelease, ListenListenFire, CloseWhileFire, ReleaseWhileListen, ReleaseRelease, OwnerGone, FireAll)


def check(result, tier):
    quick = tier == "quick"
    for p in PROGRAMS:
        explore(result, p.__name__ + " opcode", p, bound=1 if quick else 2, opcodes=True)
    for p in PROGRAMS:
        heavy = p in (OwnerGone, ReleaseWhileListen, ListenListenFire)
        explore(result, p.__name__ + " line", p, bound=2 if quick or heavy else 3)
