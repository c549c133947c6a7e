"""Reference counting under threads, bytecode granularity."""
import threading

from core import Harness, expect, expect_eq, search
from sched import explore
from nion.utils import ReferenceCounting


class Boom(Exception):
    pass


class Base:
    INITIAL = 0

    def __init__(self):
        test = self
        self.held = 0
        self.disposed = 0
        self.log = []

        class Counted(ReferenceCounting.ReferenceCounted):
            def about_to_delete(self):
                test.disposed += 1
                test.log.append("dispose")
                expect(test.held == 0, "disposed while %d references are held", test.held)
                expect_eq(self.ref_count, 0, "reference count during disposal")
        self.obj = Counted()
        for _ in range(self.INITIAL):
            self.obj.add_ref()
            self.held += 1

    def add(self):
        r = self.obj.add_ref()
        self.held += 1
        self.log.append("added")

    def remove(self):
        self.held -= 1
        self.log.append("remove")
        self.obj.remove_ref()
        self.log.append("removed")

    def cycle(self):
        self.add()
        self.remove()

    def with_ref(self):
        with self.obj.ref():
            self.held += 1
            self.held -= 1

    def threads(self):
        return []

    EXPECT_COUNT = 0
    EXPECT_DISPOSED = 1

    def main(self):
        ts = [threading.Thread(target=t) for t in self.threads()]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    def check(self, ex):
        expect_eq(self.obj.ref_count, self.EXPECT_COUNT, "reference count after all threads finished")
        expect_eq(self.disposed, self.EXPECT_DISPOSED, "number of disposals")
        return (self.obj.ref_count, self.disposed, self.log)


class TwoRelease(Base):
    INITIAL = 2

    def threads(self):
        return [self.remove, self.remove]


class ThreeRelease(Base):
    INITIAL = 3

    def threads(self):
        return [self.remove, self.remove, self.remove]


class CycleRelease(Base):
    """references come and go while another thread releases the first one"""
    INITIAL = 1

    def threads(self):
        return [self.cycle, self.remove]

    def check(self, ex):
        expect_eq(self.obj.ref_count, 0, "reference count after all threads finished")
        expect_eq(self.disposed, 1, "number of disposals")
        return self.disposed, self.log


class HeldThroughout(Base):
    INITIAL = 1
    EXPECT_COUNT = 1
    EXPECT_DISPOSED = 0

    def threads(self):
        return [self.cycle, self.with_ref]


class AddAdd(Base):
    INITIAL = 1
    EXPECT_COUNT = 3
    EXPECT_DISPOSED = 0

    def threads(self):
        return [self.add, self.add]


class FromZero(Base):
    """each thread may be the one that releases last; disposal happens once although the count may return to zero twice"""
    INITIAL = 0

    def threads(self):
        return [self.cycle, self.cycle]


class OverRelease(Base):
    """more releases than references: the surplus one is refused"""
    INITIAL = 1

    def attempt(self):
        try:
            self.obj.remove_ref()
        except AssertionError:
            self.log.append("refused")

    def threads(self):
        self.held = 0
        return [self.attempt, self.attempt]

    def check(self, ex):
        expect_eq(self.log.count("refused"), 1, "refused releases")
        return super().check(ex)


class H(Harness):
    """sequential histories: add, remove, remove without disposal, context managers"""

    def __init__(self, config):
        super().__init__(config)
        test = self
        self.disposals = []

        class Counted(ReferenceCounting.ReferenceCounted):
            def about_to_delete(self):
                test.disposals.append(self.ref_count)
                if config == "uses itself":
                    # cleaning up may need a temporary reference
                    self.add_ref()
                    self.remove_ref()
                    with self.ref():
                        pass
                elif config == "fails":
                    raise Boom()
        self.obj = Counted()
        self.count = 0
        self.expected = 0
        self.ctx = []

    def roots(self):
        return [self.obj.__dict__, self.count, self.expected, self.ctx]

    def ops(self):
        if self.count < 4:
            yield ("add",)
            yield ("enter",)
        if self.count > len(self.ctx):
            yield ("remove",)
            yield ("remove_nocheck",)
        if self.ctx:
            yield ("exit",)
            yield ("exit_raising",)
        yield ("remove_none",) if self.count == 0 else ("noop",)

    def apply(self, op):
        k = op[0]
        if k == "add":
            expect(self.obj.add_ref() is self.obj, "add_ref returns the object")
            self.count += 1
        elif k == "enter":
            c = self.obj.ref()
            expect_eq(self.obj.ref_count, self.count, "making the context takes no reference")
            c.__enter__()
            self.ctx.append(c)
            self.count += 1
        elif k in ("exit", "exit_raising"):
            # the block ends normally or with an exception
            e = Boom()
            self.attempt(lambda: self.ctx.pop().__exit__(*((type(e), e, None) if k == "exit_raising" else (None, None, None))))
            self.count -= 1
            if self.count == 0 and not self.expected:
                self.expected = 1
        elif k == "remove":
            self.attempt(self.obj.remove_ref)
            self.count -= 1
            if self.count == 0 and not self.expected:
                self.expected = 1
        elif k == "remove_nocheck":
            self.obj.remove_ref(False)
            self.count -= 1
        elif k == "remove_none":
            try:
                self.obj.remove_ref()
            except AssertionError:
                pass
            else:
                expect(False, "releasing an unreferenced object is refused")
        expect_eq(self.obj.ref_count, self.count, "reference count")
        expect_eq(self.disposals, [0] * self.expected, "disposals (count seen by each)")

    def attempt(self, fn):
        try:
            fn()
        except Boom:
            pass

    def observe(self):
        return self.count, self.expected


def check(result, tier):
    quick = tier == "quick"
    search(result, "sequential", H, ["plain", "uses itself", "fails"], max_depth=6 if quick else 9)
    for p in (TwoRelease, CycleRelease, HeldThroughout, AddAdd, FromZero, OverRelease):
        explore(result, p.__name__, p, bound=2 if quick else 3, opcodes=True)
    explore(result, "ThreeRelease", ThreeRelease, bound=1 if quick else 2, opcodes=True)
