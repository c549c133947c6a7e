"""Promise under threads, bytecode granularity."""
import threading

from core import Harness, expect, expect_eq, search
from sched import explore
from nion.utils import Promise


class Boom(Exception):
    pass


class Base:
    FAIL_FIRST = 0
    KINDS = ("v", "v")

    def __init__(self):
        self.evals = 0
        self.ok = 0
        self.running = 0
        self.values = []
        self.opts = []
        self.failures = 0
        self.produced = None
        self.log = []
        self.promise = Promise.Promise(self.fn)

    def fn(self):
        self.evals += 1
        self.running += 1
        expect_eq(self.running, 1, "evaluations in progress")
        n = self.evals
        self.pause()
        self.running -= 1
        if n <= self.FAIL_FIRST:
            raise Boom()
        self.ok += 1
        self.produced = ("value", n)
        return self.produced

    def pause(self):
        threading.Lock().acquire()      # a scheduling point inside the evaluation

    def get(self):
        try:
            v = self.promise.value
        except Boom:
            self.failures += 1
        else:
            expect(v is self.produced, "a caller received %r instead of the evaluated value %r", v, self.produced)
            self.values.append(v)
        self.log.append(threading.current_thread().name)

    def peek(self):
        before = self.ok
        has = self.promise.has_value
        o = self.promise.opt_value
        expect(o is None or o is self.produced, "the non-evaluating access returned %r", o)
        if has:
            expect(o is self.produced, "has_value but opt_value is %r", o)
        if before:
            pass
        self.opts.append(o is not None)
        self.log.append(threading.current_thread().name)

    def main(self):
        ts = [threading.Thread(target={"v": self.get, "o": self.peek}[k], name="t%d" % i) for i, k in enumerate(self.KINDS)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    def check(self, ex):
        nv = self.KINDS.count("v")
        expect_eq(self.failures + len(self.values), nv, "number of answers")
        if nv:
            expect_eq(self.ok, 1 if nv > self.FAIL_FIRST else 0, "successful evaluations")
            expect_eq(self.evals, min(nv, self.FAIL_FIRST) + self.ok, "evaluations")
            expect_eq(self.failures, min(nv, self.FAIL_FIRST), "failures seen")
        else:
            expect_eq(self.evals, 0, "evaluations")
        if self.ok:
            expect(self.promise.value is self.produced and self.promise.opt_value is self.produced, "the value stays")
            expect(self.promise.has_value, "has a value after evaluation")
            expect_eq(self.evals, min(nv, self.FAIL_FIRST) + self.ok, "evaluations after asking again")
        return self.evals, self.failures, self.opts, self.log


class TwoGet(Base):
    pass


class ThreeGet(Base):
    KINDS = ("v", "v", "v")


class GetPeek(Base):
    KINDS = ("v", "o", "o")


class GetGetPeek(Base):
    KINDS = ("v", "v", "o")


class PeekPeek(Base):
    KINDS = ("o", "o")


class FailFirst(Base):
    FAIL_FIRST = 1


class FailFirst3(Base):
    FAIL_FIRST = 1
    KINDS = ("v", "v", "v")


class FailTwo(Base):
    FAIL_FIRST = 2


class H(Harness):
    """sequential: values of every kind (falsy ones too), failures, repeated and non-evaluating access"""
    def __init__(self, config):
        super().__init__(config)
        self.value, self.fail = config
        self.evals = 0
        self.promise = Promise.Promise(self.fn)
        self.done = False

    def fn(self):
        self.evals += 1
        if self.evals <= self.fail:
            raise Boom()
        return self.value

    def ops(self):
        yield ("value",)
        yield ("opt",)
        yield ("has",)

    def apply(self, op):
        e = self.evals
        if op[0] == "value":
            if self.done:
                expect(self.promise.value is self.value, "value")
                expect_eq(self.evals, e, "evaluations")
            elif e < self.fail:
                try:
                    self.promise.value
                except Boom:
                    pass
                else:
                    expect(False, "failure hidden")
                expect_eq(self.evals, e + 1, "evaluations")
            else:
                expect(self.promise.value is self.value, "value")
                expect_eq(self.evals, e + 1, "evaluations")
                self.done = True
        elif op[0] == "opt":
            expect(self.promise.opt_value is (self.value if self.done else None), "opt_value")
            expect_eq(self.evals, e, "evaluations")
        else:
            if self.value is not None:
                expect_eq(bool(self.promise.has_value), self.done, "has_value")
            expect_eq(self.evals, e, "evaluations")


def check(result, tier):
    quick = tier == "quick"
    search(result, "sequential", H, [(v, f) for v in (5, 0, "", False, (), None) for f in (0, 1, 2)], max_depth=5)
    for p in (TwoGet, GetPeek, PeekPeek, FailFirst, FailTwo):
        explore(result, p.__name__, p, bound=2 if quick else 3, opcodes=True)
    for p in (ThreeGet, FailFirst3, GetGetPeek):
        explore(result, p.__name__, p, bound=1 if quick else 2, opcodes=True)
