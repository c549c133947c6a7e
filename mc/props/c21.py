"""ThreadPool: every interleaving of queueing, workers and close."""
import threading

from core import Harness, expect, expect_eq, search
from sched import explore
from nion.utils import ThreadPool


class Boom(Exception):
    pass


class Base:
    TRACEBACKS = False
    WORKERS = 1

    def __init__(self):
        self.pool = ThreadPool.ThreadPool()
        self.started = []
        self.ended = []
        self.queued = []
        self.close_began = False
        self.closed = False
        self.active = 0
        self.order = []

    def call(self, name, then=None):
        def f():
            expect(not self.closed, "queued call %s started after close had returned", name)
            expect(name not in self.started, "queued call %s executed twice", name)
            self.started.append(name)
            if then:
                then()
            threading.Lock().acquire()      # scheduling point inside the call
            self.ended.append(name)
        return f

    def queue(self, name, then=None):
        self.queued.append(name)
        self.pool.queue_fn(self.call(name, then))

    def close(self):
        self.close_began = True
        self.pool.close()
        for n in self.started:
            expect(n in self.ended or n in self.raising, "close returned while call %s is in progress", n)
        self.closed = True

    raising = ()

    def check(self, ex):
        expect(not ex.leftover, "threads still alive at the end: %r", ex.leftover)
        if self.WORKERS == 1:
            expect_eq(self.started, [n for n in self.queued if n in self.started], "order of execution with one worker")
        return self.started


class QueueThenClose(Base):
    def main(self):
        self.pool.start(self.WORKERS)
        self.queue("a")
        self.queue("b")
        self.close()
        self.queue("late")

    def check(self, ex):
        expect("late" not in self.started, "a call queued after close was executed")
        return super().check(ex)


class TwoWorkers(QueueThenClose):
    WORKERS = 2


class QueueBeforeStart(Base):
    def main(self):
        self.queue("a")
        self.pool.start(1)
        self.queue("b")
        self.close()


class WaitAll(Base):
    """never closed before the calls are done: each runs exactly once"""
    N = ("a", "b")

    def main(self):
        done = threading.Semaphore(0)
        self.pool.start(self.WORKERS)
        for n in self.N:
            self.queue(n, done.release)
        for n in self.N:
            done.acquire()
        self.close()

    def check(self, ex):
        expect_eq(sorted(self.started), sorted(self.N), "calls executed")
        return super().check(ex)


class WaitAll2(WaitAll):
    WORKERS = 2


class Many(WaitAll):
    N = tuple("c%d" % i for i in range(40))


class Many2(Many):
    N = tuple("c%d" % i for i in range(18))
    WORKERS = 2


class ManyClose(Base):
    WORKERS = 3

    def main(self):
        self.pool.start(self.WORKERS)
        for i in range(30):
            self.queue("c%d" % i)
        self.close()
        self.queue("late")

    def check(self, ex):
        expect("late" not in self.started, "a call queued after close was executed")
        return super().check(ex)


class Raising(Base):
    raising = ("a",)

    def main(self):
        done = threading.Semaphore(0)
        self.pool.start(1)

        def boom():
            raise Boom()
        self.queue("a", boom)
        self.queue("b", done.release)
        done.acquire()
        self.close()

    def check(self, ex):
        expect_eq(self.started, ["a", "b"], "calls executed")
        return super().check(ex)


class Nested(Base):
    def main(self):
        done = threading.Semaphore(0)
        self.pool.start(1)
        self.queue("a", lambda: self.queue("n", done.release))
        done.acquire()
        self.close()

    def check(self, ex):
        expect_eq(self.started, ["a", "n"], "calls executed")
        return super().check(ex)


class NestedClose(Base):
    """a call queues another call while the pool is being closed"""
    def main(self):
        self.pool.start(1)
        self.queue("a", lambda: self.queue("n"))
        self.close()


class QueueWhileClose(Base):
    def main(self):
        self.pool.start(1)
        t = threading.Thread(target=lambda: self.queue("a"))
        t.start()
        self.close()
        t.join()


class RunAll(Base):
    """the caller executes the queue itself"""
    def main(self):
        t = threading.Thread(target=lambda: self.queue("b"))
        self.queue("a")
        t.start()
        self.pool.run_all()
        t.join()
        self.pool.run_all()
        expect_eq(sorted(self.started), ["a", "b"], "calls executed")
        self.close()


class RunAllClose(Base):
    """one thread executes the queue itself while another closes the pool"""
    def runner(self):
        self.pool.run_all()

    def main(self):
        self.queue("a")
        self.queue("b")
        t = threading.Thread(target=self.runner)
        t.start()
        self.close()
        t.join()


class RunOneClose(RunAllClose):
    def runner(self):
        self.pool.run_one()

    def check(self, ex):
        expect(len(self.started) <= 1, "run_one executed %r", self.started)
        return super().check(ex)


class SeqH(Harness):
    """queue_fn / run_one / run_all / close without workers, all histories"""
    TRACEBACKS = False

    def __init__(self, config):
        super().__init__(config)
        self.pool = ThreadPool.ThreadPool()
        self.model = []
        self.closed = False
        self.log = []

    def roots(self):
        return [[c.kind for c in self.model], self.closed, self.pool.__dict__.get("_ThreadPool__tasks"), len(self.model)]

    def ops(self):
        if len(self.model) < 4:
            for k in ("n", "x", "q", "1"):
                yield ("queue", k)
        yield ("one",)
        yield ("all",)
        if not self.closed:
            yield ("close",)

    def queue(self, kind):
        c = Call(self, kind)
        if not self.closed:
            self.model.append(c)
        self.pool.queue_fn(c)

    def apply(self, op):
        self.log = []
        if op[0] == "queue":
            self.queue(op[1])
        elif op[0] == "one":
            n = len(self.model)
            self.pool.run_one()
            if n:
                expect(len(self.log) >= 1, "run_one did not execute the waiting call")
            else:
                expect_eq(self.log, [], "calls executed with none waiting")
        elif op[0] == "all":
            self.pool.run_all()
            expect_eq(len(self.model), 0, "calls left by run_all")
        elif op[0] == "close":
            self.pool.close()
            self.closed = True
            self.model.clear()

    def observe(self):
        return self.log, self.closed, len(self.model)


class Call:
    def __init__(self, h, kind):
        self.h = h
        self.kind = kind

    def __call__(self):
        h = self.h
        expect(h.model and h.model[0] is self, "call executed out of order, twice or after close")
        h.model.pop(0)
        h.log.append(self.kind)
        if self.kind == "x":
            raise Boom()
        if self.kind == "q" and len(h.log) < 8:
            h.queue("n")
        if self.kind == "1" and len(h.log) < 8:
            h.pool.run_one()


def check(result, tier):
    quick = tier == "quick"
    search(result, "sequential", SeqH, [0], max_depth=5 if quick else 7, dedupe=False)
    for p in (QueueThenClose, QueueBeforeStart, WaitAll, Raising, Nested, NestedClose, QueueWhileClose, RunAll, RunAllClose, RunOneClose):
        explore(result, p.__name__, p, bound=2 if quick else 3)
    for p in (TwoWorkers, WaitAll2):
        explore(result, p.__name__, p, bound=1 if quick else 2)
    for p in (QueueThenClose, NestedClose, QueueWhileClose):
        explore(result, p.__name__ + " opcode", p, bound=1 if quick else 2, opcodes=True)
    for p in (Many, Many2, ManyClose):
        explore(result, p.__name__, p, bound=0 if quick else 1, horizon=60000)
