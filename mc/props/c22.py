"""ThreadDispatcher: every interleaving of triggers, the dispatcher thread, timeouts, failures and close."""
import threading
import time

from core import expect, expect_eq
from sched import explore
from nion.utils import ThreadPool


class Boom(Exception):
    pass


class Base:
    TRACEBACKS = False
    INTERVAL = 0.5
    RAISE = ()

    def __init__(self):
        self.log = []
        self.active = 0
        self.n = 0
        self.last_end = None
        self.closed = False
        self.sem = threading.Semaphore(0)
        self.d = ThreadPool.ThreadDispatcher(self.fn, self.INTERVAL)

    def fn(self):
        self.n += 1
        n = self.n
        expect(not self.closed, "invoked after close had returned")
        expect_eq(self.active, 0, "invocations in progress when one starts")
        if self.last_end is not None:
            expect(time.time() - self.last_end >= (self.INTERVAL or 0), "invoked %r s after the previous invocation, minimum interval %r", time.time() - self.last_end, self.INTERVAL)
        self.active += 1
        self.log.append("start")
        self.sem.release()
        self.inside(n)
        self.active -= 1
        self.last_end = time.time()
        self.log.append("end")
        if n in self.RAISE:
            raise Boom()

    def inside(self, n):
        threading.Lock().acquire()      # scheduling point

    def trigger(self, name, wait=False):
        self.log.append(("trigger", name))
        self.d.trigger(wait) if wait else self.d.trigger()
        self.log.append(("triggered", name))

    def await_invocation(self, name):
        """returns when an invocation has begun after the trigger; otherwise the execution deadlocks"""
        while True:
            i = self.log.index(("trigger", name))
            if "start" in self.log[i:]:
                return
            self.sem.acquire()

    def close(self):
        self.d.close()
        expect_eq(self.active, 0, "invocations in progress when close returns")
        self.closed = True
        self.log.append("closed")

    def check(self, ex):
        expect(not ex.leftover, "threads still alive at the end: %r", ex.leftover)
        return self.log

    def spawn(self, *fns):
        ts = [threading.Thread(target=f) for f in fns]
        for t in ts:
            t.start()
        return ts


class Served(Base):
    def main(self):
        self.d.start()
        self.trigger(1)
        self.await_invocation(1)
        self.trigger(2)
        self.await_invocation(2)
        self.close()


class Served2(Base):
    """two threads trigger; both are served"""
    def main(self):
        self.d.start()
        ts = self.spawn(lambda: self.trigger(1), lambda: self.trigger(2))
        for t in ts:
            t.join()
        self.await_invocation(1)
        self.await_invocation(2)
        self.close()


class NoInterval(Served):
    INTERVAL = 0


class WithoutInterval(Served):
    INTERVAL = None

    def main(self):
        self.d.start()
        self.trigger(1)
        self.await_invocation(1)
        self.trigger(2, wait=True)
        self.await_invocation(2)
        self.close()


class WaitTrigger(Base):
    def main(self):
        self.d.start()
        self.trigger(1, wait=True)
        expect("start" in self.log, "a waiting trigger returned without an invocation")
        self.trigger(2, wait=True)
        self.await_invocation(2)
        self.close()


class TwoWaiters(Base):
    def main(self):
        self.d.start()
        ts = self.spawn(lambda: self.trigger(1, wait=True), lambda: self.trigger(2, wait=True))
        for t in ts:
            t.join()
        self.await_invocation(1)
        self.await_invocation(2)
        self.close()


class WaitRaises(Base):
    RAISE = (1,)

    def main(self):
        self.d.start()
        self.trigger(1, wait=True)
        self.trigger(2, wait=True)
        self.await_invocation(2)
        self.close()


class RaiseThenServe(Base):
    RAISE = (1,)

    def main(self):
        self.d.start()
        self.trigger(1)
        self.await_invocation(1)
        self.trigger(2)
        self.await_invocation(2)
        self.close()


class WaitWhileClose(Base):
    def main(self):
        self.d.start()
        ts = self.spawn(lambda: self.trigger(1, wait=True))
        self.close()
        for t in ts:
            t.join()


class WaitWhileClose2(Base):
    """the dispatcher is inside its minimum interval when a waiting trigger and close race"""
    def main(self):
        self.d.start()
        self.trigger(0)
        self.await_invocation(0)
        ts = self.spawn(lambda: self.trigger(1, wait=True))
        self.close()
        for t in ts:
            t.join()


class WaitAfterClose(Base):
    def main(self):
        self.d.start()
        self.close()
        self.trigger(1)
        self.trigger(2, wait=True)


class TriggerWhileClose(Base):
    def main(self):
        self.d.start()
        ts = self.spawn(lambda: (self.trigger(1), self.trigger(2)))
        self.close()
        for t in ts:
            t.join()


class ReentrantB(Base):
    """an invocation triggers again; both invocations happen before close is asked for"""
    def inside(self, n):
        if n == 1:
            self.d.trigger()

    def main(self):
        self.d.start()
        self.trigger(1)
        self.sem.acquire()
        self.sem.acquire()
        self.close()


class Slow(Base):
    """an invocation takes longer than the minimum interval"""
    def inside(self, n):
        time.sleep(self.INTERVAL * 2)

    def main(self):
        self.d.start()
        self.trigger(1)
        self.await_invocation(1)
        self.trigger(2)
        self.await_invocation(2)
        self.close()


class Burst(Base):
    """many triggers, one after the other, while the dispatcher waits for its minimum interval to pass"""
    N = 5

    def main(self):
        self.d.start()
        self.trigger(0)
        self.await_invocation(0)
        for i in range(1, self.N):
            self.trigger(i)
            time.sleep(self.INTERVAL / 10)
        self.await_invocation(self.N - 1)
        self.close()


class SlowWait(Slow):
    RAISE = (1,)

    def main(self):
        self.d.start()
        self.trigger(1, wait=True)
        self.trigger(2, wait=True)
        self.await_invocation(2)
        self.close()


def check(result, tier):
    quick = tier == "quick"
    for p in (Served, NoInterval, WithoutInterval, Slow, SlowWait, WaitTrigger, WaitRaises, RaiseThenServe, WaitAfterClose, ReentrantB, TriggerWhileClose, WaitWhileClose, WaitWhileClose2):
        explore(result, p.__name__, p, bound=3 if quick else 4, horizon=5000)
    explore(result, "Burst", Burst, bound=1 if quick else 2, horizon=5000)
    for p in (Served2, TwoWaiters):
        explore(result, p.__name__, p, bound=1 if quick else 3, horizon=5000)
