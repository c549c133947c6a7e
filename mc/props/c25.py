"""close_event_loop: all small sets of pending work, all completion orders of background jobs, on a virtual loop."""
import asyncio
import time

from core import Violation, enumerate_choices, expect, expect_eq
import vloop
from nion.utils import Process


class Boom(Exception):
    pass


class Executor:
    """the pool behind loop.run_in_executor: shutting it down waits for the jobs it was given"""

    def __init__(self, loop):
        self.loop = loop
        self.waited = 0

    def shutdown(self, wait=True, *, cancel_futures=False):
        if wait:
            self.waited += 1
            if not cancel_futures:
                for job in list(self.loop.jobs):
                    job.run()
                    if not self.loop.is_closed():
                        self.loop.call_soon_threadsafe(job.report)
            self.loop.jobs.clear()


class Loop(vloop.VirtualLoop):
    """when the loop would wait for ever, one of the running background jobs finishes"""

    def __init__(self, ch):
        super().__init__()
        self.ch = ch
        self.ex = None
        self._selector = Sel(self)

    def run_in_executor(self, executor, func, *args):
        if self._default_executor is None:
            self.ex = self._default_executor = Executor(self)
        return super().run_in_executor(executor, func, *args)

    def finish_job(self):
        job = self.jobs.pop(self.ch.choose(len(self.jobs)))
        job.run()
        job.report()


class Sel:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout=None):
        if timeout is not None and timeout <= 0:
            return []
        if self.loop.jobs and (timeout is None or self.loop.ch.choose(2) == 0):
            self.loop.finish_job()
        elif timeout is None:
            end = time.time() + 2.0
            while time.time() < end:      # a real helper thread may be about to report
                if self.loop._ready:
                    return []
                time.sleep(0.002)
            raise Violation("closing waits for ever: nothing is scheduled")
        else:
            self.loop._now += timeout
        return []

    def close(self):
        pass


KINDS = ["instant", "sleep1", "sleep2", "job", "jobfail", "raise", "sleepraise", "cancelled", "cancelself", "swallow", "chain", "spawnwait", "future", "callback", "timer1", "bgjob", "starter"]


def make_program(n):
    def fn(ch):
        loop = Loop(ch)
        asyncio.events._set_running_loop(None)
        asyncio.set_event_loop(loop)
        done = []
        expected = []
        cancel = []
        keep = []
        names = []
        tasks = []

        async def work(name, kind):
            if kind == "instant":
                pass
            elif kind == "sleep1":
                await asyncio.sleep(1)
            elif kind == "sleep2":
                await asyncio.sleep(2)
                await asyncio.sleep(0)
            elif kind in ("job", "jobfail"):
                def job():
                    done.append(name + " job")
                    if kind == "jobfail":
                        raise Boom()
                    return 3
                r = await loop.run_in_executor(None, job)
                expect_eq(r, 3, "result of the job")
            elif kind == "raise":
                done.append(name)
                raise Boom()
            elif kind == "sleepraise":
                await asyncio.sleep(1)
                done.append(name)
                raise Boom()
            elif kind == "cancelled":
                try:
                    await asyncio.sleep(3)
                finally:
                    done.append(name)
                return
            elif kind == "cancelself":
                done.append(name)
                asyncio.current_task().cancel()
                await asyncio.sleep(1)
            elif kind == "swallow":
                try:
                    await asyncio.sleep(3)
                except asyncio.CancelledError:
                    await asyncio.sleep(1)
            elif kind == "chain":
                for _ in range(4):
                    await asyncio.sleep(0)
            elif kind == "spawnwait":
                await loop.create_task(work(name + " inner", "sleep1"))
            elif kind == "future":
                f = loop.create_future()
                loop.call_later(1.5, lambda: f.set_result(None) if not f.done() else None)
                await f
            done.append(name)

        for i in range(n):
            k = KINDS[ch.choose(len(KINDS))]
            name = "%s%d" % (k, i)
            names.append(name)
            if k == "callback":
                loop.call_soon(done.append, name)
                expected.append(name)
            elif k == "starter":
                # a callback that starts a task of several steps
                loop.call_soon(lambda name=name: tasks.append(loop.create_task(work(name, "sleep2"))))
                expected.append(name)
            elif k == "bgjob":
                loop.run_in_executor(None, done.append, name)
                expected.append(name)
            elif k == "timer1":
                loop.call_later(1, lambda: None)
            else:
                t = loop.create_task(work(name, k))
                tasks.append(t)
                if k in ("cancelled", "swallow"):
                    cancel.append(t)
                if k not in ("jobfail",):
                    expected.append(name)
                if k in ("job", "jobfail"):
                    expected.append(name + " job")
                if k == "spawnwait":
                    expected.append(name + " inner")
        if not loop.jobs and ch.choose(2):
            loop.ex = loop._default_executor = Executor(loop)
        # tasks may or may not have begun when the loop is closed
        begun = ch.choose(2)
        if begun:
            loop.step_once()
        if cancel and begun:
            for t in cancel:
                t.cancel()
        elif cancel:
            expected = [e for e in expected]      # never cancelled: they simply run to their end
        Process.close_event_loop(loop)
        ex = loop.ex
        expect(loop.is_closed(), "the loop is not closed")
        expect_eq(sorted(done), sorted(expected), "work done when closing returned (%s)" % names)
        for t in tasks:
            expect(t.done(), "a task is still pending after close")
        if ex is not None:
            expect(ex.waited >= 1, "the default executor was not shut down in an orderly way (waiting for its jobs)")
        for t in tasks:
            if not t.cancelled():
                t.exception()
        return done
    fn.TRACEBACKS = False
    return fn


def check(result, tier):
    try:
        for n in ((0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4)):
            enumerate_choices(result, "%d pending" % n, make_program(n), bounds={"pending things": n, "kinds": len(KINDS)})
    finally:
        asyncio.set_event_loop(None)
