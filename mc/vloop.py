"""A virtual-time asyncio event loop.

Nothing waits: the harness decides when time passes (advance), which finished executor job reports next
(jobs), and when the loop runs (run_ready).  run_until_complete / run_forever work too and skip over idle
time; a loop with nothing left to wait for raises instead of hanging."""
import asyncio
import asyncio.base_events
import asyncio.events
import heapq

from core import Violation


class _Selector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout=None):
        if timeout is None:
            raise Violation("the event loop would wait forever: nothing is scheduled")
        if timeout > 0:
            self.loop._now += timeout
        return []

    def close(self):
        pass


class Job:
    def __init__(self, future, fn, args, n):
        self.future = future
        self.fn = fn
        self.args = args
        self.n = n
        self.started = False
        self.result = None
        self.error = None

    def run(self):
        """The worker thread executes the function (now)."""
        self.started = True
        try:
            self.result = self.fn(*self.args)
        except Exception as e:
            self.error = e

    def report(self):
        """The result is handed to the loop."""
        if self.future.cancelled():
            return
        if self.error is not None:
            self.future.set_exception(self.error)
        else:
            self.future.set_result(self.result)


class VirtualLoop(asyncio.base_events.BaseEventLoop):
    def __init__(self):
        super().__init__()
        self._now = 0.0
        self._selector = _Selector(self)
        self._clock_resolution = 1e-9
        self.jobs = []
        self.job_count = 0
        self.errors = []
        self.set_exception_handler(lambda loop, ctx: self.errors.append(ctx.get("message")))

    def time(self):
        return self._now

    def _process_events(self, events):
        pass

    def _write_to_self(self):
        pass

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()
        self.job_count += 1
        self.jobs.append(Job(fut, func, args, self.job_count))
        return fut

    def _due(self):
        while self._scheduled and self._scheduled[0]._cancelled:
            h = heapq.heappop(self._scheduled)
            h._scheduled = False
            self._timer_cancelled_count = max(0, self._timer_cancelled_count - 1)
        return bool(self._scheduled) and self._scheduled[0]._when <= self._now + self._clock_resolution

    def next_timer(self):
        self._due()
        return self._scheduled[0]._when if self._scheduled else None

    def step_once(self):
        """Run one round of ready callbacks; False when nothing was ready."""
        if not self._ready and not self._due():
            return False
        old = asyncio.events._get_running_loop()
        asyncio.events._set_running_loop(self)
        try:
            self._run_once()
        finally:
            asyncio.events._set_running_loop(old)
        return True

    def run_ready(self, limit=10000):
        while self.step_once():
            limit -= 1
            if limit < 0:
                raise Violation("the event loop never becomes idle")

    def advance(self, dt):
        """Let dt seconds pass, firing timers in order."""
        target = self._now + dt
        self.run_ready()
        while True:
            w = self.next_timer()
            if w is None or w > target + self._clock_resolution:
                break
            self._now = max(self._now, w)
            self.run_ready()
        self._now = target

    def dispose(self):
        self.jobs.clear()
        for t in asyncio.all_tasks(self):
            t.cancel()
        try:
            self.run_ready()
        finally:
            if not self.is_closed():
                super().close()
