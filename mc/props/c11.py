"""Debounce and sample streams on a virtual-time loop: all orderings of input changes, time steps and closing."""
import asyncio
import threading

from core import Violation, enumerate_choices, expect, expect_eq
from sched import explore
from vloop import VirtualLoop
from nion.utils import Stream

P = 1.0     # the period, unless stated otherwise


def make(kind, inp, period, loop):
    return (Stream.DebounceStream if kind == "debounce" else Stream.SampleStream)(inp, period, loop)


class Sys:
    """The stream under test with its environment; monitors every signal."""

    def __init__(self, kind, reentrant, initial, period=P):
        self.kind = kind
        self.period = period
        self.loop = VirtualLoop()
        self.inp = Stream.ValueStream(initial).add_ref()
        self.values = [initial]
        self.changed_at = 0.0        # time of the last change not yet signalled
        self.dirty = True
        self.signals = []            # (time, value)
        self.reentrant = list(reentrant)
        self.closed = False
        self.refs0 = self.inp.ref_count
        self.stream = make(kind, self.inp, period, self.loop).add_ref()
        self.token = self.stream.value_stream.listen(self.on_signal)

    def set(self, v):
        if v != self.inp.value:
            self.values.append(v)
            if not self.dirty:
                self.dirty = True
                self.changed_at = self.loop.time()
        self.inp.value = v

    def on_signal(self, value):
        now = self.loop.time()
        expect(not self.closed, "signal after close")
        expect_eq(value, self.inp.value, "signalled value (input's value at that moment)")
        expect_eq(self.stream.value, value, "value of the stream while signalling")
        if self.signals:
            expect(now - self.signals[-1][0] >= self.period - 1e-6, "two signals within %g of a period", now - self.signals[-1][0])
        else:
            expect(now >= self.period - 1e-6, "first signal before the first period has passed")
        expect(self.dirty, "signal although the input has not changed since the last one")
        if self.kind == "sample":
            expect(abs(now / self.period - round(now / self.period)) < 1e-6, "signal between sampling ticks (at %g)", now)
        self.signals.append((now, value))
        self.dirty = False
        if self.reentrant:
            v = self.reentrant.pop(0)
            if v == "close":
                self.close()
            elif v != "-":
                self.set(v)

    def close(self):
        if not self.closed:
            self.closed = True
            self.stream.remove_ref()

    def advance(self, dt):
        self.loop.advance(dt)
        # a signal follows every change within one period
        if not self.closed and self.dirty:
            expect(self.loop.time() - self.changed_at < self.period - 1e-6, "no signal within one period of a change (changed at %g, now %g)", self.changed_at, self.loop.time())

    def finish(self):
        if not self.closed:
            for _ in range(2 + len(self.reentrant)):
                if not self.closed:
                    self.advance(self.period)
        if not self.closed:
            expect(self.signals, "no signal at all")
            expect_eq(self.signals[-1][1], self.inp.value, "last signal")
            expect(not self.dirty, "the last change was never signalled")
        self.close()
        expect_eq(self.inp.ref_count, self.refs0, "references on the input after close")
        self.loop.run_ready()
        n = len(self.signals)
        pending = [t for t in asyncio.all_tasks(self.loop)]
        expect(not pending, "%d timer tasks still pending after close", len(pending))
        self.inp.value = 99
        self.loop.advance(3 * self.period)
        expect_eq(len(self.signals), n, "signals after close")
        expect(not self.loop.errors, "error reported by the event loop: %r", self.loop.errors)
        out = self.signals
        self.token = None
        self.loop.dispose()
        return out


REENTRANT = [(), (1,), (None, 1), ("-", 2), ("close",), (2, "close"), (0,)]


def make_program(kind, depth):
    def fn(ch):
        s = Sys(kind, ch.pick(REENTRANT), ch.pick([0, None]))
        for i in range(depth):
            op = ch.choose(7)
            if op == 0:
                break
            elif op == 1:
                s.advance(P / 4)
            elif op == 2:
                s.set(1)
            elif op == 3:
                s.set(2 if s.values[0] is None else None)
            elif op == 4:
                s.advance(P)
            elif op == 5:
                s.advance(P * 0.75)
            elif op == 6:
                s.close()
        return s.finish()
    return fn


def make_long(kind, rounds):
    """long quiet stretches and bursts, with several periods"""
    def fn(ch):
        p = ch.pick([0.01, 0.25, 3.0, 60.0])
        s = Sys(kind, (), 0, p)
        for i in range(rounds):
            s.advance(p * ch.pick([0, 0.25, 1, 4, 11.5]))
            for k in range(ch.pick([0, 1, 5])):
                s.set(10 * i + k + 1)
                s.advance(p / 16)
        return s.finish()
    return fn


# ---- the input changes on another thread than the loop's

class SampleThreads:
    N = 1
    VALUES = (2,)

    def __init__(self):
        self.loop = VirtualLoop()
        self.inp = Stream.ValueStream(1).add_ref()
        self.stream = Stream.SampleStream(self.inp, P, self.loop).add_ref()
        self.signals = []
        self.token = self.stream.value_stream.listen(self.signals.append)

    def setter(self):
        for v in self.VALUES:
            self.inp.value = v

    def ticker(self):
        self.loop.advance(P)

    def main(self):
        ts = [threading.Thread(target=self.setter), threading.Thread(target=self.ticker)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.loop.advance(2 * P)

    def check(self, ex):
        expect(self.signals and self.signals[-1] == self.inp.value, "the last signal is %r although the input ended at %r", self.signals, self.inp.value)
        for v in self.signals:
            expect(v in (1,) + self.VALUES, "signalled %r, a value the input never had", v)
        self.stream.remove_ref()
        self.loop.dispose()
        return self.signals


class SampleThreads2(SampleThreads):
    VALUES = (2, 3)


def check(result, tier):
    quick = tier == "quick"
    d = 6 if quick else 8
    for kind in ("debounce", "sample"):
        enumerate_choices(result, kind, make_program(kind, d), bounds={"operations": d, "alphabet": 7, "re-entrant scripts": len(REENTRANT), "initial values": 2})
        enumerate_choices(result, kind + ", long histories", make_long(kind, 3 if quick else 4), bounds={"rounds": 3 if quick else 4, "periods": 4})
    for p in (SampleThreads, SampleThreads2):
        explore(result, p.__name__ + " line", p, bound=2 if quick else 3)
        explore(result, p.__name__ + " opcode", p, bound=1 if quick else 2, opcodes=True)
