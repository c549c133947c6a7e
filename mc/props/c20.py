"""Task queues and task sets: sequential histories and thread interleavings."""
import threading

from core import Harness, enumerate_domain, expect, expect_eq, search
from sched import explore
from nion.utils import Process


class Boom(Exception):
    pass


class QueueH(Harness):
    """tasks: plain, raising, putting another task, performing re-entrantly, clearing"""
    TRACEBACKS = False

    def __init__(self, config):
        super().__init__(config)
        self.q = Process.TaskQueue()
        self.n = 0
        self.model = []
        self.log = []
        self.depth = 0

    def roots(self):
        return [list(self.q.queue), self.q.unfinished_tasks, self.model]

    def put(self, kind):
        self.n += 1
        n = self.n
        # identity relative to the tasks already waiting, so that histories merge
        t = Task(self, kind)
        self.model.append(t)
        self.q.put(t)

    def ops(self):
        if len(self.model) < 4:
            for k in ("n", "x", "p", "P", "c"):
                yield ("put", k)
        yield ("perform",)
        yield ("clear",)

    def perform(self):
        due = list(self.model)
        raised = False
        n0 = len(self.log)
        self.depth += 1
        try:
            self.q.perform_tasks()
        except Boom:
            raised = True
        self.depth -= 1
        left = [t for t in due if t in self.model]
        if not raised:
            expect(not left, "%d tasks that were queued when performing began were not executed", len(left))
        return raised

    def apply(self, op):
        self.log = []
        if op[0] == "put":
            self.put(op[1])
        elif op[0] == "clear":
            self.q.clear_tasks()
            self.model.clear()
        else:
            had = list(self.model)
            raised = self.perform()
            if raised:
                expect(any(t.kind == "x" for t in had), "perform raised without a raising task")
                expect(self.log and self.log[-1] == "x", "the raising task was not the last executed")
            else:
                expect("x" not in self.log, "the exception of a task was hidden")
        expect_eq(self.q.qsize(), len(self.model), "number of waiting tasks")

    def observe(self):
        return self.log, [t.kind for t in self.model]

    def finish(self):
        # everything still waiting is executed by further perform calls, and then nothing is left
        for _ in range(12):
            if not self.model:
                break
            self.perform()
        expect(not self.model, "tasks left: %r", [t.kind for t in self.model])
        n = len(self.log)
        self.perform()
        expect_eq(len(self.log), n, "tasks executed on an empty queue")


class Task:
    def __init__(self, h, kind):
        self.h = h
        self.kind = kind

    def __call__(self):
        h = self.h
        expect(h.model, "a task was executed although none is waiting")
        expect(h.model[0] is self, "task executed out of order, twice or after being cleared")
        h.model.pop(0)
        h.log.append(self.kind)
        if self.kind == "x":
            raise Boom()
        if self.kind == "p":
            h.put("n")
        if self.kind == "P" and h.depth < 2:
            if h.perform():
                raise Boom()
        if self.kind == "c":
            h.q.clear_tasks()
            h.model.clear()


KEYS = ("a", 0, None)     # any hashable value


class SetH(Harness):
    def __init__(self, config):
        super().__init__(config)
        self.s = Process.TaskSet()
        self.model = {}
        self.log = []
        self.performing = None

    def roots(self):
        return [self.s, self.model]

    def add(self, key, kind):
        t = STask(self, key, kind)
        self.model[key] = t
        self.s.add_task(key, t)

    def ops(self):
        for key in KEYS:
            for kind in ("n", "s", "o", "P", "k"):
                yield ("add", key, kind)
            yield ("clear", key)
        yield ("perform",)

    def perform(self):
        due = dict(self.model)
        self.model.clear()
        saved = self.performing
        self.performing = due
        self.s.perform_tasks()
        expect(not due, "tasks not executed: %r", [t.kind for t in due.values()])
        self.performing = saved

    def apply(self, op):
        self.log = []
        if op[0] == "add":
            self.add(op[1], op[2])
        elif op[0] == "clear":
            self.s.clear_task(op[1])
            self.model.pop(op[1], None)
        else:
            self.perform()

    def observe(self):
        return sorted(self.log, key=repr), sorted(self.model, key=repr)

    def finish(self):
        for _ in range(3):
            self.perform()


class STask:
    def __init__(self, h, key, kind):
        self.h = h
        self.key = key
        self.kind = kind

    def __call__(self):
        h = self.h
        expect(h.performing is not None, "a task ran outside perform")
        expect(h.performing.get(self.key) is self, "a task was executed that was replaced, cleared or already executed (%s)", self.kind)
        del h.performing[self.key]
        h.log.append((self.key, self.kind))
        if self.kind == "s":      # add a task under its own key while performing
            h.add(self.key, "n")
        if self.kind == "o":      # add a task under another key while performing
            h.add(0 if self.key != 0 else "a", "n")
        if self.kind == "k":      # clear another key while performing: nothing that is already due is affected
            h.s.clear_task(None)
            h.model.pop(None, None)
        if self.kind == "P" and len(h.log) < 6:
            h.perform()


# ---- threads

class QBase:
    PUTS = (("a1", "a2"),)
    PERFORMERS = 1

    def __init__(self):
        self.q = Process.TaskQueue()
        self.done = []

    def putter(self, names):
        def f():
            for n in names:
                self.q.put(self.task(n))
        return f

    def task(self, n):
        def t():
            self.done.append(n)
        return t

    def main(self):
        ts = [threading.Thread(target=self.putter(p)) for p in self.PUTS] + [threading.Thread(target=self.q.perform_tasks) for _ in range(self.PERFORMERS)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.mid = list(self.done)
        self.q.perform_tasks()

    def check(self, ex):
        expect_eq(sorted(self.done), sorted(sum(self.PUTS, ())), "tasks executed")
        if self.PERFORMERS == 1:
            for p in self.PUTS:
                expect_eq([n for n in self.done if n in p], list(p), "execution order of tasks of one thread")
        self.q.join()
        return self.mid, self.done


class OnePutOnePerform(QBase):
    pass


class TwoPutOnePerform(QBase):
    PUTS = (("a1",), ("b1",))


class TwoPerform(QBase):
    PUTS = (("a1", "a2"),)
    PERFORMERS = 2


class SBase:
    def __init__(self):
        self.s = Process.TaskSet()
        self.done = []
        self.added = []

    def add(self, key, n):
        self.added.append((key, n))
        self.s.add_task(key, lambda: self.done.append((key, n)))

    def main(self):
        ts = [threading.Thread(target=t) for t in self.threads()]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.mid = list(self.done)
        self.s.perform_tasks()
        n = len(self.done)
        self.s.perform_tasks()
        expect_eq(len(self.done), n, "tasks executed by a perform call with nothing added")

    def check(self, ex):
        expect_eq(len(set(self.done)), len(self.done), "a task was executed twice (executions)")
        for key in {k for k, _ in self.added}:
            mine = [n for k, n in self.added if k == key]
            got = [n for k, n in self.done if k == key]
            expect(got, "no task under key %r was executed", key)
            if len(self.owners.get(key, ())) <= 1:
                expect_eq(got[-1], mine[-1], "last executed task under key %r" % key)
                expect_eq(got, [n for n in mine if n in got], "order under key %r" % key)
        return self.mid, self.done

    owners = {}


class AddPerform(SBase):
    def threads(self):
        return [lambda: (self.add("a", 1), self.add("a", 2)), lambda: self.s.perform_tasks()]


class AddAddPerform(SBase):
    def threads(self):
        return [lambda: self.add("a", 1), lambda: self.add("b", 2), lambda: self.s.perform_tasks()]


class PerformPerform(SBase):
    def threads(self):
        self.add("a", 1)
        self.add("b", 2)
        return [lambda: self.s.perform_tasks(), lambda: self.s.perform_tasks()]


class ClearPerform(SBase):
    def threads(self):
        self.add("a", 1)
        self.add("b", 2)
        return [lambda: self.s.clear_task("a"), lambda: self.s.perform_tasks()]

    def check(self, ex):
        expect_eq(sorted(self.done + [("a", 1)])[-1], ("b", 2), "the other key is executed")
        expect_eq(len(set(self.done)), len(self.done), "a task was executed twice (executions)")
        return self.mid, self.done


def many_tasks(item):
    """n tasks, some raising; perform calls until nothing is left"""
    n, raising = item
    q = Process.TaskQueue()
    log = []

    def task(i):
        def f():
            log.append(i)
            if raising and i % raising == 1:
                raise Boom()
        return f
    for i in range(n):
        q.put(task(i))
    for _ in range(n + 1):
        try:
            q.perform_tasks()
        except Boom:
            expect(raising, "perform raised")
        else:
            break
    expect_eq(log, list(range(n)), "tasks executed")
    s = Process.TaskSet()
    log.clear()
    for k in range(2):
        for i in range(n):
            s.add_task(i, task(1000 * k + i) if not raising else (lambda v=1000 * k + i: log.append(v)))
    for i in range(0, n, 5):
        s.clear_task(i)
    s.perform_tasks()
    expect_eq(sorted(log), [1000 + i for i in range(n) if i % 5], "tasks of the set executed")
    s.perform_tasks()
    expect_eq(len(log), n - len(range(0, n, 5)), "tasks of the set executed twice")
    return n


def check(result, tier):
    quick = tier == "quick"
    enumerate_domain(result, "many tasks", [(n, r) for n in range(200) for r in (0, 7)], many_tasks)
    search(result, "queue histories", QueueH, [0], max_depth=5 if quick else 7)
    search(result, "set histories", SetH, [0], max_depth=4 if quick else 5)
    for p in (OnePutOnePerform, TwoPutOnePerform, TwoPerform):
        explore(result, p.__name__ + " line", p, bound=2 if quick else 3)
    for p in (AddPerform, AddAddPerform, PerformPerform, ClearPerform):
        explore(result, p.__name__ + " line", p, bound=2 if quick else 3)
        explore(result, p.__name__ + " opcode", p, bound=1 if quick else 2, opcodes=True)
