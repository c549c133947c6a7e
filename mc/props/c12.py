"""Background-evaluated model: all completion orders and failures on a virtual loop."""
from core import enumerate_choices, expect, expect_eq
from vloop import VirtualLoop
from nion.utils import Model, Stream


class Boom(Exception):
    pass


class Fn:
    def __init__(self, n, fail, same):
        self.n = n
        self.fail = fail
        self.result = n // 2 if same is True else same[(n - 1) % len(same)] if same else n

    def __call__(self):
        if self.fail:
            raise Boom()
        return self.result


def make_program(inputs, same, react=False):
    def fn(ch):
        loop = VirtualLoop()
        fns = []

        def new():
            f = Fn(len(fns) + 1, bool(ch.choose(2)), same)
            fns.append(f)
            return f
        stream = Stream.ValueStream(new()).add_ref()
        model = Model.FuncStreamValueModel(stream, loop, value=-1)
        heard = []

        def told(key):
            heard.append((key, model.value))
            if react and len(fns) < inputs and ch.choose(2):
                stream.value = new()         # a listener asks for more
        token = model.property_changed_event.listen(told)
        applied = 0           # newest input whose result the model has shown
        seen = [model.value]
        log = []

        def observe():
            nonlocal applied
            v = model.value
            if v is not seen[-1]:
                expect(heard and heard[-1] == ("value", v), "the value changed to %r without a signal", v)
                if not same:
                    expect(v > seen[-1], "the model went back from %r to %r", seen[-1], v)
                seen.append(v)
            heard.clear()
        while True:
            choices = []
            if len(fns) < inputs:
                choices.append("new")
            if loop._ready:
                choices.append("run")
            choices += [("done", j) for j in loop.jobs]
            if not choices:
                break
            c = ch.pick(choices)
            if c == "new":
                stream.value = new()
                log.append("new")
            elif c == "run":
                loop.step_once()
                log.append("run")
            else:
                job = c[1]
                loop.jobs.remove(job)
                job.run()
                job.report()
                log.append("done%d" % job.n)
            observe()
        good = [f for f in fns if not f.fail]
        if good:
            expect_eq(model.value, good[-1].result, "final value after %s (failed: %r)" % (log, [f.n for f in fns if f.fail]))
        else:
            expect_eq(model.value, -1, "final value when every evaluation failed")
        expect_eq(loop.job_count, len(fns), "number of evaluations")
        r = stream.ref_count
        model.close()
        expect_eq(stream.ref_count, r - 1, "references on the function stream after close")
        loop.run_ready()
        loop.dispose()
        return seen
    fn.TRACEBACKS = False
    return fn


def make_many(inputs):
    """many evaluations under way at once; the oldest or the newest finishes next"""
    def fn(ch):
        loop = VirtualLoop()
        fns = [Fn(i + 1, False, False) for i in range(inputs)]
        fail = ch.pick([None, 0, inputs - 1])
        if fail is not None:
            fns[fail].fail = True
        stream = Stream.ValueStream(fns[0]).add_ref()
        model = Model.FuncStreamValueModel(stream, loop, value=-1)
        seen = []
        token = model.property_changed_event.listen(lambda key: seen.append(model.value))
        for f in fns[1:]:
            stream.value = f
        loop.run_ready()
        value = -1
        while loop.jobs:
            jobs = list(loop.jobs)
            job = jobs[0 if len(jobs) == 1 else ch.pick([0, -1])]
            loop.jobs.remove(job)
            job.run()
            job.report()
            loop.run_ready()
            expect(model.value >= value, "the model went back from %r to %r", value, model.value)
            expect(model.value == value or model.value in seen, "the value changed to %r without a signal", model.value)
            value = model.value
        expect_eq(model.value, [f for f in fns if not f.fail][-1].result, "final value")
        model.close()
        loop.run_ready()
        loop.dispose()
        return tuple(seen)
    fn.TRACEBACKS = False
    return fn


def check(result, tier):
    quick = tier == "quick"
    n = 4 if quick else 5
    enumerate_choices(result, "distinct results", make_program(n, False), bounds={"inputs": n})
    enumerate_choices(result, "empty results, None first", make_program(3, (None, 0, "")), bounds={"inputs": 3})
    enumerate_choices(result, "empty results", make_program(3, ("", False, None)), bounds={"inputs": 3})
    enumerate_choices(result, "repeated results", make_program(3, True), bounds={"inputs": 3})
    enumerate_choices(result, "inputs given by listeners", make_program(3 if quick else 4, False, True), bounds={"inputs": 3 if quick else 4})
    enumerate_choices(result, "many inputs", make_many(9 if quick else 13), bounds={"inputs": 9 if quick else 13})
