"""Streams: explicit-state search over small stream graphs."""
import itertools
import operator

from core import Harness, expect, expect_eq, fresh, search
from nion.utils import Event, Model, Observable, Stream


class Source(Observable.Observable):
    def __init__(self, label, v):
        super().__init__()
        self._mc_label = label
        self.__v = v
        self.other = 0

    @property
    def v(self):
        return self.__v

    @v.setter
    def v(self, v):
        self.__v = v
        self.notify_property_changed(fresh("vv"))

    vv = property(lambda self: self.__v)

    def poke(self):
        self.other = 1 - self.other
        self.notify_property_changed(fresh("other"))


class EqualSource(Source):
    """equal to all others of its kind"""
    def __eq__(self, other):
        return isinstance(other, EqualSource)

    def __hash__(self):
        return 1


class IdentityStream(Stream.AbstractStream):
    """an input that signals whenever another object is put in"""

    def __init__(self, value):
        super().__init__()
        self.value_stream = Event.Event()
        self.__value = value

    @property
    def value(self):
        return self.__value

    @value.setter
    def value(self, value):
        if value is not self.__value:
            self.__value = value
            self.value_stream.fire(value)


def parity(x):
    return None if x is None else x % 2


def pair(*x):
    return tuple(x)


def total(*x):
    return sum(v or 0 for v in x)


def shape(*x):
    """equal, but another object each time"""
    return [len(x)]


def picky(*x):
    """fails for some inputs"""
    if sum(v or 0 for v in x) % 3 == 2:
        raise ValueError()
    return tuple(x)


# stream graphs: nested tuples over the inputs "a", "b" (value streams), "p" (property of the source object currently
# in stream "s"), "k" (constant), ("q", i) property of a fixed object; node -> reference function
GRAPHS = [
    ("map", parity, "a"),
    ("map", lambda x: x, "a"),
    ("comb", None, "a", "b"),
    ("comb", total, "a", "b", "a"),
    ("comb", None),
    ("comb", total, "a", "k"),
    ("prop", "s"),
    ("propobj", 0),
    ("propcmp", 0),
    ("map", parity, ("prop", "s")),
    ("comb", pair, ("map", parity, "a"), "a"),
    ("comb", total, ("map", parity, "a"), ("map", parity, "b")),
    ("comb", pair, ("comb", None, "a", "b"), ("prop", "s")),
    ("map", lambda t: t[0], ("comb", None, "a", "b")),
    ("concat", "s"),
    ("map", parity, ("concat", "s")),
    ("comb", pair, ("concat", "s"), "a"),
    ("concatv", "a"),
    ("comb", total) + ("a", "b") * 9,
    ("comb", None) + ("a",) * 5 + ("b",) * 12,
    ("comb", shape, "a", "b"),
]


class H(Harness):
    def __init__(self, config):
        gi, fresh, self.react, start = config
        super().__init__(config)
        self.a = Stream.ValueStream(0).add_ref()
        self.b = Stream.ValueStream(1).add_ref()
        kind = EqualSource if fresh == "equal" else Source
        self.src = [kind("p0", 0), kind("p1", 1)]
        self.s = (IdentityStream if fresh == "equal" else Stream.ValueStream)(self.src[0] if fresh else None).add_ref()
        self.k = Stream.ConstantStream(5).add_ref()
        self.inner = {}
        self.nodes = []       # (stream, reference function)
        self.signals = []
        self.top = None
        self.model = None
        self.refs = 0
        self.base = self.input_refs()
        self.graph = GRAPHS[gi]
        self.tokens = []
        if start is not None:
            self.apply(start)

    def roots(self):
        return [self.a, self.b, self.s, self.src, self.k, self.nodes, self.top, self.model, self.refs, self.inner, self.tokens, self.last]

    last = None

    def input_refs(self):
        d = {"a": self.a.ref_count, "b": self.b.ref_count, "s": self.s.ref_count, "k": self.k.ref_count}
        for key, st in self.inner.items():
            d[key] = st.ref_count
        return d

    # ---- building a graph; returns (stream, reference function)

    def build(self, g):
        if g == "a":
            return self.a, lambda: self.a.value
        if g == "b":
            return self.b, lambda: self.b.value
        if g == "k":
            return self.k, lambda: 5
        kind = g[0]
        if kind == "map":
            st, ref = self.build(g[2])
            fn = g[1]
            node = Stream.MapStream(st, fn), lambda: attempt(fn, ref())
        elif kind == "comb":
            kids = [self.build(x) for x in g[2:]]
            fn = g[1]
            if fn is None:
                node = Stream.CombineLatestStream([k[0] for k in kids]), lambda: tuple(k[1]() for k in kids)
            else:
                node = Stream.CombineLatestStream([k[0] for k in kids], fn), lambda: attempt(fn, *[k[1]() for k in kids])
        elif kind == "prop":
            def ref_prop():
                o = self.s.value
                return o.v if o is not None else UNSPECIFIED
            node = Stream.PropertyChangedEventStream(self.s, "vv"), ref_prop
        elif kind == "propobj":
            node = Stream.PropertyChangedEventStream(self.src[g[1]], "vv"), lambda: self.src[g[1]].v
        elif kind == "propcmp":
            node = Stream.PropertyChangedEventStream(self.src[g[1]], "vv", lambda x, y: x is y), lambda: self.src[g[1]].v
        elif kind == "concat":
            def make(item):
                st = Stream.PropertyChangedEventStream(item, "vv")
                self.inner[item._mc_label] = st
                return st

            def ref_concat():
                o = self.s.value
                return o.v if o is not None else None
            node = Stream.ConcatStream(self.s, make), ref_concat
        elif kind == "concatv":
            # items are the numbers of a; each selects stream b mapped
            def makev(item):
                st = Stream.MapStream(self.b, lambda x, item=item: (item, x))
                self.inner["i%d" % item] = st
                return st
            node = Stream.ConcatStream(self.a, makev), lambda: (self.a.value, self.b.value) if self.a.value else None
        st_ = node[0]
        i = len(self.nodes)
        self.nodes.append(node)

        def on_signal(value, i=i, st=st_):
            expect_eq(value, st.value, "signalled value of stream %d against its value" % i)
            self.signals.append((i, value))
        self.tokens.append(st_.value_stream.listen(on_signal))
        return node

    def uses(self, g=None, acc=None):
        g = self.graph if g is None else g
        acc = {} if acc is None else acc
        if isinstance(g, str):
            acc[g] = acc.get(g, 0) + 1
            return acc
        if g[0] in ("prop", "concat"):
            acc["s"] = acc.get("s", 0) + 1
        elif g[0] == "concatv":
            acc["a"] = acc.get("a", 0) + 1
            if self.a.value:
                acc["b"] = acc.get("b", 0) + 1
        elif g[0] in ("map", "comb"):
            for x in g[2:]:
                self.uses(x, acc)
        return acc

    def ops(self):
        if self.top is None and not self.refs:
            yield ("build",)
            yield ("build_model", None)
            yield ("build_model", 7)
        used = str(self.graph)
        for v in (0, 1, 2, None):
            if "'a'" in used or "concatv" in used:
                yield ("set", "a", v)
            if "'b'" in used or "concatv" in used:
                yield ("set", "b", v)
        if "prop" in used or "'s'" in used:
            for i in (0, 1):
                for v in (0, 1, None):
                    yield ("prop", i, v)
            yield ("poke",)
        if "'s'" in used:
            for i in (0, 1, None):
                yield ("src", i)
        if self.top is not None:
            yield ("ref",) if self.refs < 2 else ("unref",)
            yield ("unref",)
            if self.model is not None:
                yield ("close_model",)

    def apply(self, op):
        self.perform(op)
        self.signals = []
        self.cause = None

    def perform(self, op):
        k = op[0]
        self.signals = []
        self.cause = {"set": op[1:2], "prop": ("v",), "src": ("s",)}.get(k)
        before = [n[0].value for n in self.nodes] if self.top is not None else None
        if k in ("build", "build_model"):
            self.top, self.ref = self.build(self.graph)
            if k == "build":
                self.top.add_ref()
                self.refs = 1
            else:
                self.model = Model.StreamValueModel(self.top, cmp=operator.is_) if op[1] == "is" else Model.StreamValueModel(self.top, value=op[1]) if op[1] is not None else Model.StreamValueModel(self.top)
                self.model_is = op[1] == "is"
                self.model_heard = []
                self.model_token = self.model.property_changed_event.listen(lambda key: self.model_heard.append((key, self.model.value)))
                self.refs = 0
            if self.react is not None:
                self.tokens.append(self.top.value_stream.listen(self.on_top))
        elif k == "set":
            getattr(self, op[1]).value = op[2]
            expect_eq(getattr(self, op[1]).value, op[2], "value of the input stream")
        elif k == "prop":
            self.src[op[1]].v = op[2]
        elif k == "poke":
            self.src[0].poke()
        elif k == "src":
            self.s.value = self.src[op[1]] if op[1] is not None else None
        elif k == "ref":
            self.top.add_ref()
            self.refs += 1
        elif k == "unref":
            if self.refs:
                self.top.remove_ref()
                self.refs -= 1
        elif k == "close_model":
            self.model.close()
            self.model = None
            self.model_token = None
        if self.top is not None and self.refs == 0 and self.model is None:
            # disposed: nothing is held any more and nothing is signalled any more
            self.check_disposed()
            self.top = None
            self.refs = -1
            self.last = "disposed"
            return
        if self.top is not None:
            self.check_values(before if k in ("set", "prop", "poke", "src", "ref", "unref") else None)

    cause = None

    def on_top(self, value):
        """the listener called last changes another input, once per operation"""
        if self.cause is None or self.cause[0] == self.react[0]:
            return
        self.cause = None
        if self.react[0] == "v":
            if self.s.value is not None:
                self.s.value.v = self.react[1]
        else:
            getattr(self, self.react[0]).value = self.react[1]

    def check_values(self, before):
        for i, (st, ref) in enumerate(self.nodes):
            want = ref()
            if contains_unspecified(want):
                # no source object: the stream keeps what it had
                continue
            expect_eq(st.value, want, "value of stream %d" % i)
            if before is not None and before[i] != st.value:
                expect(any(j == i for j, _ in self.signals), "stream %d changed from %r to %r without a signal", i, before[i], st.value)
            mine = [v for j, v in self.signals if j == i]
            if mine:
                expect_eq(mine[-1], st.value, "last signal of stream %d" % i)
        if self.model is not None:
            want = self.ref()
            if not contains_unspecified(want):
                expect_eq(self.model.value, want, "value of the property model")
                if self.model_is:
                    expect(self.model.value is self.top.value, "the property model, which compares by identity, holds another object than its stream")
                if before is not None and before[-1] != want:
                    expect(self.model_heard and self.model_heard[-1] == ("value", want), "the property model did not signal its change")
            self.model_heard.clear()
        u = self.uses()
        now = self.input_refs()
        for key, n in u.items():
            if key != "k":
                expect_eq(now[key] - self.base.get(key, 0), n, "references held on input %s" % key)
        for i, (st, _) in enumerate(self.nodes[:-1]):
            expect(st.ref_count >= 1, "inner stream %d is not referenced", i)
        live = 1 if self.top is not None and ("concat" in str(self.graph) and (self.s.value is not None if "'s'" in str(self.graph) else self.a.value)) else 0
        if "concat" in str(self.graph):
            expect_eq(sum(st.ref_count for st in self.inner.values()), live, "references held on concatenated streams")

    def check_disposed(self):
        now = self.input_refs()
        for key, n in self.base.items():
            expect_eq(now[key], n, "references on input %s after the stream was released" % key)
        for key, st in self.inner.items():
            expect_eq(st.ref_count, 0, "references on concatenated stream %s after release" % key)
        for i, (st, _) in enumerate(self.nodes):
            expect_eq(st.ref_count, 0, "references on stream %d after release" % i)
        self.signals = []
        saved = self.a.value, self.b.value, self.s.value
        self.a.value = 7
        self.b.value = 8
        self.src[0].v = 9
        self.src[1].v = 9
        self.s.value = self.src[1] if self.s.value is not self.src[1] else self.src[0]
        self.src[0].v = 4
        self.src[1].v = 4
        expect_eq(self.signals, [], "signals after the last reference was dropped")

    def observe(self):
        return [n[0].value for n in self.nodes], self.refs

    def finish(self):
        if self.model is not None:
            self.apply(("close_model",))
        while self.top is not None and self.refs > 0:
            self.apply(("unref",))


class Unspecified:
    def __repr__(self):
        return "?"

    def __mod__(self, n):
        return self


UNSPECIFIED = Unspecified()


def attempt(fn, *args):
    try:
        return fn(*args)
    except ValueError:
        return UNSPECIFIED


def contains_unspecified(x):
    return x is UNSPECIFIED or isinstance(x, tuple) and any(contains_unspecified(y) for y in x)


# graphs in which no two inputs meet, and what a listener of the stream changes when it is told of a change of another input
REACT = [
    (("comb", None, "a", "b"), ("b", 2)),
    (("comb", None, "a", "b"), ("a", 0)),
    (("comb", total, ("map", parity, "a"), ("map", parity, "b")), ("b", 1)),
    (("map", lambda t: t[0], ("comb", None, "a", "b")), ("b", 2)),
    (("concatv", "a"), ("b", 2)),
    (("concat", "s"), ("v", 0)),
    (("concat", "s"), ("v", None)),
    (("prop", "s"), ("v", 1)),
    (("map", parity, ("concat", "s")), ("v", 2)),
    (("comb", pair, ("concat", "s"), "a"), ("v", 3)),
    (("comb", pair, ("concat", "s"), "a"), ("a", 3)),
]
STARTS = (("build",), ("build_model", None), ("build_model", 7))
GRAPHS += [g for g, _ in REACT]
FAILING = [("map", picky, "a"), ("comb", picky, "a", "b"), ("comb", picky, ("map", parity, "a"), "b", "k"), ("comb", None, ("map", picky, "a"), "b")]
GRAPHS += FAILING


class Failing(H):
    """functions that fail for some inputs"""
    TRACEBACKS = False


def check(result, tier):
    q = tier == "quick"
    n = len(GRAPHS) - len(REACT) - len(FAILING)
    cfgs = [(i, f, None, st) for i in range(n) for st in STARTS for f in (True, False) if f or "'s'" in str(GRAPHS[i])]
    search(result, "stream graphs", H, cfgs, max_depth=4 if q else 6)
    search(result, "models with a comparison of their own", H, [(i, True, None, ("build_model", "is")) for i in range(n)], max_depth=3 if q else 5)
    search(result, "streams built at any time", H, [c[:3] + (None,) for c in cfgs if c[3] == STARTS[0]], max_depth=3 if q else 6)
    search(result, "sources that are equal", H, [(i, "equal", None, st) for i in range(n) if "'s'" in str(GRAPHS[i]) for st in STARTS[:2]], max_depth=4 if q else 6)
    react = [(n + i, f, r, st) for i, (g, r) in enumerate(REACT) for st in STARTS[:2] for f in (True, False) if f or "'s'" in str(g)]
    search(result, "inputs changed by listeners", H, react, max_depth=3 if q else 6)
    search(result, "functions that fail", Failing, [(len(GRAPHS) - 1 - i, True, None, st) for i in range(len(FAILING)) for st in STARTS[:2]], max_depth=4 if q else 6)
