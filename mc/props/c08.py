"""Bindings and property models: all histories of source and target edits."""
import itertools

from core import Harness, Violation, expect, expect_eq, fresh, search
from nion.utils import Binding, Converter, Model, Observable, Validator


class Source(Observable.Observable):
    """two properties that signal every assignment"""

    def __init__(self, p):
        super().__init__()
        self.__p = p
        self.__q = 0

    @property
    def p(self):
        return self.__p

    @p.setter
    def p(self, v):
        self.__p = v
        self.notify_property_changed(fresh("pp"))

    @property
    def pp(self):
        return self.__p

    @pp.setter
    def pp(self, v):
        self.p = v

    @property
    def q(self):
        return self.__q

    @q.setter
    def q(self, v):
        self.__q = v
        self.notify_property_changed(fresh("qq"))


class Rec:
    def __init__(self, x, y=7):
        self.x = x
        self.y = y

    def __repr__(self):
        return "Rec(%r, %r)" % (self.x, self.y)


class NoX:
    def __repr__(self):
        return "NoX"


def replace_or_drop(obj, name, value):
    """makes a new object, or none at all"""
    return None if value == 0 else replace_attr(obj, name, value)


def replace_attr(obj, name, value):
    n = Rec(getattr(obj, "x", None), getattr(obj, "y", None))
    setattr(n, name, value)
    return n


class IntStr:
    """independent converter"""

    def convert(self, v):
        return "<%d>" % v

    def convert_back(self, t):
        return int(t[1:-1])


class Partial:
    """shows nothing for some values"""

    def convert(self, v):
        return None if v == 0 else "(%d)" % v

    def convert_back(self, t):
        return 0 if t is None else int(t[1:-1])


CONV = {"partial": Partial, "none": None, "int": IntStr, "checked": Converter.CheckedToCheckStateConverter, "lib": Converter.IntegerToStringConverter}


def target_values(conv):
    return {"partial": (None, "(1)", "(5)"), "none": (0, 1, 5), "int": ("<0>", "<1>", "<5>"), "checked": ("checked", "unchecked"), "lib": ("0", "1", "5")}[conv]


class Target:
    """a UI element: initialised from the binding, then only told by the setter"""

    def __init__(self, h, name, binding, expected):
        self.h = h
        self.name = name
        self.binding = binding
        self.expected = expected
        self.open = True
        self.wired = True
        self.value = binding.get_target_value()
        self.deliveries = 0
        binding.target_setter = self.set
        self.closes = None

    def set(self, v):
        expect(self.open, "%s: %r delivered after close", self.name, v)
        want = self.expected()
        expect(type(v) is type(want) and v == want, "%s: delivered %r, but the source says %r", self.name, v, want)
        self.value = v
        self.deliveries += 1
        if self.closes is not None:
            self.closes.close()
        if self.h.echo == self.name:
            # a target that puts another value in place of the one it is told
            self.h.echo = None
            old = self.h.element()
            self.binding.update_source(target_values(self.h.conv)[-1])
            self.h.echoed = self.h.kind != "model" or self.h.element() != old

    def close(self):
        if self.open:
            self.open = False
            self.binding.close()


class B(Harness):
    def __init__(self, config):
        super().__init__(config)
        kind, conv, valid, fallback, closes = config
        self.kind = kind
        self.conv = conv
        if kind == "model":
            self.source = Model.PropertyModel(1)
            self.prop = "value"
        else:
            self.source = Source({"prop": 1, "attr": Rec(1), "attrfn": Rec(1), "attrdrop": Rec(1), "tuple0": (1, 0), "tuple2": (0, 0, 1)}[kind])
            self.prop = "pp"
        self.fallback = fallback
        self.echo = None
        self.echoed = False
        self.targets = []
        for i in range(2):
            b = self.make(kind, CONV[conv]() if CONV[conv] else None, Validator.IntegerRangeValidator(0, 2) if valid else None)
            expect(b.source is self.source, "the binding does not return its source")
            t = Target(self, "target %d" % i, b, self.expected)
            self.targets.append(t)
        if closes is True:
            self.targets[0].closes = self.targets[1]
        self.echoes = closes if isinstance(closes, str) else None
        self.verify()

    def make(self, kind, converter, validator):
        k = dict(converter=converter, fallback=self.fallback)
        if kind in ("model", "prop"):
            b = Binding.PropertyBinding(self.source, fresh(self.prop), validator=validator, **k)
        elif kind == "attr":
            b = Binding.PropertyAttributeBinding(self.source, fresh("pp"), "x", **k)
        elif kind in ("attrfn", "attrdrop"):
            b = Binding.PropertyAttributeBinding(self.source, fresh("pp"), "x", update_attribute_fn=replace_attr if kind == "attrfn" else replace_or_drop, **k)
        else:
            b = Binding.TuplePropertyBinding(self.source, fresh("pp"), int(kind[-1]), **k)
        expect(b.converter is converter and b.validator is (validator if kind in ("model", "prop") else None), "converter or validator of the binding")
        return b

    def element(self):
        v = getattr(self.source, self.prop)
        if self.kind in ("model", "prop"):
            return v
        if self.kind in ("attr", "attrfn", "attrdrop"):
            return getattr(v, "x", None)
        i = int(self.kind[-1])
        return v[i] if v is not None and i < len(v) else None

    def expected(self):
        e = self.element()
        if e is None:
            return self.fallback
        c = CONV[self.conv]
        return c().convert(e) if c else e

    def roots(self):
        return [self.source, self.targets, self.fallback]

    def observe(self):
        return repr(getattr(self.source, self.prop)), [t.value for t in self.targets], [t.open for t in self.targets]

    def source_values(self):
        if self.kind in ("model", "prop"):
            return [None, 0, 1, 3]
        if self.kind in ("attr", "attrfn", "attrdrop"):
            return ["none", "nox", "x=None", "x=0", "x=2"]
        return [None, (), (0,), (None, 1), (2, 1, None), (0, 0, 3, 4)]

    def ops(self):
        res = []
        for v in self.source_values():
            res.append(("source", v))
        if self.kind != "model":
            res.append(("other",))
        for i, t in enumerate(self.targets):
            for v in target_values(self.conv):
                if self.kind == "attr" and not isinstance(self.source.p, Rec):
                    continue
                res.append(("target", i, v))
            if t.open:
                res.append(("close", i))
                res.append(("fallback", i))
        return res

    def apply(self, op):
        k = op[0]
        for t in self.targets:
            t.deliveries = 0
        opened = [t.open for t in self.targets]
        self.echoed = False
        self.echo = self.echoes
        old = getattr(self.source, self.prop)
        changed = None
        if k == "source":
            v = op[1]
            if self.kind in ("attr", "attrfn", "attrdrop"):
                v = {"none": None, "nox": NoX(), "x=None": Rec(None), "x=0": Rec(0), "x=2": Rec(2)}[v]
            setattr(self.source, self.prop, v)
            changed = True if self.kind != "model" else v != old
        elif k == "other":
            self.source.q = 1 - self.source.q
            changed = False
        elif k == "target":
            t = self.targets[op[1]]
            c = CONV[self.conv]
            v = c().convert_back(op[2]) if c else op[2]
            if self.config[2] and self.kind in ("model", "prop"):
                v = min(max(v, 0), 2)
            was_open = t.open
            t.binding.update_source(op[2])
            now = getattr(self.source, self.prop)
            if not was_open:
                expect(now is old, "a closed binding changed the source")
                changed = False
            else:
                if not self.echoed:
                    self.check_stored(old, now, v)
                changed = True if self.kind != "model" else v != old
        elif k == "close":
            self.targets[op[1]].close()
            changed = False
        elif k == "fallback":
            # the fallback may be changed at any time
            self.fallback = {None: "fb", "fb": None}[self.fallback]
            for t in self.targets:
                t.binding.fallback = self.fallback
            for t in self.targets:
                t.value = t.binding.get_target_value()
            changed = False
        for i, t in enumerate(self.targets):
            n = (2 if self.echoed else 1) if changed and opened[i] else 0
            if i == 1 and self.config[4] is True and opened[0] and changed:
                n = 0
                expect(not t.open or not opened[1], "re-entrant close did not happen")
            expect_eq(t.deliveries, n, "deliveries to %s after %r" % (t.name, op))
        for t in self.targets:
            t.deliveries = 0
        self.echo = None
        self.echoed = False
        self.verify()

    def check_stored(self, old, now, v):
        if self.kind in ("model", "prop"):
            expect(now == v and type(now) is type(v), "source holds %r after setting the target to the form of %r", now, v)
        elif self.kind in ("attr", "attrfn", "attrdrop"):
            if self.kind == "attrdrop" and v == 0:
                expect(now is None, "source holds %r where the update function gave None", now)
                return
            expect(isinstance(now, Rec) and now.x == v, "source holds %r after setting the attribute to %r", now, v)
            expect_eq(now.y, getattr(old, "y", None), "the other attribute of the source")
        else:
            i = int(self.kind[-1])
            lst = list(old or ())
            lst += [None] * (i + 1 - len(lst))
            lst[i] = v
            expect_eq(now, tuple(lst), "source tuple")

    def verify(self):
        for t in self.targets:
            if t.open:
                want = self.expected()
                got = t.binding.get_target_value()
                expect(type(got) is type(want) and got == want, "%s: get_target_value is %r, expected %r", t.name, got, want)
                expect(type(t.value) is type(want) and t.value == want, "%s shows %r, expected %r", t.name, t.value, want)


def half(a, b):
    return 1 if a // 2 == b // 2 else 0


class PM(Harness):
    """property models: one signal per real change"""
    VALUES = [None, 0, 1, 2, 3, 1.0, False]

    def __init__(self, config):
        super().__init__(config)
        cmp, initial = config
        self.cmp = {"eq": lambda a, b: a == b, "half": half}[cmp]
        self.m = Model.PropertyModel(initial) if cmp == "eq" else Model.PropertyModel(initial, cmp=half)
        self.value = initial
        self.events = []
        self.m.on_value_changed = self.called
        self.tokens = [self.m.property_changed_event.listen(self.signal)]
        self.closed = False

    def signal(self, key):
        self.events.append(("signal", key, self.m.value))

    def called(self, v):
        self.events.append(("called", v, self.m.value))

    def roots(self):
        return [self.m, self.value, self.closed]

    def ops(self):
        return [("set", i) for i in range(len(self.VALUES))] + ([] if self.closed else [("close",)])

    def apply(self, op):
        self.events = []
        if op[0] == "close":
            self.m.close()
            self.closed = True
            return
        v = self.VALUES[op[1]]
        if self.value is None or v is None:
            differ = self.value is not v
        else:
            differ = not self.cmp(v, self.value)
        self.m.value = v
        if differ:
            self.value = v
        want = [("signal", "value", v)] + ([] if self.closed else [("called", v, v)]) if differ else []
        expect_eq(sorted(self.events, key=repr), sorted(want, key=repr), "signals of setting %r" % (v,))
        got = self.m.value
        expect(got is self.value, "value is %r, expected %r", got, self.value)
        self.events = []

    def observe(self):
        return repr(self.value)


class LB(Harness):
    """a closed list binding is told nothing"""

    def __init__(self, config):
        super().__init__(config)
        from nion.utils import ListModel
        self.l = ListModel.ListModel("aa", [1])
        self.b = [Binding.ListBinding(self.l, fresh(k)) for k in ("aa", "bb")]
        self.open = [True, True]
        self.n = [0, 0]
        for i in (0, 1):
            self.b[i].inserter = lambda item, index, i=i: self.told(i)
            self.b[i].remover = lambda index, i=i: self.told(i)

    def told(self, i):
        expect(self.open[i], "a closed list binding was told")
        expect(i == 0, "a list binding for another key was told")
        self.n[i] += 1

    def ops(self):
        return [("+",)] * (len(self.l.items) < 3) + [("-",)] * (len(self.l.items) > 0) + [("close", i) for i in (0, 1) if self.open[i]]

    def apply(self, op):
        self.n = [0, 0]
        if op[0] == "+":
            self.l.append_item(5)
        elif op[0] == "-":
            self.l.remove_item(0)
        else:
            self.open[op[1]] = False
            self.b[op[1]].close()
        expect_eq(self.n[0], int(self.open[0] and op[0] != "close"), "notifications to the list binding")
        if self.open[0]:
            expect_eq(list(self.b[0].items), self.l.items, "items of the list binding")


def check(result, tier):
    q = tier == "quick"
    cfgs, echoes = [], []
    for kind in ("model", "prop", "attr", "attrfn", "attrdrop", "tuple0", "tuple2"):
        for conv in ("none", "int", "lib", "partial") + (("checked",) if kind == "prop" else ()):
            for valid in ((False, True) if kind in ("model", "prop") and conv != "checked" else (False,)):
                for fb in (None, "fb"):
                    for closes in (False, True):
                        cfgs.append((kind, conv, valid, fb, closes))
                    if kind in ("model", "prop", "attrfn", "tuple0", "tuple2"):
                        echoes += [(kind, conv, valid, fb, "target %d" % i) for i in (0, 1)]
    search(result, "bindings", B, cfgs, max_depth=4 if q else 9, time_limit=None if q else 1500)
    search(result, "targets that put another value", B, echoes, max_depth=3 if q else 6, time_limit=None if q else 1500)
    search(result, "property models", PM, [(c, i) for c in ("eq", "half") for i in (None, 0, 1)], max_depth=20)
    search(result, "list bindings", LB, [0], max_depth=20)
