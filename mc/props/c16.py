"""Structured models hold, export, import and copy their values."""
import copy
import itertools

from core import search, enumerate_domain, expect
from nion.utils import StructuredModel as SM
from props.structured import *
from props import structured as st


class V(Structured):
    pass


def rec(*fields):
    return ("record", tuple((n, t, freeze(d)) for n, t, d in fields))


def arr(t):
    return ("array", t)


def schemas(depth, defaults):
    """all schemas up to a nesting depth with up to two fields per record"""
    if depth == 0:
        return list(SCALARS)
    sub = schemas(depth - 1, defaults)
    res = list(sub)
    flat = ["int", "string"] if depth > 1 else list(SCALARS)
    nested = [s for s in sub if not isinstance(s, str)]
    res += [arr(s) for s in (flat + nested)]
    for t in flat + nested:
        for d in [None] + (default_choices(t) if defaults else []):
            res.append(rec(("a", t, d)))
    for t, u in itertools.product(flat if depth > 1 else ["int", "string"], flat[:1] + nested[:6] if depth > 1 else flat[:2]):
        for d in [None] + (default_choices(t)[-1:] if defaults else []):
            res.append(rec(("a", t, d), ("b", u, None)))
    seen = []
    for r in res:
        if r not in seen:
            seen.append(r)
    return seen


def default_choices(t):
    vals = plain_values(t, 1)
    if isinstance(t, str):
        return vals
    if t[0] == "record":
        part = [v for v in given_values(t, 1) if v]
        return part[:1] + part[-1:]
    return vals[:1] + vals[-1:]


def one(item):
    s, v = item[:2]
    value = thaw(v)
    given = copy.deepcopy(value)
    real = st.real_schema(s, item[2] if len(item) > 2 else False)
    before = copy.deepcopy(real)
    m = SM.build_model(real, value=given)
    data = built(s, value)
    check_holds(s, m, data, "built")
    expect(given == value, "building changed the data it was given")
    expect(real == before, "building changed the schema")
    h = V.__new__(V)
    h.s, h.m, h.data, h.log, h.mirrors, h.o, h.out = s, m, data, [], [], {}, []
    h.copy_check()
    if not isinstance(s, str):
        h.edit_everything(s, m)
        expect(real == before, "editing a model changed its schema")
        again = SM.build_model(real, value=copy.deepcopy(value))
        check_holds(s, again, data, "built again from the same schema after a model of it was edited")
        none = SM.build_model(real)
        check_holds(s, none, built(s, None), "built without a value")
    return data


def over(item):
    """import over other content: exactly the imported data"""
    s, v, w = item
    m = SM.build_model(st.real_schema(s), value=thaw(v))
    m.from_dict_value(thaw(w))
    check_holds(s, m, thaw(w), "imported over other content")
    return w


NAMES = ("a", "a_model", "a_model_model", "model", "_model", "b_model", "value", "A", "a_", "__a", "0", "", "a b", "amodel")


def names(item):
    """records whose fields have any names, given and set through the attribute and read through attribute, export and the field's model"""
    ns, given = item
    real = SM.define_record("R", [SM.define_field(n, SM.INT, default=7) for n in ns])
    want = {n: 7 for n in ns}
    values = {n: i for i, n in enumerate(ns) if given >> i & 1}
    want.update(values)
    m = SM.build_model(real, value=dict(values))

    def holds(when):
        got = {n: getattr(m, n) for n in ns}
        expect(got == want, "%s: the fields read %r, expected %r", when, got, want)
        expect(m.to_dict_value() == want, "%s: exported %r, expected %r", when, m.to_dict_value(), want)
        for n in ns:
            if n + "_model" not in ns:
                expect(getattr(m, n + "_model").value == want[n], "%s: the model of field %r has %r, expected %r", when, n, getattr(m, n + "_model").value, want[n])
    holds("built")
    for i, n in enumerate(ns):
        setattr(m, n, 100 + i)
        want[n] = 100 + i
        holds("after %r was set" % n)
    want = {n: 50 + i for i, n in enumerate(ns)}
    m.from_dict_value(dict(want))
    holds("after an import")
    m = copy.deepcopy(m)
    holds("copied")
    return len(ns)


def check(result, tier):
    q = tier == "quick"
    lim = None if q else 900
    big = schemas(2, True) if q else schemas(3, True)
    cap = 60 if q else 400
    items = []
    pairs = []
    for s in big:
        g = given_values(s, 1)
        for size in (2,):
            g2 = given_values(s, size) if not isinstance(s, str) and len(g) < 20 else g
        g = g2 if len(g2) <= cap else g
        if len(g) > cap:
            # the complete product is too large: values over a one-letter alphabet
            g = given_values(s, 1, 1)
        if len(g) > cap * 4:
            continue
        items += [(s, freeze(v)) for v in g] + [(s, None)]
        p = plain_values(s, 1)
        if not isinstance(s, str) and len(p) <= (12 if q else 40):
            pairs += [(s, freeze(a), freeze(b)) for a in p for b in p]
    enumerate_domain(result, "every schema with every value", items, one, bounds={"schemas": len(big), "nesting": 2 if q else 3})
    enumerate_domain(result, "scalars described by nameless fields", [i + ("described",) for i in items if not isinstance(i[0], str)][:20000 if q else None], one)
    enumerate_domain(result, "every import over every content", pairs, over, bounds={"pairs": len(pairs)})
    enumerate_domain(result, "fields of any name", [(ns, g) for k in (1, 2, 3) for ns in itertools.permutations(NAMES, k) for g in range(1 << k)], names, bounds={"names": len(NAMES), "fields": 3})
    search(result, "edit histories", V, HISTORIES, max_depth=3 if q else 5, time_limit=lim)
    search(result, "edits of many elements or fields", V, LARGE, max_depth=2 if q else 3, time_limit=lim)


POINT = rec(("x", "int", None), ("y", "int", 3))
HISTORIES = [
    (arr("int"), freeze([3]), (("size", 3),)),
    (rec(("a", arr("string"), ["s", ""])), freeze({}), (("size", 3),)),
    (POINT, freeze({"x": 0}), (("none", True),)),
    (arr(POINT), freeze([{"x": 3}]), (("edit_removed", True),)),
    (rec(("p", POINT, {"x": 3}), ("n", "float", 2.5), ("a", arr("boolean"), None), ("z", "int", 0)), freeze({"a": [True]}), (("none", True),)),
    (rec(("l", arr(rec(("v", arr("int"), [3]), ("f", "boolean", True))), None)), freeze({"l": [{"v": [0]}]}), (("size", 2), ("edit_removed", True))),
    (arr(arr("int")), freeze([[3], []]), (("edit_removed", True),)),
]
LARGE = [
    (arr("int"), freeze([k % 3 for k in range(14)]), (("size", 15),)),
    (rec(("l", arr(rec(("x", "int", 0))), None)), freeze({"l": [{"x": k} for k in range(11)]}), (("size", 12),)),
    (rec(*[("f%d" % k, ("int", "string", "boolean", "float")[k % 4], None) for k in range(12)]), freeze({}), (("imports", False),)),
    (arr(arr(arr(rec(("x", "int", None))))), freeze([[[{"x": 0}], []]]), ()),
]
