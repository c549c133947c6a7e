"""Structured models signal every change, at every level, once."""
import collections
import itertools

from core import enumerate_domain, expect_eq, search
from props.structured import *
from props.c16 import rec, arr, POINT


class G(Structured):
    SIGNALS = True


BASE = (("size", 2), ("ops", ("set", "array", "import", "close")))
CONFIGS = [
    (arr("int"), freeze([3]), (("size", 3),)),
    (POINT, freeze({"x": 0}), (("none", True),)),
    (arr(POINT), freeze([{"x": 3, "y": 0}]), ()),
    (rec(("a", arr("string"), ["s", ""]), ("n", "int", 3)), freeze({}), ()),
    (rec(("p", POINT, {"x": 3}), ("n", "float", 2.5)), freeze({}), ()),
    (rec(("l", arr(rec(("v", arr("int"), [3]), ("f", "boolean", True))), None)), freeze({"l": [{"v": [0]}]}), ()),
    (rec(("l", arr(POINT), [{"x": 0}, {"x": 3}])), freeze({}), (("size", 3), ("keep", 2))),
    (arr(arr("int")), freeze([[3], []]), ()),
    (arr(rec(("r", POINT, None))), freeze([{"r": {"x": 0}}, {}]), ()),
]


DEEP = [
    (rec(("o", rec(("l", arr(rec(("p", POINT, None), ("v", arr(arr("int")), None))), None)), None)), freeze({"o": {"l": [{"p": {"x": 0}, "v": [[0]]}]}}), ()),
    (arr(arr(arr(rec(("x", "int", None))))), freeze([[[{"x": 0}]]]), ()),
]
LARGE = [
    (arr("int"), freeze([k % 3 for k in range(14)]), (("size", 15),)),
    (rec(("l", arr(rec(("x", "int", 0))), None)), freeze({"l": [{"x": k} for k in range(11)]}), (("size", 12),)),
    (rec(*[("f%d" % k, ("int", "string", "boolean", "float")[k % 4], None) for k in range(12)]), freeze({}), ()),
]


# ---- listeners that change something else of the model meanwhile

EDITS = ("a", "b", "x", "y", "append", "delete")
PLACES = [(m, e) for m in ("root", "a", "p", "x", "l") for e in ("changed", "property", "inserted", "removed")]


def reactions():
    for first, then, last in itertools.product(EDITS, EDITS, (None, "a", "y", "append")):
        for place in PLACES:
            if then != first:
                yield first, place, then, last


def run_reaction(item):
    first, place, then, last = item
    m = SM.build_model(real_schema(rec(("a", "int", 1), ("b", "int", 2), ("p", POINT, {"x": 3, "y": 4}), ("l", arr("int"), [5]))))
    x, y = m.p_model.x_model, m.p_model.y_model
    named = {"root": m, "a": m.a_model, "b": m.b_model, "p": m.p_model, "x": x, "y": y, "l": m.l_model}
    got, want = collections.Counter(), collections.Counter()
    state = {"a": 1, "b": 2, "p": {"x": 3, "y": 4}, "l": [5]}
    waiting = [(place, then)]

    def edit(e):
        if e in ("a", "b"):
            setattr(m, e, getattr(m, e) + 10)
            state[e] += 10
            want.update([(e, "property", "value"), (e, "changed"), ("root", "property", e), ("root", "changed")])
        elif e in ("x", "y"):
            setattr(m.p, e, getattr(m.p, e) + 10)
            state["p"][e] += 10
            want.update([(e, "property", "value"), (e, "changed"), ("p", "property", e), ("p", "changed"), ("root", "changed")])
        elif e == "append":
            want.update([("l", "inserted", None, 6, len(m.l)), ("root", "inserted", "l", 6, len(m.l)), ("l", "changed"), ("root", "changed")])
            state["l"].append(6)
            m.l.append(6)
        elif len(m.l):
            want.update([("l", "removed", None, m.l[0], 0), ("root", "removed", "l", m.l[0], 0), ("l", "changed"), ("root", "changed")])
            state["l"].pop(0)
            del m.l[0]

    def told(name, kind, *args):
        if name == "l" and kind in ("inserted", "removed"):
            args = (None,) + args[1:]
        got[(name, kind) + args] += 1
        if waiting and waiting[0][0] == (name, kind):
            edit(waiting.pop()[1])
    tokens = []
    for name, x in named.items():
        tokens.append(x.model_changed_event.listen(lambda name=name: told(name, "changed")))
        for kind, event in (("property", "property_changed_event"), ("inserted", "item_inserted_event"), ("removed", "item_removed_event")):
            if hasattr(x, event):
                tokens.append(getattr(x, event).listen(lambda *args, name=name, kind=kind: told(name, kind, *args)))
    edit(first)
    if last:
        edit(last)
    expect_eq(m.to_dict_value(), state, "content")
    expect_eq(sorted(got.items(), key=repr), sorted(want.items(), key=repr), "signals and how often")
    return len(want)


def check(result, tier):
    q = tier == "quick"
    lim = None if q else 1200
    search(result, "signals along edit histories", G, [(s, v, BASE + o) for s, v, o in CONFIGS], max_depth=3 if q else 5, time_limit=lim)
    search(result, "array membership", G, [(s, v, (("ops", ("array",)), ("size", 3), ("keep", 2))) for s, v in ((arr(rec(("x", "int", None))), freeze([])), (rec(("l", arr(rec(("x", "int", None))), None)), freeze({})), (arr(arr("int")), freeze([])))], max_depth=4 if q else 6, time_limit=lim)
    search(result, "edits of moved elements", G, [(s, v, (("ops", ("array", "set")), ("size", 2), ("keep", 1))) for s, v in ((arr(rec(("x", "int", None))), freeze([{"x": 0}])),)], max_depth=5 if q else 8, time_limit=lim)
    search(result, "deep nesting", G, [(s, v, BASE + o) for s, v, o in DEEP], max_depth=2 if q else 3, time_limit=lim)
    search(result, "many elements or fields", G, [(s, v, (("ops", ("array", "set")),) + o) for s, v, o in LARGE], max_depth=2 if q else 3, time_limit=lim)
    enumerate_domain(result, "listeners that change the model", reactions(), run_reaction)
