"""Filters: all expressions up to a depth, on all items, with their deep copies."""
import copy
import datetime
import itertools

from core import enumerate_domain, expect, expect_eq
from nion.utils import ListModel as L


class Thing:
    def __init__(self, n, s, d):
        self.n = n
        self.s = s
        self.d = d

    def __repr__(self):
        return "%r %r %r" % (self.n, self.s, self.d)


STRINGS = ["", "a", "A", "ab", "Ba", "b", "aB c"]
DATES = [datetime.datetime(y, m, d) for y in (2019, 2020) for m in (1, 12) for d in (1, 31)]
ITEMS = [Thing(n, STRINGS[i % len(STRINGS)], DATES[i % len(DATES)]) for i, n in enumerate((0, 1, 2, 1, 0, 2, 3, -1))]
ITEMS += [Thing(i % 3, s, d) for i, (s, d) in enumerate(itertools.product(STRINGS, DATES[::3]))]

# leaves: (constructor, meaning)
LEAVES = {}


def leaf(name, make, meaning):
    LEAVES[name] = (make, meaning)


leaf("default", lambda: L.Filter(), lambda t: False)
leaf("true", lambda: L.Filter(True), lambda t: True)
leaf("false", lambda: L.Filter(False), lambda t: False)
for v in (0, 1, 2):
    leaf("eq%d" % v, lambda v=v: L.EqFilter("n", v), lambda t, v=v: t.n == v)
    leaf("ne%d" % v, lambda v=v: L.NotEqFilter("n", v), lambda t, v=v: t.n != v)
leaf("eqs", lambda: L.EqFilter("s", "a"), lambda t: t.s == "a")
leaf("lt", lambda: L.EqFilter("n", 1, lambda a, b: a < b), lambda t: t.n < 1)
leaf("notlt", lambda: L.NotEqFilter("n", 1, lambda a, b: a < b), lambda t: not t.n < 1)
for s in ("", "a", "A", "ab", "B"):
    leaf("starts" + s, lambda s=s: L.StartsWithFilter("s", s), lambda t, s=s: t.s[:len(s)] == s)
    leaf("text" + s, lambda s=s: L.TextFilter("s", s), lambda t, s=s: s.lower() in t.s.lower())
leaf("textn", lambda: L.TextFilter("n", "1"), lambda t: "1" in str(t.n))
for y, m, d in itertools.product((None, 2019, 2020), (None, 12), (None, 31)):
    leaf("date%s%s%s" % (y, m, d), lambda y=y, m=m, d=d: L.PartialDateFilter("d", y, m, d),
         lambda t, y=y, m=m, d=d: y in (None, t.d.year) and m in (None, t.d.month) and d in (None, t.d.day))
leaf("predn", lambda: L.PredicateFilter(lambda t: t.n), lambda t: t.n != 0)          # true or false, but no bool
leaf("preds", lambda: L.PredicateFilter(lambda t: t.s or None), lambda t: t.s != "")
leaf("cmpn", lambda: L.EqFilter("n", 1, lambda a, b: a - b), lambda t: t.n != 1)
leaf("notcmpn", lambda: L.NotEqFilter("n", 1, lambda a, b: a - b), lambda t: t.n == 1)
leaf("pred", lambda: L.PredicateFilter(lambda t: t.n > 0), lambda t: t.n > 0)

CORE = ["true", "false", "eq1", "ne0", "textb", "startsa", "pred", "dateNone12None"]
CORE = [c for c in CORE if c in LEAVES]


def build(e):
    if isinstance(e, str):
        return LEAVES[e][0]()
    kids = [build(x) for x in e[1:]]
    if e[0] == "and":
        return L.AndFilter(kids)
    if e[0] == "or":
        return L.OrFilter(kids)
    if e[0] == "and()":
        return L.AndFilter()
    if e[0] == "or()":
        return L.OrFilter()
    return L.NotFilter(kids[0])


def meaning(e, t):
    if isinstance(e, str):
        return LEAVES[e][1](t)
    if e[0] in ("and", "and()"):
        return all([meaning(x, t) for x in e[1:]])
    if e[0] in ("or", "or()"):
        return any([meaning(x, t) for x in e[1:]])
    return not meaning(e[1], t)


def compose(inner, arity):
    for n in range(1, arity + 1):
        for c in itertools.product(inner, repeat=n):
            yield ("and",) + c
            yield ("or",) + c
    for x in inner:
        yield ("not", x)


def one(e):
    f = build(e)
    table = [meaning(e, t) for t in ITEMS]
    expect_eq([bool(f.matches(t)) for t in ITEMS], table, "items accepted by %r" % (e,))
    g = copy.deepcopy(f)
    expect(g is not f, "a deep copy is the original")
    expect(type(g) is type(f), "a deep copy has type %s", type(g).__name__)
    expect_eq([bool(g.matches(t)) for t in ITEMS], table, "items accepted by the copy of %r" % (e,))
    h = copy.deepcopy(g)
    expect_eq([bool(h.matches(t)) for t in ITEMS], table, "items accepted by the copy of the copy of %r" % (e,))
    # independence: nothing mutable is shared
    a, b = mutable(f), mutable(g)
    expect(not (a & b), "the copy of %r shares mutable state with the original", e)
    expect_eq([bool(f.matches(t)) for t in ITEMS], table, "items accepted by %r after copying" % (e,))
    return table


def mutable(f):
    seen = set()
    stack = [f]
    keep = []
    while stack:
        o = stack.pop()
        if isinstance(o, L.Filter):
            if id(o) in seen:
                continue
            seen.add(id(o))
            keep.append(o)
            stack.extend(vars(o).values())
        elif isinstance(o, list):
            seen.add(id(o))
            stack.extend(o)
    return seen


def members(n):
    """the list given to a composite filter belongs to the caller"""
    for cls, neutral in ((L.AndFilter, True), (L.OrFilter, False)):
        kids = [L.EqFilter("n", i) for i in range(n)]
        f = cls(kids)
        before = [f.matches(t) for t in ITEMS]
        kids.append(L.Filter(not neutral))
        expect_eq([f.matches(t) for t in ITEMS], before, "%s with %d members after the caller changed its list" % (cls.__name__, n))
    return n


def check(result, tier):
    q = tier == "quick"
    leaves = list(LEAVES)
    d1 = leaves + [("and()",), ("or()",)] + list(compose(leaves, 2))
    enumerate_domain(result, "leaves and one operator", d1, one, bounds={"leaves": len(leaves), "items": len(ITEMS)})
    inner = CORE[:5 if q else 8]
    d2 = list(compose(list(compose(inner, 1)) + list(compose(inner[:3], 2)) + inner + [("and()",), ("or()",)], 2))
    enumerate_domain(result, "two operators", d2, one, bounds={"leaves": len(inner), "arity": 2})
    d3 = list(compose(inner, 3))
    enumerate_domain(result, "three members", d3, one, bounds={"leaves": len(inner), "arity": 3})
    if not q:
        small = ["true", "eq1", "pred"]
        l2 = small + list(compose(small, 2))
        l3 = list(compose(l2, 2))
        enumerate_domain(result, "three operators", list(compose(small + l3[::1][:400], 2)), one, bounds={"leaves": 3})
    enumerate_domain(result, "caller's list", [1, 2, 3], members)
