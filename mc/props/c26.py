"""Geometry of points, sizes and rectangles."""
import itertools
import math

from core import enumerate_domain, expect, expect_eq
from nion.utils import Geometry as G

KINDS = {"int": (G.IntPoint, G.IntSize, G.IntRect, int), "float": (G.FloatPoint, G.FloatSize, G.FloatRect, float)}


def pt(p):
    return (p.y, p.x)


def sz(s):
    return (s.height, s.width)


def rc(r):
    return (r.top, r.left, r.height, r.width)


def close(a, b, eps=1e-9):
    return all(abs(x - y) <= eps * max(1, abs(x), abs(y)) for x, y in zip(a, b))


def typed(values, t):
    return all(type(v) is t for v in values)


def is_(obj, cls, what):
    expect(type(obj) is cls, "%s is a %s", what, type(obj).__name__)


def same(got, want, what):
    """equality in all its forms"""
    expect(got == want and not (got != want), "%s: %s, expected %s", what, got, want)


def one_pair(item):
    """two coordinate pairs as points and sizes"""
    kind, (a, b), (c, d) = item
    P, S, R, num = KINDS[kind]
    eps = 1e-9 * max(1, abs(a), abs(b), abs(c), abs(d))
    near = lambda u, v: all(abs(x - y) <= eps for x, y in zip(u, v))
    p, q = P(y=a, x=b), P(c, d)
    s, z = S(height=a, width=b), S(c, d)
    for o, cls, get, u in ((p, P, pt, (a, b)), (q, P, pt, (c, d)), (s, S, sz, (a, b)), (z, S, sz, (c, d))):
        is_(o, cls, "object")
        expect_eq(get(o), u, "components")
        expect(typed(get(o), num), "components %r", get(o))
        expect_eq(tuple(o), u, "iteration")
        expect_eq((o[0], o[1], o[-1]), (u[0], u[1], u[1]), "indexing")
        same(cls.make(u), o, "make from a tuple")
        same(cls.make(o), o, "make from itself")
        same(o, u, "comparison with a tuple")
        expect(not (o == None) and o != None, "comparison with None")
        expect(abs(abs(o) - math.hypot(*u)) < eps, "length of %s is %r", o, abs(o))
        same(-(-o), o, "double negation")
        expect_eq(get(-o), (-u[0], -u[1]), "negation")
    expect_eq((S(h=a, w=b).height, S(h=a, w=b).width), (a, b), "short names")
    expect_eq((sz(S()), pt(P())), ((0, 0), (0, 0)), "defaults")
    expect((p == q) is ((a, b) == (c, d)) and (p != q) is ((a, b) != (c, d)), "%s == %s", p, q)
    expect((s == z) is ((a, b) == (c, d)) and (s != z) is ((a, b) != (c, d)), "%s == %s", s, z)
    expect_eq(pt(p + q), (a + c, b + d), "point + point")
    expect_eq(pt(p - q), (a - c, b - d), "point - point")
    expect_eq(pt(p + z), (a + c, b + d), "point + size")
    expect_eq(pt(p - z), (a - c, b - d), "point - size")
    expect_eq(sz(s + z), (a + c, b + d), "size + size")
    expect_eq(sz(s - z), (a - c, b - d), "size - size")
    expect_eq(sz(s + (c, d)), (a + c, b + d), "size + tuple")
    expect_eq(sz(s - (c, d)), (a - c, b - d), "size - tuple")
    for o in (p + q, p - q, p + z, p - z):
        is_(o, P, "sum")
    is_(s + z, S, "sum")
    expect_eq(s.aspect_ratio, b / a if a else 1.0, "aspect ratio")
    expect_eq(sz(s * 2), (2 * a, 2 * b), "size * 2")
    expect_eq(sz(2 * s), (2 * a, 2 * b), "2 * size")
    expect_eq((sz(s * 0), sz(s * 1), sz(s * -3)), ((0, 0), (a, b), (-3 * a, -3 * b)), "size times a number")
    expect_eq(sz(0.5 * S(2 * a, 2 * b)), (a, b), "half of a doubled size")
    for o in (s * 2, 2 * s, -s, s - z):
        is_(o, S, "size")
        expect(typed(sz(o), num), "components %r", sz(o))
    for o in (p + q, p - z, -p):
        expect(typed(pt(o), num), "components %r", pt(o))
    if kind == "int":
        same(p.to_float_point(), (a, b), "as float point")
        is_(p.to_float_point(), G.FloatPoint, "float point")
        same(s.to_float_size(), (a, b), "as float size")
        is_(s.to_float_size(), G.FloatSize, "float size")
        if a >= 0 and b >= 0:
            for k in (1, 2, 3):
                expect_eq(sz(s // k), (a // k, b // k), "size // %d" % k)
    else:
        expect_eq(pt(p * 2), (2 * a, 2 * b), "point * 2")
        expect_eq(pt(0.5 * p), (a / 2, b / 2), "0.5 * point")
        expect_eq((pt(p * 0), pt(p * 1), pt(-3 * p), pt(p / -2)), ((0, 0), (a, b), (-3 * a, -3 * b), (a / -2, b / -2)), "point times a number")
        expect_eq(sz(s * 0.25), (a / 4, b / 4), "size * 0.25")
        expect_eq(pt(p / 4), (a / 4, b / 4), "point / 4")
        expect_eq(sz(s / 4), (a / 4, b / 4), "size / 4")
        for turn in range(-4, 5):
            ang = turn * math.pi / 2
            k = turn % 4
            # x towards y
            rot = lambda y, x: [(y, x), (x, -y), (-y, -x), (-x, y)][k]
            expect(near(pt(p.rotate(ang)), rot(a, b)), "%s rotated by %d quarter turns is %s", p, turn, p.rotate(ang))
            expect(near(sz(s.rotate(ang)), rot(a, b)), "%s rotated by %d quarter turns is %s", s, turn, s.rotate(ang))
            w = rot(a - c, b - d)
            expect(near(pt(p.rotate(ang, q)), (c + w[0], d + w[1])), "%s rotated by %d quarter turns about %s is %s", p, turn, q, p.rotate(ang, q))
        for ang in (0.3, 1.0, -2.5):
            r = p.rotate(ang, q)
            expect(abs(abs(r - q) - abs(p - q)) < eps, "rotation changes the distance")
            expect(near(pt(r.rotate(-ang, q)), (a, b)), "rotation back")
            r2 = p.rotate(ang / 2, q).rotate(ang / 2, q)
            expect(near(pt(r2), pt(r)), "rotation in two halves")
    expect(abs(G.distance(p, q) - math.hypot(a - c, b - d)) < eps, "distance")
    expect(abs(G.distance((a, b), (c, d)) - G.distance(q, p)) < eps, "distance is symmetric")
    expect_eq(tuple(G.midpoint(p, q)), ((a + c) / 2, (b + d) / 2), "midpoint")
    return (a, b) == (c, d)


def one_rect(item):
    kind, (t, l, h, w), (c, d) = item
    P, S, R, num = KINDS[kind]
    r = R(P(y=t, x=l), S(height=h, width=w))
    is_(r.origin, P, "origin")
    is_(r.size, S, "size")
    expect_eq(rc(r), (t, l, h, w), "components")
    expect_eq((r.bottom, r.right), (t + h, l + w), "bottom and right")
    expect_eq((pt(r.origin), sz(r.size)), ((t, l), (h, w)), "origin and size")
    expect_eq((pt(r.top_left), pt(r.top_right), pt(r.bottom_left), pt(r.bottom_right)), ((t, l), (t, l + w), (t + h, l), (t + h, l + w)), "corners")
    expect(typed(rc(r) + (r.bottom, r.right), num), "types of %s", r)
    expect_eq(tuple(r), ((t, l), (h, w)), "iteration")
    expect_eq((r[0], r[1]), ((t, l), (h, w)), "indexing")
    for other, what in ((R.make(((t, l), (h, w))), "make"), (R.make(r), "make from itself"), (R.from_tlhw(t, l, h, w), "from_tlhw"), (R.from_tlbr(t, l, t + h, l + w), "from_tlbr"), (R((t, l), (h, w)), "constructor"), (((t, l), (h, w)), "tuple")):
        same(r, other, what)
    expect(not (r == None) and r != None, "comparison with None")
    expect_eq(r.aspect_ratio, w / h if h else 1.0, "aspect ratio")
    ctr = r.center
    if kind == "int":
        expect_eq(pt(ctr), (t + h // 2, l + w // 2), "center")
        expect_eq(r.slice, (slice(t, t + h), slice(l, l + w)), "slice")
        f = r.to_float_rect()
        is_(f, G.FloatRect, "float rect")
        same(f, ((t, l), (h, w)), "as float rect")
    else:
        expect_eq(pt(ctr), (t + h / 2, l + w / 2), "center")
        same(R.unit_rect(), ((0, 0), (1, 1)), "unit rectangle")
    same(R.from_center_and_size(ctr, r.size), r, "from its center and size")
    m = R.from_center_and_size(P(c, d), S(h, w))
    same(m, R.from_center_and_size((c, d), (h, w)), "from a center and a size given as tuples")
    same(m.center, (c, d), "center of a rectangle made around it")
    same(m.size, (h, w), "size of a rectangle made around a center")
    moved = R.from_tlhw(t + c, l + d, h, w)
    same(r.translated((c, d)), moved, "translated by a tuple")
    same(r.translated(P(c, d)), moved, "translated by a point")
    same(r.translated(S(c, d)), moved, "translated by a size")
    same(r + P(c, d), moved, "rect + point")
    same(P(c, d) + r, moved, "point + rect")
    same(r - P(-c, -d), moved, "rect - point")
    back = P(c, d) - r
    same(back.size, r.size, "size of point - rect")
    same(back.center, P(c, d) - ctr, "center of point - rect")
    same(r.inset(c, d), R.from_tlbr(t + d, l + c, t + h - d, l + w - c), "inset")
    same(r.inset(c), R.from_tlbr(t + c, l + c, t + h - c, l + w - c), "inset by one amount")
    same(r.inset(c, d).inset(-c, -d), r, "inset and back")
    same(R.make(G.inset_rect(r, c)), r.inset(c), "inset_rect")
    inside = t <= c < t + h and l <= d < l + w
    expect(r.contains_point(P(c, d)) is inside, "%s contains %s: %r", r, (c, d), r.contains_point(P(c, d)))
    expect(r.contains_point((c, d)) is inside, "%s contains the tuple %s", r, (c, d))
    return inside


def two_rects(item):
    kind, a, b = item
    P, S, R, num = KINDS[kind]
    r, s = R.from_tlhw(*a), R.from_tlhw(*b)
    expect((r == s) is (a == b) and (r != s) is (a != b), "%s == %s", r, s)
    top, left = max(a[0], b[0]), max(a[1], b[1])
    bottom, right = min(a[0] + a[2], b[0] + b[2]), min(a[1] + a[3], b[1] + b[3])
    touch = top <= bottom and left <= right
    expect(r.intersects_rect(s) is touch and s.intersects_rect(r) is touch, "%s intersects %s: %r, %r", r, s, r.intersects_rect(s), s.intersects_rect(r))
    if touch:
        same(r.intersect(s), R.from_tlbr(top, left, bottom, right), "intersection of %s and %s" % (r, s))
        same(s.intersect(r), R.from_tlbr(top, left, bottom, right), "intersection of %s and %s" % (s, r))
    u = R.from_tlbr(min(a[0], b[0]), min(a[1], b[1]), max(a[0] + a[2], b[0] + b[2]), max(a[1] + a[3], b[1] + b[3]))
    same(r.union(s), u, "union of %s and %s" % (r, s))
    same(s.union(r), u, "union of %s and %s" % (s, r))
    is_(r.union(s), R, "union")
    is_(r.intersect(s), R, "intersection")
    return touch


def mapping(item):
    f, t, p = item
    f, t = G.FloatRect.from_tlhw(*f), G.FloatRect.from_tlhw(*t)
    for a, b in ((f.top_left, t.top_left), (f.bottom_right, t.bottom_right), (f.top_right, t.top_right), (f.bottom_left, t.bottom_left), (f.center, t.center)):
        expect(close(pt(G.map_point(a, f, t)), pt(b)), "%s is mapped to %s, not to %s", a, G.map_point(a, f, t), b)
    q = G.FloatPoint(*p)
    m = G.map_point(q, f, t)
    expect(close(pt(G.map_point(m, t, f)), p), "%s mapped there and back is %s", q, G.map_point(m, t, f))
    s = G.FloatSize(*p)
    expect(close(sz(G.map_size(s, f, t)), (p[0] * t.height / f.height, p[1] * t.width / f.width)), "%s is mapped to %s", s, G.map_size(s, f, t))
    expect(close(pt(G.map_point(q + s, f, t)), pt(m + G.map_size(s, f, t))), "mapping a point and a size")
    r = G.FloatRect(q, (abs(p[0]) + 1, abs(p[1]) + 2))
    mr = G.map_rect(r, f, t)
    expect(close(pt(mr.top_left), pt(G.map_point(r.top_left, f, t))) and close(pt(mr.bottom_right), pt(G.map_point(r.bottom_right, f, t))), "%s is mapped to %s", r, mr)
    expect(close(rc(G.map_rect(f, f, t)), rc(t)), "the rectangle itself is mapped to %s", G.map_rect(f, f, t))
    expect(close(rc(G.map_rect(mr, t, f)), rc(r)), "mapped there and back")
    return rc(mr)


def fitting(item):
    kind, a, size = item
    r = KINDS[kind][2].from_tlhw(*a)
    aspect = size[1] / size[0]
    fits = [G.fit_to_size(r, size), G.fit_to_size(r, KINDS[kind][1](*size)), G.fit_to_aspect_ratio(r, aspect), G.fit_to_aspect_ratio(((a[0], a[1]), (a[2], a[3])), aspect)]
    for f in fits:
        is_(f, G.FloatRect, "fitted rectangle")
        expect(abs(f.aspect_ratio - aspect) <= 1e-9 * aspect, "aspect ratio of %s fitted to %s is %r", r, size, f.aspect_ratio)
        eps = 1e-9 * max(a[2], a[3], 1)
        expect(f.top >= a[0] - eps and f.left >= a[1] - eps and f.bottom <= a[0] + a[2] + eps and f.right <= a[1] + a[3] + eps, "%s fitted to %s is %s, outside", r, size, f)
        expect(abs(f.height - a[2]) <= eps or abs(f.width - a[3]) <= eps, "%s fitted to %s is %s, too small", r, size, f)
        expect(close(pt(f.center), (a[0] + a[2] / 2, a[1] + a[3] / 2)), "%s fitted to %s is %s, not centred", r, size, f)
    return rc(fits[0])


def check(result, tier):
    q = tier == "quick"
    ints = (-3, -1, 0, 1, 2, 5) if q else (-7, -3, -2, -1, 0, 1, 2, 3, 5, 8)
    floats = tuple(x / 4 for x in ((-10, -4, -1, 0, 2, 3, 8) if q else (-30, -10, -7, -4, -2, -1, 0, 1, 2, 3, 5, 8, 21)))
    sizes = {"int": (0, 1, 2, 3, 5) if q else (0, 1, 2, 3, 4, 5, 7, 10), "float": (0.0, 0.25, 1.0, 2.5, 4.0) if q else (0.0, 0.25, 0.5, 1.0, 1.5, 2.5, 4.0, 7.75)}
    grid = {"int": ints, "float": floats}
    pairs = [(k, a, b) for k in KINDS for a in itertools.product(grid[k], repeat=2) for b in itertools.product(grid[k], repeat=2)]
    enumerate_domain(result, "points and sizes", pairs, one_pair, bounds={"coordinates": {k: list(v) for k, v in grid.items()}})
    rects = {k: [o + s for o in itertools.product(grid[k], repeat=2) for s in itertools.product(sizes[k], repeat=2)] for k in KINDS}
    items = [(k, r, p) for k in KINDS for r in rects[k] for p in itertools.product(grid[k], repeat=2)]
    enumerate_domain(result, "rectangles", items, one_rect, bounds={"rectangles": {k: len(v) for k, v in rects.items()}})
    big = {"int": (-100000, -999, 65536, 1000001), "float": (-100000.5, -999.25, 65536.0, 1000001.75)}
    far = [(k, a, b) for k in KINDS for a in itertools.product(big[k], repeat=2) for b in itertools.product(big[k], repeat=2)]
    enumerate_domain(result, "large points and sizes", far, one_pair, bounds={"coordinates": {k: list(v) for k, v in big.items()}})
    wide = {"int": (1, 999, 65537), "float": (0.25, 999.5, 65537.0)}
    far = [(k, o + s, p) for k in KINDS for o in itertools.product(big[k], repeat=2) for s in itertools.product(wide[k], repeat=2) for p in itertools.product(big[k], repeat=2)]
    enumerate_domain(result, "large rectangles", far, one_rect, bounds={"cases": len(far)})
    small = {"int": (-1, 0, 2), "float": (-1.25, 0.0, 2.5)}
    ext = {"int": (0, 1, 2, 3) if q else (0, 1, 2, 3, 5), "float": (0.0, 1.25, 2.5, 3.0) if q else (0.0, 1.25, 2.5, 3.0, 5.0)}
    two = {k: [o + s for o in itertools.product(small[k], repeat=2) for s in itertools.product(ext[k], repeat=2)] for k in KINDS}
    far = {k: [o + s for o in itertools.product(big[k][1:], repeat=2) for s in itertools.product(wide[k], repeat=2)] for k in KINDS}
    enumerate_domain(result, "pairs of large rectangles", [(k, a, b) for k in KINDS for a in far[k] for b in far[k]], two_rects, bounds={"rectangles": {k: len(v) for k, v in far.items()}})
    enumerate_domain(result, "pairs of rectangles", [(k, a, b) for k in KINDS for a in two[k] for b in two[k]], two_rects, bounds={"rectangles": {k: len(v) for k, v in two.items()}})
    frames = [o + s for o in ((0.0, 0.0), (-1.5, 2.0), (3.0, -0.5)) for s in itertools.product((0.5, 1.0, 3.0, 100.0), repeat=2)]
    enumerate_domain(result, "mapping between rectangles", [(f, t, p) for f in frames for t in frames for p in itertools.product((-2.0, 0.0, 0.75, 4.0), repeat=2)], mapping, bounds={"frames": len(frames)})
    fit = [(k, o + s, z) for k in KINDS for o in itertools.product(grid[k][:4], repeat=2) for s in itertools.product([x for x in sizes[k] if x], repeat=2) for z in itertools.product([x for x in sizes[k] if x], repeat=2)]
    enumerate_domain(result, "fitting", fit, fitting, bounds={"cases": len(fit)})
