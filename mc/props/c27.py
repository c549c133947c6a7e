"""Axis tickers label every range sensibly."""
import itertools
import math

from core import enumerate_domain, expect
from nion.utils import Geometry as G


def pretty(item):
    val, rounding = item
    got, factor = G.make_pretty(val, rounding)
    expect(G.make_pretty2(val, rounding) == got, "make_pretty2 differs from make_pretty")
    expect(got != 0 and (got > 0) == (val > 0), "pretty number of %r is %r", val, got)
    ratio = got / val
    eps = 1e-9
    if rounding:
        expect(2 / 3 - eps <= ratio <= 5 / 3 + eps, "pretty number of %r is %r", val, got)
    else:
        expect(1 - eps <= ratio <= 2.5 + eps, "pretty number of %r is %r", val, got)
    e = math.floor(math.log10(abs(got)) + 1e-9)
    lead = abs(got) / 10.0 ** e
    expect(any(abs(lead - d) < 1e-9 for d in (1, 2, 5)), "pretty number of %r is %r", val, got)
    f = math.log10(factor)
    expect(abs(f - round(f)) < 1e-9, "factor %r is not a power of ten", factor)
    expect(any(abs(abs(got) / factor - d) < 1e-9 for d in (1, 2, 5, 10)), "pretty number %r is not 1, 2, 5 or 10 times the factor %r", got, factor)
    expect(G.make_pretty(-val, rounding)[0] == -got, "pretty numbers of %r and its negative differ", val)
    return round(lead), e, rounding


def linear(item):
    lo, hi, ticks = item
    t = G.LinearTicker(lo, hi, ticks=ticks)
    r = G.LinearTicker(hi, lo, ticks=ticks)
    expect(list(t.values) == list(r.values) and list(t.labels) == list(r.labels), "ticks of (%r, %r) depend on the order of the ends", lo, hi)
    v, d = list(t.values), t.division
    expect(t.ticks == ticks, "ticks property")
    mag = max(abs(lo), abs(hi))
    tol = 1e-6 * d + 4e-15 * mag
    expect(d > 0, "division %r", d)
    expect(t.minimum <= lo + tol and t.maximum >= hi - tol, "ticks from %r to %r do not cover %r to %r", t.minimum, t.maximum, lo, hi)
    expect(t.minimum >= lo - d - tol and t.maximum <= hi + d + tol, "ticks from %r to %r exceed %r to %r by more than a division of %r", t.minimum, t.maximum, lo, hi, d)
    expect(abs(v[0] - t.minimum) <= tol and abs(v[-1] - t.maximum) <= tol, "first and last tick %r, %r are not at the ends %r, %r", v[0], v[-1], t.minimum, t.maximum)
    expect(all(abs(b - a - d) <= tol for a, b in zip(v, v[1:])), "ticks %r are not evenly spaced by %r", v, d)
    e = math.floor(math.log10(d) + 1e-9)
    expect(any(abs(d / 10.0 ** e - k) < 1e-9 for k in (1, 2, 5)), "division %r is not a round number", d)
    expect(all(abs(x / d - round(x / d)) * d <= tol for x in v), "ticks %r are not multiples of the division %r", v, d)
    n = len(v) - 1
    expect((ticks - 1) * 0.24 - 1e-6 <= n <= (ticks - 1) * 1.5 + 2 + 1e-6, "%d intervals for %d ticks", n, ticks)
    expect(len(t.labels) == len(v), "%d labels for %d ticks", len(t.labels), len(v))
    expect(len(set(t.labels)) == len(v), "labels %r are not distinct", t.labels)
    for l, x in zip(t.labels, v):
        expect(abs(float(l) - x) <= tol, "label %r of the tick %r, with a division of %r", l, x, d)
        expect(t.value_label(x) == l, "label of the value differs from label of the tick")
    expect(not t.minor_tick_indices, "minor ticks of a linear ticker")
    old = G.make_pretty_range(lo, hi, ticks=ticks)
    expect(old[0] == t.minimum and old[1] == t.maximum and list(old[2]) == v and old[3] == d and old[4] == t.precision, "make_pretty_range and the ticker differ")
    return n, e


def degenerate(v):
    t = G.LinearTicker(v, v)
    expect(list(t.values) == [v] and len(t.labels) == 1, "ticks of an empty range: %r %r", t.values, t.labels)
    return t.labels[0]


def unbounded(item):
    kind, lo, hi, ticks = item
    t = (G.LinearTicker if kind == "linear" else G.LogTicker)(lo, hi, ticks=ticks)
    v, l = list(t.values), list(t.labels)
    expect(len(v) == len(l) and v and all(isinstance(x, str) for x in l), "ticks %r and labels %r of the range from %r to %r", v, l, lo, hi)
    expect(all(0 <= k < len(v) for k in t.minor_tick_indices), "minor ticks %r", t.minor_tick_indices)
    return kind, v


def log(item):
    lo, hi, ticks, base = item
    t = G.LogTicker(lo, hi, ticks=ticks, base=base)
    v = list(t.values)
    eps = 1e-9 * max(1, abs(lo), abs(hi))
    expect(t.base == base and t.ticks == ticks, "properties")
    expect(all(b > a for a, b in zip(v, v[1:])), "ticks %r do not increase", v)
    expect(v[0] <= lo + eps and v[-1] >= hi - eps, "ticks from %r to %r do not cover %r to %r", v[0], v[-1], lo, hi)
    expect(t.minimum <= lo + eps and t.maximum >= hi - eps, "limits from %r to %r do not cover %r to %r", t.minimum, t.maximum, lo, hi)
    minor = set(t.minor_tick_indices)
    expect(minor <= set(range(len(v))), "minor ticks %r of %d", minor, len(v))
    major = [x for i, x in enumerate(v) if i not in minor]
    steps = [b - a for a, b in zip(major, major[1:])]
    expect(len(major) >= 2 and max(steps) - min(steps) <= eps, "major ticks %r are not evenly spaced", major)
    expect(major[0] > lo - max(1, steps[0]) - eps, "first major tick %r is far below %r", major[0], lo)
    expect(major[-1] < hi + max(1, steps[0]) + steps[0] + eps, "last major tick %r is far above %r", major[-1], hi)
    expect(t.maximum <= hi + steps[0] + eps and t.minimum >= lo - 0.02 * (t.maximum - lo) - eps, "limits from %r to %r are far outside %r to %r", t.minimum, t.maximum, lo, hi)
    groups = {}
    for k in sorted(minor):
        below = max(x for x in major if x <= v[k] + eps)
        m = base ** (v[k] - below)
        expect(abs(m - round(m)) < 1e-6 and 1 < round(m) < base, "minor tick %r is not a whole multiple of the power below it", v[k])
        groups.setdefault(below, []).append(round(m))
    expect(not groups or (len(groups) == len(major) and len(set(map(tuple, groups.values()))) == 1), "minor ticks differ between the powers: %r", groups)
    expect(len(t.labels) == len(v), "%d labels for %d ticks", len(t.labels), len(v))
    if base in (2, 10):
        expect(len(set(t.labels)) == len(v), "labels %r are not distinct", t.labels)
    for l, x in zip(t.labels, v):
        mantissa, exponent = l.split("e")
        digits = len(mantissa.partition(".")[2])
        y = float(base) ** x
        expect(abs(float(l) - y) <= 0.5001 * 10.0 ** (int(exponent) - digits) + 1e-9 * y, "label %r of the tick at %r", l, y)
    return len(v), len(minor)


def check(result, tier):
    q = tier == "quick"
    marks = (1.0, 1.5, 2.0, 3.0, 5.0, 7.0, 10.0)
    exps = range(-30, 31) if q else range(-290, 291)
    vals = []
    for e in exps:
        for m in marks:
            x = float("%re%d" % (m, e))
            vals += [x, math.nextafter(x, 0), math.nextafter(x, math.inf), x * 1.1, x * (1 + 1e-12), x * (1 - 1e-12), 10.0 ** e * m]
    items = [(s * v, r) for v in sorted(set(vals)) for s in (1, -1) for r in (True, False)]
    enumerate_domain(result, "pretty numbers", items, pretty, bounds={"values": len(vals), "magnitudes": [min(exps), max(exps)]})
    mants = (0.0, 1.0, 1.000062, 1.3, 2.0, 2.5, 3.7, 5.0, 7.77, math.nextafter(10.0, 0), 1e-3, 1 + 1e-6) if q else (0.0, 1.0, 1.000062, 1.1, 1.3, 1.5, 2.0, 2.5, 3.0, 3.7, 4.999999, 5.0, 6.5, 7.77, 9.5, math.nextafter(10.0, 0), 1e-3, 1 + 1e-6)
    mags = (-18, -12, -7, -6, -5, -3, -1, 0, 1, 3, 5, 6, 7, 8, 12, 18) if q else range(-18, 19)
    ends = sorted({s * m * 10.0 ** e for s in (-1, 1) for m in mants for e in mags})
    pairs = [(a, b) for a, b in itertools.combinations(ends, 2) if b - a >= 1e-9 * max(abs(a), abs(b))]
    items = [(a, b, t) for a, b in pairs for t in ((2, 3, 5, 10) if q else (2, 3, 4, 5, 6, 7, 8, 10, 20, 60, 200))]
    enumerate_domain(result, "linear ticks", items, linear, bounds={"ends": len(ends), "ranges": len(pairs)})
    many = [(a, b, t) for a, b in itertools.combinations([s * m * 10.0 ** e for s in (-1, 1) for m in (0.0, 1.0, 1.3, 2.5, 7.77) for e in ((-7, -5, -1, 0, 3, 6) if q else mags)], 2) if a < b for t in (15, 25, 60, 100, 200) if b - a >= 1e-7 * max(abs(a), abs(b))]
    enumerate_domain(result, "many linear ticks", many, linear, bounds={"ranges": len(many)})
    near = [(c + a * s, c + b * s, t) for c in (0.0, 1.0, -1.0, 100.0, -100.0, 12345.678, 1e6, -1e6, 1e8, -1e8, 1e-7, -1e-7) for s in [abs(c) * 10.0 ** -k if c else 10.0 ** -k for k in range(0, 12)] for a in range(-6, 7) for b in range(a + 1, 8) for t in (3, 5)]
    enumerate_domain(result, "linear ticks of narrow ranges", near, linear, bounds={"ranges": len(near)})
    enumerate_domain(result, "empty ranges", ends, degenerate)
    inf = [(k, a, b, t) for k in ("linear", "log") for a in (math.inf, -math.inf, math.nan, 0.0, -2.5, 3) for b in (math.inf, -math.inf, math.nan, 0.0, -2.5, 3) if not (math.isfinite(a) and math.isfinite(b)) for t in (2, 5, 10)]
    enumerate_domain(result, "unbounded and undefined ranges", inf, unbounded, bounds={"ranges": len(inf)})
    grid = [x / 10 for x in range(-35, 130, 2 if q else 1)] + [0.05, 0.301, 1.0001, 2.9999]
    items = [(a, b, t, base) for a in grid for b in grid if b >= a for t in (2, 3, 5, 8, 10) for base in ((2, 10) if q else (2, 3, 5, 10, 16))]
    enumerate_domain(result, "logarithmic ticks", items, log, bounds={"ends": len(grid)})
    narrow = [(c, c + m * 10.0 ** -k, t, base) for c in (0.0, 1.0, 12.0, -3.5, 7.3, -18.0, 2.95) for m in (1, 1.5, 2.7, 5, 9) for k in range(0, 9) for t in (3, 5, 8) for base in (2, 10)]
    enumerate_domain(result, "logarithmic ticks of narrow ranges", narrow, log, bounds={"ranges": len(narrow)})
