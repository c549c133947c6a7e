"""Converters and validators: complete enumeration of value grids and of short texts."""
import datetime
import itertools
import locale
import math
import pathlib
import re
import uuid

from core import Violation, enumerate_domain, expect, expect_eq
from nion.utils import Converter as C
from nion.utils import Validator as V


def same(a, b, what):
    expect(type(a) is type(b) and a == b, "%s: got %r, expected %r", what, a, b)


# ---------------------------------------------------------------- integers

def integer(item):
    fmt, n = item
    c = C.IntegerToStringConverter(fmt) if fmt else C.IntegerToStringConverter()
    t = c.convert(n)
    expect_eq(t, (fmt or "{:d}").format(n), "display form of %r with format %r" % (n, fmt))
    same(c.convert_back(t), n, "%r back from %r" % (n, t))
    same(c.convert_back(" " + t + " "), n, "%r back from %r with blanks" % (n, t))
    if abs(n) < 1 << 50:
        same(c.convert_back(c.convert(float(n))), n, "float %r" % n)
    return t


# ---------------------------------------------------------------- floats

FORMATS = {None: ("rel", 5.0e-6), "{:g}": ("rel", 5.0e-6), "{:.3g}": ("rel", 5.0e-3), "{:.0f}": ("abs", 0.5), "{:.2f}": ("abs", 0.005), "{:.4f}": ("abs", 0.00005),
           "{:.3e}": ("rel", 5.0e-4), "{:+.2f}": ("abs", 0.005), "{:8.3f}": ("abs", 0.0005), "{:.15g}": ("rel", 5.0e-15), "{:.17g}": ("exact", 0.0), "{}": ("exact", 0.0)}


def near(a, b, tol):
    kind, e = tol
    if kind == "exact":
        return a == b
    if kind == "abs":
        return abs(a - b) <= e * (1 + 1e-9) + 1e-12 * abs(b)
    return abs(a - b) <= e * abs(b) * (1 + 1e-6) if b else a == 0


def real(item):
    fmt, pass_none, fuzzy, v = item
    c = C.FloatToStringConverter(fmt, pass_none, fuzzy)
    t = c.convert(v)
    expect_eq(t, (fmt or "{:g}").format(v), "display form of %r with format %r" % (v, fmt))
    back = c.convert_back(t)
    expect(isinstance(back, float), "%r came back as %r", v, back)
    expect_eq(back, float(t), "value of the text %r" % t)
    expect(near(back, v, FORMATS[fmt]), "%r came back as %r from %r (format %r)", v, back, t, fmt)
    if v != 0 and float(t) != 0:
        expect((back > 0) == (v > 0), "%r changed sign to %r", v, back)
    return t


def physical(item):
    fmt, units, mult, pass_none, v = item
    c = C.PhysicalValueToStringConverter(units, mult, fmt, pass_none) if mult is not None else C.PhysicalValueToStringConverter(units)
    mult = 1.0 if mult is None else mult
    t = c.convert(v)
    expect_eq(t, ((fmt or "{:g}") + " {:s}").format(v * mult, units), "display form of %r" % v)
    back = c.convert_back(t)
    kind, e = FORMATS[fmt]
    expect(near(back * mult, v * mult, (kind, e) if kind != "exact" else ("rel", 1e-15)), "%r came back as %r from %r", v, back, t)
    return t


def none_pass(item):
    c = item()
    expect(c.convert(None) is None, "None displayed as %r", c.convert(None))
    expect(c.convert_back(None) is None, "None came back as %r", c.convert_back(None))
    if isinstance(c, (C.FloatToStringConverter, C.PhysicalValueToStringConverter)):
        expect(c.convert_back("") is None, "'' came back as %r", c.convert_back(""))
    return 1


NONES = [lambda: C.FloatToStringConverter(pass_none=True), lambda: C.FloatToStringConverter(pass_none=True, fuzzy=False), lambda: C.FloatToStringConverter("{:.2f}", True),
         lambda: C.PhysicalValueToStringConverter("nm", pass_none=True), lambda: C.PhysicalValueToStringConverter("eV", 2.0, "{:.2f}", True),
         lambda: C.UuidToStringConverter(), lambda: C.PathToStringConverter(), lambda: C.DatetimeToStringConverter()]
NUMBER = re.compile(r"[-+]?(\d+([.,]\d*)?|[.,]\d+)([eE][-+]?\d+)?")


def fuzzy(text):
    """any text: the number it starts with, or 0"""
    m = NUMBER.match(text.strip())
    want = float(m.group(0).replace(",", ".")) if m else 0.0
    c = C.FloatToStringConverter()
    same(c.convert_back(text), want, "fuzzy value of %r" % text)
    p = C.PhysicalValueToStringConverter("nm", 4.0)
    same(p.convert_back(text), want / 4.0, "fuzzy physical value of %r" % text)
    return want


# decimal point, thousands separator of the locales in which the converters are used
LOCALES = {"C": (".", ""), "point": (".", ","), "comma": (",", "."), "comma only": (",", ""), "blank": (",", " ")}


class in_locale:
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        point, sep = LOCALES[self.name]
        self.original = locale.localeconv
        conv = dict(self.original(), decimal_point=point, thousands_sep=sep)
        locale.localeconv = lambda: dict(conv)

    def __exit__(self, *a):
        locale.localeconv = self.original


def localized(item):
    """displayed values read back in any locale, also written with its decimal point"""
    name, fmt, fuzz, v = item
    with in_locale(name):
        c = C.FloatToStringConverter(fmt, False, fuzz)
        t = c.convert(v)
        back = c.convert_back(t)
        expect_eq(back, float(t), "value of the text %r in locale %s" % (t, name))
        shown = t.replace(".", LOCALES[name][0])
        expect_eq(c.convert_back(shown), float(t), "value of the text %r in locale %s" % (shown, name))
        p = C.PhysicalValueToStringConverter("nm", 1000.0, fmt)
        t = p.convert(v)
        expect_eq(p.convert_back(t), float(t[:-3]) / 1000.0, "value of the text %r in locale %s" % (t, name))
    return t


def strict(text):
    """not fuzzy: the whole text is the number, anything else is refused"""
    c = C.FloatToStringConverter(fuzzy=False)
    try:
        want = float(text)
    except ValueError:
        want = None
    try:
        got = c.convert_back(text)
    except ValueError:
        got = None
    same(got, want, "value of %r" % text)
    return want


# ---------------------------------------------------------------- scaled integers, percent

def scaled(item):
    n, mn, mx, k = item
    c = C.FloatToScaledIntegerConverter(n, mn, mx) if mn is not None else C.FloatToScaledIntegerConverter(n)
    if mn is None:
        mn, mx = 0, 1       # documented default
    v = c.convert_back(k)
    expect(abs(v - (mn + (mx - mn) * (k / n))) <= 1e-9 * max(abs(mn), abs(mx), 1), "%d of %d in %r..%r came back as %r", k, n, mn, mx, v)
    got = c.convert(v)
    same(got, k, "%d of %d in %r..%r after a round trip" % (k, n, mn, mx))
    # values between two steps go to the nearest step
    step = (mx - mn) / n
    for frac in (0.25, 0.49, -0.25, -0.49):
        same(c.convert(v + frac * step), k, "step of the value %r of a step away from %d of %d in %r..%r" % (frac, k, n, mn, mx))
    return got


def percent(k):
    c = C.FloatToPercentStringConverter()
    v = k / 100.0
    t = c.convert(v)
    expect_eq(t, "%d%%" % k, "display form of %r" % v)
    expect_eq(c.convert_back(t), v, "value of %r" % t)
    expect_eq(c.convert_back(t[:-1]), v, "value of %r" % t[:-1])
    for d in (0.001, -0.001, 0.004, -0.004):
        expect_eq(c.convert(v + d), "%d%%" % k, "display form of %r" % (v + d))
    return t


# ---------------------------------------------------------------- others

def checked(v):
    c = C.CheckedToCheckStateConverter()
    t = c.convert(v)
    expect_eq(t, "checked" if v else "unchecked", "check state of %r" % (v,))
    same(c.convert_back(t), bool(v), "%r back" % (v,))
    return t


def uuids(bits):
    u = uuid.UUID(int=bits, version=4)
    c = C.UuidToStringConverter()
    t = c.convert(u)
    expect_eq(t, str(u), "display form")
    same(c.convert_back(t), u, "%r back" % t)
    same(c.convert_back("  " + t.upper() + "\n"), u, "%r back in upper case" % t)
    # texts that are nearly a uuid
    for bad in (t[:-1], t + "0", t.replace("-", ""), t[:14] + "1" + t[15:], "g" + t[1:], "{" + t + "}", t[:19] + "c" + t[20:]):
        expect(c.convert_back(bad) is None, "%r came back as %r", bad, c.convert_back(bad))
    return t[:8]


def badtext(t):
    for c in (C.UuidToStringConverter(), C.DatetimeToStringConverter()):
        expect(c.convert_back(t) is None, "%s: %r came back as %r", type(c).__name__, t, c.convert_back(t))
    return 0


def dates(item):
    d = datetime.datetime(*item)
    c = C.DatetimeToStringConverter()
    t = c.convert(d)
    expect_eq(t, d.isoformat(), "display form")
    same(c.convert_back(t), d, "%r back" % t)
    for bad in (t[:-1], t.replace("T", " "), t + "x", "x" + t[1:]):
        expect(c.convert_back(bad) is None, "%r came back as %r", bad, c.convert_back(bad))
    return t[:7]


def paths(t):
    p = pathlib.Path(t)
    c = C.PathToStringConverter()
    expect_eq(c.convert(p), str(p), "display form")
    same(c.convert_back(c.convert(p)), p, "%r back" % t)
    return t


def validator(item):
    mn, mx, v = item
    r = V.IntegerRangeValidator(mn, mx).validate(v)
    inside = (mn is None or v >= mn) and (mx is None or v <= mx)
    if inside:
        same(r, v, "%r, already inside %r..%r, validated" % (v, mn, mx))
    else:
        expect(r == (mn if mn is not None and v < mn else mx), "%r validated to %r in %r..%r", v, r, mn, mx)
    same(V.IntegerRangeValidator(mn, mx).validate(r), r, "validating twice")
    return r


def floats(mantissas, exps):
    res = [0.0]
    for e in exps:
        for m in mantissas:
            res += [m * 10.0 ** e, -m * 10.0 ** e]
    return res


def check(result, tier):
    q = tier == "quick"
    N = 3000 if q else 60000
    ints = list(range(-N, N + 1)) + [s * (10 ** e + d) for e in range(4, 22) for d in (-1, 0, 1) for s in (1, -1)]
    enumerate_domain(result, "integers", [(f, n) for f in (None, "{:d}", "{:5d}", "{:04d}", "{:+d}", "{:<6d}") for n in ints], integer, bounds={"all integers": N})
    ms = [1.0, 1.5, 2.0, 9.999994, 9.9999951, 1.000005, 3.14159265358979, 5.0, 7.25, 9.5, 0.1 + 0.2] + [1 + k / (25 if q else 250) for k in range(25 * 9 if q else 250 * 9)]
    fs = floats(ms, range(-9, 10) if q else range(-30, 31, 2))
    sm = floats([k / 8 for k in range(1, 800)], [0])
    enumerate_domain(result, "floats", [(f, p, z, v) for f in FORMATS for p, z in ((False, True), (True, True), (True, False), (False, False)) for v in sm]
                     + [(f, False, z, v) for f in (None, "{:.3e}", "{:.15g}", "{:.17g}", "{}") for z in (True, False) for v in fs], real, bounds={"values": len(fs) + len(sm), "formats": len(FORMATS)})
    enumerate_domain(result, "physical values", [(f, u, m, n, v) for f in (None, "{:.2f}", "{:.3e}") for u in ("nm", "eV", "e", "%", "E3", "1/nm", "") for m in (1.0, 1000.0, 0.001, 1e9, 100) for n in (False, True) for v in sm[::4]]
                     + [(None, u, None, False, v) for u in ("nm", "e") for v in sm], physical)
    enumerate_domain(result, "None", range(len(NONES)), lambda i: none_pass(NONES[i]))
    alphabet = "0 1 5 . , - + e E x".replace(" ", "") + " "
    L = 5 if q else 6
    texts = ["".join(t) for n in range(L + 1) for t in itertools.product(alphabet, repeat=n)]
    if q:
        texts = [t for t in texts if len(t) < 5] + ["".join(t) for t in itertools.product("05.,-eE ", repeat=5)]
    texts = [t for t in texts if not re.search(r"[eE][-+]?\d{4}", t)]
    enumerate_domain(result, "fuzzy texts", texts, fuzzy, bounds={"alphabet": alphabet, "length": L})
    enumerate_domain(result, "strict texts", [t for t in texts if len(t) < 5], strict, bounds={"alphabet": alphabet, "length": 4})
    enumerate_domain(result, "locales", [(n, f, z, v) for n in LOCALES for f in (None, "{:.2f}", "{:.3e}") for z in (True, False) for v in sm[::3]], localized, bounds={"locales": sorted(LOCALES)})
    ranges = [(None, None), (0, 1), (-100, 100), (0, 255), (-1, 1), (0.1, 0.7), (5, 6), (-3.5, -1.25), (1e-9, 5e-9), (0, 1e6), (0.3, 1000.7)]
    ns = [1, 2, 3, 7, 10, 49, 100, 255, 999, 1000] + ([] if q else [4096, 10000, 65535])
    enumerate_domain(result, "scaled integers", [(n, a, b, k) for n in ns for a, b in ranges for k in range(-2 if a is not None and a < 0 else 0, n + 1)], scaled, bounds={"all steps of": ns})
    enumerate_domain(result, "percents", range(-1000, 2001), percent)
    enumerate_domain(result, "check states", [True, False, 0, 1, None, "", "x"], checked)
    us = [0, (1 << 128) - 1, 0x0123456789abcdef0123456789abcdef] + [1 << b for b in range(128)] + [((1 << 128) - 1) ^ (1 << b) for b in range(128)] + [sum(0xf << (4 * i) for i in range(32) if i % 8 == j) for j in range(8)]
    enumerate_domain(result, "uuids", us, uuids)
    bad = ["".join(t) for n in range(4) for t in itertools.product("0a-T:. ", repeat=n)]
    bad += ["x" * n for n in range(40)] + ["0" * n for n in range(40)]
    enumerate_domain(result, "texts that are neither uuid nor date", bad, badtext)
    ds = [(y, m, d, h, mi, s, us_) for y in (1, 999, 1000, 1999, 2000, 2024, 9999) for m in (1, 2, 12) for d in (1, 28) for h in (0, 12, 23) for mi in (0, 59) for s in (0, 59) for us_ in (0, 1, 100000, 999999)]
    enumerate_domain(result, "dates", ds, dates)
    ps = ["", ".", "/", "a", "a/b", "/a/b.txt", "a b", "../x", "a//b/", "ä/ö"] + ["".join(t) for n in range(1, 5) for t in itertools.product("a /.~\\", repeat=n)] + ["C:\\x", "$HOME", "%41", "a\tb", "a\nb", "'a'", '"a"']
    enumerate_domain(result, "paths", ps, paths)
    rng = range(-6, 7) if q else range(-20, 21)
    enumerate_domain(result, "range validator", [(a, b, v) for a in [None] + list(rng) for b in [None] + list(rng) if a is None or b is None or a <= b for v in rng], validator)
