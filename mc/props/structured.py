"""Shared harness for structured models: a real model next to plain reference data."""
import copy
import itertools

from core import Harness, Violation, expect, expect_eq
from nion.utils import StructuredModel as SM

SCALARS = {"int": (SM.define_int, (0, 3)), "string": (SM.define_string, ("", "s")), "boolean": (SM.define_boolean, (False, True)), "float": (SM.define_float, (0.0, 2.5))}
CONSTANTS = {"int": SM.INT, "string": SM.STRING, "boolean": SM.BOOLEAN, "float": SM.FLOAT}

# A schema here is: "int" | "string" | ... | ("array", schema) | ("record", ((name, schema, default), ...))
# default None means none is given.


def real_schema(s, constants=False):
    if isinstance(s, str):
        if constants == "described":
            return SM.define_field(type=SCALARS[s][0]())       # a nameless field describes a value too
        return CONSTANTS[s] if constants else SCALARS[s][0]()
    if s[0] == "array":
        return SM.define_array(real_schema(s[1], constants))
    return SM.define_record("R", [SM.define_field(n, real_schema(t, constants), default=copy.deepcopy(thaw(d))) for n, t, d in s[1]])


def freeze(v):
    if isinstance(v, dict):
        return ("D",) + tuple((k, freeze(x)) for k, x in v.items())
    if isinstance(v, list):
        return ("L",) + tuple(freeze(x) for x in v)
    return v


def thaw(v):
    if isinstance(v, tuple) and v[0] == "D":
        return {k: thaw(x) for k, x in v[1:]}
    if isinstance(v, tuple) and v[0] == "L":
        return [thaw(x) for x in v[1:]]
    return v


def built(s, value, default=None):
    """reference: plain data a model holds when built; None for a field without value"""
    if isinstance(s, str):
        return value if value is not None else default
    if s[0] == "record":
        merged = dict(default or {})
        merged.update(value or {})
        return {n: built(t, merged.get(n), thaw(d)) for n, t, d in s[1]}
    v = value if value is not None else default
    return [built(s[1], x) for x in (v or [])]


def export(s, data):
    if isinstance(s, str):
        return data
    if s[0] == "record":
        return {n: export(t, data[n]) for n, t, d in s[1] if data[n] is not None}
    return [export(s[1], x) for x in data]


def complete(s, data):
    """no field without a value"""
    if isinstance(s, str):
        return data is not None
    if s[0] == "record":
        return all(complete(t, data[n]) for n, t, d in s[1])
    return all(complete(s[1], x) for x in data)


def same(a, b):
    return type(a) is type(b) and a == b


def read(s, m, top=True):
    """the plain data of a real model, read through its accessors"""
    if isinstance(s, str):
        return m.value if top else m
    if s[0] == "record":
        expect(isinstance(m, SM.RecordModel), "a record is a %s", type(m).__name__)
        d = {}
        for n, t, _ in s[1]:
            v = getattr(m, n)
            sub = getattr(m, n + "_model")
            if isinstance(t, str):
                expect(same(sub.value, v) and same(sub.field_value, v), "field %s is %r but its model has %r, %r", n, v, sub.value, sub.field_value)
                d[n] = v
            elif t[0] == "record":
                expect(sub is v, "record field and its model")
                d[n] = read(t, v)
            else:
                expect(isinstance(sub, SM.ArrayModel), "the model of an array is a %s", type(sub).__name__)
                expect(len(v) == len(sub.items) and all(a is b for a, b in zip(v, sub.items)), "array field %s is not the items of its model", n)
                for x in v:
                    expect(x in v, "an element of the array is not found in it")
                    if isinstance(x, (int, float)):
                        expect(float(repr(float(x))) in v, "an equal value is not found in the array")
                expect(object() not in v, "an object is wrongly found in an array")
                d[n] = read(t, sub)
        return d
    expect(isinstance(m, SM.ArrayModel), "an array is a %s", type(m).__name__)
    return [read(s[1], x, False) for x in m.items]


def deep_same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(deep_same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(deep_same(x, y) for x, y in zip(a, b))
    return a == b


def check_holds(s, m, data, what):
    got = read(s, m)
    expect(deep_same(got, data), "%s: the model holds %r, expected %r", what, got, data)
    out = m.to_dict_value()
    expect(deep_same(out, export(s, data)), "%s: exported %r, expected %r", what, out, export(s, data))


def models(s, m):
    """all models at and below m, outermost first: (path, schema, model)"""
    res = [((), s, m)]
    if s[0] == "record":
        for n, t, _ in s[1]:
            res += [((n,) + p, t2, x) for p, t2, x in models(t, getattr(m, n + "_model"))]
    elif s[0] == "array" and not isinstance(s[1], str):
        for i, x in enumerate(m.items):
            res += [((i,) + p, t2, y) for p, t2, y in models(s[1], x)]
    return res


def at(data, path):
    for p in path:
        data = data[p]
    return data


def plain_values(s, size=1, alphabet=2):
    """small complete plain data for a schema"""
    if isinstance(s, str):
        return list(SCALARS[s][1][:alphabet])
    if s[0] == "record":
        return [dict(zip([f[0] for f in s[1]], c)) for c in itertools.product(*[plain_values(f[1], size, alphabet) for f in s[1]])]
    sub = plain_values(s[1], size, alphabet)
    return [list(c) for k in range(size + 1) for c in itertools.product(sub, repeat=k)]


def given_values(s, size=1, alphabet=2):
    """plain data that may leave fields out"""
    if isinstance(s, str):
        return list(SCALARS[s][1][:alphabet])
    if s[0] == "record":
        res = []
        for c in itertools.product(*[[None] + given_values(f[1], size, alphabet) for f in s[1]]):
            res.append({f[0]: v for f, v in zip(s[1], c) if v is not None})
        return res
    sub = given_values(s[1], size, alphabet)
    return [list(c) for k in range(size + 1) for c in itertools.product(sub, repeat=k)]


class Structured(Harness):
    """config: (schema, initial value frozen, options)"""
    SIGNALS = False

    def __init__(self, config):
        super().__init__(config)
        self.s, value, opts = config
        self.o = dict(opts)
        value = thaw(value)
        self.real = real_schema(self.s)
        self.m = SM.build_model(self.real, value=copy.deepcopy(value))
        self.data = built(self.s, value)
        self.out = []            # removed or not yet inserted elements: (schema, model, data)
        self.log = []
        self.tokens = []
        self.watched = []        # models already listened to
        self.mirrors = []        # (array model, list maintained from its events)
        self.watch()
        self.verify("at the beginning")

    def roots(self):
        return [self.m, self.data, self.out]

    def observe(self):
        return [self.data, [x[2] for x in self.out]]

    # ---------------------------------------------------------------- listeners

    def watch(self):
        if not self.SIGNALS:
            return
        for s, m in [(self.s, self.m)] + [(x[0], x[1]) for x in self.out]:
            for path, t, x in models(s, m):
                if any(w is x for w in self.watched):
                    continue
                self.watched.append(x)
                note = self.note
                self.tokens.append(x.model_changed_event.listen(lambda x=x: note(x, "changed")))
                self.tokens.append(x.property_changed_event.listen(lambda k, x=x: note(x, "property", k)))
                self.tokens.append(x.item_inserted_event.listen(lambda k, v, i, x=x: note(x, "inserted", k, v, i)))
                self.tokens.append(x.item_removed_event.listen(lambda k, v, i, x=x: note(x, "removed", k, v, i)))
                if isinstance(x, SM.ArrayModel):
                    self.mirrors.append((x, list(x.items)))

    def note(self, *e):
        self.log.append(e)
        if self.acting is not None:
            self.moments.append(freeze(self.acting.to_dict_value()))
        if e[1] in ("inserted", "removed"):
            for a, mirror in self.mirrors:
                if a is e[0]:
                    if e[1] == "inserted":
                        expect(0 <= e[4] <= len(mirror), "insertion reported at %r in a list of %d", e[4], len(mirror))
                        mirror.insert(e[4], e[3])
                    else:
                        expect(0 <= e[4] < len(mirror), "removal reported at %r in a list of %d", e[4], len(mirror))
                        x = mirror.pop(e[4])
                        expect(x is e[3] or same(x, e[3]), "removal of %r reported at the place of %r", e[3], x)

    def expected(self, s, m, path, kind, *detail):
        """signals of one change at path: ('field',) or ('inserted'/'removed', value, index)"""
        chain = [(s, m)]
        for p in path:
            t, x = chain[-1]
            if t[0] == "record":
                chain.append((next(f[1] for f in t[1] if f[0] == p), getattr(x, str(p) + "_model")))
            else:
                chain.append((t[1], x.items[p]))
        res = [(x, "changed") for _, x in chain]
        place = chain[-1][1]
        if kind == "field":
            res.append((place, "property", "value"))
            if len(chain) > 1:
                res.append((chain[-2][1], "property", path[-1]))
        else:
            res.append((place, kind, "items") + detail)
            if len(chain) > 1 and chain[-2][0][0] == "record":
                res.append((chain[-2][1], kind, path[-1]) + detail)
        return res

    @staticmethod
    def match(a, b):
        return len(a) == len(b) and a[0] is b[0] and all(x is y or same(x, y) for x, y in zip(a[1:], b[1:]))

    acting = None        # the model of which the operation edits a part, in one step
    moments = ()

    def check_moments(self, s, d):
        """every signal of a single change comes when the change is in place"""
        self.acting = None
        want = freeze(export(s, d))
        for x in self.moments:
            expect(x == want, "signalled while the model held %r, not %r", thaw(x), thaw(want))

    def check_log(self, want, exact=True):
        if not self.SIGNALS:
            return
        rest = list(self.log)
        for w in want:
            hit = next((e for e in rest if self.match(e, w)), None)
            if hit is None:
                raise Violation("missing signal %s; signalled were %s" % (self.show(w), [self.show(e) for e in self.log]))
            rest.remove(hit)
        expect(not exact or not rest, "too many signals: %s", [self.show(e) for e in rest])
        self.log = []
        for a, mirror in self.mirrors:
            expect(len(mirror) == len(a.items) and all(x is y or same(x, y) for x, y in zip(mirror, a.items)), "the list maintained from the array's signals is %r, the array has %r", mirror, list(a.items))

    def show(self, e):
        place = "?"
        for s, m in [(self.s, self.m)] + [(x[0], x[1]) for x in self.out]:
            for path, t, x in models(s, m):
                if x is e[0]:
                    place = "%s%s" % ("root" if m is self.m else "removed", "".join(".%s" % p for p in path))
        return "%s %s" % (place, e[1:])

    # ---------------------------------------------------------------- operations

    def places(self):
        res = [(-1, self.s, self.m, self.data)]
        if self.SIGNALS or self.o.get("edit_removed"):
            res += [(k, s, m, d) for k, (s, m, d) in enumerate(self.out)]
        return res

    def ops(self):
        kinds = self.o.get("ops", ("set", "array", "import", "copy"))
        res = []
        for k, s, m, d in self.places():
            for path, t, x in models(s, m):
                if isinstance(t, str):
                    if "set" in kinds:
                        vals = SCALARS[t][1]
                        for v in range(len(vals)):
                            res.append(("set", k, path, v, 0))
                        res.append(("set", k, path, len(vals) - 1, 1))
                        if path and self.default_of(s, path) is None and self.o.get("none"):
                            res.append(("set", k, path, None, 0))
                elif t[0] == "array" and "array" in kinds:
                    n = len(x.items)
                    forms = ("model", "sequence") if path and not isinstance(path[-1], int) else ("model",)
                    for form in forms:
                        if n < self.o.get("size", 2):
                            for i in range(n + 1):
                                res.append(("insert", k, path, form, i, "new"))
                                if not isinstance(t[1], str):
                                    for j, (s2, m2, d2) in enumerate(self.out):
                                        if s2 == t[1] and j != k:
                                            res.append(("insert", k, path, form, i, j))
                            res.append(("append", k, path, form))
                            if form == "sequence" and n:
                                res.append(("insert", k, path, form, -1, "new"))
                        for i in range(n):
                            res.append(("delete", k, path, form, i))
                        if n and form == "sequence":
                            res.append(("pop", k, path))
                            res.append(("delete", k, path, form, -n))
                    if n:
                        res.append(("clear", k, path))
                if "import" in kinds and not isinstance(t, str) and self.o.get("imports", True):
                    for v in range(len(self.imports(t))):
                        res.append(("import", k, path, v))
        if "copy" in kinds:
            res.append(("copy",))
        if "close" in kinds:
            for path, t, x in models(self.s, self.m):
                if not isinstance(t, str) and not path:
                    res.append(("close", path))
        return res

    def default_of(self, s, path):
        d = None
        inherited = None
        for p in path:
            if s[0] == "record":
                f = next(f for f in s[1] if f[0] == p)
                d = f[2] if f[2] is not None else inherited.get(p) if isinstance(inherited, dict) else None
                inherited = thaw(f[2]) if isinstance(f[2], tuple) else inherited.get(p) if isinstance(inherited, dict) else None
                s = f[1]
            else:
                s = s[1]
                inherited = None
        return d

    def imports(self, t):
        vals = plain_values(t, 1)
        if len(vals) <= 4:
            return vals
        return [vals[0], vals[len(vals) // 2], vals[-1]] + ([plain_values(t, 2)[-1]] if t[0] == "array" else [])

    def place(self, k):
        return (self.s, self.m, self.data) if k < 0 else self.out[k]

    def new_element(self, t):
        if isinstance(t, str):
            return SCALARS[t][1][1], SCALARS[t][1][1]
        v = plain_values(t)[-1]
        return SM.build_model(real_schema(t), value=copy.deepcopy(v)), built(t, v)

    def real_at(self, m, s, path):
        for p in path:
            if s[0] == "record":
                s = next(f[1] for f in s[1] if f[0] == p)
                m = getattr(m, p + "_model")
            else:
                s = s[1]
                m = m.items[p]
        return s, m

    def assign(self, k, path, value):
        """change the reference data at path"""
        if path:
            s, m, d = self.place(k)
            at(d, path[:-1])[path[-1]] = value
        elif k < 0:
            self.data = value
        else:
            s, m, d = self.out[k]
            self.out[k] = (s, m, value)

    def retire(self, t, model, data):
        if not isinstance(t, str):
            self.out.append((t, model, data))
            del self.out[:-self.o.get("keep", 1)]

    def apply(self, op):
        kind = op[0]
        self.log = []
        if kind == "copy":
            self.copy_check()
        elif kind == "close":
            self.close_check()
            return
        else:
            s, m, d = self.place(op[1])
            path = op[2]
            t, x = self.real_at(m, s, path)
            single = self.SIGNALS and kind not in ("clear", "import")
            self.acting, self.moments = (m if single else None), []
            if kind == "set":
                v = None if op[3] is None else SCALARS[t][1][op[3]]
                old = at(d, path)
                want = self.expected(s, m, path, "field") if old != v else []
                if op[4] == 0 and path and not isinstance(path[-1], int):
                    ps, pm = self.real_at(m, s, path[:-1])
                    setattr(pm, path[-1], v)
                else:
                    x.value = v
                if old != v or old is None:
                    self.assign(op[1], path, v)
                self.check_log(want)
            elif kind in ("insert", "append"):
                form = op[3]
                n = len(x.items)
                i = op[4] if kind == "insert" else n
                which = op[5] if kind == "insert" else "new"
                if which == "new":
                    real, data = self.new_element(t[1])
                else:
                    _, real, data = self.out[which]
                where = i if i >= 0 else n + i
                want = self.expected(s, m, path, "inserted", real, where)
                if form == "model":
                    x.insert_item(i, real) if kind == "insert" else x.append_item(real)
                else:
                    seq = getattr(self.real_at(m, s, path[:-1])[1], path[-1])
                    seq.insert(i, real) if kind == "insert" else seq.append(real)
                at(d, path).insert(where, data)
                if which != "new":
                    del self.out[which]
                self.check_log(want)
            elif kind in ("delete", "pop"):
                n = len(x.items)
                i = op[4] if kind == "delete" else -1
                where = i if i >= 0 else n + i
                real = x.items[where]
                want = self.expected(s, m, path, "removed", real, where)
                if kind == "delete" and op[3] == "model":
                    x.remove_item(i)
                else:
                    seq = getattr(self.real_at(m, s, path[:-1])[1], path[-1])
                    if kind == "delete":
                        del seq[i]
                    else:
                        r = seq.pop()
                        expect(r is real or same(r, real), "pop returned %r, not %r", r, real)
                data = at(d, path).pop(where)
                self.retire(t[1], real, data)
                self.check_log(want)
            elif kind == "clear":
                items = list(x.items)
                want = []
                for i in reversed(range(len(items))):
                    want += self.expected(s, m, path, "removed", items[i], i)
                x.clear_items()
                datas = list(at(d, path))
                self.assign(op[1], path, [])
                for i in reversed(range(len(items))):
                    self.retire(t[1], items[i], datas[i])
                # one change per removed element; the order of removal is not prescribed
                changed = [w for w in want if w[1] == "changed"]
                self.check_log(changed, exact=False)
            elif kind == "import":
                v = self.imports(t)[op[3]]
                given = copy.deepcopy(v)
                old = at(d, path)
                differs = not deep_same(old, v)
                fresh = [(y, "changed") for q, _, y in models(s, m) if q == path[:len(q)]]
                x.from_dict_value(given)
                expect(deep_same(given, v), "importing changed the data it was given")
                self.assign(op[1], path, thaw(freeze(v)))
                if self.SIGNALS:
                    if differs:
                        self.check_log(fresh, exact=False)
                    else:
                        self.check_log([])
                # the data imported stays the caller's
                self.scramble(given)
            if single:
                self.check_moments(s, self.data if op[1] < 0 else d)
        self.watch()
        self.verify("after %r" % (op,))

    def scramble(self, v):
        if isinstance(v, dict):
            for x in v.values():
                self.scramble(x)
            v.clear()
        elif isinstance(v, list):
            for x in v:
                self.scramble(x)
            v.append("scrambled")

    def verify(self, what):
        check_holds(self.s, self.m, self.data, what)
        for s, m, d in self.out:
            check_holds(s, m, d, what + ", a removed element")
        expect(not self.log, "unexpected signals: %s", [self.show(e) for e in self.log])

    # ---------------------------------------------------------------- copies

    def edit_everything(self, s, m):
        for path, t, x in reversed(models(s, m)):
            if isinstance(t, str):
                v = SCALARS[t][1]
                x.value = v[1] if x.value == v[0] else v[0]
            elif t[0] == "array":
                x.append_item(self.new_element(t[1])[0])
                if len(x.items) > 1:
                    x.remove_item(0)

    def copy_check(self):
        s, m, data = self.s, self.m, copy.deepcopy(self.data)
        if isinstance(s, str):
            return
        form = m.to_dict_value()
        self.scramble(m.to_dict_value())
        check_holds(s, m, data, "after the exported data was changed")
        fresh = SM.build_model(real_schema(s))
        given = copy.deepcopy(form)
        fresh.from_dict_value(given)
        check_holds(s, fresh, data, "imported into a fresh model")
        again = SM.build_model(real_schema(s, True), value=given)
        check_holds(s, again, data, "built from exported data")
        self.scramble(given)
        check_holds(s, fresh, data, "imported model, after the data was changed")
        check_holds(s, again, data, "built model, after the data was changed")
        dup = copy.deepcopy(m)
        expect(type(dup) is type(m) and dup is not m, "deep copy")
        check_holds(s, dup, data, "deep copy")
        mine = [x for _, _, x in models(s, m)]
        expect(not any(x is y for _, _, x in models(s, dup) for y in mine), "the copy shares a model with the original")
        self.edit_everything(s, dup)
        check_holds(s, m, data, "original after its copy was edited")
        self.check_log([])
        # edits of the original do not show in its copy
        dup = copy.deepcopy(m)
        saved = copy.deepcopy(m)
        self.tokens_off = True
        other = copy.deepcopy(m)
        third = copy.deepcopy(other)
        self.edit_everything(s, other)
        check_holds(s, third, data, "copy after its original was edited")
        # copy_from, into a fresh model and into one with other content
        fresh = SM.build_model(real_schema(s))
        fresh.copy_from(m)
        check_holds(s, fresh, data, "copy_from into a fresh model")
        if complete(s, data):
            other.copy_from(m)
            check_holds(s, other, data, "copy_from into a model with other content")
            self.edit_everything(s, other)
        self.edit_everything(s, fresh)
        check_holds(s, m, data, "original after a model copied from it was edited")
        self.check_log([])

    def close_check(self):
        """after close the closed model forwards nothing"""
        m = SM.build_model(real_schema(self.s), value=self.m.to_dict_value())
        subs = [x for p, t, x in models(self.s, m) if p]
        log = []
        t1 = m.model_changed_event.listen(lambda: log.append("changed"))
        t2 = m.property_changed_event.listen(lambda k: log.append("property"))
        t3 = m.item_inserted_event.listen(lambda k, v, i: log.append("inserted"))
        t4 = m.item_removed_event.listen(lambda k, v, i: log.append("removed"))
        m.close()
        expect(not log, "closing signals %r", log)
        for x in reversed(subs):
            if isinstance(x, SM.ArrayModel):
                if x.items:
                    x.remove_item(0)
            elif isinstance(x, SM.FieldPropertyModel):
                x.value = "other"
        expect(not log, "a closed model still signals: %r", log)
