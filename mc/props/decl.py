"""Every combination of the features a persistent property can be declared with, and the stored modification time."""
import copy
import datetime
import itertools

from core import expect, expect_eq
from nion.utils import Persistence


class Wrap:
    def convert(self, v):
        return None if v is None else {"w": copy.deepcopy(v)}

    def convert_back(self, j):
        return None if j is None else copy.deepcopy(j["w"])


def halves(v):
    return None if v is None else [x // 2 * 2 for x in v]


class Storage:
    def __init__(self):
        self.log = []

    def set_property(self, object, name, value):
        self.log.append(("set", object, name, copy.deepcopy(value)))

    def clear_property(self, object, name):
        self.log.append(("clear", object, name))


FEATURES = ("default", "read_only", "hidden", "copy_on_read", "validate", "converter", "changed", "key")


class Declared(Persistence.PersistentObject):
    def __init__(self, features):
        super().__init__()
        f = dict(zip(FEATURES, features))
        self.calls = []
        self.define_property("before", 1)
        self.define_property("it", [4] if f["default"] else None, read_only=f["read_only"], hidden=f["hidden"], copy_on_read=f["copy_on_read"], validate=halves if f["validate"] else None,
                             converter=Wrap() if f["converter"] else None, changed=self.told if f["changed"] else None, key="stored" if f["key"] else None)
        self.define_property("after", 2, key="behind")
        self.define_item("one", lambda lookup: Declared(features))
        self.define_relationship("list", lambda lookup: Declared(features))

    def told(self, name, value):
        expect_eq(self._get_persistent_property_value(name), value, "value in place when the change is told")
        self.calls.append((name, copy.deepcopy(value)))


def subclass(features):
    return type("Declared", (Declared,), {"__init__": lambda self: Declared.__init__(self, features)})


VALUES = (None, [], [3], [5, 2])
STEPS = [(how, i) for how in ("outside", "inside") for i in range(len(VALUES))]


def domain(steps):
    for f in itertools.product((False, True), repeat=len(FEATURES)):
        for n in range(1, steps + 1):
            for s in itertools.product(STEPS, repeat=n):
                yield f, s


def run(item):
    features, steps = item
    f = dict(zip(FEATURES, features))
    cls = subclass(features)
    o = cls()
    context = Persistence.PersistentObjectContext()
    storage = Storage()
    context._set_persistent_storage_for_object(o, storage)
    o.persistent_object_context = context
    key = "stored" if f["key"] else "it"
    value = [4] if f["default"] else None
    convert = (lambda v: Wrap().convert(v)) if f["converter"] else (lambda v: v)

    expect_eq(o.property_names, ["before", "it", "after"], "names of the properties")
    expect_eq(o.key_names, ["before", key, "behind"], "names of the stored keys")
    expect_eq((o.item_names, o.relationship_names), (["one"], ["list"]), "names of items and relationships")

    def inside(x):
        return x._get_persistent_property_value("it")

    def look():
        expect_eq(inside(o), value, "value of the property")
        if f["hidden"]:
            expect(f["hidden"] and ("it" in o.__dict__ or not hasattr(o, "it")), "a hidden property is seen from outside")
        else:
            expect_eq(o.it, value, "value of the property from outside")
        expect_eq((o.before, o.after), (1, 2), "the other properties")

    look()
    for how, i in steps:
        given = copy.deepcopy(VALUES[i])
        del storage.log[:], o.calls[:]
        count = o.modified_count
        refused = False
        if how == "outside":
            if f["hidden"]:
                continue        # an ordinary attribute, if anything
            try:
                o.it = given
            except AttributeError:
                refused = True
            expect_eq(refused, f["read_only"], "setting a read-only property is refused")
        else:
            o._set_persistent_property_value("it", given)
        if refused:
            expect(not storage.log and not o.calls and o.modified_count == count, "a refused edit was told: %r %r", storage.log, o.calls)
        else:
            value = halves(given) if f["validate"] else copy.deepcopy(given)
            expect_eq(o.calls, [("it", value)] if f["changed"] else [], "calls of the changed function")
            expect_eq(storage.log, [("set", o, key, convert(value))] if value is not None else [("clear", o, key)], "told to the storage")
            expect_eq(o.modified_count, count + 1, "modification count")
        look()
        if given is not None:
            given.append(9)
            look()
        if f["copy_on_read"] and value is not None:
            for out in ([inside(o)] if f["hidden"] else [inside(o), o.it]):
                out.append(8)
            look()
    form = o.write_to_dict()
    expect_eq((key in form, form.get(key)), (value is not None, convert(value)), "the written form")
    expect_eq((form["before"], form["behind"]), (1, 2), "the other properties written")
    fresh = cls()
    kept = copy.deepcopy(form)
    fresh.begin_reading()
    fresh.read_from_dict(form)
    fresh.finish_reading()
    expect_eq(form, kept, "the form that was read")
    expect_eq(inside(fresh), value if value is not None else ([4] if f["default"] and not f["validate"] else inside(cls())), "the value read back")
    c = copy.deepcopy(o)
    expect_eq(inside(c), value, "the value of a deep copy")
    expect(c.uuid != o.uuid and c.persistent_object_context is None, "a deep copy has uuid or context of the original")
    return value


# the modification time

def times():
    for y, mo, d in ((1, 1, 1), (1970, 1, 1), (1999, 12, 31), (2020, 2, 29), (2021, 10, 7), (9999, 12, 31)):
        for h, mi, s in itertools.product((0, 1, 9, 10, 23), (0, 8, 59), (0, 7, 59)):
            for us in (0, 1, 10, 999, 1000, 123456, 500000, 999999):
                for style in ("iso", "str"):
                    for place in ("root", "one", "list"):
                        yield (y, mo, d, h, mi, s, us), style, place


def run_time(item):
    parts, style, place = item
    t = datetime.datetime(*parts)
    text = t.isoformat() if style == "iso" else str(t)
    features = (False,) * len(FEATURES)
    cls = subclass(features)
    o = cls()
    child = cls()
    if place == "one":
        o.set_item("one", child)
    elif place == "list":
        o.append_item("list", child)
    form = o.write_to_dict()
    target = form if place == "root" else form["one"] if place == "one" else form["list"][0]
    target["modified"] = text
    fresh = cls()
    fresh.begin_reading()
    fresh.read_from_dict(form)
    fresh.finish_reading()
    x = fresh if place == "root" else fresh.one if place == "one" else fresh.list[0]
    expect_eq(x.modified, t, "modification time read")
    expect_eq(str(x.uuid), target["uuid"], "uuid read")
    x.before = 5
    expect(x.modified > datetime.datetime(2020, 3, 1) and x.modified == fresh.modified, "modification time after an edit is %r", x.modified)
    return text


# storage keys that are the names of other members

KEYPOOL = (None, "a", "b", "r", "s", "i", "z")
MEMBERS = ("a", "b", "r", "s")          # two properties, two relationships; an item "i" is stored under its name


class Crossed(Persistence.PersistentObject):
    def __init__(self, keys):
        super().__init__()
        self.define_property("a", key=keys[0])
        self.define_property("b", key=keys[1])
        self.define_item("i", lambda lookup: type(self)())
        self.define_relationship("r", lambda lookup: type(self)(), key=keys[2])
        self.define_relationship("s", lambda lookup: type(self)(), key=keys[3])

    def content(self):
        return [self.a, self.b, self.i.content() if self.i else None, [x.content() for x in self.r], [x.content() for x in self.s], str(self.uuid)]


def crossed(full):
    for keys in itertools.product(KEYPOOL, repeat=4):
        used = [k or n for k, n in zip(keys, MEMBERS)]
        if len(set(used)) == 4 and "i" not in used:
            for steps in itertools.permutations(("a", "b", "i", "r", "s"), 5 if full else 2):
                yield keys, steps


def run_crossed(item):
    from props import persist
    keys, steps = item
    cls = type("Crossed", (Crossed,), {"__init__": lambda self: Crossed.__init__(self, keys)})
    o = cls()
    context = Persistence.PersistentObjectContext()
    storage = persist.Storage(o)
    context._set_persistent_storage_for_object(o, storage)
    o.persistent_object_context = context

    def look(when):
        form = o.write_to_dict()
        expect_eq(storage.properties, form, "%s: the stored form" % when)
        fresh = cls()
        fresh.begin_reading()
        fresh.read_from_dict(copy.deepcopy(form))
        fresh.finish_reading()
        expect_eq(fresh.content(), o.content(), "%s: content read back" % when)
        expect_eq(fresh.write_to_dict(), form, "%s: form written again" % when)

    look("at the beginning")
    n = 0
    for undo in (False, True):
        for m in steps:
            n += 1
            if m in "ab":
                setattr(o, m, None if undo else n)
            elif m == "i":
                o.set_item("i", None if undo else cls())
            elif undo:
                o.remove_item(m, getattr(o, m)[0])
            else:
                child = cls()
                child.b = n
                o.append_item(m, child)
                getattr(o, m)[0].a = n + 50
            look("%s %s" % ("after taking away" if undo else "after giving", m))
    return len(steps)
