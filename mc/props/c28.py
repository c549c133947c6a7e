"""Filtered lists under threads: one thread edits the source, another reconfigures / batches."""
import threading

from core import expect, expect_eq
from sched import explore
from nion.utils import ListModel
from props.lists import Item, KEYS, PREDS, make_filter, same


class Base:
    SORT = "none"
    FILTER = "all"
    REV = False
    START = 2

    def __init__(self):
        self.pool = [Item("i%d" % i, i, v) for i, v in enumerate((1, 0, 2, 1, 2))]
        self.src = ListModel.ListModel("src", self.pool[:self.START])
        self.f = ListModel.FilteredListModel(container=self.src, master_items_key="src", items_key="k")
        with self.f.changes():
            self.f.filter = make_filter(self.FILTER)
            self.f.sort_key = KEYS[self.SORT]
            self.f.sort_reverse = self.REV
        self.errors = []
        self.copy = list(self.f.items)
        self.tokens = [self.f.item_inserted_event.listen(self.inserted), self.f.item_removed_event.listen(self.removed)]

    def inserted(self, key, item, index):
        self.copy.insert(index, item)

    def removed(self, key, item, index):
        del self.copy[index]

    # steps

    def insert(self, i, at):
        self.src.insert_item(at, self.pool[i])

    def remove(self, at):
        self.src.remove_item(at)

    def content(self, i, v):
        self.pool[i].v = v
        self.pool[i].item_changed_event.fire()

    def set_filter(self, name):
        self.FILTER = name
        self.f.filter = make_filter(name)

    def set_sort(self, name):
        self.SORT = name
        self.f.sort_key = KEYS[name]

    def set_reverse(self, r):
        self.REV = r
        self.f.sort_reverse = r

    def guarded(self, steps):
        def run():
            try:
                for s in steps:
                    s()
            except Exception as e:
                self.errors.append("%s: %s" % (type(e).__name__, e))
        return run

    def main(self):
        ts = [threading.Thread(target=self.guarded(t)) for t in self.threads()]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.guarded([lambda: self.src.append_item(self.pool[-1])])()    # the list must still follow its source

    def check(self, ex):
        expect(not self.errors, "a thread saw an exception: %r", self.errors)
        items = list(self.f.items)
        want = [x for x in self.src.items if PREDS[self.FILTER](x)]
        if self.SORT == "none":
            expect(same(items, want), "filtered list %r, expected %r", items, want)
        else:
            k = KEYS[self.SORT]
            expect(len(items) == len(want) and all(any(x is y for y in items) for x in want), "filtered list %r, expected the items %r", items, want)
            keys = [k(x) for x in items]
            expect_eq(keys, sorted(keys, reverse=self.REV), "order of the filtered list")
        expect(same(self.copy, items), "a client applying the notifications holds %r, the content is %r", self.copy, items)
        return items


def program(name, threads, **attrs):
    return type(name, (Base,), dict(attrs, threads=threads))


def batch(self, *steps):
    def run():
        self.f.begin_change()
        for s in steps:
            s()
        self.f.end_change()
    return run


PROGRAMS = {
    "insert and filter": program("P1", lambda s: [[lambda: s.insert(2, 1)], [lambda: s.set_filter("pos")]]),
    "insert, remove and filter": program("P2", lambda s: [[lambda: s.insert(2, 0), lambda: s.remove(1)], [lambda: s.set_filter("pos"), lambda: s.set_filter("all")]]),
    "insert and sort": program("P3", lambda s: [[lambda: s.insert(2, 0)], [lambda: s.set_sort("v")]]),
    "remove and unsort": program("P4", lambda s: [[lambda: s.remove(0)], [lambda: s.set_sort("none")]], SORT="v", START=3),
    "content and reverse": program("P5", lambda s: [[lambda: s.content(0, 0), lambda: s.content(1, 2)], [lambda: s.set_reverse(True)]], SORT="v", START=3),
    "content and filter": program("P6", lambda s: [[lambda: s.content(0, 0), lambda: s.content(1, 1)], [lambda: s.set_filter("pos")]], START=3),
    "edit and batch": program("P7", lambda s: [[lambda: s.insert(2, 0), lambda: s.remove(1)], [batch(s, lambda: s.set_filter("pos"), lambda: s.set_sort("v"))]]),
    "two batches": program("P8", lambda s: [[batch(s, lambda: s.insert(2, 0))], [batch(s, lambda: s.set_filter("pos"))]]),
    "mark changed and edit": program("P9", lambda s: [[lambda: s.insert(2, 0), lambda: s.content(2, 0)], [s.f.mark_changed, s.f.mark_changed]], FILTER="pos"),
    "edit and read": program("P10", lambda s: [[lambda: s.insert(2, 0), lambda: s.remove(2)], [lambda: list(s.f.items), lambda: list(s.f.k)]], SORT="v"),
    "three threads": program("P11", lambda s: [[lambda: s.insert(2, 0)], [lambda: s.set_filter("pos")], [batch(s, lambda: s.set_sort("v"))]]),
    "two empty batches": program("P13", lambda s: [[batch(s)], [batch(s)]], START=0),
    "two reconfigurations": program("P12", lambda s: [[lambda: s.set_filter("pos")], [lambda: s.set_sort("v")]], START=3),
}


class Reader(Base):
    """A third party reads the items while one thread edits the source and another reconfigures: every reading is the content
    after some number of edits and reconfigurations, and readings never go back."""
    EDITS = ()        # ("insert", item, index) | ("remove", index)
    CONFIGS = ()      # ("filter", name) | ("sort", name) | ("reverse", bool)
    READS = 2

    def threads(self):
        out = []
        if self.EDITS:
            out.append([lambda e=e: getattr(self, e[0])(*e[1:]) for e in self.EDITS])
        if self.CONFIGS:
            out.append([lambda c=c: getattr(self, "set_" + c[0])(*c[1:]) for c in self.CONFIGS])
        self.readings = []
        self.first = (self.FILTER, self.SORT, self.REV)
        if self.READS:
            out.append([lambda: self.readings.append(list(self.read())) for _ in range(self.READS)])
        return out

    def read(self):
        return self.f.items

    def meaning(self, source, config):
        items = [x for x in source if PREDS[config["filter"]](x)]
        if config["sort"] != "none":
            items.sort(key=KEYS[config["sort"]], reverse=config["reverse"])
        return items

    def contents(self):
        """content after each pair (number of edits, number of reconfigurations)"""
        sources = [list(self.pool[:self.START])]
        for e in self.EDITS:
            s = list(sources[-1])
            if e[0] == "insert":
                s.insert(e[2], self.pool[e[1]])
            else:
                del s[e[1]]
            sources.append(s)
        configs = [dict(zip(("filter", "sort", "reverse"), self.first))]
        for c in self.CONFIGS:
            configs.append(dict(configs[-1], **{c[0]: c[1]}))
        return {(i, j): self.meaning(s, c) for i, s in enumerate(sources) for j, c in enumerate(configs)}

    def check(self, ex):
        contents = self.contents()
        at = {(0, 0)}
        for n, reading in enumerate(self.readings):
            at = {k for k, items in contents.items() if same(items, reading) and any(k[0] >= p[0] and k[1] >= p[1] for p in at)}
            expect(at, "reading %d gave %r after the readings %r; the list never had that content (any more)", n, reading, self.readings[:n])
        return super().check(ex), self.readings


class ReadingEditor(Reader):
    """The thread that edits the source reads the items after each of its edits."""
    READS = 0

    def threads(self):
        out = super().threads()
        out[0] = [step for e in out[0] for step in (e, lambda: self.readings.append(list(self.read())))]
        return out


class MappedReader(Reader):
    """The same through a mapped list on the filtered list."""

    def __init__(self):
        super().__init__()
        self.mapped = ListModel.MappedListModel(container=self.f, master_items_key="k", items_key="m", map_fn=lambda x: ("mapped", x), unmap_fn=lambda x: None)
        self.mirror = list(self.mapped.items)
        self.tokens.append(self.mapped.item_inserted_event.listen(lambda key, value, index: self.mirror.insert(index, value)))
        self.tokens.append(self.mapped.item_removed_event.listen(lambda key, value, index: self.mirror.pop(index)))

    def read(self):
        return [x for _, x in self.mapped.items]

    def check(self, ex):
        expect(same([x for _, x in self.mapped.items], self.f.items), "mapped list %r on top of the filtered list %r", self.mapped.items, self.f.items)
        expect(self.mirror == list(self.mapped.items), "a client of the mapped list holds %r, the content is %r", self.mirror, self.mapped.items)
        return Base.check(self, ex)     # a mapped list follows item by item: readings in between are not claimed


class TwiceReader(Base):
    """A filtered list on a filtered list, each reconfigured by its own thread, the source edited by a third."""

    def __init__(self):
        super().__init__()
        self.g = ListModel.FilteredListModel(container=self.f, master_items_key="k", items_key="g")
        self.g_filter, self.g_sort = "all", "none"

    def set_g_filter(self, name):
        self.g_filter = name
        self.g.filter = make_filter(name)

    def set_g_sort(self, name):
        self.g_sort = name
        self.g.sort_key = KEYS[name]

    def check(self, ex):
        r = super().check(ex)
        want = [x for x in self.f.items if PREDS[self.g_filter](x)]
        if self.g_sort != "none":
            want.sort(key=KEYS[self.g_sort])
        got = list(self.g.items)
        expect(len(got) == len(want) and all(any(x is y for y in got) for x in want), "second filtered list %r, expected the items %r", got, want)
        k = KEYS[self.g_sort] if self.g_sort != "none" else None
        expect([k(x) for x in got] == [k(x) for x in want] if k else same(got, want), "second filtered list %r, expected %r", got, want)
        return r, got


def reader(base, **attrs):
    return type("R", (base,), attrs)


READERS = {
    "reading while inserting": reader(Reader, EDITS=(("insert", 2, 0), ("remove", 1)), SORT="v"),
    "reading while filtering": reader(Reader, CONFIGS=(("filter", "pos"), ("filter", "all")), START=3),
    "reading while sorting": reader(Reader, CONFIGS=(("sort", "v"), ("reverse", True)), START=3),
    "reading while editing and filtering": reader(Reader, EDITS=(("insert", 2, 0),), CONFIGS=(("filter", "pos"),), READS=1),
    "editor reading while reversing": reader(ReadingEditor, EDITS=(("insert", 2, 0), ("remove", 1)), CONFIGS=(("reverse", True),), SORT="v"),
    "editor reading while sorting": reader(ReadingEditor, EDITS=(("insert", 2, 0),), CONFIGS=(("sort", "v"),)),
    "editor reading while filtering": reader(ReadingEditor, EDITS=(("insert", 2, 0), ("remove", 1)), CONFIGS=(("filter", "pos"),)),
    "mapped while editing and filtering": reader(MappedReader, EDITS=(("insert", 2, 0), ("remove", 1)), CONFIGS=(("filter", "pos"),), READS=1),
    "mapped while editing and sorting": reader(MappedReader, EDITS=(("insert", 2, 0),), CONFIGS=(("sort", "v"), ("sort", "none")), READS=0),
    "filtered twice": reader(TwiceReader, threads=lambda s: [[lambda: s.insert(2, 0)], [lambda: s.set_filter("pos")], [lambda: s.set_g_sort("v")]]),
    "filtered twice, batches": reader(TwiceReader, threads=lambda s: [[lambda: s.insert(2, 0), lambda: s.remove(1)], [batch(s, lambda: s.set_filter("pos"))], [lambda: s.set_g_filter("pos")]]),
}


WIDE = ("mapped while editing and sorting", "reading while editing and filtering", "mapped while editing and filtering", "filtered twice", "filtered twice, batches")
DEEP = ("insert and filter", "insert and sort", "remove and unsort", "content and filter", "edit and read", "two batches")
OPCODES = ("insert and filter", "two batches", "mark changed and edit", "edit and batch", "two reconfigurations")


def check(result, tier):
    q = tier == "quick"
    for name, p in PROGRAMS.items():
        explore(result, name, p, bound=(2 if name in DEEP else 1) if q else 2)
    for name in OPCODES:
        explore(result, name + ", bytecode granularity", PROGRAMS[name], bound=1, opcodes=True)
    explore(result, "two empty batches, bytecode granularity", PROGRAMS["two empty batches"], bound=2, opcodes=True)
    for name, p in READERS.items():
        explore(result, name, p, bound=1 if name in WIDE and q else 2)
    explore(result, "reading while filtering, bytecode granularity", READERS["reading while filtering"], bound=1, opcodes=True)
    if not q:
        for name in ("insert and filter", "edit and read"):
            explore(result, name + ", three deviations", PROGRAMS[name], bound=3)
