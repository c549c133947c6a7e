"""Shared harness for the list models: chains of real models over real source lists, with a mirror client on each."""
from core import Harness, Violation, expect, expect_eq, fresh
from nion.utils import Binding, Event, ListModel, Selection


class Item:
    """source item: identity equality, controlled hash (the iteration order of sets is part of the configuration)"""

    def __init__(self, label, h, v):
        self._mc_label = label
        self.label = label
        self.h = h
        self.v = v
        self.item_changed_event = Event.Event()

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return "%s(%s)" % (self.label, self.v)


class Wrap:
    def __init__(self, item, n):
        self._mc_label = "w" + item.label
        self.label = "w" + item.label
        self.item = item
        self.n = n

    @property
    def v(self):
        return self.item.v

    @property
    def item_changed_event(self):
        return self.item.item_changed_event

    def __hash__(self):
        return self.item.h

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return "w%r#%d" % (self.item, self.n)


class EqualItem(Item):
    """items that are distinct objects but compare equal (lists of values may have duplicates)"""

    def __hash__(self):
        return 0

    def __eq__(self, other):
        return isinstance(other, EqualItem)


class EqualWrap(Wrap):
    def __hash__(self):
        return 0

    def __eq__(self, other):
        return isinstance(other, EqualWrap)


class FalsyItem(Item):
    """items that look empty; those with odd labels have no content changed event"""

    def __init__(self, label, h, v):
        super().__init__(label, h, v)
        if int(label[1:]) % 2:
            del self.item_changed_event

    def __bool__(self):
        return False

    def __len__(self):
        return 0


class FalsyWrap(Wrap):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Box(ListModel.ListModel):
    """a container item of a flattened list: a plain list model"""

    def __init__(self, label, items):
        super().__init__("kids", items)
        self._mc_label = label
        self.label = label
        self.v = int(label[1:])

    def __hash__(self):
        return self.v

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return "%s%r" % (self.label, self.items)


def key_v(x):
    return x.v


def key_neg(x):
    return -x.v


def key_label(x):
    return x.label[-1]


def pred_pos(x):
    """true or false, but not as a bool"""
    return "yes" * x.v


KEYS = {"none": None, "v": key_v, "neg": key_neg, "label": key_label}
PREDS = {"all": lambda x: True, "pos": pred_pos, "eq1": lambda x: x.v == 1, "no": lambda x: False}


def make_filter(name, pred=None):
    if name == "all":
        return ListModel.Filter(True)
    if name == "no":
        return ListModel.Filter(False)
    if name == "pos":
        return ListModel.PredicateFilter(pred_pos)
    if name == "eq1":
        return ListModel.EqFilter("v", 1)
    if name == "lim":
        return ListModel.PredicateFilter(pred)


NOISE = "another list of the container"


class Mirror:
    """a client that only applies notifications"""

    def __init__(self, name, model, key, strict):
        self.name = name
        self.model = model
        self.key = key
        self.strict = strict
        self.copy = list(model.items)
        self.depth = 0
        self.ignore = ()         # keys of other lists this model has, which are being edited
        self.tokens = [model.item_inserted_event.listen(self.inserted), model.item_removed_event.listen(self.removed)]
        self.changes = hasattr(model, "begin_changes_event")
        if self.changes:
            self.tokens += [model.begin_changes_event.listen(self.begin), model.end_changes_event.listen(self.end)]

    def begin(self, key):
        if key in self.ignore:
            return
        expect_eq(key, self.key, "%s: key of the begin signal" % self.name)
        self.depth += 1

    def end(self, key):
        if key in self.ignore:
            return
        expect_eq(key, self.key, "%s: key of the end signal" % self.name)
        self.depth -= 1
        expect(self.depth >= 0, "%s: end of changes without a begin", self.name)

    def inserted(self, key, value, index):
        if key in self.ignore:
            return
        expect_eq(key, self.key, "%s: key of the inserted notification" % self.name)
        if self.strict:
            expect(self.depth > 0, "%s: insertion outside of begin/end changes", self.name)
        items = list(self.model.items)
        expect(0 <= index <= len(self.copy), "%s: inserted index %r of %d", self.name, index, len(self.copy))
        expect(index < len(items) and items[index] is value, "%s: inserted %r at %r but the content is %r", self.name, value, index, items)
        self.copy.insert(index, value)
        self.compare("after inserted %r at %r" % (value, index))

    def removed(self, key, value, index):
        if key in self.ignore:
            return
        expect_eq(key, self.key, "%s: key of the removed notification" % self.name)
        if self.strict:
            expect(self.depth > 0, "%s: removal outside of begin/end changes", self.name)
        expect(0 <= index < len(self.copy), "%s: removed index %r of %d", self.name, index, len(self.copy))
        expect(self.copy[index] is value, "%s: removed %r at %r but %r was there", self.name, value, index, self.copy[index])
        del self.copy[index]
        self.compare("after removed %r at %r" % (value, index))

    def compare(self, when):
        items = list(self.model.items)
        expect(len(items) == len(self.copy) and all(a is b for a, b in zip(items, self.copy)), "%s: %s the client holds %r, the content is %r", self.name, when, self.copy, items)
        expect(same(list(getattr(self.model, fresh(self.key))), items), "%s: %r attribute differs from items", self.name, self.key)


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


class BindingMirror:
    def __init__(self, name, model, key):
        self.name = name
        self.binding = Binding.ListBinding(model, fresh(key))
        self.copy = list(self.binding.items)
        self.binding.inserter = self.insert
        self.binding.remover = self.remove

    def insert(self, item, index):
        expect(0 <= index <= len(self.copy), "%s: inserter index %r of %d", self.name, index, len(self.copy))
        self.copy.insert(index, item)
        self.compare("after inserter")

    def remove(self, index):
        expect(0 <= index < len(self.copy), "%s: remover index %r of %d", self.name, index, len(self.copy))
        del self.copy[index]
        self.compare("after remover")

    def compare(self, when):
        expect(same(list(self.binding.items), self.copy), "%s: %s the client holds %r, the content is %r", self.name, when, self.copy, list(self.binding.items))


class Chain(Harness):
    """config: dict(chain="FM", pool=n items, hashes, vs, alphabet...)

    chain letters, from the source: F filtered, M mapped, X flattened (the source then is a list of boxes)
    """
    MIRROR = False       # C03
    CONTENT = False      # C04 / C05
    SELECT = False       # C07

    def __init__(self, config):
        super().__init__(config)
        c = dict(config)
        self.c = c
        self.chain = c["chain"]
        self.boxes = "X" in self.chain
        n = c.get("pool", 3)
        self.large = c.get("large", False)       # many items, edits only near the ends, the middle and powers of two
        hashes = c.get("hashes", tuple(range(n)))
        vs = c.get("vs", (1, 0, 1, 2)) if not self.large else tuple((i * 7) % 5 for i in range(n))
        self.equal = c.get("equal", False)
        self.falsy = c.get("falsy", False)
        item_class = EqualItem if self.equal else FalsyItem if self.falsy else Item
        defaults = self.defaults = c.get("defaults", False)      # models made with as few arguments as possible
        srckey = self.srckey = "items" if defaults else "src"
        self.pool = [item_class("i%d" % i, hashes[i], vs[i]) for i in range(n)]
        self.extra = [item_class("e%d" % i, 7 - i, i) for i in range(c.get("extra", 0))]
        start = c.get("start", 0)
        if self.boxes:
            self.box = [Box("b%d" % i, []) for i in range(c.get("boxes", 2))]
            split = c.get("split", [])
            for b, members in enumerate(split):
                for m in members:
                    self.box[b].insert_item(len(self.box[b].items), self.pool[m])
            start_items = [self.box[i] for i in c.get("start_boxes", [])]
        else:
            self.box = []
            start_items = self.pool[:start]
        if defaults:
            self.source = ListModel.ListModel()
            for x in start_items:
                self.source.append_item(x)
        else:
            given = list(start_items)
            self.source = ListModel.ListModel(srckey, given)
            given.reverse()          # the caller goes on to use its own list
            given.append(None)
            expect(same(self.source.items, start_items), "the content of the source is %r after its caller changed the list it gave, expected %r", self.source.items, start_items)
        self.other = ListModel.ListModel("src", list(self.extra)) if c.get("switch") else None
        self.limit = [0]
        self.key_dyn = self.key_dyn      # one object
        self.models = []     # (letter, model, key)
        self.mapped = {}     # model index -> log
        self.wraps = 0
        up, upkey = self.source, srckey
        self.selections = []
        self.owner = []          # per selection: its model, or None when it was released
        how = c.get("selections", ("make",)) if self.SELECT else ()
        for i, letter in enumerate(self.chain):
            key = "k%d" % i
            kw = {}
            if "given" in how:
                self.selections.append(Selection.IndexedSelection(getattr(Selection.Style, c.get("style", "multiple"))))
                self.owner.append(i)
                kw["selection"] = self.selections[-1]
            if defaults:
                if letter == "F":
                    key = upkey
                    m = ListModel.FilteredListModel(container=up, items_key=fresh(upkey), **kw)
                elif letter == "M":
                    m = ListModel.MappedListModel(container=up, master_items_key=fresh(upkey), items_key=fresh(key), **kw)
                else:
                    key = "kids"
                    m = ListModel.FlattenedListModel(container=up, master_items_key=fresh(upkey), child_items_key=fresh("kids"), **kw)
            elif letter == "F":
                m = ListModel.FilteredListModel(container=up, master_items_key=fresh(upkey), items_key=fresh(key), **kw)
            elif letter == "M":
                log = self.mapped[i] = []
                m = ListModel.MappedListModel(container=up, master_items_key=fresh(upkey), items_key=fresh(key), map_fn=self.mapper(log), unmap_fn=self.unmapper(log), **kw)
            elif letter == "X":
                m = ListModel.FlattenedListModel(container=up, master_items_key=fresh(upkey), child_items_key=fresh("kids"), items_key=fresh(key), **kw)
            self.models.append((letter, m, key))
            for h in how:
                if h == "make":
                    self.selections.append(m.make_selection())
                    self.owner.append(i)
            up, upkey = m, key
        self.state = [dict(filter="all", sort="none", rev=False, level=0, frozen=None, container="source") for _ in self.models]
        for k, (f, so, rev) in enumerate(c.get("preset", ())):
            if self.models[k][0] == "F":
                m = self.models[k][1]
                with m.changes():
                    m.filter = make_filter(f, self.pred_lim)
                    m.sort_key = self.key_fn(so)
                    m.sort_reverse = rev
                self.state[k].update(filter=f, sort=so, rev=rev)
        self.mirrors = []
        if self.MIRROR:
            self.mirrors.append(Mirror("source", self.source, srckey, False))
            self.mirrors.append(BindingMirror("list binding on the source", self.source, srckey))
            for i, (letter, m, key) in enumerate(self.models):
                strict = letter == "F" or letter == "M" and i > 0 and self.models[i - 1][0] == "F"
                if strict and letter == "M" and c.get("switch"):
                    strict = False
                self.mirrors.append(Mirror("%s%d" % (letter, i), m, key, strict))
                self.mirrors.append(BindingMirror("list binding on %s%d" % (letter, i), m, key))
        self.verify()

    # a filter and a sort key whose meaning changes (the list is told)

    def pred_lim(self, x):
        return [x] if x.v >= self.limit[0] else None

    def key_dyn(self, x):
        return x.v if self.limit[0] == 0 else -x.v

    def key_fn(self, name):
        return self.key_dyn if name == "dyn" else KEYS[name]

    def mapper(self, log):
        live = log

        def map_fn(x):
            w = EqualWrap(x, 0) if self.equal else FalsyWrap(x, 0) if self.falsy else Wrap(x, 0)
            live.append(w)
            live.sort(key=lambda x: x.label)
            return w
        return map_fn

    def unmapper(self, log):
        live = log

        def unmap_fn(w):
            for i, x in enumerate(live):
                if w is x:
                    del live[i]
                    return
            raise Violation("unmapped %r, which the mapping did not produce or which was unmapped already" % w)
        return unmap_fn

    def roots(self):
        return [self.pool, self.extra, self.box, self.source, self.other, [m[1] for m in self.models], self.state, self.mirrors, self.mapped, self.selections, self.owner, self.limit]

    def observe(self):
        return [self.source.items] + [list(m.items) for _, m, _ in self.models] + [s.indexes for s in self.selections]

    # ------------------------------------------------------------------ operations

    def placed(self):
        if self.boxes:
            return [x for b in self.box for x in b.items]
        return self.source.items + (self.other.items if self.other else [])

    def positions(self, n):
        """the positions among n at which edits are tried"""
        return range(n) if not self.large or n < 6 else sorted({0, 1, n // 2, 8, n - 1} & set(range(n)))

    def ops(self):
        c = self.c
        alphabet = c["ops"]
        res = []
        n = len(self.source.items)
        if self.boxes:
            placed = self.placed()
            if "edit" in alphabet:
                for bi, b in enumerate(self.box):
                    for i, it in enumerate(self.pool):
                        if not any(it is x for x in placed):
                            for at in self.positions(len(b.items) + 1):
                                res.append(("kid+", bi, at, i))
                            break
                    for at in self.positions(len(b.items)):
                        res.append(("kid-", bi, at))
            if "boxes" in alphabet:
                for bi, b in enumerate(self.box):
                    if not any(b is x for x in self.source.items):
                        for at in range(n + 1):
                            res.append(("box+", at, bi))
                for at in range(n):
                    res.append(("src-", at))
        else:
            if "edit" in alphabet:
                for i, it in enumerate(self.pool):
                    if not any(it is x for x in self.source.items):
                        for at in self.positions(n + 1):
                            res.append(("src+", at, i))
                for at in self.positions(n):
                    res.append(("src-", at))
            if "clear" in alphabet and n > 1:
                res.append(("clear",))
        if "content" in alphabet:
            for i, it in enumerate(self.pool):
                if hasattr(it, "item_changed_event") and any(it is x for x in self.placed()) and i in self.positions(len(self.pool)):
                    for v in c.get("values", (0, 1, 2)):
                        if v != it.v:
                            res.append(("v", i, v))
        for k, (letter, m, key) in enumerate(self.models):
            st = self.state[k]
            if letter == "F":
                if "filter" in alphabet:
                    for f in c.get("filters", ("all", "pos", "eq1", "no")):
                        if f != st["filter"]:
                            res.append(("filter", k, f))
                if "sort" in alphabet:
                    for s in c.get("sorts", ("none", "v", "neg", "label")):
                        if s != st["sort"]:
                            res.append(("sort", k, s))
                    res.append(("rev", k, not st["rev"]))
            if letter in "FM" and "batch" in alphabet:
                if st["level"] < c.get("levels", 2):
                    res.append(("begin", k))
                if st["level"] > 0:
                    res.append(("end", k))
                else:
                    res.append(("mark", k))
                    res += [("block", k), ("block!", k)] if "block" in alphabet else []
        if "switch" in alphabet:
            for to in ("source", "other", "none"):
                if to != self.state[0]["container"]:
                    res.append(("container", to))
        if "select" in alphabet:
            for j, k in enumerate(self.owner):
                if k is not None:
                    for i in self.positions(len(self.models[k][1].items)):
                        res.append(("toggle", j, i))
        if "noise" in alphabet:
            res.append(("noise",))
        if "limit" in alphabet:
            res.append(("limit", 1 - self.limit[0]))
        if "release" in alphabet:
            res += [("release", j) for j, k in enumerate(self.owner) if k is not None]
        return res

    def apply(self, op):
        kind = op[0]
        before = [self.selected_items(k) for k in range(len(self.selections))]
        contents = [list(m.items) for _, m, _ in self.models]
        if kind == "src+":
            if op[1] == len(self.source.items) and op[2] % 2:
                self.source.append_item(self.pool[op[2]])
            else:
                self.source.insert_item(op[1], self.pool[op[2]])
        elif kind == "box+":
            self.source.insert_item(op[1], self.box[op[2]])
        elif kind == "src-":
            self.source.remove_item(op[1])
        elif kind == "clear":
            self.source.clear_items()
            expect_eq(self.source.items, [], "source after clear")
        elif kind == "kid+":
            self.box[op[1]].insert_item(op[2], self.pool[op[3]])
        elif kind == "kid-":
            self.box[op[1]].remove_item(op[2])
        elif kind == "v":
            self.pool[op[1]].v = op[2]
            self.pool[op[1]].item_changed_event.fire()
        elif kind == "filter":
            self.state[op[1]]["filter"] = op[2]
            f = make_filter(op[2], self.pred_lim)
            self.models[op[1]][1].filter = f
            expect(self.models[op[1]][1].filter is f, "the filter property does not return the filter set")
        elif kind == "sort":
            self.state[op[1]]["sort"] = op[2]
            f = self.key_fn(op[2])
            self.models[op[1]][1].sort_key = f
            expect(self.models[op[1]][1].sort_key is f, "the sort_key property does not return the key set")
        elif kind == "rev":
            self.state[op[1]]["rev"] = op[2]
            self.models[op[1]][1].sort_reverse = op[2]
            expect(self.models[op[1]][1].sort_reverse is op[2], "the sort_reverse property does not return what was set")
        elif kind == "begin":
            st = self.state[op[1]]
            if st["level"] == 0:
                st["frozen"] = list(self.models[op[1]][1].items)
            st["level"] += 1
            self.models[op[1]][1].begin_change()
        elif kind == "end":
            st = self.state[op[1]]
            st["level"] -= 1
            self.models[op[1]][1].end_change()
            if st["level"] == 0:
                st["frozen"] = None
        elif kind in ("block", "block!"):
            # a block of changes, which may end with an exception
            m, st = self.models[op[1]][1], self.state[op[1]]
            try:
                with m.changes():
                    if self.models[op[1]][0] == "F":
                        st["rev"] = not st["rev"]
                        m.sort_reverse = st["rev"]
                    elif op[1] == 0 and not self.boxes and self.source.items:
                        self.source.remove_item(0)
                    if kind == "block!":
                        raise KeyError("of the block")
            except KeyError as e:
                expect(kind == "block!" and "of the block" in str(e), "the block failed with %r", e)
            else:
                expect(kind == "block", "the exception of the block was swallowed")
        elif kind == "mark":
            self.models[op[1]][1].mark_changed()
        elif kind == "container":
            self.state[0]["container"] = op[1]
            self.models[0][1].container = {"source": self.source, "other": self.other, "none": None}[op[1]]
        elif kind == "toggle":
            self.selections[op[1]].toggle(op[2])
            before = None
        elif kind == "noise":
            # every container also has another list, which is edited
            x = self.pool[0]
            keys = [NOISE, "items", self.srckey, "kids"] + [key for _, _, key in self.models]

            def unchanged(key):
                for (_, m, _), content in zip(self.models, contents):
                    expect(same(m.items, content), "content %r changed to %r by notifications about another list (%s)", content, m.items, key)
            for m, own in [(self.source, self.srckey)] + [(b, "kids") for b in self.box] + [(m, key) for _, m, key in self.models]:
                others = sorted(set(keys) - {own})
                for mr in self.mirrors:
                    if isinstance(mr, Mirror) and mr.model is m:
                        mr.ignore = others
                for key in others:
                    if hasattr(m, "begin_changes_event"):
                        m.begin_changes_event.fire(fresh(key))
                    m.notify_insert_item(fresh(key), x, 0)
                    unchanged(key)
                    m.notify_remove_item(fresh(key), x, 0)
                    unchanged(key)
                    if hasattr(m, "end_changes_event"):
                        m.end_changes_event.fire(fresh(key))
                for mr in self.mirrors:
                    if isinstance(mr, Mirror):
                        mr.ignore = ()
        elif kind == "limit":
            self.limit[0] = op[1]
            for k, (letter, m, key) in enumerate(self.models):
                if letter == "F" and (self.state[k]["filter"] == "lim" or self.state[k]["sort"] == "dyn"):
                    m.mark_changed()
        elif kind == "release":
            self.models[self.owner[op[1]]][1].release_selection(self.selections[op[1]])
            self.owner[op[1]] = None
        self.verify()
        if before is not None:
            for j, k in enumerate(self.owner):
                got = self.selected_items(j)
                if k is None:
                    expect_eq(got, before[j] if isinstance(before[j], set) else got, "indexes of a released selection after %r" % (op,))
                    continue
                now = self.models[k][1].items
                want = [x for x in now if any(x is y for y in before[j])]
                expect(same(got, want), "selection on %s%d after %r: selected items %r, expected %r (before: %r of %r)",
                       self.models[k][0], k, op, got, want, before[j], contents[k])

    def selected_items(self, j):
        """the items selected, or just the indexes for a released selection"""
        k = self.owner[j]
        if k is None:
            return set(self.selections[j].indexes)
        items = self.models[k][1].items
        idx = sorted(self.selections[j].indexes)
        expect(all(0 <= i < len(items) for i in idx), "selection on %s%d: indexes %r outside of %d items", self.models[k][0], k, idx, len(items))
        return [items[i] for i in idx]

    # ------------------------------------------------------------------ reference

    def verify(self):
        if self.MIRROR:
            for mr in self.mirrors:
                mr.compare("after the operation")
            depth = 0
            for k, (letter, m, key) in enumerate(self.models):
                depth = 0 if letter == "X" else depth if letter == "F" else int(depth > 0 or self.state[k]["level"] > 0)
                for mr in self.mirrors:
                    if isinstance(mr, Mirror) and mr.model is m and mr.changes:
                        expect_eq(mr.depth, depth, "%s: begin signals not yet closed by an end signal" % mr.name)
        if not self.CONTENT:
            return
        up = None
        for k, (letter, m, key) in enumerate(self.models):
            st = self.state[k]
            if k == 0:
                src = {"source": self.source, "other": self.other, "none": None}[st["container"]]
                up = list(src.items) if src is not None else []
            else:
                up = list(self.models[k - 1][1].items)
            items = list(m.items)
            name = "%s%d" % (letter, k)
            if letter == "F":
                if st["level"] > 0:
                    expect(same(items, st["frozen"]), "%s: content changed during a batch: %r, was %r", name, items, st["frozen"])
                    continue
                want = [x for x in up if (self.pred_lim if st["filter"] == "lim" else PREDS[st["filter"]])(x)]
                if st["sort"] == "none":
                    expect(same(items, want), "%s: content %r, expected %r", name, items, want)
                else:
                    f = self.key_fn(st["sort"])
                    expect(len(items) == len(want) and all(any(x is y for y in items) for x in want), "%s: content %r, expected the items %r", name, items, want)
                    keys = [f(x) for x in items]
                    expect(keys == sorted(keys, reverse=st["rev"]), "%s: content %r is not in order (key %s, reverse %s)", name, items, st["sort"], st["rev"])
            elif letter == "M" and self.defaults:
                expect(same(items, up), "%s: content %r, expected %r", name, items, up)
            elif letter == "M":
                expect(len(items) == len(up) and all(isinstance(w, Wrap) and w.item is x for w, x in zip(items, up)), "%s: content %r, expected the mapping of %r", name, items, up)
                live = self.mapped[k]
                expect(len(live) == len(items) and all(any(x is y for y in live) for x in items), "%s: mapped and not yet unmapped: %r, content %r", name, live, items)
            elif letter == "X":
                want = [x for b in up for x in b.items]
                expect(same(items, want), "%s: content %r, expected %r", name, items, want)

    def finish(self):
        if not self.CONTENT:
            return
        for k in reversed(range(len(self.models))):
            letter, m, key = self.models[k]
            m.close()
            if letter == "M" and not self.defaults:
                expect_eq(self.mapped[k], [], "mapped items never unmapped after close")
