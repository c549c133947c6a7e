"""Every notification against a mirror client, on chains of list models, list bindings and array models."""
import itertools

from core import search, Harness, expect
from props.lists import Chain, Item, Mirror, BindingMirror, make_filter, same
from nion.utils import ListModel, StructuredModel


class N(Chain):
    MIRROR = True


def cfg(**k):
    return tuple(sorted(k.items()))


H = [(0, 1, 2, 3), (3, 2, 1, 0)]
PRE = list(itertools.product(("all", "pos"), ("none", "v"), (False, True)))


class Arrays(Harness):
    """array model of a structured model, edited through the model and through its items sequence"""

    def __init__(self, config):
        super().__init__(config)
        S = StructuredModel
        scalar = config
        item = S.define_int() if scalar else S.define_record("r", [S.define_field("x", S.define_int(), default=0)])
        self.rec = S.RecordModel(S.define_record("top", [S.define_field("a", S.define_array(item), default=[])]))
        self.item = item
        self.array = self.rec.a_model
        self.n = 0
        self.mirrors = [Mirror("array", self.array, "items", False), BindingMirror("list binding on the array", self.array, "items")]
        self.outer = []
        self.tokens = [self.rec.item_inserted_event.listen(self.ins), self.rec.item_removed_event.listen(self.rem)]

    def ins(self, key, value, index):
        expect(key == "a", "key of the record's notification is %r", key)
        expect(0 <= index <= len(self.outer), "record: inserted index %r of %d", index, len(self.outer))
        self.outer.insert(index, value)

    def rem(self, key, value, index):
        expect(key == "a", "key of the record's notification is %r", key)
        expect(0 <= index < len(self.outer) and self.outer[index] is value, "record: removed %r at %r from %r", value, index, self.outer)
        del self.outer[index]

    def ops(self):
        n = len(self.array.items)
        res = []
        if n < 3:
            res += [("+", i) for i in range(n + 1)] + [("seq+", i) for i in range(n + 1)] + [("append",)]
        res += [("-", i) for i in range(n)] + [("seq-", i) for i in range(n)]
        if n > 1:
            res.append(("clear",))
        return res

    def new(self):
        self.n = (self.n + 1) % 4
        return 300 + self.n if self.config else StructuredModel.build_value(self.item, value={"x": self.n})

    def apply(self, op):
        k = op[0]
        seq = self.rec.a
        if k == "+":
            self.array.insert_item(op[1], self.new())
        elif k == "seq+":
            seq.insert(op[1], self.new())
        elif k == "append":
            seq.append(self.new())
        elif k == "-":
            self.array.remove_item(op[1])
        elif k == "seq-":
            del seq[op[1]]
        elif k == "clear":
            self.array.clear_items()
        for m in self.mirrors:
            m.compare("after the operation")
        expect(list(self.array.items) == self.outer, "the client of the record holds %r, the array %r", self.outer, list(self.array.items))
        expect(list(self.rec.a) == self.outer, "sequence view %r", list(self.rec.a))


class Kinds(Harness):
    """a list whose container is switched between lists of different kinds, all of which go on changing"""

    def __init__(self, config):
        super().__init__(config)
        self.pools = [[Item("%s%d" % (n, i), 10 * k + i, i) for i in range(2)] for k, n in enumerate("abc")]
        self.plain = [ListModel.ListModel("k" if i == 0 else "s", p[:1]) for i, p in enumerate(self.pools)]
        filtered = ListModel.FilteredListModel(container=self.plain[1], master_items_key="s", items_key="k")
        mapped = ListModel.MappedListModel(container=self.plain[2], master_items_key="s", items_key="k")
        self.containers = [self.plain[0], filtered, mapped, None]
        self.at = 0
        self.pos = False
        self.model = (ListModel.FilteredListModel if config == "F" else ListModel.MappedListModel)(container=self.plain[0], master_items_key="k", items_key="g")
        self.mirror = Mirror("list", self.model, "g", config == "F")

    def ops(self):
        res = [("switch", k) for k in range(4) if k != self.at]
        for k, p in enumerate(self.plain):
            n = len(p.items)
            res += [("-", k, i) for i in range(n)]
            if n < 2:
                res += [("+", k, i) for i in range(n + 1)]
        return res + [("mark", 1), ("mark", 2), ("filter",)]

    def apply(self, op):
        if op[0] == "switch":
            self.at = op[1]
            self.model.container = self.containers[op[1]]
        elif op[0] == "-":
            self.plain[op[1]].remove_item(op[2])
        elif op[0] == "+":
            self.plain[op[1]].insert_item(op[2], next(x for x in self.pools[op[1]] if not any(x is y for y in self.plain[op[1]].items)))
        elif op[0] == "mark":
            self.containers[op[1]].mark_changed()
        else:
            self.pos = not self.pos
            self.containers[1].filter = make_filter("pos" if self.pos else "all")
        self.mirror.compare("after the operation")
        expect(self.mirror.depth == 0, "%d begins of changes without an end", self.mirror.depth)
        want = self.containers[self.at].k if self.at < 3 else []
        expect(same(list(self.model.items), list(want)), "content %r, expected %r", list(self.model.items), list(want))


def check(result, tier):
    q = tier == "quick"
    lim = None if q else 900
    allops = ("edit", "content", "filter", "sort", "batch", "clear")
    search(result, "filtered", N, [cfg(chain="F", pool=3, start=3, hashes=h, ops=allops, levels=1, values=(0, 1), filters=("all", "pos"), sorts=("none", "v", "label")) for h in H],
           max_depth=4 if q else 10, time_limit=lim)
    search(result, "container switches", N, [cfg(chain=ch, pool=2, extra=2, switch=True, start=2, ops=("edit", "switch", "content", "batch"), values=(0, 1), levels=1, preset=(p,)) for ch in ("F", "M", "FM") for p in PRE],
           max_depth=4 if q else 10, time_limit=lim)
    search(result, "chains", N, [cfg(chain=ch, pool=3, start=2, ops=allops, values=(0, 1), filters=("all", "pos"), sorts=("none", "v"), levels=1) for ch in ("M", "FM", "FF", "MF", "MM", "FMF")],
           max_depth=3 if q else 6, time_limit=lim)
    search(result, "flattened", N, [cfg(chain=ch, boxes=2, pool=3, split=sp, start_boxes=sb, ops=("edit", "boxes", "filter", "sort", "batch"), filters=("all", "pos"), sorts=("none", "v"), levels=1)
                                    for ch in ("X", "XF", "XM") for sp in (((0,), (1,)), ((), (0, 1))) for sb in ((0,), (1, 0))],
           max_depth=3 if q else 7, time_limit=lim)
    search(result, "flattened lists of filtered containers", N, [cfg(chain=ch, boxes=2, pool=3, split=((0,), (1, 2)), start_boxes=sb, ops=("edit", "boxes", "filter", "sort", "batch"), filters=("all", "pos"), sorts=("none", "neg"), levels=1)
                                                                 for ch in ("FX", "FXM") for sb in ((0,), (0, 1))], max_depth=3 if q else 6, time_limit=lim)
    search(result, "equal items", N, [cfg(chain=ch, equal=True, pool=3, start=3, ops=("edit", "clear")) for ch in ("M", "MM")] +
           [cfg(chain=ch, equal=True, boxes=2, pool=4, split=((0, 1), (2,)), start_boxes=(0, 1), ops=("edit", "boxes")) for ch in ("X", "XM")], max_depth=3 if q else 6, time_limit=lim)
    search(result, "arrays of structured models", Arrays, [True, False], max_depth=5 if q else 8, time_limit=lim)
    search(result, "many items", N, [cfg(chain="F", large=True, pool=35, start=34, ops=("edit", "content", "batch", "clear"), values=(0, 1), levels=1, sorts=("none", "v"), preset=(p,)) for p in PRE], max_depth=2 if q else 3, time_limit=lim)
    search(result, "items that look empty", N, [cfg(chain=ch, falsy=True, pool=3, start=2, ops=("edit", "content", "filter", "sort", "batch", "clear", "noise"), values=(0, 1), filters=("all", "pos"), sorts=("none", "v"), levels=1) for ch in ("F", "M", "FM", "MF")] +
           [cfg(chain=ch, falsy=True, boxes=2, pool=3, split=((0, 1), (2,)), start_boxes=(0,), ops=("edit", "boxes", "noise")) for ch in ("X", "XF", "XM")], max_depth=2 if q else 4, time_limit=lim)
    search(result, "models with defaults", N, [cfg(chain=ch, defaults=True, pool=3, start=2, ops=("edit", "content", "filter", "sort", "batch", "clear", "noise"), values=(0, 1), filters=("all", "pos"), sorts=("none", "v"), levels=1) for ch in ("F", "M", "FM", "MF")] +
           [cfg(chain=ch, defaults=True, boxes=2, pool=3, split=((0, 1), (2,)), start_boxes=(0,), ops=("edit", "boxes", "noise")) for ch in ("X", "XF", "XM")], max_depth=2 if q else 4, time_limit=lim)
    search(result, "blocks of changes that fail", N, [cfg(chain=ch, pool=3, start=2, ops=("edit", "content", "batch", "block"), values=(0, 1), levels=1, preset=(p,) * len(ch)) for ch in ("F", "M", "FM", "MF") for p in (("all", "none", False), ("pos", "v", False))],
           max_depth=3 if q else 6, time_limit=lim)
    search(result, "filters and keys that change their meaning", N, [cfg(chain=ch, pool=3, start=3, ops=("edit", "content", "batch", "limit"), values=(0, 1), levels=1, preset=(p,) * len(ch))
                                                                     for ch in ("F", "FF", "FM") for p in (("lim", "none", False), ("all", "dyn", False), ("lim", "dyn", True))], max_depth=3 if q else 7, time_limit=lim)
    search(result, "containers of different kinds", Kinds, ["F", "M"], max_depth=4 if q else 7, time_limit=lim)
