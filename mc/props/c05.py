"""Mapped and flattened lists against the comprehension over the source."""
from core import Harness, expect_eq, search
from nion.utils import ListModel
from props.lists import Chain


class M(Chain):
    CONTENT = True


def cfg(**k):
    return tuple(sorted(k.items()))


VALUES = (None, 0, "", (), None)


class Plain(Harness):
    """a mapping onto plain values, some of them None or empty, and the same for several items"""

    def __init__(self, config):
        super().__init__(config)
        self.source = ListModel.ListModel("src", list(range(config)))
        self.live = []
        self.model = ListModel.MappedListModel(container=self.source, master_items_key="src", items_key="out", map_fn=self.map, unmap_fn=self.unmap)
        self.verify()

    def map(self, x):
        self.live.append(VALUES[x])
        return VALUES[x]

    def unmap(self, v):
        expect_eq(v in self.live, True, "unmapped %r, which is not mapped" % (v,))
        self.live.remove(v)

    def roots(self):
        return [self.source, self.model, sorted(self.live, key=repr)]

    def ops(self):
        have = self.source.items
        return [("+", i, x) for x in range(len(VALUES)) if x not in have and len(have) < 4 for i in range(len(have) + 1)] + [("-", i) for i in range(len(have))] + [("clear",), ("detach",), ("block!",)]

    def apply(self, op):
        if op[0] == "+":
            self.source.insert_item(op[1], op[2])
        elif op[0] == "-":
            self.source.remove_item(op[1])
        elif op[0] == "clear":
            self.source.clear_items()
        elif op[0] == "detach":
            self.model.container = None
            expect_eq(list(self.model.items), [], "content without a container")
            expect_eq(self.live, [], "mapped and not unmapped without a container")
            self.model.container = self.source
        elif op[0] == "block!":
            try:
                with self.model.changes():
                    if self.source.items:
                        self.source.remove_item(0)
                    raise KeyError()
            except KeyError:
                pass
        self.verify()

    def verify(self):
        expect_eq(list(self.model.items), [VALUES[x] for x in self.source.items], "content")
        expect_eq(sorted(self.live, key=repr), sorted(self.model.items, key=repr), "mapped and not yet unmapped")

    def finish(self):
        self.model.close()
        expect_eq(self.live, [], "mapped items never unmapped after close")


def check(result, tier):
    q = tier == "quick"
    lim = None if q else 900
    search(result, "mapped", M, [cfg(chain=ch, pool=3, start=s, ops=("edit", "clear", "batch"), levels=1) for ch in ("M", "MM") for s in (0, 3)], max_depth=6 if q else 12, time_limit=lim)
    search(result, "mapped with container switches", M, [cfg(chain=ch, pool=2, extra=2, switch=True, start=s, ops=("edit", "switch", "batch", "clear"), levels=1) for ch in ("M", "MM") for s in (0, 2)], max_depth=5 if q else 12, time_limit=lim)
    search(result, "equal items", M, [cfg(chain=ch, equal=True, pool=3, start=3, ops=("edit", "clear")) for ch in ("M", "MM")] +
           [cfg(chain=ch, equal=True, boxes=2, pool=4, split=((0, 1), (2,)), start_boxes=(0, 1), ops=("edit", "boxes")) for ch in ("X", "XM")], max_depth=4 if q else 7, time_limit=lim)
    search(result, "mapped filtered list", M, [cfg(chain="FM", pool=3, start=s, ops=("edit", "content", "filter", "sort", "batch"), values=(0, 1), filters=("all", "pos"), sorts=("none", "v"), levels=1) for s in (0, 3)], max_depth=4 if q else 9, time_limit=lim)
    search(result, "flattened", M, [cfg(chain=ch, boxes=b, pool=p, split=sp, start_boxes=sb, ops=("edit", "boxes"))
                                    for ch in ("X", "XM") for b, p in ((2, 4), (3, 3)) for sp in (((0,), (1,)), ((), (0, 1)), ()) for sb in ((), (0,), (1, 0))],
           max_depth=4 if q else 8, time_limit=lim)
    search(result, "flattened and filtered", M, [cfg(chain="XF", boxes=2, pool=3, split=sp, start_boxes=(0,), ops=("edit", "boxes", "content", "filter", "sort"), values=(0, 1), filters=("all", "pos"), sorts=("none", "v"))
                                                 for sp in (((0,), (1,)), ((), (0, 1)))], max_depth=3 if q else 6, time_limit=lim)
    search(result, "flattened lists of filtered containers", M, [cfg(chain=ch, boxes=2, pool=3, split=((0,), (1, 2)), start_boxes=sb, ops=("edit", "boxes", "filter", "sort", "batch"), filters=("all", "pos"), sorts=("none", "neg"), levels=1)
                                                                 for ch in ("FX", "FXM") for sb in ((0,), (0, 1))], max_depth=4 if q else 8, time_limit=lim)
    search(result, "many items", M, [cfg(chain=ch, large=True, pool=35, start=34, ops=("edit", "clear")) for ch in ("M", "MM", "FM")] +
           [cfg(chain=ch, large=True, boxes=6, pool=31, split=tuple(tuple(range(b * 6, b * 6 + 6)) for b in range(5)), start_boxes=tuple(range(5)), ops=("edit", "boxes")) for ch in ("X", "XM")], max_depth=2 if q else 3, time_limit=lim)
    search(result, "items that look empty", M, [cfg(chain=ch, falsy=True, pool=3, start=2, ops=("edit", "content", "filter", "sort", "batch", "clear", "noise"), values=(0, 1), filters=("all", "pos"), sorts=("none", "v"), levels=1) for ch in ("M", "MM", "FM")] +
           [cfg(chain=ch, falsy=True, boxes=2, pool=3, split=((0, 1), (2,)), start_boxes=(0,), ops=("edit", "boxes", "noise")) for ch in ("X", "XM")], max_depth=2 if q else 4, time_limit=lim)
    search(result, "models with defaults", M, [cfg(chain=ch, defaults=True, pool=3, start=2, ops=("edit", "content", "filter", "sort", "batch", "clear", "noise"), values=(0, 1), filters=("all", "pos"), sorts=("none", "v"), levels=1) for ch in ("M", "MM", "FM")] +
           [cfg(chain=ch, defaults=True, boxes=2, pool=3, split=((0, 1), (2,)), start_boxes=(0,), ops=("edit", "boxes", "noise")) for ch in ("X", "XM")], max_depth=2 if q else 4, time_limit=lim)
    search(result, "mapped onto None and other empty values", Plain, [0, 2, 4], max_depth=4 if q else 8, time_limit=lim)
