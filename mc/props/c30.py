"""Observable objects: every notification arrives once, as the kind it is, with what it carries, at the observers of that object only."""
from core import Harness, expect, expect_eq, search
from nion.utils import ListModel, Model, Observable, Persistence, Stream, StructuredModel

KINDS = {
    "property_changed_event": ("notify_property_changed", 1),
    "item_set_event": ("notify_set_item", 2),
    "item_cleared_event": ("notify_clear_item", 1),
    "item_inserted_event": ("notify_insert_item", 3),
    "item_removed_event": ("notify_remove_item", 3),
    "item_added_event": ("notify_add_item", 2),
    "item_discarded_event": ("notify_discard_item", 2),
    "item_content_changed_event": ("notify_item_content_changed", 3),
}


class First(Observable.Observable, Persistence.PersistentObject):
    pass


MAKE = {
    "plain": Observable.Observable,
    "persistent": First,
    "property model": lambda: Model.PropertyModel(1),
    "list model": lambda: ListModel.ListModel("k", [1]),
    "filtered": lambda: ListModel.FilteredListModel(items_key="k"),
    "mapped": lambda: ListModel.MappedListModel(items_key="k"),
    "flattened": lambda: ListModel.FlattenedListModel(items_key="k"),
    "field": lambda: StructuredModel.build_model(StructuredModel.STRING, value="x"),
    "array": lambda: StructuredModel.build_model(StructuredModel.define_array(StructuredModel.INT), value=[1, 2]),
    "stream model": lambda: Model.StreamValueModel(Stream.ValueStream(1)),
    "record": lambda: StructuredModel.build_model(StructuredModel.define_record("R", [StructuredModel.define_field("a", StructuredModel.INT, default=1)])),
}


class H(Harness):
    def __init__(self, config):
        super().__init__(config)
        self.objects = [MAKE[config[0]](), MAKE[config[0]]()]
        self.tokens = {}
        self.got = []
        for i, o in enumerate(self.objects):
            for k in KINDS:
                self.listen(i, k)

    def listen(self, i, k):
        self.tokens[(i, k)] = getattr(self.objects[i], k).listen(lambda *a: self.got.append((i, k, a)))

    def ops(self):
        out = []
        for i in range(len(self.objects)):
            for k, (f, n) in KINDS.items():
                if self.config[0] == "array" and k in ("item_inserted_event", "item_removed_event"):
                    continue         # an array keeps its own books on these; its own edits are the business of C03 and C17
                for a in ((("k", "x", 0), ("k", None, 1), ("", "y", 0)) if n == 3 else (("k", "x"), ("k", None)) if n == 2 else (("k",), ("",), ("value",))):
                    out.append(("notify", i, k, a))
        for i, k in self.tokens:
            if i == 0:
                out.append(("close", i, k))
        for k in KINDS:
            if (0, k) not in self.tokens:
                out.append(("listen", 0, k))
        return out

    def apply(self, op):
        del self.got[:]
        if op[0] == "notify":
            _, i, k, a = op
            getattr(self.objects[i], KINDS[k][0])(*a)
            expect_eq(self.got, [(i, k, a)] if (i, k) in self.tokens else [], "signals after %s%r" % (KINDS[k][0], a))
        elif op[0] == "close":
            self.tokens.pop(op[1:]).close()
            expect(not self.got, "closing a listener signalled")
        else:
            self.listen(*op[1:])
            expect(not self.got, "listening signalled")
        del self.got[:]


def check(result, tier):
    q = tier == "quick"
    search(result, "notifications", H, [(m,) for m in MAKE], max_depth=3 if q else 8, time_limit=None if q else 900)
