"""A recorder's log replays to the same state."""
import copy

from core import Harness, search, expect, expect_eq
from nion.utils import Observable, Persistence, Recorder

PROPS = {"a": (0, 1), "v": ([1], {"k": [2]}), "ev": (3, 4), "norec": (1, 2), "n": (None, "", 2)}
RELS = ("kids", "more")
ITEMS = ("it", "hid")


class Obj(Observable.Observable, Persistence.PersistentObject):
    def __init__(self, label="?"):
        super().__init__()
        self._mc_label = label
        self.define_type("obj")
        changed = self.changed
        self.define_property("a", 0, changed=changed)
        self.define_property("v", copy_on_read=True, changed=changed)
        self.define_property("ev", 0, validate=lambda v: v // 2 * 2, changed=changed)
        self.define_property("norec", 0, recordable=False, changed=changed)
        self.define_property("n", 2, changed=changed)
        self.define_property("fixed", 7, read_only=True, changed=changed)
        self.define_item("it", lambda lookup_id: Obj(), self.item_changed)
        self.define_item("hid", lambda lookup_id: Obj(), self.item_changed, hidden=True)
        self.define_relationship("kids", lambda lookup_id: Obj(), insert=self.inserted, remove=self.removed)
        self.define_relationship("more", lambda lookup_id: Obj(), insert=self.inserted, remove=self.removed, key="stored")

    @property
    def derived(self):
        return (self.a, len(self.kids))

    def changed(self, name, value):
        self.notify_property_changed(name)

    def item_changed(self, name, old, new):
        if new is not None:
            self.notify_set_item(name, new)
        else:
            self.notify_clear_item(name)

    def inserted(self, name, before_index, item):
        self.notify_insert_item(name, item, before_index)

    def removed(self, name, index, item):
        self.notify_remove_item(name, item, index)

    def __repr__(self):
        return self._mc_label


def form(n):
    """plain content of a node, read through the accessors"""
    return {"props": {k: copy.deepcopy(getattr(n, k)) for k in PROPS}, "fixed": n.fixed, "items": {k: form(n.get_item(k)) if n.get_item(k) is not None else None for k in ITEMS}, "rels": {k: [form(x) for x in getattr(n, k)] for k in RELS}}


class Rec(Harness):
    """config: (start ops, options)"""

    def __init__(self, config):
        super().__init__(config)
        start, opts = config
        self.o = dict(opts)
        self.start = start
        n = self.o.get("nodes", 4)
        self.nodes = self.make(n)
        self.where = [None] * n        # parent place: (index, kind, name)
        self.where[0] = "root"
        self.content = self.o.get("content", False)
        for op in start:
            self.edit(self.nodes, op)
            self.track(op)
        self.model = form(self.nodes[0])    # what the replica must look like
        self.recorder = self.make_recorder()
        self.closed = False
        self.verify()

    def make_recorder(self):
        if self.o.get("accessor"):
            wrapped = self.o["accessor"]
            return Recorder.Recorder(self.nodes[0], lambda x: x[wrapped])
        return Recorder.Recorder(self.nodes[0])

    def make(self, n):
        res = [Obj("n%d" % i) for i in range(n)]
        if self.o.get("content"):
            # objects that are inserted come with content of their own
            for x in res[1:]:
                x.a = 1
                x.norec = 2
                x.v = [1]
                k = Obj("sub")
                k.a = 1
                x.append_item("kids", k)
        return res

    def roots(self):
        return [self.nodes, self.recorder, self.model, self.closed]

    def observe(self):
        return [self.model, self.closed]

    # ------------------------------------------------------------------ operations

    def children(self, i):
        n = self.nodes[i]
        return [x for k in ITEMS for x in [n.get_item(k)] if x is not None] + [x for k in RELS for x in getattr(n, k)]

    def index(self, node):
        return next((k for k, n in enumerate(self.nodes) if n is node), None)

    def chain(self, i):
        """path of node i from the root, or None when it is not in the tree"""
        path = []
        while i:
            w = self.where[i]
            if w is None:
                return None
            p, kind, name = w
            pn = self.nodes[p]
            path.append((kind, name, None if kind == "item" else next(k for k, x in enumerate(getattr(pn, name)) if x is self.nodes[i])))
            i = p
        return path[::-1]

    def below(self, i, j):
        """is j in the subtree of i"""
        while j is not None and j != i:
            j = self.where[j][0] if isinstance(self.where[j], tuple) else None
        return j == i

    def ops(self):
        kinds = self.o.get("ops", ("set", "tree", "close"))
        res = []
        for i in range(len(self.nodes)):
            inside = self.chain(i) is not None or i == 0
            if not inside and not self.o.get("outside"):
                continue
            if "set" in kinds:
                for name in self.o.get("props", tuple(PROPS)):
                    for k in range(len(PROPS[name])):
                        res.append(("set", i, name, k))
            if "noise" in kinds:
                # what an object derives from its content is announced like a property, but is not part of it
                res.append(("noise", i, "derived"))
            if "tree" in kinds:
                free = [j for j in range(1, len(self.nodes)) if self.where[j] is None and not self.below(j, i)]
                if not self.o.get("all_free"):
                    # unused objects are alike: take the first of each kind
                    free = free[:2]
                for j in free:
                    for name in self.o.get("items", ITEMS):
                        res.append(("item", i, name, j))
                    for name in self.o.get("rels", RELS):
                        for at in range(len(getattr(self.nodes[i], name)) + 1):
                            res.append(("insert", i, name, at, j))
                for name in ITEMS:
                    if self.nodes[i].get_item(name) is not None:
                        res.append(("item", i, name, None))
                for name in RELS:
                    for at in range(len(getattr(self.nodes[i], name))):
                        if self.index(getattr(self.nodes[i], name)[at]) is not None:
                            res.append(("remove", i, name, at))
        if "close" in kinds and not self.closed:
            res.append(("close",))
        return res

    @staticmethod
    def edit(nodes, op):
        kind, i = op[0], op[1]
        n = nodes[i]
        if kind == "noise":
            n.notify_property_changed(op[2])
        elif kind == "set":
            setattr(n, op[2], copy.deepcopy(PROPS[op[2]][op[3]]))
        elif kind == "item":
            n.set_item(op[2], None if op[3] is None else nodes[op[3]])
        elif kind == "insert":
            n.insert_item(op[2], op[3], nodes[op[4]])
        elif kind == "remove":
            n.remove_item(op[2], getattr(n, op[2])[op[3]])

    def track(self, op):
        kind, i = op[0], op[1]
        if kind == "item":
            for j, w in enumerate(self.where):
                if w == (i, "item", op[2]):
                    self.where[j] = None
            if op[3] is not None:
                self.where[op[3]] = (i, "item", op[2])
        elif kind == "insert":
            self.where[op[4]] = (i, "rel", op[2])

    def apply(self, op):
        if op[0] == "close":
            self.recorder.close()
            self.closed = True
            self.verify()
            return
        kind, i = op[0], op[1]
        path = self.chain(i)
        recorded = not self.closed and (path is not None or i == 0)
        m = self.model
        if recorded:
            for k, name, at in path or []:
                m = m["items"][name] if k == "item" else m["rels"][name][at]
        gone = None
        if kind == "remove":
            gone = self.index(getattr(self.nodes[i], op[2])[op[3]])
        self.edit(self.nodes, op)
        self.track(op)
        if gone is not None:
            self.where[gone] = None
        if recorded:
            n = self.nodes[i]
            if kind == "set":
                if op[2] != "norec":
                    m["props"][op[2]] = copy.deepcopy(getattr(n, op[2]))
            elif kind == "item":
                m["items"][op[2]] = None if op[3] is None else form(self.nodes[op[3]])
            elif kind == "insert":
                m["rels"][op[2]].insert(op[3], form(self.nodes[op[4]]))
            elif kind == "remove":
                del m["rels"][op[2]][op[3]]
        self.verify()

    def replica(self):
        nodes = self.make(len(self.nodes))
        for op in self.start:
            self.edit(nodes, op)
        return nodes[0]

    def replay(self, root):
        self.recorder.apply({self.o["accessor"]: root} if self.o.get("accessor") else root)

    def everything(self, n):
        res = [n]
        for k in ITEMS:
            if n.get_item(k) is not None:
                res += self.everything(n.get_item(k))
        for k in RELS:
            for x in getattr(n, k):
                res += self.everything(x)
        return res

    def verify(self):
        before = form(self.nodes[0])
        r = self.replica()
        self.replay(r)
        expect_eq(form(r), self.model, "state after applying the log")
        mine = self.everything(self.nodes[0])
        theirs = self.everything(r)
        expect(not any(a is b for a in mine for b in theirs), "the replica shares an object with the recorded one")
        # the log is not used up and its results are independent of each other
        for x in theirs:
            x.a = 55
            x.v = ["edited"]
            for k in RELS:
                for y in getattr(x, k):
                    x.remove_item(k, y)
        r2 = self.replica()
        self.replay(r2)
        expect_eq(form(r2), self.model, "state after applying the log again")
        expect(not any(a is b for a in theirs for b in self.everything(r2)), "two replicas share an object")
        expect_eq(form(self.nodes[0]), before, "recorded object after its log was applied to others")


STARTS = [
    (),
    (("insert", 0, "kids", 0, 1), ("insert", 1, "kids", 0, 2)),
    (("insert", 0, "kids", 0, 1), ("insert", 0, "kids", 1, 2)),
    (("item", 0, "it", 1), ("insert", 1, "more", 0, 2)),
    (("item", 0, "hid", 1), ("item", 1, "it", 2)),
    (("insert", 0, "more", 0, 1), ("item", 1, "it", 2)),
]


def opts(**k):
    return tuple(sorted(k.items()))


def check(result, tier):
    q = tier == "quick"
    lim = None if q else 1200
    search(result, "edits at every depth", Rec, [(s, opts(nodes=4, props=("a", "v", "norec"))) for s in STARTS], max_depth=2 if q else 4, time_limit=lim)
    search(result, "properties", Rec, [(s, opts(nodes=3, ops=("set", "noise", "close"), outside=True)) for s in STARTS[:4]], max_depth=2 if q else 4, time_limit=lim)
    search(result, "structure", Rec, [(s, opts(nodes=3, ops=("tree",), items=("it",), rels=("kids",))) for s in STARTS[:3]], max_depth=6 if q else 8, time_limit=lim)
    search(result, "structure and one property", Rec, [(s, opts(nodes=3, ops=("tree", "set"), props=("a",), items=("it",), rels=("kids",), outside=True)) for s in STARTS[:5]], max_depth=3 if q else 5, time_limit=lim)
    search(result, "objects with content", Rec, [(s, opts(nodes=3, ops=("tree", "set"), props=("a",), items=("it",), rels=("kids",), content=True)) for s in STARTS[:3]], max_depth=3 if q else 4, time_limit=lim)
    search(result, "with an accessor", Rec, [(s, opts(nodes=3, ops=("tree", "set", "close"), props=("a",), items=("it",), rels=("kids",), accessor="doc")) for s in STARTS[:3]], max_depth=3 if q else 4, time_limit=lim)
