"""Shared harness for persistence: a tree of real persistent objects over a plain dictionary storage."""
import copy
import datetime
import functools
import uuid

from core import Harness, Violation, expect, expect_eq


class Clock(datetime.datetime):
    """the clock of the code under test, which can be made to stand still"""
    stands_at = None

    @classmethod
    def utcnow(cls):
        return Clock.stands_at or super().utcnow()

    @classmethod
    def now(cls, tz=None):
        if Clock.stands_at is not None:
            at = Clock.stands_at.replace(tzinfo=datetime.timezone.utc)
            return at.astimezone(tz) if tz else at.astimezone().replace(tzinfo=None)
        return super().now(tz)


datetime.datetime = Clock

from nion.utils import Persistence


class Blob:
    """value of a 'make' property"""

    def __init__(self, n=0):
        self.n = n

    def read_dict(self, d):
        self.n = d["n"]

    def write_dict(self):
        return {"n": self.n}

    def __eq__(self, other):
        return isinstance(other, Blob) and other.n == self.n

    def __hash__(self):
        return hash(self.n)

    def __len__(self):
        return self.n       # a value may look empty

    def __repr__(self):
        return "Blob(%d)" % self.n


class HexConverter:
    def convert(self, v):
        return None if v is None else "#%x" % v

    def convert_back(self, t):
        return None if t is None else int(t[1:], 16)


def validate_even(v):
    return None if v is None else v // 2 * 2


def validate_list(v):
    return None if v is None else copy.deepcopy(list(v))


def multi_writer(prop, properties, value):
    if value is not None:
        properties["low"], properties["high"] = copy.deepcopy(value)


def multi_reader(prop, properties):
    return [properties["low"], properties["high"]] if "low" in properties else None


def reader(prop, properties):
    v = properties.get(prop.key)
    return None if v is None else v["wrapped"]


def writer(prop, properties, value):
    if value is not None:
        properties[prop.key] = {"wrapped": value}


ITEMS = ("item", "hid")
RELS = ("kids", "more")


class Node(Persistence.PersistentObject):
    """one of every kind of property, item and relationship"""
    TYPE = "node"

    def __init__(self, label="?"):
        super().__init__()
        self._mc_label = label
        self.label = label
        self.changes = []
        self.reads = []
        self.define_type(self.TYPE)
        self.define_property("plain", 0)
        self.define_property("keyed", key="stored_keyed")
        self.define_property("conv", converter=HexConverter(), key="c")
        self.define_property("even", 0, validate=validate_even)
        self.define_property("secret", hidden=True)
        self.define_property("fixed", 5, read_only=True)
        self.define_property("copied", copy_on_read=True, changed=self.property_did_change)
        self.define_property("blob", make=Blob)
        self.define_property("custom", reader=reader, writer=writer, key="cu")
        self.define_property("noted", changed=self.property_did_change)
        self.define_property("listed", [7])
        self.define_property("vlist", validate=validate_list)
        self.define_property("multi", [0, 0], writer=multi_writer, reader=multi_reader)
        self.define_property("unset", read_only=True)
        self.define_property("zero", 0, read_only=True)
        self.define_property("cdef", [1], copy_on_read=True)
        self.define_contents()

    # a property kept by the class itself

    extra = None

    def set_extra(self, value):
        self.extra = value
        self._update_persistent_property("extra", value)

    def write_to_dict(self):
        d = super().write_to_dict()
        if self.extra is not None:
            d["extra"] = copy.deepcopy(self.extra)
        return d

    def begin_reading(self):
        self.reads.append("begin")
        super().begin_reading()

    def finish_reading(self):
        super().finish_reading()
        self.reads.append("finish")

    reaction = None

    def react(self, name, item):
        """a callback may edit further"""
        if self.reaction is not None:
            self.reaction(self, name, item)

    context_told = None

    def persistent_object_context_changed(self):
        if self.context_told is not None:
            self.context_told(self)

    def read_from_dict(self, properties):
        self.reads.append("read")
        super().read_from_dict(properties)
        self.extra = copy.deepcopy(properties.get("extra"))

    def define_contents(self):
        self.define_item("item", make_node, self.item_did_change)
        self.define_item("hid", make_node, hidden=True)
        self.define_relationship("kids", make_node, insert=self.did_insert, remove=self.did_remove)
        self.define_relationship("more", make_node, key="stored_more")

    def property_did_change(self, name, value):
        expect_eq(getattr(self, name), value, "value of %s in place when its change is told" % name)
        self.changes.append(("property", name, repr(value)))
        self.react(name, None)

    def item_did_change(self, name, old, new):
        expect(self.get_item(name) is new, "%s is %r when its change to %r is told", name, self.get_item(name), new)
        self.changes.append(("item", name, old, new))
        self.react(name, old if new is None else new)

    def did_insert(self, name, index, item):
        expect(getattr(self, name)[index] is item, "%s is %r when an insertion at %d is told", name, getattr(self, name), index)
        expect(item.persistent_object_parent.parent is self, "parent of an item when its insertion is told")
        self.changes.append(("insert", name, index, item))
        self.react(name, item)

    def did_remove(self, name, index, item):
        expect(not any(x is item for x in getattr(self, name)), "%s still has an item when its removal is told", name)
        self.changes.append(("remove", name, index, item))
        self.react(name, item)

    def __repr__(self):
        return self.label


class Leaf(Node):
    """no items or relationships"""
    TYPE = "leaf"

    def define_contents(self):
        pass


def make_node(lookup_id):
    t = lookup_id("type")
    expect(t in ("node", "leaf"), "type given to the factory: %r", t)
    expect_eq(lookup_id("nothing", 3), 3, "default of the lookup")
    return Leaf() if t == "leaf" else Node()


class Storage:
    """keeps the stored form up to date from the notifications only"""

    def __init__(self, root):
        self.properties = root.write_to_dict()
        self.root = root
        self.calls = []

    def dict_of(self, obj):
        parent = obj.persistent_object_parent
        if parent is None:
            return self.properties
        return obj.get_accessor_in_parent()(self.dict_of(parent.parent))

    def set_property(self, obj, name, value):
        self.dict_of(obj)[name] = value

    def clear_property(self, obj, name):
        self.dict_of(obj).pop(name, None)

    def insert_item(self, parent, name, before_index, item):
        self.dict_of(parent).setdefault(name, []).insert(before_index, item.write_to_dict())
        item.persistent_object_context = parent.persistent_object_context

    def remove_item(self, parent, name, index, item):
        del self.dict_of(parent)[name][index]
        item.persistent_object_context = None

    def set_item(self, parent, name, item):
        d = self.dict_of(parent)
        if item is None:
            d.pop(name, None)
        else:
            d[name] = item.write_to_dict()
            item.persistent_object_context = parent.persistent_object_context

    # requests that are only passed on
    def read_external_data(self, item, name):
        return ("read", item, name, self)

    def write_external_data(self, item, name, value):
        self.calls.append(("write", item, name, value))

    def enter_write_delay(self, obj):
        self.calls.append(("enter", obj))

    def exit_write_delay(self, obj):
        self.calls.append(("exit", obj))

    def is_write_delayed(self, obj):
        return ("delayed", obj, self)

    def rewrite_item(self, item):
        self.calls.append(("rewrite", item))

    def get_storage_property(self, item, name):
        return ("storage property", item, name, self)


VALUES = {
    "plain": (1, [1, {"x": [2]}], 0),
    "keyed": (None, "k", 0, ""),
    "conv": (None, 17, 0),
    "even": (2, 3, 0),
    "copied": (None, [1], {"a": [0]}),
    "blob": (None, "blob0", "blob2"),
    "custom": (None, 0, 5),
    "noted": (None, 1),
    "secret": (None, 8),
    "fixed": (6,),
    "unset": (6, None),
    "zero": (6,),
    "listed": ([], [3], False, "", {}),
    "vlist": (None, [], [1, [2]]),
    "multi": ([1, 0], [0, [5]]),
    "cdef": ([], [2]),
    "extra": (3, 0),
}
READ_ONLY = ("fixed", "unset", "zero")


def value_of(v):
    if v == "blob0":
        return Blob(0)
    if v == "blob2":
        return Blob(2)
    return copy.deepcopy(v)


DEFAULTS = dict(plain=0, keyed=None, conv=None, even=0, copied=None, blob=None, custom=None, noted=None, secret=None, fixed=5, listed=[7], vlist=None, multi=[0, 0], unset=None, zero=0, cdef=[1], extra=None)


class Ref:
    """reference model of one node"""

    def __init__(self, leaf=False):
        self.props = copy.deepcopy(DEFAULTS)
        self.leaf = leaf
        self.items = {} if leaf else dict(item=None, hid=None)
        self.rels = {} if leaf else dict(kids=[], more=[])
        self.parent = None
        self.count = 0


def get(node, name):
    if name == "secret":
        return node._get_persistent_property_value("secret")
    return getattr(node, name)


class Tree(Harness):
    """config: dict(start=..., ops=(...), nodes=n, props=..., where=...)"""
    STORE = False
    CONTEXT = False
    DETAIL = False
    STILL = False

    def __init__(self, config):
        super().__init__(config)
        c = self.c = dict(config)
        n = c.get("nodes", 3)
        leaves = c.get("leaves", ())
        self.nodes = [(Leaf if i in leaves else Node)("n%d" % i) for i in range(n)]
        self.refs = [Ref(i in leaves) for i in range(n)]
        self.root_count = c.get("roots", 1)         # the first nodes are roots, each with a storage of its own
        self.contexts = [Persistence.PersistentObjectContext() for _ in range(c.get("contexts", 1))]
        self.storages = [None] * self.root_count
        self.attached = []         # roots that have their context
        self.started = False
        self.followed = []
        self.subs = []             # reference of subscriptions
        self.same_functions = {}
        self.log = []
        self.expected_log = None
        self.tokens = []
        for op in c.get("start", ()):
            self.apply(op)
        self.started = True
        self.followed = []
        for node in self.nodes:
            del node.changes[:]
            if c.get("react"):
                node.reaction = self.follow
        self.expected_log = None
        self.log = []
        self.verify()

    def roots(self):
        return [self.nodes, self.contexts, [x and x.properties for x in self.storages], self.attached, self.subs, self.counts()]

    def counts(self):
        return None

    def observe(self):
        return [repr(self.strip(self.form(i))) for i in range(self.root_count)]

    # ------------------------------------------------------------------ reference

    def ancestors(self, i):
        res = []
        while i is not None:
            res.append(i)
            p = self.refs[i].parent
            i = p[0] if p else None
        return res

    def descendants(self, i):
        r = self.refs[i]
        res = [i]
        for k in list(r.items.values()) + [x for l in r.rels.values() for x in l]:
            if k is not None:
                res += self.descendants(k)
        return res

    def root_of(self, i):
        r = self.ancestors(i)[-1]
        return r if r < self.root_count else None

    def in_tree(self, i):
        return self.root_of(i) is not None

    def live(self, i):
        """the index of the context node i is in, or None"""
        r = self.root_of(i)
        return r % len(self.contexts) if r in self.attached else None

    def form(self, i):
        """the stored form the reference expects"""
        r = self.refs[i]
        d = {"type": "leaf" if r.leaf else "node", "uuid": str(self.nodes[i].uuid)}
        for name, key in (("plain", "plain"), ("keyed", "stored_keyed"), ("even", "even"), ("secret", "secret"), ("fixed", "fixed"), ("copied", "copied"), ("noted", "noted"), ("listed", "listed"), ("vlist", "vlist"), ("unset", "unset"), ("zero", "zero"), ("cdef", "cdef"), ("extra", "extra")):
            if r.props[name] is not None:
                d[key] = r.props[name]
        if r.props["conv"] is not None:
            d["c"] = "#%x" % r.props["conv"]
        if r.props["blob"] is not None:
            d["blob"] = {"n": r.props["blob"].n}
        if r.props["custom"] is not None:
            d["cu"] = {"wrapped": r.props["custom"]}
        if r.props["multi"] is not None:
            d["low"], d["high"] = r.props["multi"]
        for k in r.items:
            if r.items[k] is not None:
                d[k] = self.form(r.items[k])
        for k in r.rels:
            d["stored_more" if k == "more" else k] = [self.form(x) for x in r.rels[k]]
        return d

    # ------------------------------------------------------------------ operations

    def ops(self):
        c = self.c
        alphabet = c["ops"]
        res = []
        if "props" in alphabet:
            for i in c.get("where", range(len(self.nodes))):
                for name in c.get("props", tuple(DEFAULTS)):
                    for k in range(len(VALUES[name])):
                        res.append(("set", i, name, k))
        if "tree" in alphabet:
            free = [i for i in range(self.root_count, len(self.nodes)) if self.refs[i].parent is None]
            for i in range(len(self.nodes)):
                if not self.in_tree(i) and "loose" not in alphabet:
                    continue
                r = self.refs[i]
                for x in free:
                    if i in self.descendants(x):
                        continue
                    for k in c.get("items", ITEMS) if not r.leaf else ():
                        res.append(("item", i, k, x))
                    for k in c.get("rels", RELS) if not r.leaf else ():
                        for at in range(len(r.rels[k]) + 1):
                            res.append(("insert", i, k, at, x))
                        if r.rels[k]:
                            res.append(("append", i, k, x))
                for k in r.items:
                    if r.items[k] is not None:
                        res.append(("item", i, k, None))
                for k in r.rels:
                    for at in range(len(r.rels[k])):
                        res.append(("remove", i, k, at))
        if "extend" in alphabet:
            free = [i for i in range(self.root_count, len(self.nodes)) if self.refs[i].parent is None]
            for i in range(len(self.nodes)):
                if self.in_tree(i) and len(free) > 1:
                    for k in self.refs[i].rels:
                        res.append(("extend", i, k, tuple(free[:2])))
        if "context" in alphabet:
            for i in range(self.root_count):
                res.append(("context", i not in self.attached) + ((i,) if i else ()))
        if "subscribe" in alphabet:
            for i in range(len(self.nodes)):
                for ci in range(len(self.contexts)):
                    if sum(1 for s in self.subs if s[0] == i and s[3] == ci) < 2:
                        for mode in self.c.get("modes", ("both", "reg", "unreg")):
                            res.append(("subscribe", i, mode) + ((ci,) if ci else ()))
        if "copy" in alphabet:
            res.append(("copy",))
        return res

    def edit(self, i, fn, times=1):
        """run an edit of node i, checking modification time and count of it and its ancestors"""
        if not self.DETAIL or not self.started:
            fn()
            return
        before = [(n.modified, n.modified_count) for n in self.nodes]
        states = [n.modified_state for n in self.nodes]
        anc = self.ancestors(i)
        if self.STILL:
            Clock.stands_at = Clock(2020, 2, 2)
        else:
            last = max(b[0] for b in before)
            while datetime.datetime.utcnow() <= last:
                pass
        t0 = datetime.datetime.utcnow()
        try:
            fn()
            t1 = datetime.datetime.utcnow()
        finally:
            Clock.stands_at = None
        for k, n in enumerate(self.nodes):
            expect(n.modified_state == states[k] + (times if k in anc else 0), "%r: modified state went from %d to %d with an edit of %r", n, states[k], n.modified_state, self.nodes[i])
            if k in anc:
                expect(n.modified_count == before[k][1] + times, "%r: modification count went from %d to %d with %d edit of %r", n, before[k][1], n.modified_count, times, self.nodes[i])
                expect(self.STILL or t0 <= n.modified <= t1, "%r: modification time was not set by the edit of %r", n, self.nodes[i])
                expect_eq(n.modified, self.nodes[i].modified, "modification time of %r and of the edited %r" % (n, self.nodes[i]))
            else:
                expect((n.modified, n.modified_count) == before[k], "%r was marked modified by an edit of %r", n, self.nodes[i])

    def apply(self, op):
        kind = op[0]
        want = []       # callbacks expected on the edited node
        if kind == "set":
            _, i, name, k = op
            v = value_of(VALUES[name][k])
            node, r = self.nodes[i], self.refs[i]
            if name in READ_ONLY:
                try:
                    setattr(node, name, v)
                except AttributeError:
                    pass
                else:
                    raise Violation("a read-only property was set from outside")
            else:
                given = v
                if name == "extra":
                    self.edit(i, lambda: node.set_extra(given))
                elif name == "secret":
                    self.edit(i, lambda: node._set_persistent_property_value("secret", given))
                else:
                    self.edit(i, lambda: setattr(node, name, given))
                r.props[name] = validate_even(v) if name == "even" else validate_list(v) if name == "vlist" else copy.deepcopy(v)
                if name in ("copied", "noted"):
                    want.append(("property", name, repr(v)))
                # later mutation of the caller's object does not show
                self.mutate(given)
                for other in ("copied", "cdef"):
                    self.mutate(getattr(node, other))
        elif kind == "item":
            _, i, name, x = op
            old = self.refs[i].items[name]
            node = self.nodes[i]
            self.expect_attach(i, x, old)
            self.edit(i, lambda: node.set_item(name, None if x is None else self.nodes[x]))
            if old is not None:
                self.refs[old].parent = None
            self.refs[i].items[name] = x
            if x is not None:
                self.refs[x].parent = (i, name)
            if name == "item":
                want.append(("item", name, None if old is None else self.nodes[old], None if x is None else self.nodes[x]))
        elif kind in ("insert", "append"):
            i, name, x = op[1], op[2], op[-1]
            at = op[3] if kind == "insert" else len(self.refs[i].rels[name])
            node = self.nodes[i]
            self.expect_attach(i, x, None)
            if kind == "insert":
                self.edit(i, lambda: node.insert_item(name, at, self.nodes[x]))
            else:
                self.edit(i, lambda: node.append_item(name, self.nodes[x]))
            self.refs[i].rels[name].insert(at, x)
            self.refs[x].parent = (i, name)
            if name == "kids":
                want.append(("insert", name, at, self.nodes[x]))
        elif kind == "extend":
            _, i, name, xs = op
            node = self.nodes[i]
            self.expect_events(self.live(i), appear=[d for x in xs for d in self.descendants(x)])
            self.edit(i, lambda: node.extend_items(name, [self.nodes[x] for x in xs]), len(xs))
            for x in xs:
                at = len(self.refs[i].rels[name])
                self.refs[i].rels[name].append(x)
                self.refs[x].parent = (i, name)
                if name == "kids":
                    want.append(("insert", name, at, self.nodes[x]))
        elif kind == "remove":
            _, i, name, at = op
            node = self.nodes[i]
            x = self.refs[i].rels[name][at]
            self.expect_attach(i, None, x)
            self.edit(i, lambda: node.remove_item(name, self.nodes[x]))
            del self.refs[i].rels[name][at]
            self.refs[x].parent = None
            if name == "kids":
                want.append(("remove", name, at, self.nodes[x]))
        elif kind == "context":
            root = op[2] if len(op) > 2 else 0
            context = self.contexts[root % len(self.contexts)]
            if op[1]:
                self.storages[root] = Storage(self.nodes[root])
                context._set_persistent_storage_for_object(self.nodes[root], self.storages[root])
                self.attached = sorted(self.attached + [root])
                self.expect_events(self.live(root), appear=self.descendants(root))
                self.nodes[root].persistent_object_context = context
            else:
                self.expect_events(self.live(root), vanish=self.descendants(root))
                self.attached = [r for r in self.attached if r != root]
                self.nodes[root].persistent_object_context = None
                context._set_persistent_storage_for_object(self.nodes[root], None)
                self.storages[root] = None
        for further in self.followed:
            self.ref_update(further)
        self.followed = []
        if kind == "subscribe":
            self.subscribe(op[1], op[2], op[3] if len(op) > 3 else 0)
        elif kind == "copy":
            self.copy_check()
        if self.DETAIL and self.started and kind in ("set", "item", "insert", "append", "remove", "extend"):
            for k, n in enumerate(self.nodes):
                expect_eq(n.changes, want if k == op[1] else [], "callbacks of %r for %r" % (n, op))
        for n in self.nodes:
            del n.changes[:]
        if self.started:
            self.verify()

    def follow(self, node, name, item):
        """the further edit a callback makes, once per operation"""
        if self.followed:
            return
        how = self.c["react"]
        op = None
        i = self.node_index(node)
        kids = node.kids if name in ("kids", "item") else []
        if how == "set":
            op = ("set", i, "keyed", 1)
        elif how == "kid" and kids:
            op = ("set", self.node_index(kids[-1]), "keyed", 1)
        elif how == "item" and item is not None:
            op = ("set", self.node_index(item), "keyed", 1)
        elif how in ("insert", "append", "back"):
            free = [k for k in range(self.root_count, len(self.nodes)) if self.nodes[k].persistent_object_parent is None and self.nodes[k] is not item and not self.has(self.nodes[k], node)]
            if how == "back" and item is not None and not any(x is item for x in node.kids) and node.get_item("item") is not item:
                free = [self.node_index(item)]
            if free and name in ("kids", "item"):
                op = ("insert", i, "kids" if how != "back" else "more", 0 if how == "insert" else len(node.kids if how != "back" else node.more), free[0])
        elif how == "remove" and kids:
            op = ("remove", i, "kids", 0)
        if op is not None:
            self.followed.append(op)
            if op[0] == "set":
                self.nodes[op[1]].keyed = value_of(VALUES["keyed"][op[3]])
            elif op[0] == "insert":
                node.insert_item(op[2], op[3], self.nodes[op[4]])
            else:
                node.remove_item(op[2], kids[op[3]])

    def has(self, node, other):
        return any(x is other for x in self.all_nodes(node))

    def ref_update(self, op):
        i = op[1]
        if op[0] == "set":
            self.refs[i].props[op[2]] = copy.deepcopy(VALUES[op[2]][op[3]])
        elif op[0] == "insert":
            self.refs[i].rels[op[2]].insert(op[3], op[4])
            self.refs[op[4]].parent = (i, op[2])
        else:
            self.refs[self.refs[i].rels[op[2]].pop(op[3])].parent = None

    @staticmethod
    def mutate(v):
        if isinstance(v, list):
            v.append("mutated")
        elif isinstance(v, dict):
            v["mutated"] = 1
            for x in v.values():
                if isinstance(x, list):
                    x.append("mutated")
        elif isinstance(v, Blob):
            v.n = 99

    # ------------------------------------------------------------------ registration

    def expect_attach(self, i, x, old):
        self.expect_events(self.live(i), appear=self.descendants(x) if x is not None else [], vanish=self.descendants(old) if old is not None else [])

    def expect_events(self, ci, appear=(), vanish=()):
        """registrations and unregistrations with context ci the next operation must cause, in no particular order"""
        if not self.CONTEXT:
            return
        self.log = []
        want = []
        if ci is not None:
            for x in vanish:
                want += [("-", x, ci), ("told", x, None)]
                over = [s for s in self.subs if s[0] == x and s[3] == ci]
                self.subs = [s for s in self.subs if s[0] != x or s[3] != ci]
                for s in over:
                    if s[1] != "reg":
                        want.append(("unsub", s[2], x))
                    if s[1] == "again":
                        self.subs.append((x, "both", s[2], ci))
            for x in appear:
                want += [("+", x, ci), ("told", x, ci)]
                for s in list(self.subs):
                    if s[0] == x and s[3] == ci and s[1] != "unreg":
                        want.append(("sub", s[2], x))
                        if s[1] == "twin":
                            want.append(("sub", s[2] + 100, x))
                            self.subs.remove(s)
                            self.subs += [(x, "both", s[2], ci), (x, "both", s[2] + 100, ci)]
        self.expected_log = sorted(want, key=repr)

    def node_index(self, obj):
        return next((k for k, n in enumerate(self.nodes) if n is obj), None)

    def context_index(self, context):
        return next((k for k, c in enumerate(self.contexts) if c is context), None)

    def told(self, node):
        """an object is told that its context may have changed"""
        now = self.context_index(node.persistent_object_context)
        if now != node.context_seen:
            node.context_seen = now
            self.log.append(("told", self.node_index(node), now))
        for ci, c in enumerate(self.contexts):
            expect(c.get_registered_object(node.uuid) is (node if ci == now else None), "the context %s %r when it is told of its new context", "does not find" if ci == now else "still finds", node)

    def listen(self):
        for n in self.nodes:
            n.context_seen = self.context_index(n.persistent_object_context)
            n.context_told = self.told
        self.tokens = [c.registration_event.listen(functools.partial(self.registration, ci)) for ci, c in enumerate(self.contexts)]

    def registration(self, ci, added, removed):
        expect((added is None) != (removed is None), "registration event with %r, %r", added, removed)
        if added is not None:
            expect(self.contexts[ci].get_registered_object(added.uuid) is added, "%r is not found when its registration is signalled", added)
            self.log.append(("+", self.node_index(added), ci))
        else:
            expect(self.contexts[ci].get_registered_object(removed.uuid) is None, "%r is still found when its unregistration is signalled", removed)
            self.log.append(("-", self.node_index(removed), ci))

    def subscribe(self, i, mode, ci):
        ident = 0 if mode != "same" else 50 + i        # "same": always the same two functions
        while mode != "same" and any(s[2] == ident for s in self.subs):
            ident += 1
        self.log = []
        self.subs.append((i, mode, ident, ci))
        self.expected_log = []
        if self.live(i) == ci and mode != "unreg":
            self.expected_log.append(("sub", ident, i))
            if mode == "twin":
                self.expected_log.append(("sub", ident + 100, i))
                self.subs[-1:] = [(i, "both", ident, ci), (i, "both", ident + 100, ci)]
        self.expected_log.sort(key=repr)
        self.really_subscribe(i, mode, ident, ci)

    def really_subscribe(self, i, mode, ident, ci):
        twin = [mode == "twin"]

        def registered(obj):
            self.log.append(("sub", ident, self.node_index(obj)))
            if twin.count(True):
                twin.clear()
                self.really_subscribe(i, "both", ident + 100, ci)      # another one, for the same object

        def unregistered(obj):
            self.log.append(("unsub", ident, self.node_index(obj)))
            if mode == "again":
                self.really_subscribe(i, "both", ident, ci)            # until it comes back
        if mode == "same":
            registered, unregistered = self.same_functions.setdefault(ident, (registered, unregistered))
        self.contexts[ci].subscribe(self.nodes[i].uuid, registered if mode != "unreg" else None, unregistered if mode != "reg" else None)

    # ------------------------------------------------------------------ checks

    def verify(self):
        if self.DETAIL:
            for i, (n, r) in enumerate(zip(self.nodes, self.refs)):
                for name in DEFAULTS:
                    got = get(n, name)
                    expect(type(got) is type(r.props[name]) and got == r.props[name], "%r.%s is %r, expected %r", n, name, got, r.props[name])
                try:
                    n.secret
                except AttributeError:
                    pass
                else:
                    raise Violation("a hidden property is visible")
                if not r.leaf:
                    expect(n.item is (None if r.items["item"] is None else self.nodes[r.items["item"]]), "%r.item is %r", n, n.item)
                    expect(n.get_item("hid") is (None if r.items["hid"] is None else self.nodes[r.items["hid"]]), "%r.hid is %r", n, n.get_item("hid"))
                for k in r.rels:
                    want = [self.nodes[x] for x in r.rels[k]]
                    got = getattr(n, k)
                    expect(len(got) == len(want) and all(a is b for a, b in zip(got, want)), "%r.%s is %r, expected %r", n, k, got, want)
                    expect_eq(n.item_count(k), len(want), "item_count")
                    for at, x in enumerate(want):
                        expect_eq(n.item_index(k, x), at, "item_index")
                    got.append(None)     # the list given out belongs to the caller
                    expect(len(getattr(n, k)) == len(want), "the list given out is the internal one")
        if self.STORE:
            self.check_store()
        if self.CONTEXT:
            self.check_context()

    def check_store(self):
        for root in range(self.root_count):
            self.check_root(root)

    def check_root(self, root):
        form = self.form(root)
        whole = self.nodes[root].write_to_dict()
        expect_eq(whole, form, "whole tree written out")
        if root in self.attached:
            storage = self.storages[root]
            expect_eq(storage.properties, whole, "stored form maintained incrementally, against the whole tree written out")
            got = self.contexts[root % len(self.contexts)].get_properties(self.nodes[root])
            expect_eq(got, whole, "get_properties")
            self.scramble(got)
            expect_eq(storage.properties, whole, "stored form after the one given out by get_properties was changed")
            # values changed in place without telling are not in the stored form
            for n in self.nodes:
                for name in ("plain", "listed", "vlist", "multi"):
                    v = get(n, name)
                    if isinstance(v, list):
                        v.append("in place")
                        same = storage.properties == whole
                        v.pop()
                        expect(same, "the stored form shares the value of %s", name)
        given = copy.deepcopy(whole)
        fresh = type(self.nodes[root])("copy")
        fresh.begin_reading()
        fresh.read_from_dict(given)
        fresh.finish_reading()
        expect_eq(given, whole, "the form after it was read")
        for x in self.all_nodes(fresh):
            expect_eq(x.reads, ["begin", "read", "finish"], "calls made to an object being read")
        self.compare(fresh, root, True)
        expect_eq(fresh.write_to_dict(), whole, "form written again after reading")
        # fresh objects keep nothing of the form
        self.scramble(given)
        expect_eq(fresh.write_to_dict(), whole, "form written again after the dictionary it was read from was changed")
        out = fresh.write_to_dict()
        self.scramble(out)
        expect_eq(fresh.write_to_dict(), whole, "form written again after the written one was changed")

    def scramble(self, d):
        if isinstance(d, dict):
            for v in list(d.values()):
                self.scramble(v)
            d.clear()
        elif isinstance(d, list):
            for v in d:
                self.scramble(v)
            d.append("scrambled")

    def compare(self, node, i, identity):
        r = self.refs[i]
        for name in DEFAULTS:
            if name == "extra" and not identity:
                continue       # left to the class
            got = get(node, name)
            expect(type(got) is type(r.props[name]) and got == r.props[name], "%s after reading or copying: %r, expected %r", name, got, r.props[name])
        if identity:
            expect_eq(node.uuid, self.nodes[i].uuid, "uuid after reading")
        for k in r.items:
            got = node.get_item(k)
            if r.items[k] is None:
                expect(got is None, "item %s is %r", k, got)
            else:
                expect(isinstance(got, Node), "item %s is %r", k, got)
                expect(got.persistent_object_parent.parent is node, "parent of the item read or copied")
                self.compare(got, r.items[k], identity)
        expect_eq(type(node), Leaf if r.leaf else Node, "class of the object read or copied")
        for k in r.rels:
            got = getattr(node, k)
            expect_eq(len(got), len(r.rels[k]), "number of items in %s" % k)
            for a, b in zip(got, r.rels[k]):
                expect(a.persistent_object_parent.parent is node, "parent of the item read or copied")
                self.compare(a, b, identity)

    def all_nodes(self, node):
        res = [node]
        for k in node.item_names:
            if node.get_item(k) is not None:
                res += self.all_nodes(node.get_item(k))
        for k in node.relationship_names:
            for x in getattr(node, k):
                res += self.all_nodes(x)
        return res

    def copy_check(self):
        """deep copy of the root: equal and independent"""
        root = self.nodes[0]
        before = root.write_to_dict()
        dup = copy.deepcopy(root)
        expect(dup is not root and type(dup) is type(root), "deep copy")
        self.compare(dup, 0, False)
        mine = self.all_nodes(root)
        theirs = self.all_nodes(dup)
        expect(not any(a is b for a in mine for b in theirs), "the copy shares a nested object with the original")
        expect_eq(len({str(x.uuid) for x in mine + theirs}), len(mine) + len(theirs), "number of different uuids")
        expect(all(x.persistent_object_context is None for x in theirs), "a copy is registered in the context of the original")
        # edits of the copy
        for x in list(theirs):
            for name in ("plain", "copied", "listed", "vlist", "multi", "cdef"):
                self.mutate(get(x, name))
            if x.blob is not None:
                x.blob.n = 99
            x.keyed = "edited"
            x.noted = 77
            for k in x.item_names:
                x.set_item(k, None if k == "item" else Node("x"))
            for k in x.relationship_names:
                for y in getattr(x, k):
                    x.remove_item(k, y)
        expect_eq(root.write_to_dict(), before, "original after the copy was edited")
        if 0 in self.attached and self.STORE:
            expect_eq(self.storages[0].properties, before, "stored form after a copy was edited")
        # edits of the original do not show in a copy
        dup = copy.deepcopy(root)
        shape = self.strip(dup.write_to_dict())
        expect_eq(shape, self.strip(before), "form of the copy")
        for name in ("plain", "listed", "vlist", "multi"):
            v = get(root, name)
            if isinstance(v, list):
                v.append("edited")
                now = self.strip(dup.write_to_dict())
                v.pop()
                expect_eq(now, shape, "copy after %s of the original was edited" % name)
        # reading the changes away again
        for n in self.nodes:
            del n.changes[:]

    def strip(self, d):
        if isinstance(d, dict):
            return {k: self.strip(v) for k, v in d.items() if k not in ("uuid", "extra")}
        if isinstance(d, list):
            return [self.strip(x) for x in d]
        return d

    def check_context(self):
        if self.expected_log is not None:
            expect_eq(sorted(self.log, key=repr), self.expected_log, "registrations, unregistrations and subscription calls")
            self.expected_log = None
            self.log = []
        expect(not self.log, "unexpected registrations: %r", self.log)
        for i, n in enumerate(self.nodes):
            ci = self.live(i)
            expect(self.context_index(n.persistent_object_context) == ci, "%r has context %r, expected number %r", n, n.persistent_object_context, ci)
            for k, context in enumerate(self.contexts):
                got = context.get_registered_object(n.uuid)
                expect(got is (n if k == ci else None), "%r is in context %r but context %d finds %r", n, ci, k, got)
            p = self.refs[i].parent
            if p is None:
                expect(n.persistent_object_parent is None, "%r, which is not in anything, has a parent", n)
            else:
                expect(n.persistent_object_parent is not None and n.persistent_object_parent.parent is self.nodes[p[0]], "parent of %r", n)
                expect_eq(n.persistent_object_parent.item_name or n.persistent_object_parent.relationship_name, p[1], "place of %r in its parent" % n)
            if ci is not None:
                c = self.contexts[ci]
                storage = self.storages[self.root_of(i)]
                expect_eq(c.read_external_data(n, "d"), ("read", n, "d", storage), "read_external_data")
                expect_eq(c.is_write_delayed(n), ("delayed", n, storage), "is_write_delayed")
                expect_eq(c.get_storage_property(n, "s"), ("storage property", n, "s", storage), "get_storage_property")
                c.write_external_data(n, "d", 3)
                c.enter_write_delay(n)
                c.exit_write_delay(n)
                c.rewrite_item(n)
                for x in self.storages:
                    if x is not None:
                        expect_eq(x.calls, [("write", n, "d", 3), ("enter", n), ("exit", n), ("rewrite", n)] if x is storage else [], "requests passed to the storage")
                        del x.calls[:]
