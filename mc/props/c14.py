"""Registration with the persistent context."""
import copy

from core import enumerate_domain, expect, expect_eq, search
from nion.utils import Persistence
from props.persist import Node, Tree
from props.c13 import DEEP, WIDE, TREES, CTX, cfg


BOTH = CTX + (("context", True, 1),)


class C(Tree):
    CONTEXT = True

    def __init__(self, config):
        super().__init__(config)
        self.listen()
        self.log = []
        self.expected_log = None


STORED = ({}, {"a": [1]}, {"a": {"b": [{"c": 1}]}, "d": 2})


class Passive:
    """a storage of the kind that has all properties in one dictionary"""

    def __init__(self, properties):
        self.properties = properties

    def insert_item(self, parent, name, before_index, item):
        item.persistent_object_context = parent.persistent_object_context

    def set_item(self, parent, name, item):
        if item is not None:
            item.persistent_object_context = parent.persistent_object_context


class Asking(Passive):
    """a storage that is asked for the properties of an object"""
    asked = None

    def get_properties(self, object):
        self.asked = object
        return self.properties


def scramble(x):
    for v in list(x.values() if isinstance(x, dict) else x):
        if isinstance(v, (dict, list)):
            scramble(v)
    if isinstance(x, dict):
        x["new"] = 1
    else:
        x.append("new")


def given_out(item):
    """the properties the context gives out are those of the storage, as a copy"""
    kind, place, n = item
    nodes = [Node("n%d" % i) for i in range(3)]
    context = Persistence.PersistentObjectContext()
    stored = copy.deepcopy(STORED[n])
    storage = kind(stored)
    context._set_persistent_storage_for_object(nodes[0], storage)
    nodes[0].persistent_object_context = context
    nodes[0].set_item("item", nodes[1])
    nodes[1].append_item("kids", nodes[2])
    for _ in range(2):
        got = context.get_properties(nodes[place])
        expect_eq(got, STORED[n], "properties given out")
        if kind is Asking:
            expect(storage.asked is nodes[place], "the storage was asked for the properties of %r", storage.asked)
        scramble(got)
        expect_eq(stored, STORED[n], "properties in the storage after the ones given out were changed")
    return place


class Replying:
    """a storage that gives a fixed answer and keeps what it is asked"""

    def __init__(self, reply):
        self.reply = reply
        self.calls = []

    def __getattr__(self, request):
        def answer(*args):
            self.calls.append((request,) + args)
            if request in ("insert_item", "set_item"):
                args[-1].persistent_object_context = args[0].persistent_object_context
            return self.reply
        if request.startswith("_") or request in ("properties", "get_properties"):
            raise AttributeError(request)
        return answer


ANYTHING = (None, 0, False, "", b"", [], {}, 1, True, "x", b"x", [0], {"a": None})


def passed_on(item):
    """requests reach the storage of the root once, with what was given, and its answer is given back as it is"""
    place, n = item
    value = ANYTHING[n]
    nodes = [Node("n%d" % i) for i in range(3)]
    context = Persistence.PersistentObjectContext()
    storage = Replying(value)
    context._set_persistent_storage_for_object(nodes[0], storage)
    nodes[0].persistent_object_context = context
    nodes[0].set_item("item", nodes[1])
    nodes[1].append_item("kids", nodes[2])
    node = nodes[place]

    def one(wanted, answered, request, *args):
        del storage.calls[:]
        got = getattr(context, request)(*args)
        expect(len(storage.calls) == 1 and len(storage.calls[0]) == len(wanted) and all(a is b or type(a) is type(b) is str and a == b for a, b in zip(storage.calls[0], wanted)),
               "%s%r reached the storage as %r, expected %r", request, args, storage.calls, wanted)
        expect(not answered or got is value, "%s%r gave %r, the storage said %r", request, args, got, value)
    for name in ("d", "name", ""):
        one(("read_external_data", node, name), True, "read_external_data", node, name)
        one(("write_external_data", node, name, value), False, "write_external_data", node, name, value)
        one(("get_storage_property", node, name), True, "get_storage_property", node, name)
        one(("set_property", node, name, value), False, "property_changed", node, name, value)
        one(("clear_property", node, name), False, "clear_property", node, name)
    one(("is_write_delayed", node), n in (2, 8), "is_write_delayed", node)
    one(("enter_write_delay", node), False, "enter_write_delay", node)
    one(("exit_write_delay", node), False, "exit_write_delay", node)
    one(("rewrite_item", node), False, "rewrite_item", node)
    return place, n


def check(result, tier):
    q = tier == "quick"
    lim = None if q else 1200
    search(result, "attach, detach, context", C, [cfg(nodes=4, ops=("tree", "loose", "context"), start=s) for s in (CTX, ())], max_depth=3 if q else 5, time_limit=lim)
    search(result, "subscriptions", C, [cfg(nodes=3, ops=("tree", "context", "subscribe"), items=("item",), rels=("kids",), start=s) for s in (CTX, ())], max_depth=4 if q else 6, time_limit=lim)
    search(result, "subscriptions made by subscriptions", C, [cfg(nodes=2, ops=("tree", "context", "subscribe"), modes=("both", "again", "twin", "same"), items=("item",), rels=("kids",), start=s) for s in (CTX, ())], max_depth=5 if q else 8, time_limit=lim)
    search(result, "leaves", C, [cfg(nodes=4, leaves=l, ops=("tree", "loose", "extend", "context", "subscribe"), start=s) for s in (CTX, ()) for l in ((1, 2), (1, 2, 3))], max_depth=2 if q else 4, time_limit=lim)
    search(result, "trees", C, [cfg(nodes=4, ops=("tree", "loose", "context", "subscribe"), start=t + s) for t in TREES for s in (CTX, ())], max_depth=2 if q else 4, time_limit=lim)
    search(result, "two trees, one context", C, [cfg(nodes=4, roots=2, ops=("tree", "context"), items=("item",), rels=("kids",), start=s) for s in (BOTH, CTX, ())], max_depth=4 if q else 6, time_limit=lim)
    search(result, "two trees, a context each", C, [cfg(nodes=4, roots=2, contexts=2, ops=("tree", "context"), items=("item",), rels=("kids",), start=s) for s in (BOTH, CTX)], max_depth=3 if q else 5, time_limit=lim)
    search(result, "two contexts, subscriptions", C, [cfg(nodes=3, roots=2, contexts=2, ops=("tree", "context", "subscribe"), items=("item",), rels=("kids",), start=s) for s in (BOTH, CTX)], max_depth=3 if q else 5, time_limit=lim)
    search(result, "many items", C, [cfg(nodes=11, ops=("tree", "context"), rels=("kids",), items=("item",), start=t + CTX) for t in WIDE], max_depth=1 if q else 2, time_limit=lim)
    search(result, "deep trees", C, [cfg(nodes=6, ops=("tree", "props", "context"), props=("plain", "keyed"), rels=("more",), start=t + CTX) for t in DEEP], max_depth=2 if q else 3, time_limit=lim)
    enumerate_domain(result, "properties given out", [(k, p, n) for k in (Passive, Asking) for p in range(3) for n in range(len(STORED))], given_out)
    enumerate_domain(result, "requests passed on", [(p, n) for p in range(3) for n in range(len(ANYTHING))], passed_on)
