"""Persistent properties, modification tracking, copies."""
import itertools

from core import enumerate_domain, expect_eq, search
from props import decl
from props.persist import Persistence, Tree
from props.c13 import DEEP, WIDE, TREES, CTX, GROUPS, cfg


class D(Tree):
    DETAIL = True


class Still(D):
    """all edits fall into one tick of the clock"""
    STILL = True


DEFINITIONS = [(kind, name) for kind in ("property", "item", "relationship") for name in ("a", "b")] + [("type", "t"), ("type", None)] + [("undefine", kind) for kind in ("property", "item", "relationship")]


def defined(steps):
    """an object has exactly what is defined on it"""
    o = Persistence.PersistentObject()
    ref = {"property": {}, "item": {}, "relationship": {}}
    type_ = None
    for n, (kind, name) in enumerate(steps):
        if kind == "type":
            o.define_type(name)
            type_ = name
        elif kind == "undefine":
            {"property": o.undefine_properties, "item": o.undefine_items, "relationship": o.undefine_relationships}[name]()
            ref[name] = {}
        else:
            if any(name in d for k, d in ref.items() if k != kind):
                return False        # one name for two things
            if kind == "property":
                o.define_property(name, n, key="k" + name)
                ref[kind][name] = n
            elif kind == "item":
                o.define_item(name, lambda lookup: Persistence.PersistentObject())
                ref[kind][name] = None
            else:
                o.define_relationship(name, lambda lookup: Persistence.PersistentObject(), key="k" + name)
                ref[kind][name] = []
        expect_eq(o.type, type_, "type")
        expect_eq(sorted(o.property_names), sorted(ref["property"]), "property names")
        expect_eq(sorted(o.key_names), sorted("k" + x for x in ref["property"]), "keys of properties")
        expect_eq(sorted(o.item_names), sorted(ref["item"]), "item names")
        expect_eq(sorted(o.relationship_names), sorted(ref["relationship"]), "relationship names")
        for x in "ab":
            want = [d[x] for d in ref.values() if x in d]
            expect_eq([getattr(o, x)] if hasattr(o, x) else [], want, "attribute %s" % x)
        form = o.write_to_dict()
        form.pop("uuid", None)
        want = {"k" + x: v for x, v in ref["property"].items()}
        want.update({"k" + x: [] for x in ref["relationship"]})
        if type_:
            want["type"] = type_
        expect_eq(form, want, "written form")
    return True


def check(result, tier):
    q = tier == "quick"
    lim = None if q else 1200
    search(result, "all properties of one object", D, [cfg(nodes=1, ops=("props", "copy"), start=s, where=(0,), props=p) for s in (CTX, ()) for p in GROUPS], max_depth=3 if q else 6, time_limit=lim)
    search(result, "property edits in a tree", D, [cfg(nodes=3, ops=("props", "copy"), start=t + CTX, where=(0, 1, 2)) for t in TREES], max_depth=2 if q else 3, time_limit=lim)
    search(result, "structure edits", D, [cfg(nodes=4, ops=("tree", "loose", "copy"), start=s) for s in (CTX, ())], max_depth=3 if q else 4, time_limit=lim)
    search(result, "leaves and extending", D, [cfg(nodes=4, leaves=(1, 2), ops=("tree", "extend", "copy"), start=s) for s in (CTX, ())], max_depth=3 if q else 5, time_limit=lim)
    search(result, "trees and edits", D, [cfg(nodes=4, ops=("tree", "props", "copy"), props=("plain", "copied", "blob"), start=t + s) for t in TREES for s in (CTX, ())], max_depth=2 if q else 4, time_limit=lim)
    search(result, "edits within one tick of the clock", Still, [cfg(nodes=4, ops=("tree", "props", "copy"), props=("plain", "copied"), start=t + CTX) for t in TREES], max_depth=2 if q else 3, time_limit=lim)
    search(result, "many items", D, [cfg(nodes=11, ops=("tree", "copy"), rels=("kids",), items=("item",), start=t + CTX) for t in WIDE], max_depth=1 if q else 2, time_limit=lim)
    search(result, "deep trees", D, [cfg(nodes=6, ops=("tree", "props", "copy"), props=("plain", "keyed"), rels=("more",), start=t + CTX) for t in DEEP], max_depth=2 if q else 3, time_limit=lim)
    enumerate_domain(result, "every declaration of a property", decl.domain(2 if q else 3), decl.run)
    enumerate_domain(result, "definitions made and taken back", list(itertools.product(DEFINITIONS, repeat=3 if q else 4)), defined)
