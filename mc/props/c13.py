"""Stored form of persistent trees."""
from core import enumerate_domain, search
from props import decl
from props.persist import Tree


class S(Tree):
    STORE = True


def cfg(**k):
    return tuple(sorted(k.items()))


TREES = [
    (("insert", 0, "kids", 0, 1), ("item", 1, "item", 2)),
    (("insert", 0, "more", 0, 1), ("insert", 1, "kids", 0, 2)),
    (("item", 0, "item", 1), ("insert", 1, "more", 0, 2)),
    (("item", 0, "hid", 1), ("item", 1, "hid", 2)),
    (("insert", 0, "kids", 0, 1), ("insert", 0, "kids", 1, 2)),
]
SIBLINGS = (("insert", 0, "more", 0, 1), ("insert", 0, "more", 1, 2))
WIDE = [tuple(("insert", 0, "kids", i, i + 1) for i in range(9)), (("insert", 0, "more", 0, 1),) + tuple(("insert", 1, "kids", i, i + 2) for i in range(8))]
DEEP = [tuple(("insert", i, "kids", 0, i + 1) for i in range(4)), tuple(("item", i, "item", i + 1) for i in range(4)), (("insert", 0, "more", 0, 1), ("item", 1, "item", 2), ("insert", 2, "kids", 0, 3), ("item", 3, "hid", 4))]
GROUPS = (("plain", "keyed", "conv", "even", "copied", "blob"), ("custom", "noted", "secret", "fixed", "listed", "vlist"), ("listed", "multi", "unset", "zero", "cdef", "conv", "extra"))
CTX = (("context", True),)


def check(result, tier):
    q = tier == "quick"
    lim = None if q else 1200
    search(result, "structure edits", S, [cfg(nodes=n, ops=("tree", "props", "context"), props=("plain", "keyed"), start=CTX) for n in (2, 3)] + [cfg(nodes=4, ops=("tree",), start=CTX)], max_depth=3 if q else 5, time_limit=lim)
    search(result, "property edits in a tree", S, [cfg(nodes=3, ops=("props",), start=t + CTX, where=(0, 1, 2)) for t in (TREES if not q else (SIBLINGS, TREES[1], TREES[3]))], max_depth=2 if q else 3, time_limit=lim)
    search(result, "all properties of one object", S, [cfg(nodes=1, ops=("props",), start=CTX, where=(0,), props=p, leaves=l) for p in GROUPS for l in ((), (0,))], max_depth=3 if q else 6, time_limit=lim)
    search(result, "leaves and extending", S, [cfg(nodes=4, leaves=(1, 2), ops=("tree", "extend", "context"), start=s) for s in (CTX, ())], max_depth=2 if q else 5, time_limit=lim)
    search(result, "trees and edits", S, [cfg(nodes=4, ops=("tree", "props", "context"), props=("keyed", "conv"), start=t + s) for t in TREES for s in (CTX, ())], max_depth=2 if q else 4, time_limit=lim)
    search(result, "built before being attached", S, [cfg(nodes=3, ops=("tree", "loose", "context", "props"), props=("keyed",), items=("item",), rels=("more",), start=s) for s in ((CTX, ()) if not q else ((),))], max_depth=4 if q else 6, time_limit=lim)
    search(result, "two trees", S, [cfg(nodes=4, roots=2, contexts=n, ops=("tree", "props", "context"), props=("keyed",), items=("item",), rels=("more",), start=CTX + (("context", True, 1),)) for n in (1, 2)], max_depth=3 if q else 5, time_limit=lim)
    search(result, "edits made by callbacks", S, [cfg(nodes=4, react=r, ops=("tree", "props"), props=("noted", "copied"), items=("item",), rels=("kids",), start=t + CTX) for r in ("set", "kid", "item", "insert", "append", "back", "remove") for t in (TREES[4], TREES[0])], max_depth=2 if q else 4, time_limit=lim)
    search(result, "many items", S, [cfg(nodes=11, ops=("tree", "context"), rels=("kids",), items=("item",), start=t + CTX) for t in WIDE], max_depth=1 if q else 2, time_limit=lim)
    search(result, "deep trees", S, [cfg(nodes=6, ops=("tree", "props", "context"), props=("plain", "keyed"), rels=("more",), start=t + CTX) for t in DEEP], max_depth=2 if q else 3, time_limit=lim)
    enumerate_domain(result, "modification times in the form", decl.times(), decl.run_time)
    enumerate_domain(result, "storage keys that are names of other members", list(decl.crossed(not q)), decl.run_crossed)
