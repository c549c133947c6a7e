"""Filtered lists: content against sorted(filter(source))."""
import itertools

from core import search
from props.lists import Chain


class F(Chain):
    CONTENT = True


def cfg(**k):
    return tuple(sorted(k.items()))


H = [(0, 1, 2, 3), (3, 2, 1, 0)]
PRE = list(itertools.product(("all", "pos"), ("none", "v", "label"), (False, True)))


def check(result, tier):
    q = tier == "quick"
    lim = None if q else 900
    search(result, "edits, content, batches", F, [cfg(chain="F", pool=3, start=s, hashes=h, ops=("edit", "content", "batch", "clear"), levels=1 if q else 2, values=(0, 1, 2), preset=(p,)) for h in H for s in (3,) for p in PRE],
           max_depth=4 if q else 12, time_limit=lim)
    search(result, "reconfiguration", F, [cfg(chain="F", pool=3, start=3, hashes=h, vs=vs, ops=("edit", "filter", "sort", "batch"), sorts=("none", "v", "label"), filters=("all", "pos", "eq1")) for h in H for vs in ((1, 0, 1), (0, 2, 1))],
           max_depth=4 if q else 12, time_limit=lim)
    search(result, "container switches", F, [cfg(chain="F", pool=2, extra=2, switch=True, start=2, hashes=h, ops=("edit", "switch", "batch", "content"), values=(0, 1), preset=(p,)) for h in H for p in PRE],
           max_depth=4 if q else 12, time_limit=lim)
    search(result, "two filters in a row", F, [cfg(chain="FF", pool=3, start=3, hashes=h, ops=("edit", "content", "batch", "filter", "sort"), values=(0, 1), filters=("all", "pos"), sorts=("none", "v"), levels=1, preset=p)
                                              for h in H[:1] for p in itertools.product(PRE[:1] + PRE[6:10], PRE[:1] + PRE[8:10])],
           max_depth=3 if q else 6, time_limit=lim)
    search(result, "four items", F, [cfg(chain="F", pool=4, start=4, vs=vs, hashes=h, ops=("edit", "content", "batch"), levels=1, values=(0, 1, 2), preset=(p,)) for h in H for vs in ((1, 0, 1, 2), (0, 1, 1, 2)) for p in PRE],
           max_depth=2 if q else 5, time_limit=lim)
    search(result, "many items", F, [cfg(chain="F", large=True, pool=35, start=34, ops=("edit", "content", "batch", "sort"), values=(0, 1), levels=1, sorts=("none", "v"), preset=(p,)) for p in PRE], max_depth=2 if q else 3, time_limit=lim)
    search(result, "items that look empty", F, [cfg(chain=ch, falsy=True, pool=3, start=2, ops=("edit", "content", "filter", "sort", "batch", "clear", "noise"), values=(0, 1), filters=("all", "pos"), sorts=("none", "v"), levels=1) for ch in ("F", "FF")] +
           [cfg(chain=ch, falsy=True, boxes=2, pool=3, split=((0, 1), (2,)), start_boxes=(0,), ops=("edit", "boxes", "noise")) for ch in ("XF",)], max_depth=2 if q else 4, time_limit=lim)
    search(result, "models with defaults", F, [cfg(chain=ch, defaults=True, pool=3, start=2, ops=("edit", "content", "filter", "sort", "batch", "clear", "noise"), values=(0, 1), filters=("all", "pos"), sorts=("none", "v"), levels=1) for ch in ("F", "FF")] +
           [cfg(chain=ch, defaults=True, boxes=2, pool=3, split=((0, 1), (2,)), start_boxes=(0,), ops=("edit", "boxes", "noise")) for ch in ("XF",)], max_depth=2 if q else 4, time_limit=lim)
    search(result, "blocks of changes that fail", F, [cfg(chain=ch, pool=3, start=2, ops=("edit", "content", "batch", "block"), values=(0, 1), levels=1, preset=(p,) * len(ch)) for ch in ("F", "FF") for p in (("all", "none", False), ("pos", "v", False))],
           max_depth=3 if q else 6, time_limit=lim)
    search(result, "filters and keys that change their meaning", F, [cfg(chain=ch, pool=3, start=3, vs=vs, ops=("edit", "content", "filter", "sort", "batch", "limit"), values=(0, 1), filters=("all", "lim"), sorts=("none", "dyn"), levels=1, preset=(p,) * len(ch))
                                                                     for ch in ("F", "FF") for vs in ((1, 0, 1), (0, 1, 2)) for p in (("lim", "none", False), ("all", "dyn", False), ("lim", "dyn", True))], max_depth=3 if q else 7, time_limit=lim)
