"""Selections attached to list models follow the items."""
import itertools

from core import search
from props.lists import Chain


class S(Chain):
    SELECT = True


def cfg(**k):
    return tuple(sorted(k.items()))


PRE = list(itertools.product(("all", "pos"), ("none", "v", "label"), (False, True)))


def check(result, tier):
    q = tier == "quick"
    lim = None if q else 900
    search(result, "mapped", S, [cfg(chain=ch, pool=4, start=s, ops=("edit", "select", "clear")) for ch in ("M",) for s in (0, 2, 4)], max_depth=5 if q else 12, time_limit=lim)
    search(result, "filtered", S, [cfg(chain=ch, pool=4, start=s, vs=vs, ops=("edit", "select"), preset=(p,)) for ch in ("F",) for s in (2, 4) for p in PRE for vs in ((1, 0, 1, 2), (0, 2, 1, 0))], max_depth=4 if q else 9, time_limit=lim)
    search(result, "flattened", S, [cfg(chain="X", boxes=b, pool=p, split=sp, start_boxes=sb, ops=("edit", "boxes", "select"))
                                    for b, p in ((2, 4), (3, 3)) for sp in (((0,), (1,)), ((0, 1), (2,)), ((), (0, 1))) for sb in ((0,), (1, 0))], max_depth=4 if q else 8, time_limit=lim)
    search(result, "equal items", S, [cfg(chain="M", equal=True, pool=3, start=3, ops=("edit", "clear", "select"))] +
           [cfg(chain="X", equal=True, boxes=2, pool=4, split=((0, 1), (2,)), start_boxes=(0, 1), ops=("edit", "boxes", "select"))], max_depth=4 if q else 7, time_limit=lim)
    search(result, "chains", S, [cfg(chain=ch, boxes=2, pool=3, split=((0,), (1,)), start_boxes=(0, 1), start=3, ops=("edit", "boxes", "select"), preset=(("pos", "v", True),) * len(ch)) for ch in ("MF", "FM", "XF", "XM")] +
           [cfg(chain="FX", boxes=2, pool=3, split=((0,), (1,)), start_boxes=(0, 1), ops=("edit", "boxes", "select"), preset=(("pos", "none", False),))],
           max_depth=4 if q else 7, time_limit=lim)
    search(result, "many items", S, [cfg(chain=ch, large=True, pool=35, start=34, ops=("edit", "select"), preset=(p,)) for ch, p in (("M", PRE[0]), ("F", PRE[0]), ("F", PRE[-1]))] +
           [cfg(chain="X", large=True, boxes=3, pool=35, split=(tuple(range(12)), tuple(range(12, 34))), start_boxes=(0, 1, 2), ops=("edit", "select"))], max_depth=3 if q else 4, time_limit=lim)
    several = [("given", "make"), ("make", "make")]
    search(result, "several selections", S, [cfg(chain=ch, selections=h, pool=3, start=2, ops=("edit", "select", "release"), preset=(PRE[3],)) for ch in "MF" for h in several] +
           [cfg(chain="X", selections=h, boxes=2, pool=3, split=((0,), (1,)), start_boxes=(0, 1), ops=("edit", "boxes", "select", "release")) for h in several], max_depth=4 if q else 7, time_limit=lim)
    search(result, "selections of other styles", S, [cfg(chain=ch, selections=("given",), style=st, pool=3, start=3, ops=("edit", "select"), preset=(p,)) for ch in "MF" for st in ("single", "single_or_none") for p in PRE[::5]] +
           [cfg(chain="X", selections=("given",), style=st, boxes=2, pool=3, split=((0,), (1,)), start_boxes=(0, 1), ops=("edit", "boxes", "select")) for st in ("single", "single_or_none")], max_depth=4 if q else 7, time_limit=lim)
