"""Index selection: all operation sequences on a small index domain, each style."""
from core import Harness, expect, expect_eq, search
from nion.utils import Selection

STYLES = ["none", "single", "single_or_none", "multiple"]


class Index(int):
    """an index of another integral type"""


class S(Harness):
    def __init__(self, config):
        super().__init__(config)
        self.style = config[0]
        self.n = config[1]
        self.restyle = len(config) > 2 and config[2] is True      # the style is changed while at most one index is selected
        self.index = Index if len(config) > 3 else int
        self.react = config[2] if len(config) > 2 and not self.restyle else None      # what a listener does when it is told
        self.reacting = False
        self.sel = Selection.IndexedSelection(getattr(Selection.Style, self.style)) if self.style != "default" else Selection.IndexedSelection()
        if self.style == "default":
            self.style = "multiple"
        self.want = set()
        self.anchors = {None}     # permitted anchors
        self.signals = 0
        self.pending = None
        self.tokens = [self.sel.changed_event.listen(self.changed)]
        self.verify()

    def changed(self):
        self.signals += 1
        if self.pending is not None:
            expect_eq(set(self.sel.indexes), self.pending, "selected indexes at the time of the signal")
            expect(self.sel.anchor_index in self.anchors, "anchor at the time of the signal is %r, expected one of %r", self.sel.anchor_index, self.anchors)
        else:
            got, a = set(self.sel.indexes), self.sel.anchor_index
            expect((a in got) if got else a is None, "anchor %r of the selection %r at the time of the signal", a, got)

        if self.react and not self.reacting:
            self.reacting = True
            n, self.pending = self.signals, None
            self.apply(self.react)
            self.signals = n
            self.reacting = False

    def roots(self):
        return [self.sel, self.style, sorted(self.want), sorted(self.anchors, key=repr)]

    def observe(self):
        return sorted(self.sel.indexes), self.sel.anchor_index

    def ops(self):
        res = [("clear",)]
        if self.restyle and len(self.want) <= 1:
            res += [("style", s) for s in STYLES if s != self.style and not (s == "none" and self.want)]
        n = self.n
        large = n > 16
        for i in range(n) if not large else (0, 1, 16, n // 2, n - 1):
            res += [("set", i), ("add", i), ("toggle", i), ("extend", i), ("insert_index", i), ("remove_index", i)]
            if i in self.want or self.style in ("none", "single"):
                res.append(("remove", i))
        if large:
            res += [("set_multiple", ()), ("set_multiple", tuple(range(0, n, 7))), ("set_multiple", (n - 1, 3)), ("add_range", 5, n), ("add_range", 0, 20)]
            return [o for o in res if not (o[0] == "insert_index" and self.want and max(self.want) >= n)]
        for m in range(1 << n):
            res.append(("set_multiple", tuple(i for i in range(n) if m >> i & 1)))
        for a in range(n if not self.react else 0):
            for b in range(a, n + 1):
                res.append(("add_range", a, b))
        for step in (2, 3, -1, -2) if not self.react else ():
            res.append(("add_range",) + ((0, n) if step > 0 else (n - 1, -1)) + (step,))
        return [o for o in res if not (o[0] == "insert_index" and self.want and max(self.want) >= n)]

    # reference: new set, permitted anchors

    def ref_clear(self):
        return ({0}, {0}) if self.style == "single" else (set(), {None})

    def ref_set(self, i):
        return self.ref_clear() if self.style == "none" else ({i}, {i})

    def ref_add(self, want, anchors, i):
        if self.style == "multiple":
            return want | {i}, anchors if want else {i}
        return self.ref_set(i)

    def ref_remove(self, i):
        if self.style == "none":
            return self.ref_clear()
        if self.style == "single":
            return self.want, self.anchors
        new = self.want - {i}
        return new, self.fix(new, i)

    def fix(self, new, removed):
        """the anchor stays unless it was the removed index; then it is some selected index"""
        res = set()
        for a in self.anchors:
            if a == removed or a not in new:
                res |= new or {None}
            else:
                res.add(a)
        return res

    def apply(self, op):
        k = op[0]
        if k == "style":
            self.sel.selection_style = getattr(Selection.Style, op[1])
            self.style = op[1]
            expect(not self.signals, "changing the style signalled")
            self.verify()
            return
        want, anchors = self.want, self.anchors
        self.signals = 0
        steps = [None]
        if k == "clear":
            want, anchors = self.ref_clear()
        elif k == "set":
            want, anchors = self.ref_set(op[1])
        elif k == "add":
            want, anchors = self.ref_add(want, anchors, op[1])
        elif k == "add_range":
            for i in range(*op[1:]):
                want, anchors = self.ref_add(want, anchors, i)
        elif k == "toggle":
            want, anchors = self.ref_remove(op[1]) if op[1] in want else self.ref_add(want, anchors, op[1])
        elif k == "remove":
            want, anchors = self.ref_remove(op[1])
        elif k == "set_multiple":
            s = set(op[1])
            if self.style == "multiple":
                want, anchors = s, set(s) or {None}
            elif self.style in ("single", "single_or_none") and len(s) == 1:
                want, anchors = self.ref_set(op[1][0])
            else:
                want, anchors = self.ref_clear()
        elif k == "extend":
            if self.style == "multiple":
                a = self.sel.anchor_index
                if a is None:
                    want, anchors = want | {op[1]}, {op[1]}
                else:
                    want, anchors = want | set(range(min(a, op[1]), max(a, op[1]) + 1)), {a}
            else:
                want, anchors = self.ref_set(op[1])
        elif k == "insert_index":
            f = lambda i: i if i is None or i < op[1] else i + 1
            want, anchors = set(map(f, want)), set(map(f, anchors))
        elif k == "remove_index":
            f = lambda i: i if i is None or i < op[1] else i - 1
            new = {f(i) for i in want if i != op[1]}
            na = set()
            for a in anchors:
                if a == op[1]:
                    na |= new or {None}
                else:
                    na.add(f(a))
            want, anchors = new, na
        self.pending = None if k in ("add_range", "insert_index", "remove_index") else set(want)
        changed = set(want) != self.want
        self.want, self.anchors = set(want), set(anchors)
        if k == "add_range":
            self.sel.add_range(range(*op[1:]))
        elif k == "set_multiple":
            given = set(map(self.index, op[1]))
            self.sel.set_multiple(given)
            given ^= {self.index(0), self.index(1)}      # the caller goes on to use its own set
        else:
            getattr(self.sel, k)(*map(self.index, op[1:]))
        if k not in ("insert_index", "remove_index"):
            n = self.signals
            if k == "add_range":
                expect((n > 0) >= changed, "%r changed the selection without a signal", op)
            else:
                expect_eq(n, int(changed), "number of change signals of %r" % (op,))
        self.verify()
        self.anchors = {self.sel.anchor_index}
        self.signals = 0
        self.pending = None

    def verify(self):
        sel = self.sel
        got = set(sel.indexes)
        expect_eq(got, self.want, "selected indexes")
        expect(sel.anchor_index in self.anchors, "anchor is %r, expected one of %r (selected %r)", sel.anchor_index, self.anchors, got)
        if self.style in ("single", "single_or_none"):
            expect(len(got) <= 1, "%r selected in style %s", got, self.style)
        if self.style == "none":
            expect(not got, "%r selected in style none", got)
        a = sel.anchor_index
        expect((a in got) if got else a is None, "anchor %r of the selection %r", a, got)
        expect_eq(sel.has_selection, bool(got), "has_selection")
        for i in range(-1, self.n + 2):
            expect_eq(sel.contains(i), i in got, "contains(%d)" % i)
        expect_eq(sel.current_index, next(iter(got)) if len(got) == 1 else None, "current_index")
        o = list(sel.ordered_indexes)
        expect_eq(o, ([a] + sorted(got - {a})) if got else [], "ordered_indexes")
        other = Selection.IndexedSelection()
        other.set_multiple(set(got))
        other.anchor_index = a
        expect(other == sel and not (other != sel), "equal selections compare unequal")
        if len(got) > 1:
            other.anchor_index = max(got) if a != max(got) else min(got)
            expect(other != sel and not (other == sel), "selections with different anchors compare equal")
        other.toggle(self.n + 5)
        expect(other != sel and not (other == sel), "different selections compare equal")


REACTIONS = [("clear",), ("set", 0), ("add", 1), ("toggle", 1), ("extend", 2), ("set_multiple", (0, 2)), ("remove_index", 1)]


def check(result, tier):
    q = tier == "quick"
    n = 5 if q else 7
    search(result, "indexes 0..%d" % (n - 1), S, [(s, n) for s in STYLES + ["default"]], max_depth=40)
    search(result, "styles changed meanwhile", S, [(s, 3 if q else 4, True) for s in STYLES], max_depth=40)
    search(result, "listeners that change the selection", S, [(s, 3 if q else 5, r) for s in STYLES for r in REACTIONS], max_depth=40)
    search(result, "indexes 0..49", S, [(s, 50) for s in STYLES], max_depth=3 if q else 5)
    search(result, "indexes of another integral type", S, [(s, 3 if q else 4, None, "index") for s in STYLES], max_depth=40)
