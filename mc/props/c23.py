"""Component registry: all histories of registrations, unregistrations and lookups, passive and re-entrant listeners."""
import itertools

from core import Harness, Violation, expect, expect_eq, search
from nion.utils import Registry

TYPES = ("A", "B", "C")


def subsets(types):
    return [tuple(s) for n in range(1, len(types) + 1) for s in itertools.combinations(types, n)]


class Component:
    def __init__(self, label, h, priority):
        self._mc_label = label
        self.label = label
        self.h = h
        if priority is not None:
            self.priority = priority

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return self.label


class EmptyComponent(Component):
    """A component that is a container with nothing in it: a component all the same."""
    def __len__(self):
        return 0


class R(Harness):
    leftover = {}
    last_tokens = []
    TRACEBACKS = True

    def __init__(self, config):
        super().__init__(config)
        priorities, hashes, self.reentrant, n = config
        self.types = TYPES[:n]
        self.subsets = subsets(self.types)
        for t in R.last_tokens:
            t.close()
        for c in list(R.leftover.values()):
            try:
                Registry.unregister_component(c)
            except Exception:
                pass
        R.leftover.clear()
        if "instance" in vars(Registry.ComponentManager):
            Registry.ComponentManager.instance = None
        self.c = [(EmptyComponent if i == 1 else Component)("c%d" % i, h, p) for i, (p, h) in enumerate(zip(priorities, hashes))]
        self.reg = {i: set() for i in range(len(self.c))}
        self.log = []
        self.expected = []
        self.inner = False
        self.tokens = [Registry.listen_component_registered_event(self.registered), Registry.listen_component_unregistered_event(self.unregistered)]
        R.last_tokens = self.tokens
        self.verify()

    def roots(self):
        return [self.c, sorted((i, sorted(s)) for i, s in self.reg.items()), self.tokens, Registry.ComponentManager()]

    def observe(self):
        return sorted((i, sorted(s)) for i, s in self.reg.items())

    def index(self, component):
        return next(i for i, c in enumerate(self.c) if c is component)

    def registered(self, component, types):
        i = self.index(component)
        self.log.append(("+", i, frozenset(types)))
        if self.refire:
            expect(all(component in set(Registry.get_components_by_type(t)) for t in types), "an existing component is signalled but not found")
        else:
            for t in types:
                expect(component in set(Registry.get_components_by_type(t)), "not found under %s when its registration is signalled", t)
        if self.reentrant == "undo" and not self.refire:
            # the listener takes the component back at once
            gone = frozenset(types)
            self.reg[i] = self.reg[i] - gone
            self.extra.append(("-", i, gone))
            if len(self.reg[i]) == 0:
                Registry.unregister_component(component)
            else:
                Registry.unregister_component(component, set(gone))
        if self.reentrant is True and i == 0 and not self.reg[2]:
            # the listener registers another component
            self.reg[2] = {"A"}
            R.leftover[2] = self.c[2]
            Registry.register_component(self.c[2], {"A"})
            self.extra.append(("+", 2, frozenset("A")))

    def unregistered(self, component, types):
        i = self.index(component)
        self.log.append(("-", i, frozenset(types)))
        for t in types:
            expect(component not in set(Registry.get_components_by_type(t)), "still found under %s when its unregistration is signalled", t)
        if self.reentrant == "redo" and i == 0 and types:
            # the listener puts the component back at once
            back = frozenset(types)
            self.reg[i] = self.reg[i] | back
            self.extra.append(("+", i, back))
            Registry.register_component(component, set(back))
        if self.reentrant is True and i == 1 and self.reg[0]:
            self.extra.append(("-", 0, frozenset(self.reg[0])))
            self.reg[0] = set()
            Registry.unregister_component(self.c[0])

    refire = False

    def ops(self):
        res = []
        for i in range(len(self.c)):
            for s in self.subsets:
                res.append(("register", i, s))
            res.append(("unregister", i, None))
            if self.reg[i]:
                res.append(("unregister", i, ()))
            for s in self.subsets:
                res.append(("unregister", i, s))
        for t in self.types + ("Z",):
            res.append(("fire", t))
        return res

    def apply(self, op):
        self.log = []
        self.extra = []
        want = []
        kind = op[0]
        if kind == "register":
            i, types = op[1], set(op[2])
            if types & self.reg[i]:
                self.refused(lambda: Registry.register_component(self.c[i], set(types)))
            else:
                want.append(("+", i, frozenset(types)))
                self.reg[i] = self.reg[i] | types
                R.leftover[i] = self.c[i]
                given = set(types)
                Registry.register_component(self.c[i], given)
                given.clear()      # the caller's set stays the caller's
        elif kind == "unregister":
            i, types = op[1], None if op[2] is None else set(op[2])
            if types is None and not self.reg[i] or types is not None and types - self.reg[i]:
                self.refused(lambda: Registry.unregister_component(self.c[i], types))
            else:
                gone = set(self.reg[i] if types is None else types)
                if gone:
                    want.append(("-", i, frozenset(gone)))
                self.reg[i] = self.reg[i] - gone
                Registry.unregister_component(self.c[i], types)
        elif kind == "fire":
            found = [i for i in self.reg if op[1] in self.reg[i]]
            want = [("+", i, frozenset(op[1])) for i in found]
            self.refire = True
            Registry.fire_existing_component_registered_events(op[1])
            self.refire = False
        want = want + self.extra
        self.log = [e for e in self.log if e[2]]      # (un)registering for no type at all may be signalled or not
        if kind == "fire":
            # a component registered by a listener meanwhile may be reported again
            for e in self.extra:
                if self.log.count(e) == want.count(e) + 1:
                    want.append(e)
        expect_eq(sorted(self.log, key=repr), sorted(want, key=repr), "signals of %r" % (op,))
        self.log = []
        self.extra = []
        self.verify()

    def refused(self, fn):
        try:
            fn()
        except Violation:
            raise
        except Exception:
            return
        raise Violation("an impossible registration or unregistration was accepted")

    def verify(self):
        for t in TYPES + ("Z",):
            want = {c for i, c in enumerate(self.c) if t in self.reg[i]}
            got = list(Registry.get_components_by_type(t))
            expect(len(got) == len(want) and set(got) == want, "components of type %s: %r, expected %r", t, got, want)
            one = Registry.get_component(t)
            if not want:
                expect(one is None, "get_component(%s) is %r although none is registered", t, one)
            else:
                top = max(getattr(c, "priority", 50) for c in want)
                expect(one in want and getattr(one, "priority", 50) == top, "get_component(%s) is %r of %r", t, one, {c: getattr(c, "priority", 50) for c in want})


def check(result, tier):
    q = tier == "quick"
    pri = [(None, None, None), (10, None, 90), (90, None, 10), (50, 60, None), (0, 0, 100), (0, 10, None), (49.5, 0, 49), (None, 100, 100), (49, None, 51), (51, None, 49)]
    hashes = [(0, 1, 2), (2, 1, 0)]
    search(result, "registrations", R, [(p, h, r, 2) for p in pri for h in hashes for r in (False, True)] + [(pri[1], hashes[0], r, 2) for r in ("undo", "redo")], max_depth=4 if q else 8, time_limit=None if q else 1200)
    search(result, "three types", R, [((None, None), (0, 1), False, 3)], max_depth=4 if q else 8, time_limit=None if q else 600)
