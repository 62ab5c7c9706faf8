"""The transform as a whole: its phases are used through their contracts."""
import frames
from contracts.base import *  # noqa: F401,F403
from contracts.order import tree
from contracts.tform import transformer, HandrailDepth, NodeIds

KEEP = ("#rank",)


class Havoc:
    """Use of a phase about which only the frame is known: the document stays well formed (C01), the
    root stays the root, and attributes outside the inferred frame keep their values."""

    def __init__(self, owner, name, fx):
        self.owner, self.name, self.fx = owner, name, fx

    def __call__(self, it, f, args, kwargs):
        assigned, built, names, reflect, shape = self.fx
        h0 = it.heap
        it.nfresh += 1
        h = Heap(f"V{it.nfresh}")
        it.heap = h
        x = z3.Const("x!v", U)
        it.assume(z3.ForAll([x], z3.Implies(h0.alloc(x), h.alloc(x)), patterns=[h.alloc(x)]))
        for fld in sorted(self.owner.tracked):
            if fld in assigned or reflect:
                continue
            it.assume(z3.ForAll([x], z3.Implies(live(it, h0, x), h.get(fld, x) == h0.get(fld, x)), patterns=[h.get(fld, x)]))
        if shape:
            i = z3.Int("i!v")
            it.assume(z3.ForAll([x], z3.Implies(live(it, h0, x), conj([h.par(x) == h0.par(x), h.chl(x) == h0.chl(x), h.nk(x) == h0.nk(x)])), patterns=[h.par(x)]),
                      z3.ForAll([x], z3.Implies(live(it, h0, x), conj([h.par(x) == h0.par(x), h.chl(x) == h0.chl(x), h.nk(x) == h0.nk(x)])), patterns=[h.chl(x)]),
                      z3.ForAll([x, i], z3.Implies(conj([live(it, h0, x), i >= 0, i < h0.nk(x)]), h.kid(x, i) == h0.kid(x, i)), patterns=[h.el(h.chl(x), i)]))
        for cl in sorted(self.owner.classes):
            if cl in names or reflect:
                continue
            it.assume(z3.ForAll([x], z3.Implies(conj([live(it, h, x), it.in_set(x, [cl])]), h0.alloc(x)), patterns=[h.alloc(x)]))
        for fld, v in self.owner.initial.items():
            it.assume(z3.ForAll([x], z3.Implies(conj([live(it, h, x), neg(h0.alloc(x)), z3.BoolVal(fld not in assigned and not reflect)]), h.get(fld, x) == v),
                                patterns=[h.get(fld, x)]))
        for _, w in wf(it, h):
            it.assume(w)
        it.assume(h.par(self.owner.root) == NONE)
        self.owner.trace.append(self.name)
        return None


class Compose:
    """Executes Transformer.transform; every phase but `uses` is havocked."""
    qual = "transformer.Transformer.transform"
    tracked, classes, initial, structure = (), (), {}, False
    uses = {}

    def __init__(self, prop):
        self.prop = prop

    def verify(self, it):
        pk = frames.Package(it_repo())
        mine = {m: c for m, c in self.uses.items()}
        phases = {n for n, fs in pk.funcs.items() for f in fs if f[1] == "Transformer" and f[0] == "transformer" and n not in ("transform", "__init__")}
        saved = dict(it.contracts)
        for n in phases:
            q = f"transformer.Transformer.{n}"
            fs, names = pk.closure(("transformer", "Transformer", n))
            if n in mine:
                it.contracts[q] = mine[n]
            elif names & set(mine):
                it.contracts.pop(q, None)           # a helper around a phase of interest: execute it
            else:
                it.contracts[q] = Havoc(self, n, pk.effects(("transformer", "Transformer", n)) + (self.structure and pk.keeps_structure(("transformer", "Transformer", n)),))

        def thunk():
            t, root = transformer(it)
            it.store[t.oid]["tree"] = None
            self.root = root
            self.trace = []
            for _, w in wf(it, it.heap):
                it.assume(w)
            for w in self.precondition(it, it.heap):
                it.assume(w)
            it.pre = it.pc
            r = it.call_func(it.func(self.qual), [t, root], {})
            it.oblige("the transform returns its document", it.to_U(r) == root)
            it.oblige("the transformer keeps the document", it.to_U(it.store[t.oid].get("tree")) == root)
            self.goal(it, it.heap, root)
        try:
            it.run_all(f"{self.qual} [{self.prop}]", thunk)
        finally:
            it.contracts.clear()
            it.contracts.update(saved)

    def precondition(self, it, h):
        return []


def it_repo():
    from interp import REPO
    return REPO


class Ids(Compose):
    uses = {"assign_node_ids": NodeIds()}

    def goal(self, it, h, root):
        T = tree(it, h, root)
        x = it.fresh("x")
        it.oblige("after the transform every node's id is its position in document order", implies(T.inT(x), h.get("nodeid", x) == boxI(T.px(x))))


class Depth(Compose):
    """handrail_depth = number of proper ancestors with a handrail, plus one for statements."""
    hd = HandrailDepth()
    tracked = ("handrail_depth",)
    classes = ("Statement",)
    initial = {"handrail_depth": z3.IntVal(0)}

    def __init__(self, prop):
        super().__init__(prop)
        self.uses = {"add_handrail_depth": self.hd, "add_necessary_subproofs": Statements(self), "assign_node_ids": NodeIds()}

    def precondition(self, it, h):
        x = z3.Const("x!v", U)
        return [z3.ForAll([x], z3.Implies(live(it, h, x), h.get("handrail_depth", x) == 0), patterns=[h.get("handrail_depth", x)]),
                z3.ForAll([x], z3.Implies(live(it, h, x), neg(it.in_set(x, ["Statement"]))), patterns=[h.alloc(x)])]

    def goal(self, it, h, root):
        T = tree(it, h, root)
        D = self.hd.depth_fn(it, h, T)
        x = it.fresh("x")
        it.oblige("after the transform the handrail depth counts the enclosing handrails",
                  implies(T.inT(x), h.get("handrail_depth", x) == D(x) + z3.If(it.in_set(x, ["Statement"]), 1, 0)))

    def constructors(self, it):
        """Every node class gives new nodes depth 0."""
        def thunk():
            for n in it.facts.order:
                it.natives.setdefault("pathlib.Path", Native("Path", lambda it, a, k: it.fresh("path")))
                t = it.instantiate(it.class_of(n), [], {})
                it.oblige(f"a new {n} starts at handrail depth 0", it.heap.get("handrail_depth", t) == 0)
        it.run_all("constructors [C10]", thunk)


class Statements(Contract):
    """Relational contract of add_necessary_subproofs for depths: statements are one deeper, nothing else is."""
    qual = "transformer.Transformer.add_necessary_subproofs"

    def __init__(self, owner=None):
        self.owner = owner

    def q(self, it, h):
        x = z3.Const("x!v", U)
        return z3.ForAll([x], z3.Implies(live(it, h, x), h.get("handrail_depth", x) == z3.If(it.in_set(x, ["Statement"]), 1, 0)), patterns=[h.get("handrail_depth", x)])

    def __call__(self, it, f, args, kwargs):
        h0 = it.heap
        x = it.fresh("x")
        it.oblige("before splitting, every statement is one deep and nothing else is", z3.Implies(live(it, h0, x), h0.get("handrail_depth", x) == z3.If(it.in_set(x, ["Statement"]), 1, 0)))
        it.nfresh += 1
        it.heap = h = Heap(f"V{it.nfresh}")
        it.assume(self.q(it, h))
        for _, w in wf(it, h):
            it.assume(w)
        it.assume(h.par(self.owner.root) == NONE)

    def verify(self, it):
        def thunk():
            t, root = transformer(it)
            for _, w in wf(it, it.heap):
                it.assume(w)
            it.assume(self.q(it, it.heap))
            it.pre = it.pc
            it.verifying = self.qual
            it.loopspecs = [self.Loop(self)]
            try:
                it.call_func(it.func(self.qual), [t], {})
            except PyExc:
                return
            finally:
                it.verifying, it.loopspecs = None, []
            x = it.fresh("x")
            h = it.heap
            it.oblige("statements are one deep, nothing else is", implies(live(it, h, x), h.get("handrail_depth", x) == z3.If(it.in_set(x, ["Statement"]), 1, 0)))
        it.run_all(f"{self.qual} [depths]", thunk)

    class Loop(LoopSpec):
        """Whatever the visiting order: each visited node is a node of the document."""

        def __init__(self, c):
            super().__init__(("traverse",), "splitting loop")
            self.c = c

        def heap_at(self, it, k):
            return None

        def check(self, it, fr, k, label):
            x = it.fresh("x")
            h = it.heap
            it.oblige(f"{self.name}: statements are one deep, nothing else is {label}",
                      implies(live(it, h, x), h.get("handrail_depth", x) == z3.If(it.in_set(x, ["Statement"]), 1, 0)))
            for nm, w in wf(it, h):
                it.oblige(f"{self.name}: well formed {label}: {nm}", w)

        def havoc(self, it, fr, k):
            it.nfresh += 1
            it.heap = h = Heap(f"V{it.nfresh}")
            it.assume(self.c.q(it, h))
            for _, w in wf(it, h):
                it.assume(w)
            x = z3.Const("x!v", U)
            it.assume(z3.ForAll([x], z3.Implies(self.h0.alloc(x), h.alloc(x)), patterns=[h.alloc(x)]))

        anytime = True
