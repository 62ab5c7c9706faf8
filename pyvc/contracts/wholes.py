"""The transform as a whole, for properties about the shape of the document (C09, C11)."""
from contracts.base import *  # noqa: F401,F403
from contracts.base import Contract, LoopSpec
from contracts.compose import Compose
from contracts.growth import assume_all, oblige_all
from contracts.order import tree, induct, seen, children
from contracts.split import Split
from contracts.tform import transformer, the_tree
from contracts.toc import Toc

LISTS = ("$len", "$elt")


class Keywords(Contract):
    """add_keywords_to_constructs: nodes and lists of children stay as they are (types are kept in lists of their own)."""
    qual = "transformer.Transformer.add_keywords_to_constructs"

    def given(self, it, h):
        x = z3.Const("x!g", U)
        l = h.get("types", x)
        return z3.ForAll([x], z3.Implies(live(it, h, x), conj([h.own(l) == NONE, h.alloc(l), cls(l) == CLS_LIST])), patterns=[l])

    def facts(self, it, h0, h):
        a = lambda a: conj([h0.alloc(a), cls(a) == CLS_LIST, h0.own(a) != NONE])
        return [("lists of children keep their length", [U], lambda l: z3.Implies(a(l), h.ln(l) == h0.ln(l)), lambda l: h.ln(l)),
                ("lists of children are kept", [U, I], lambda l, i: z3.Implies(a(l), h.el(l, i) == h0.el(l, i)), lambda l, i: h.el(l, i))]

    def havoc(self, it, h0):
        it.nfresh += 1
        hf = Heap(f"K{it.nfresh}")
        it.heap = h = h0.put("$len", hf.m("$len")).put("$elt", hf.m("$elt"))
        assume_all(it, self.facts(it, h0, h))

    def __call__(self, it, f, args, kwargs):
        it.assume(self.given(it, it.heap))
        self.havoc(it, it.heap)

    def same(self, it, h0, label):
        h = it.heap
        x = it.fresh("x")
        oblige_all(it, self.facts(it, h0, h), "{} " + label)
        for f in sorted(set(h.maps) | set(h0.maps)):
            if f in LISTS or f.startswith("#") or h.m(f) is h0.m(f):
                continue
            it.oblige(f"{f} is kept {label}", implies(live(it, h0, x), eq(h.get(f, x), h0.get(f, x))))

    def verify(self, it):
        def thunk():
            t, root = transformer(it)
            for _, w in wf(it, it.heap):
                it.assume(w)
            it.assume(self.given(it, it.heap))
            h0 = it.heap
            it.pre = it.pc
            it.verifying = self.qual
            it.loopspecs = [KeywordLoop(self, h0)]
            try:
                it.call_func(it.func(self.qual), [t], {})
            except PyExc:
                return
            finally:
                it.verifying, it.loopspecs = None, []
            self.same(it, h0, "in the end")
        it.run_all(f"{self.qual} [shape]", thunk)


class KeywordLoop(LoopSpec):
    def __init__(self, c, h0):
        super().__init__(("traverse", "seq"), "keyword loop")
        self.c, self.base = c, h0

    def heap_at(self, it, k):
        return None

    def check(self, it, fr, k, label):
        self.c.same(it, self.base, f"({self.name}) {label}")

    def havoc(self, it, fr, k):
        self.c.havoc(it, self.base)


class Shape(Compose):
    """After the phase of interest, the shape of the document and the attributes of interest are kept."""
    structure = True

    def once(self, it, args, name, root):
        it.oblige(f"{name} works on the document", it.to_U(the_tree(it, args[0])) == self.root)
        it.oblige(f"{name} happens once", z3.BoolVal(name not in self.trace))
        self.trace.append(name)

    def precondition(self, it, h):
        self.after = self.toc = None
        return []

    def kept(self, it, h):
        g = self.after
        x, i = it.fresh("x"), it.fresh("i", I)
        was = conj([live(it, g, x), x != NONE])
        for f in self.tracked:
            it.oblige(f"later phases keep {f} of every node", implies(was, h.get(f, x) == g.get(f, x)))
        it.oblige("later phases keep every node's parent", implies(was, h.par(x) == g.par(x)))
        it.oblige("later phases keep every node's number of children", implies(was, h.nk(x) == g.nk(x)))
        it.oblige("later phases keep every node's children", implies(conj([was, i >= 0, i < g.nk(x)]), h.kid(x, i) == g.kid(x, i)))


class Outline(Shape):
    """C11: the table of contents stays as make_toc leaves it, and numbers and titles stay as it found them."""
    tracked = ("target", "overwrite_reftext", "title", "number", "nonum")

    def __init__(self, prop):
        super().__init__(prop)
        me = self

        class Use(Toc):
            def __call__(self, it, f, args, kwargs):
                me.once(it, args, "make_toc", me.root)
                me.before = it.heap
                self.effect(it, me.root)
                h0, h = me.before, it.heap
                x = z3.Const("x!v", U)
                for fld in me.tracked:
                    it.assume(z3.ForAll([x], z3.Implies(live(it, h0, x), h.get(fld, x) == h0.get(fld, x)), patterns=[h.get(fld, x)]))
                me.after = h
        self.uses = {"make_toc": Use(), "add_keywords_to_constructs": Keywords()}

    def goal(self, it, h, root):
        it.oblige("the table of contents is made", z3.BoolVal(self.after is not None))
        if self.after is not None:
            self.kept(it, h)


class Steps(Shape):
    """C09: steps stay as splitting leaves them."""

    def __init__(self, prop):
        super().__init__(prop)
        me = self

        class Use(Split):
            def __call__(self, it, f, args, kwargs):
                me.once(it, args, "add_necessary_subproofs", me.root)
                me.T = self.effect(it, me.root)
                me.split, me.after = self, it.heap

        class UseToc(Toc):
            def __call__(self, it, f, args, kwargs):
                me.before = it.heap
                self.effect(it, it.to_U(the_tree(it, args[0])))
                me.w, me.toc = self.w, it.heap
        self.uses = {"add_necessary_subproofs": Use(), "make_toc": UseToc(), "add_keywords_to_constructs": Keywords()}

    def goal(self, it, h, root):
        g = self.after
        it.oblige("steps are split", z3.BoolVal(g is not None))
        if g is None:
            return
        sp, T = self.split, self.T
        con = lambda x: it.in_class(x, it.class_of("Contents"))
        x, y, i = it.fresh("x"), it.fresh("y"), it.fresh("i", I)
        step = lambda s: conj([T.inT(s), live(it, g, s), s != NONE, sp.step(it, s)])
        was = lambda n: conj([live(it, g, n), n != NONE])
        zero, one = z3.IntVal(0), z3.IntVal(1)
        seen(it, g.kid(x, i))
        seen(it, g.kid(x, zero))
        seen(it, g.kid(x, one))
        t, b = self.toc, self.before
        if t is not None:
            seen(it, g.chl(x), sp.sp(x), self.w(x), g.kid(x, self.w(x)), b.kid(x, self.w(x)), b.chl(x), t.chl(x), h.chl(x), b.kid(x, i), t.kid(x, i))
        def parts(x, i):
            return implies(conj([step(x), i >= 0, i < g.nk(x)]), neg(con(g.kid(x, i))))
        h0 = sp.h0
        seen(it, h0.nk(x), h0.kid(x, i), h0.chl(x), sp.explicit(it, x), h0.alloc(x), T.inT(x))
        it.oblige("steps exist before they are split", implies(step(x), h0.alloc(x)))
        it.assume(implies(step(x), h0.alloc(x)))
        it.oblige("parts of steps are no tables of contents", parts(x, i))
        n, j = z3.Const("n!p", U), z3.Int("j!p")
        it.assume(z3.ForAll([n, j], parts(n, j), patterns=[g.kid(n, j)]))
        it.oblige("later phases keep the parts of every step", implies(step(x), h.nk(x) == g.nk(x)))
        it.oblige("later phases keep the parts of every step, in order", implies(conj([step(x), i >= 0, i < g.nk(x)]), h.kid(x, i) == g.kid(x, i)))
        it.oblige("later phases keep every node in its place, tables of contents excepted", implies(conj([was(x), neg(con(x))]), h.par(x) == g.par(x)))
        it.oblige("later phases keep the order of children", implies(conj([was(x), was(y), neg(con(x)), neg(con(y)), g.par(x) != NONE, g.par(x) == g.par(y)]), (h.pos(x) < h.pos(y)) == (g.pos(x) < g.pos(y))))
        it.oblige("later phases add to tables of contents only", implies(conj([live(it, h, x), x != NONE, h.par(x) != NONE, neg(g.alloc(x)), g.alloc(h.par(x))]), con(h.par(x))))
        if t is None:
            it.oblige("a table of contents is made", FALSE)
            return
        F = tree(it, h, root)
        F.parent_facts(it)
        children(it, F)

        def hint(x):
            p, i = h.par(x), h.pos(x)
            seen(it, *[k for m in (h, t, b, g) for k in (m.kid(p, i), m.chl(p), m.par(x), m.kid(p, b.pos(x)))])
        induct(it, "later phases put nothing new into the document but tables of contents", F, lambda x: conj([t.alloc(x), z3.Or(g.alloc(x), neg(b.alloc(x)))]), hint)
        it.oblige("later phases make no steps, statements or subproofs", implies(conj([F.inT(x), neg(g.alloc(x))]), neg(it.in_set(x, ["Step", "Statement", "Subproof"]))))


def units(it, prop):
    """The phases used by both."""
    k = Keywords()
    u = [("keywords", lambda: k.verify(it))]
    if prop == "C09":
        t = Toc()
        t.light = True
        u += [("table of contents", lambda: t.verify(it)), ("transform", lambda: Steps(prop).verify(it))]
    else:
        u += [("transform", lambda: Outline(prop).verify(it))]
    return u
