"""make_toc: one table of contents, with an entry per section in document order (property C11).

h0: the document before; h1: after superfluous tables were removed; It(s): the entry of section s; enc(s): the closest
section around s.  Positions in document order are those of the document h1 throughout."""
import ast

from contracts.base import *  # noqa: F401,F403
from contracts.base import Contract, LoopSpec
from contracts.order import tree, induct, children, seen as seen_
from contracts.nodes_query import FirstAncestor
from contracts.growth import extension, assume_all, oblige_all
from contracts.tform import transformer, same_dict
from contracts.compose import Compose
from symdict import SymDict, as_sym

STRUCT = ("_parent", "_children", "$len", "$elt", "$alloc")
KEPT = ("label", "target", "targets", "overwrite_reftext", "backlinks", "title", "number", "nonum", "reftext_template", "handrail_depth", "nodeid", "types", "kind")
FULLNUM = z3.Function("full_number", U, U)
LEVELS = ("Section", "Subsection", "Subsubsection")


class Toc(Contract):
    """light: only what the rest of the document looks like afterwards (used where the entries themselves do not matter)."""
    qual = "transformer.Transformer.make_toc"
    light = False

    def outline(self, it, h0, h, w):
        """The document around the table of contents: only tables of contents are detached, only they receive new nodes."""
        con = lambda x: self.contents(it, x)
        lv0 = lambda x: conj([live(it, h0, x), x != NONE])
        lv = lambda x: conj([live(it, h, x), x != NONE])
        was = lambda n: conj([w(n) >= 0, w(n) < h0.nk(n), con(h0.kid(n, w(n)))])
        return [
            ("everything that existed still exists", [U], lambda x: z3.Implies(h0.alloc(x), h.alloc(x)), lambda x: h.alloc(x)),
            ("only tables of contents are detached", [U], lambda x: z3.Implies(lv0(x), z3.Or(h.par(x) == h0.par(x), conj([con(x), h.par(x) == NONE]))), lambda x: h.par(x)),
            ("other nodes keep their number of children", [U], lambda n: z3.Implies(conj([lv0(n), neg(con(n)), neg(was(n))]), h.nk(n) == h0.nk(n)), lambda n: h.chl(n)),
            ("other nodes keep their children", [U, I], lambda n, i: z3.Implies(conj([lv0(n), neg(con(n)), neg(was(n)), i >= 0, i < h0.nk(n)]), h.kid(n, i) == h0.kid(n, i)), lambda n, i: h.kid(n, i)),
            ("remaining children keep their order", [U, U], lambda x, y: z3.Implies(conj([lv0(x), lv0(y), neg(con(x)), neg(con(y)), h0.par(x) != NONE, h0.par(x) == h0.par(y)]), (h.pos(x) < h.pos(y)) == (h0.pos(x) < h0.pos(y))),
             lambda x, y: z3.MultiPattern(h.pos(x), h.pos(y))),
            ("new nodes are parts of tables of contents", [U], lambda x: z3.Implies(conj([lv(x), neg(h0.alloc(x))]), it.in_set(x, ["Item", "Reference", "Itemize"])), lambda x: h.alloc(x)),
            ("new nodes lie below tables of contents", [U], lambda x: z3.Implies(conj([lv(x), neg(h0.alloc(x)), h.par(x) != NONE, h0.alloc(h.par(x))]), con(h.par(x))), lambda x: h.par(x)),
        ]

    def effect(self, it, root):
        """Use by callers."""
        h0 = it.heap
        it.nfresh += 1
        it.heap = h = Heap(f"V{it.nfresh}")
        self.w = it.fresh_fn("witness", U, I)
        assume_all(it, self.outline(it, h0, h, self.w))
        for _, w in wf(it, h):
            it.assume(w)
        it.assume(h.par(root) == NONE)

    def section(self, it, x):
        return it.in_class(x, it.class_of("Section"))

    def contents(self, it, x):
        return it.in_class(x, it.class_of("Contents"))

    # ---------------------------------------------------------------- removal of superfluous tables
    def prepare(self, it, h0, root):
        self.h0, self.root, self.h1 = h0, root, None
        self.T0 = T = tree(it, h0, root)
        T.parent_facts(it)
        self.F = f = it.fresh("firsttoc", I)
        j = z3.Int("j!t")
        x = T.o.P(root, j)
        it.assume(f >= 0, f <= T.N, implies(f < T.N, conj([self.contents(it, T.o.P(root, f)), live(it, h0, T.o.P(root, f)), T.o.P(root, f) != NONE, T.px(T.o.P(root, f)) == f, T.inT(T.o.P(root, f))])),
                  z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < f), neg(self.contents(it, x))), patterns=[x]))
        self.c0 = T.o.P(root, f)

    def first_facts(self, it, h, k, w):
        h0, T = self.h0, self.T0
        lv0 = lambda x: conj([live(it, h0, x), x != NONE])
        gone = lambda x: conj([T.inT(x), self.contents(it, x), T.px(x) < k, T.px(x) > self.F])
        touched = lambda n: conj([w(n) >= 0, w(n) < h0.nk(n), gone(h0.kid(n, w(n)))])
        return [
            ("superfluous tables are detached, nothing else is", [U], lambda x: z3.Implies(lv0(x), h.par(x) == z3.If(gone(x), NONE, h0.par(x))), lambda x: h.par(x)),
            ("other lists of children keep their length", [U], lambda n: z3.Implies(conj([lv0(n), neg(touched(n))]), h.nk(n) == h0.nk(n)), lambda n: h.ln(h.chl(n))),
            ("other lists of children are kept", [U, I], lambda n, i: z3.Implies(conj([lv0(n), neg(touched(n)), i >= 0, i < h0.nk(n)]), h.kid(n, i) == h0.kid(n, i)), lambda n, i: h.kid(n, i)),
            ("remaining children keep their order", [U, U], lambda x, y: z3.Implies(conj([lv0(x), lv0(y), neg(gone(x)), neg(gone(y)), h0.par(x) != NONE, h0.par(x) == h0.par(y)]), (h.pos(x) < h.pos(y)) == (h0.pos(x) < h0.pos(y))),
             lambda x, y: z3.MultiPattern(h.pos(x), h.pos(y))),
            ("lists outside the tree are kept", [U, I], lambda a, i: z3.Implies(conj([h0.alloc(a), cls(a) == CLS_LIST, h0.own(a) == NONE]), conj([h.ln(a) == h0.ln(a), h.el(a, i) == h0.el(a, i)])), lambda a, i: h.el(a, i)),
        ]

    def wellformed(self, it, h):
        return [(f"well formed: {nm}", w) for nm, w in wf(it, h)] + [("the root stays the root", h.par(self.root) == NONE)]

    # ---------------------------------------------------------------- entries
    def second(self, it, h1):
        """Vocabulary over the document after removal."""
        self.h1 = h1
        self.T1 = T = tree(it, h1, self.root)
        T.parent_facts(it)
        T0, h0 = self.T0, self.h0
        children(it, T0)
        children(it, T)
        F = self.F
        seen = lambda *ts: [it.assume(z3.Function(f"seen{t.sort()}", t.sort(), B)(t)) for t in ts]
        induct(it, "what remains was in the document", T, lambda x: T0.inT(x), lambda x: seen(h0.kid(h0.par(x), h0.pos(x)), h1.par(x)))
        induct(it, "what precedes the first table remains", T0, lambda x: z3.Implies(T0.px(x) <= F, T.inT(x)), lambda x: seen(h1.kid(h1.par(x), h1.pos(x)), h1.par(x)))
        x = it.fresh("x")
        it.oblige("one table remains", implies(conj([T.inT(x), self.contents(it, x)]), x == self.c0))
        it.oblige("the first table remains", implies(F < T0.N, T.inT(self.c0)))
        y = z3.Const("y!t", U)
        it.assume(z3.ForAll([y], z3.Implies(conj([T.inT(y), self.contents(it, y)]), y == self.c0), patterns=[T.inT(y)]), implies(F < T0.N, T.inT(self.c0)))
        # the closest section around a node
        self.E = E = it.fresh_fn("enclosing", U, U)
        x = z3.Const("x!q", U)
        p = h1.par(x)
        self.level = lambda x: it.in_set(x, LEVELS)
        it.assume(z3.ForAll([x], z3.Implies(live(it, h1, x), E(x) == z3.If(p == NONE, NONE, z3.If(self.level(p), p, E(p)))), patterns=[E(x)]))

    def text(self, it, s):
        h1 = self.h1
        title = it.setkind(h1.get("title", s), "str")
        full = it.setkind(FULLNUM(s), "str")
        return z3.If(h1.get("nonum", s), title, it.to_U(VStr([it.to_str(full), ". ", it.to_str(title)])))

    def second_facts(self, it, h, k, It, Src):
        h1, T, E, toc = self.h1, self.T1, self.E, self.c0
        lv1 = lambda x: conj([live(it, h1, x), x != NONE])
        new = lambda x: conj([live(it, h, x), neg(h1.alloc(x)), x != NONE])
        vis = lambda s: conj([T.inT(s), self.section(it, s), T.px(s) < k])
        is_ = lambda x, c: it.in_set(x, [c])
        zero, one = z3.IntVal(0), z3.IntVal(1)
        ref, sub = (lambda s: h.kid(It(s), zero)), (lambda s: h.kid(It(s), one))
        out = []
        add = lambda name, sorts, body, pat: out.append((name, sorts, body, pat))
        add("everything that existed still exists", [U], lambda x: z3.Implies(h1.alloc(x), h.alloc(x)), lambda x: h.alloc(x))
        add("other nodes keep their number of children", [U], lambda n: z3.Implies(conj([lv1(n), n != toc]), h.nk(n) == h1.nk(n)), lambda n: h.chl(n))
        add("existing children stay in place", [U, I], lambda n, i: z3.Implies(conj([lv1(n), i >= 0, i < h1.nk(n)]), h.kid(n, i) == h1.kid(n, i)), lambda n, i: h.kid(n, i))
        add("existing nodes keep their parent", [U], lambda x: z3.Implies(lv1(x), h.par(x) == h1.par(x)), lambda x: h.par(x))
        add("the table keeps its children", [], lambda: h.nk(toc) >= h1.nk(toc), None)
        add("what the table gets are entries", [I], lambda i: z3.Implies(conj([i >= h1.nk(toc), i < h.nk(toc)]), conj([new(h.kid(toc, i)), is_(h.kid(toc, i), "Item")])), lambda i: h.kid(toc, i))
        for f in () if self.light else KEPT:
            add(f"attribute {f} of existing nodes is kept", [U], lambda x, f=f: z3.Implies(lv1(x), h.get(f, x) == h1.get(f, x)), lambda x, f=f: h.get(f, x))
        add("lists outside the tree are kept", [U, I], lambda a, i: z3.Implies(conj([h1.alloc(a), cls(a) == CLS_LIST, h1.own(a) == NONE]), conj([h.ln(a) == h1.ln(a), h.el(a, i) == h1.el(a, i), h.own(a) == NONE])), lambda a, i: h.el(a, i))
        if self.light:
            add("every section has an entry", [U], lambda s: z3.Implies(vis(s), conj([new(It(s)), is_(It(s), "Item"), h.nk(It(s)) >= 1, h.nk(It(s)) <= 2, new(ref(s)), is_(ref(s), "Reference")])), lambda s: It(s))
            add("an entry has at most one list of entries", [U], lambda s: z3.Implies(conj([vis(s), h.nk(It(s)) == 2]), conj([new(sub(s)), is_(sub(s), "Itemize")])), lambda s: It(s))
            add("the section around has an entry", [U], lambda s: z3.Implies(conj([vis(s), E(s) != NONE]), vis(E(s))), lambda s: E(s))
            add("only parts of the table are made", [U], lambda x: z3.Implies(new(x), it.in_set(x, ["Item", "Reference", "Itemize"])), lambda x: h.alloc(x))
            add("what is made holds what is made", [U, I], lambda x, i: z3.Implies(conj([new(x), i >= 0, i < h.nk(x)]), new(h.kid(x, i))), lambda x, i: h.kid(x, i))
            return out
        add("every section has an entry", [U], lambda s: z3.Implies(vis(s), conj([new(It(s)), is_(It(s), "Item"), Src(It(s)) == s, h.nk(It(s)) >= 1, h.nk(It(s)) <= 2])), lambda s: It(s))
        add("an entry links to its section", [U], lambda s: z3.Implies(vis(s), conj([new(ref(s)), is_(ref(s), "Reference"), h.get("target", ref(s)) == s])), lambda s: It(s))
        add("an entry shows number and title", [U], lambda s: z3.Implies(vis(s), h.get("overwrite_reftext", ref(s)) == self.text(it, s)), lambda s: It(s))
        add("an entry has at most one list of entries", [U], lambda s: z3.Implies(conj([vis(s), h.nk(It(s)) == 2]), conj([new(sub(s)), is_(sub(s), "Itemize"), h.nk(sub(s)) >= 1])), lambda s: It(s))
        add("entries lie one level below the entry of the closest section around, or in the table", [U], lambda s: z3.Implies(
            vis(s), conj([z3.Implies(E(s) == NONE, h.par(It(s)) == toc),
                          z3.Implies(E(s) != NONE, conj([vis(E(s)), h.nk(It(E(s))) == 2, h.par(It(s)) == sub(E(s))]))])), lambda s: It(s))
        add("entries of a list are in document order", [U, U], lambda s, t: z3.Implies(
            conj([vis(s), vis(t), T.px(s) < T.px(t), h.par(It(s)) == h.par(It(t))]), h.pos(It(s)) < h.pos(It(t))), lambda s, t: z3.MultiPattern(It(s), It(t)))
        add("nothing else is made", [U], lambda x: z3.Implies(new(x), conj([
            it.in_set(x, ["Item", "Reference", "Itemize"]),
            z3.Implies(is_(x, "Item"), conj([vis(Src(x)), It(Src(x)) == x])),
            z3.Implies(is_(x, "Reference"), h.nk(x) == 0),
            z3.Implies(is_(x, "Itemize"), conj([vis(Src(x)), h.nk(It(Src(x))) == 2, sub(Src(x)) == x]))])), lambda x: h.alloc(x))
        add("lists hold entries", [U, I], lambda x, i: z3.Implies(conj([new(x), is_(x, "Itemize"), i >= 0, i < h.nk(x)]), conj([new(h.kid(x, i)), is_(h.kid(x, i), "Item")])), lambda x, i: h.kid(x, i))
        return out

    # ---------------------------------------------------------------- environment
    def env(self, it):
        A = it.attr_contracts
        self.saved = (dict(A), dict(it.contracts))

        def full(it, t):
            if it.branch(it.heap.get("nonum", t)):
                return None
            r = FULLNUM(t)
            it.assume(cls(r) == CLS_STR)
            return it.setkind(r, "str")
        A["full_number"] = full
        it.contracts["nodes.Node.first_ancestor_of_type"] = self.ancestor

    def unenv(self, it):
        a, c = self.saved
        for d, o in ((it.attr_contracts, a), (it.contracts, c)):
            d.clear()
            d.update(o)

    def ancestor(self, it, f, args, kwargs):
        """The original contract, and the induction that relates it to the closest section around."""
        r = FirstAncestor().spec(it, args, kwargs)
        if self.h1 is None:
            return r
        x, h, T = args[0], it.heap, self.T1
        A = it.ghost[("anc", h.m("_parent").tag, x.get_id())]
        up = it.ghost["up"]
        j = it.fresh("j", I)

        def claim(j):
            a = A(j)
            return z3.And(z3.Or(a == NONE, conj([T.inT(a), live(it, self.h1, a), T.px(a) < T.px(x)])), self.E(x) == z3.If(a == NONE, NONE, z3.If(self.level(a), a, self.E(a))))
        it.oblige("the section around: the parent", claim(z3.IntVal(0)))
        it.oblige("the section around: one further up", implies(conj([j >= 0, j < up, claim(j)]), claim(j + 1)))
        it.assume(claim(up))
        return r

    def verify(self, it):
        def thunk():
            t, root = transformer(it)
            for _, w in wf(it, it.heap):
                it.assume(w)
            self.prepare(it, it.heap, root)
            it.pre = it.pc
            it.verifying = self.qual
            rm, en = Removal(self), Entries(self)
            self.rm = rm
            it.loopspecs = [rm, en]
            self.env(it)
            try:
                it.call_func(it.func(self.qual), [t], {})
            except PyExc as e:
                it.oblige(f"no exception ({e.name} from {e.origin})", FALSE)
                return
            finally:
                it.verifying, it.loopspecs = None, []
                self.unenv(it)
            self.result(it, en)
        it.run_all(f"{self.qual} [{'frame' if self.light else 'C11'}]", thunk)

    def result(self, it, en):
        h, T0 = it.heap, self.T0
        if self.h1 is None:
            it.oblige("superfluous tables are removed", FALSE)
            return
        if self.light:
            h1 = self.h1
            x = it.fresh("x")
            y = z3.Const("y!t", U)
            seen_(it, h.kid(h1.par(x), h1.pos(x)), h1.kid(h1.par(x), h1.pos(x)))
            claim = lambda x: z3.Implies(conj([live(it, h1, x), x != NONE, h1.par(x) != NONE]), h.pos(x) == h1.pos(x))
            it.oblige("existing nodes keep their place among the children", claim(x))
            it.assume(z3.ForAll([y], claim(y), patterns=[h.pos(y)]))
            oblige_all(it, self.outline(it, self.h0, h, self.rm.w), "{}")
            for nm, w in self.wellformed(it, h):
                it.oblige(nm, w)
            return
        if en.final is None:
            it.oblige("entries are left out only if there is no table of contents", self.F == T0.N)
            heap_eq(it, "without a table of contents nothing changes", h, self.h1, strict=True)
            return
        heap_eq(it, "nothing changes after the entries are made", h, en.final, strict=True)
        it.heap = h = en.final
        T1, T2 = self.T1, tree(it, h, self.root)
        T2.parent_facts(it)
        children(it, T2)
        h1 = self.h1
        seen = lambda *ts: [it.assume(z3.Function(f"seen{t.sort()}", t.sort(), B)(t)) for t in ts]
        induct(it, "the document keeps its nodes", T1, lambda x: T2.inT(x), lambda x: seen(h.kid(h1.par(x), h1.pos(x)), h1.kid(h1.par(x), h1.pos(x))))
        induct(it, "the document gets entries only", T2, lambda x: z3.Implies(h1.alloc(x), T1.inT(x)), lambda x: seen(h1.kid(h1.par(x), h1.pos(x)), h.par(x), h1.par(x)))
        x = it.fresh("x")
        it.oblige("exactly one table of contents is left", conj([self.F < T0.N, T2.inT(self.c0), implies(conj([T2.inT(x), self.contents(it, x)]), x == self.c0)]))
        it.oblige("every entry is the entry of one section", implies(conj([T2.inT(x), it.in_set(x, ["Item"]), neg(h1.alloc(x))]), conj([T1.inT(en.Src(x)), self.section(it, en.Src(x)), en.It(en.Src(x)) == x])))


class Removal(LoopSpec):
    def __init__(self, c):
        super().__init__(("traverse",), "removal loop")
        self.c = c

    def matches(self, it, kind, st, stream):
        return kind == "traverse" and self.c.h1 is None

    def heap_at(self, it, k):
        return None

    def start(self, it, fr, stream):
        self.w = lambda n: z3.IntVal(-1)
        self.now = None
        it.oblige(f"{self.name}: goes over the document", stream.meta["root"] == self.c.root)

    def local(self, it, name, v0, k):
        c = self.c
        if v0 is None or isinstance(v0, z3.ExprRef) and it.kind(v0) == "ref":
            if z3.is_int_value(k) and k.as_long() == 0:
                return v0
            return it.setkind(z3.If(c.F < k, c.c0, NONE), "ref")
        return NotImplemented

    def check(self, it, fr, k, label):
        c, h = self.c, it.heap
        if self.now is not None:
            h0, v, w = c.h0, self.now, self.w
            self.w = lambda n: z3.If(conj([n == h0.par(v), c.contents(it, v), c.T0.px(v) > c.F]), h0.pos(v), w(n))
        oblige_all(it, c.first_facts(it, h, k, self.w), f"{self.name}: {{}} {label}")
        for nm, w in c.wellformed(it, h):
            it.oblige(f"{self.name}: {nm} {label}", w)
        base = self.hb if self.now is not None else c.h0
        x = it.fresh("x")
        for f in sorted(set(h.maps) | set(base.maps)):
            if f.startswith("#") or f in ("_parent", "$len", "$elt") or h.m(f) is base.m(f):
                continue
            it.oblige(f"{self.name}: {f} is kept {label}", eq(h.get(f, x), base.get(f, x)))

    def havoc(self, it, fr, k):
        c, h = self.c, self.c.h0
        it.nfresh += 1
        hf = Heap(f"R{it.nfresh}")
        for f in ("_parent", "$len", "$elt", "#pos"):
            h = h.put(f, hf.m(f))
        it.heap = h
        self.w = it.fresh_fn("witness", U, I)
        assume_all(it, c.first_facts(it, h, k, self.w))
        for _, w in c.wellformed(it, h):
            it.assume(w)
        self.k = k

    def body_start(self, it, fr, k, v, run):
        c = self.c
        v = it.to_U(v)
        T, h0 = c.T0, c.h0
        self.hb, self.now = it.heap, v
        it.assume(T.inT(v), T.px(v) == k)
        i = z3.Int("i!k")
        children(it, T, quiet=True)
        j = it.fresh("i", I)
        claim = lambda i: z3.Implies(conj([i >= 0, i < h0.nk(v)]), conj([T.inT(h0.kid(v, i)), T.px(h0.kid(v, i)) > k]))
        it.oblige(f"{self.name}: children come later", claim(j))
        it.assume(z3.ForAll([i], claim(i), patterns=[h0.kid(v, i)]))

    def leave(self, it, fr, n):
        self.c.second(it, it.heap)


class Entries(LoopSpec):
    def __init__(self, c):
        super().__init__(("traverse",), "entry loop")
        self.c = c
        self.final = None

    def matches(self, it, kind, st, stream):
        return kind == "traverse" and self.c.h1 is not None

    def heap_at(self, it, k):
        return None

    def enter(self, it, fr, stream, st):
        ds = [v for v in it.store[fr.fid].values() if isinstance(v, VDict) and not it.store[v.oid]]
        if len({d.oid for d in ds}) != 1:
            raise Unsupported(f"{self.name}: one dictionary expected")
        self.d = ds[0]
        self.It, self.Src = (lambda s: NONE), (lambda x: NONE)
        self.now = None
        it.oblige(f"{self.name}: goes over the document", stream.meta["root"] == self.c.root)
        it.oblige(f"{self.name}: there is a table of contents", self.c.F < self.c.T0.N)
        super().enter(it, fr, stream, st)

    def manages(self, it, oid):
        return oid == self.d.oid

    def facts(self, it, h, k):
        return self.c.second_facts(it, h, k, self.It, self.Src)

    def check(self, it, fr, k, label):
        c, h = self.c, it.heap
        facts = self.facts(it, h, k)
        v = self.now
        for name, sorts, body, pat in facts:
            vs = [it.fresh(f"v{j}", s) for j, s in enumerate(sorts)]
            it.oblige(f"{self.name}: {name} {label}", body(*vs))
        for nm, w in c.wellformed(it, h):
            it.oblige(f"{self.name}: {nm} {label}", w)
        T, It = c.T1, self.It
        same_dict(it, f"{self.name}: dictionary {label}", it.store[self.d.oid], SymDict(lambda s: conj([T.inT(s), c.section(it, s), T.px(s) < k]), It))

    def havoc(self, it, fr, k):
        c = self.c
        it.nfresh += 1
        it.heap = h = Heap(f"V{it.nfresh}")
        self.It, self.Src = It, Src = it.fresh_fn("entry", U, U), it.fresh_fn("entered", U, U)
        assume_all(it, self.facts(it, h, k))
        for _, w in c.wellformed(it, h):
            it.assume(w)
        T = c.T1
        it.store[self.d.oid] = SymDict(lambda s: conj([T.inT(s), c.section(it, s), T.px(s) < k]), It)

    def body_start(self, it, fr, k, v, run):
        self.hb, self.now = it.heap, it.to_U(v)
        T = self.c.T1
        it.assume(T.inT(self.now), T.px(self.now) == k)
        if not run:
            self.now = None
        self.ran = run

    def body_end(self, it, fr, k, v, run):
        c, h, hb = self.c, it.heap, self.hb
        if run:
            v, It, Src = self.now, self.It, self.Src
            it.oblige(f"{self.name}: a section", c.section(it, v))
            new = it.to_U(as_sym(it, it.store[self.d.oid]).val(v))
            e = c.E(v)
            self.It = It2 = lambda s: z3.If(s == v, new, It(s))
            sub = h.kid(It2(e), z3.IntVal(1))
            self.Src = lambda x: z3.If(x == new, v, z3.If(conj([e != NONE, x == sub]), e, Src(x)))
            x = it.fresh("x")
            for f in sorted(set(h.maps) | set(hb.maps)):
                if f in STRUCT or f.startswith("#") or h.m(f) is hb.m(f) or c.light:
                    continue
                it.oblige(f"{self.name}: attribute {f} of existing nodes is kept", implies(live(it, hb, x), eq(h.get(f, x), hb.get(f, x))))
        else:
            it.oblige(f"{self.name}: no section is left out", neg(c.section(it, it.to_U(v))))

    def frame(self, it, stream, k):
        """The traversal goes on over a document that has grown (contract TraverseGrowing)."""
        g = stream.meta["heap"]
        filt = stream.filt
        oblige_all(it, extension(it, g, it.heap, lambda x: self.c.section(it, x)), f"{self.name}: while the traversal runs: {{}}")

    def leave(self, it, fr, n):
        self.final = it.heap
