"""resolve_pending_references: every pending reference and citation is replaced, in place, by what it asks for.

The invariant relates the document before the loop (h0) to the current one; new(x), the node standing where the
pending node x stood, is the current child at x's old place.  Ghost: the number of each citation's label and a
one-to-one matching between back-link entries and (citation, index) pairs."""
from contracts.base import *  # noqa: F401,F403
from contracts.base import Contract, LoopSpec
from contracts.order import tree
from contracts.nodes_query import exact, FirstAncestor, PrevSibling
from contracts.tform import transformer, Labels
from contracts.compose import Compose
from symdict import SymDict, as_sym

PEND = ("PendingReference", "PendingCite", "PendingPrev")
FRESH = ("Reference", "Cite", "Error", "UnknownBibitem")
KEPT = ("label", "target", "targets", "overwrite_reftext", "targetlabels", "backlinks", "text", "handrail_depth", "nodeid", "types", "number")


def some(name, n):
    return z3.Const(name, U)


class Ghost:
    """Ghost functions of the invariant: idx(x); slot(x, i); src(b, j), srci(b, j)."""

    def __init__(self, it=None, idx=None, slot=None, src=None, srci=None):
        if it is not None:
            idx, slot, src, srci = (it.fresh_fn("idx", U, I), it.fresh_fn("slot", U, I, I), it.fresh_fn("src", U, I, U), it.fresh_fn("srci", U, I, I))
        self.idx, self.slot, self.src, self.srci = idx, slot, src, srci

    def but(self, **kw):
        return Ghost(None, **{**self.__dict__, **kw})


class Resolve(Contract):
    qual = "transformer.Transformer.resolve_pending_references"

    # ---- vocabulary over the document before the loop
    def is_(self, it, x, n):
        return it.in_set(x, [n])

    def pend(self, it, x):
        return it.in_set(x, PEND)

    def prepare(self, it, h0, root, table):
        self.h0, self.root, self.table = h0, root, table
        self.T = T = tree(it, h0, root)
        T.parent_facts(it)
        self.key = lambda x: h0.get("target", x)
        self.tl = lambda x: h0.get("targetlabels", x)
        self.nl = lambda x: h0.ln(self.tl(x))
        self.lab = lambda x, i: h0.el(self.tl(x), i)
        self.known = lambda x, i: z3.And(table.has(self.lab(x, i)), it.in_class(table.val(self.lab(x, i)), it.class_of("Bibitem")))
        self.bl = lambda b: h0.get("backlinks", b)
        self.CL = it.fresh_fn("citelabel", I, U)
        # the enclosing step, and the n-th step before it
        self.E, self.PV = it.fresh_fn("enclosing", U, U), it.fresh_fn("before", U, I, U)
        prev, pj = it.fresh_fn("prevstep", U, U), it.fresh_fn("prevstep_at", U, I)
        x, i = z3.Const("x!q", U), z3.Int("i!q")
        p = h0.par(x)
        step = lambda y: self.is_(it, y, "Step")
        self.step, self.prev = step, prev
        it.assume(z3.ForAll([x], z3.Implies(live(it, h0, x), self.E(x) == z3.If(p == NONE, NONE, z3.If(step(p), p, self.E(p)))), patterns=[self.E(x)]))
        it.assume(z3.ForAll([x], self.PV(x, z3.IntVal(0)) == x, patterns=[self.E(x)]))
        it.assume(z3.ForAll([x, i], z3.Implies(i >= 0, self.PV(x, i + 1) == z3.If(self.PV(x, i) == NONE, NONE, prev(self.PV(x, i)))), patterns=[self.PV(x, i)]))
        q = z3.Int("q!q")
        it.assume(z3.ForAll([x], z3.Implies(z3.And(live(it, h0, x), p != NONE), z3.And(
            pj(x) < h0.pos(x), pj(x) >= -1,
            prev(x) == z3.If(pj(x) >= 0, h0.kid(p, pj(x)), NONE), z3.Implies(pj(x) >= 0, step(h0.kid(p, pj(x)))))), patterns=[prev(x)]))
        it.assume(z3.ForAll([x, q], z3.Implies(conj([live(it, h0, x), p != NONE, q > pj(x), q < h0.pos(x), q >= 0]), neg(step(h0.kid(p, q)))),
                            patterns=[z3.MultiPattern(prev(x), h0.kid(p, q))]))
        it.assume(self.E(root) == self.E(root))
        self.pj = pj
        i, j = z3.Int("i!q"), z3.Int("j!q")
        # decimal numerals: different numbers give different labels
        it.assume(z3.ForAll([i, j], z3.Implies(self.CL(i) == self.CL(j), i == j), patterns=[z3.MultiPattern(self.CL(i), self.CL(j))]))
        self.shape = None

    def distance(self, it, x):
        t = self.h0.get("target", x)
        return z3.Function("int", U, I)(t)

    def error_text(self, it, l):
        return it.to_U(VStr(['[unknown label "', *(lambda t: t.parts if isinstance(t, VStr) else [t])(it.to_str(l)), '"]']))

    # ---- what the document must satisfy before
    def given(self, it, h):
        """Of the document as parsed."""
        n = z3.Const("n!b", U)
        BL, own = z3.Function("blown!", U, U), h.own
        self.blown = BL
        b, tl = h.get("backlinks", n), h.get("targetlabels", n)
        lst = lambda a: conj([h.alloc(a), cls(a) == CLS_LIST, own(a) == NONE, a != NONE])
        bib = it.in_class(n, it.class_of("Bibitem"))
        return [
            ("bibliography items start without back-links, in lists of their own", n, z3.Implies(conj([live(it, h, n), bib]), conj([lst(b), BL(b) == n, h.ln(b) == 0])), b),
            ("citations list their labels", n, z3.Implies(conj([live(it, h, n), self.is_(it, n, "PendingCite")]), conj([lst(tl), BL(tl) == NONE, h.ln(tl) >= 0])), tl),
            ("the distance of a previous-step reference is a number", n, z3.Implies(conj([live(it, h, n), self.is_(it, n, "PendingPrev")]), z3.Function("int.ok", U, B)(h.get("target", n))), h.get("target", n)),
            ("references and error marks carry no label", n, z3.Implies(conj([live(it, h, n), z3.Or(self.pend(it, n), it.in_class(n, it.class_of("Error")))]), h.get("label", n) == EMPTY), h.get("label", n)),
        ]

    def labelled(self, it, h, T, table):
        """What collect_labels leaves."""
        n, l = z3.Const("n!b", U), z3.Const("l!b", U)
        v = table.val(l)
        return [
            ("the table maps labels to the nodes carrying them", l, z3.Implies(table.has(l), conj([live(it, h, v), T.inT(v), v != NONE, l != EMPTY, neg(self.pend(it, v)), neg(it.in_class(v, it.class_of("Error"))), h.get("label", v) == l])), v),
            ("every label of the document is in the table, under its owner", n, z3.Implies(conj([T.inT(n), h.get("label", n) != EMPTY]), conj([table.has(h.get("label", n)), table.val(h.get("label", n)) == n])), h.get("label", n)),
        ]

    def before(self, it, h, T, table):
        return [z3.ForAll([v], body, patterns=[pat]) for _, v, body, pat in self.given(it, h) + self.labelled(it, h, T, table)]

    def __call__(self, it, f, args, kwargs):
        """Use in transform (the other outcome is its own error)."""
        t = args[0]
        h0, root = it.heap, it.to_U(it.store[t.oid]["tree"])
        d = it.store[t.oid]["labels_to_nodes"]
        table = as_sym(it, it.store[d.oid])
        T = tree(it, h0, root)
        for nm, v, body, _ in self.given(it, h0) + self.labelled(it, h0, T, table):
            it.oblige(f"before references are resolved: {nm}", z3.substitute(body, (v, it.fresh("v"))))
        self.root = root
        self.prepare(it, h0, root, table)
        it.nfresh += 1
        it.heap = h = Heap(f"V{it.nfresh}")
        self.assume(it, self.facts(it, h, T.N, Ghost(it), it.fresh("limit", I)))
        for _, w in self.wellformed(it, h):
            it.assume(w)
        self.after = h

    # ---- the invariant: [(name, sorts, body, pattern)]
    def facts(self, it, h, k, G, limit, partial=None):
        """limit: next number for a label.  partial=(x, m): citation x has entered the back-links of its first m targets."""
        h0, T, table = self.h0, self.T, self.table
        new = lambda x: h.kid(h0.par(x), h0.pos(x))
        done = lambda x: conj([T.inT(x), self.pend(it, x), T.px(x) < k])
        cite = lambda x: self.is_(it, x, "PendingCite")
        lv0 = lambda x: live(it, h0, x)
        out = []
        add = lambda name, sorts, body, pat=None: out.append((name, sorts, body, pat))
        add("everything that existed still exists", [U], lambda x: z3.Implies(h0.alloc(x), h.alloc(x)), lambda x: [h.alloc(x)])
        add("the number of children never changes", [U], lambda n: z3.Implies(lv0(n), h.nk(n) == h0.nk(n)), lambda n: [h.chl(n)])
        add("children other than resolved ones stay in place", [U, I], lambda n, i: z3.Implies(
            conj([lv0(n), i >= 0, i < h0.nk(n), neg(done(h0.kid(n, i)))]), h.kid(n, i) == h0.kid(n, i)), lambda n, i: [h.kid(n, i)])
        add("resolved children are replaced by new nodes", [U, I], lambda n, i: z3.Implies(
            conj([lv0(n), i >= 0, i < h0.nk(n), done(h0.kid(n, i))]), conj([live(it, h, h.kid(n, i)), neg(h0.alloc(h.kid(n, i)))])), lambda n, i: [h.kid(n, i)])
        add("resolved nodes are detached", [U], lambda x: z3.Implies(done(x), h.par(x) == NONE), lambda x: [h.par(x)])
        add("other nodes keep their parent", [U], lambda x: z3.Implies(conj([lv0(x), neg(done(x))]), conj([h.par(x) == h0.par(x), h.pos(x) == h0.pos(x)])), lambda x: [h.par(x)])
        for f in KEPT:
            add(f"attribute {f} of existing nodes is kept", [U], lambda x, f=f: z3.Implies(lv0(x), h.get(f, x) == h0.get(f, x)), lambda x, f=f: [h.get(f, x)])
        add("other lists are kept", [U, I], lambda a, i: z3.Implies(conj([h0.alloc(a), cls(a) == CLS_LIST, h0.own(a) == NONE, self.blown(a) == NONE]),
                                                                      conj([h.ln(a) == h0.ln(a), z3.Implies(conj([i >= 0, i < h0.ln(a)]), h.el(a, i) == h0.el(a, i))])), lambda a, i: [h.el(a, i)])
        add("lists outside the tree stay outside", [U], lambda a: z3.Implies(conj([h0.alloc(a), cls(a) == CLS_LIST, h0.own(a) == NONE]), h.own(a) == NONE), lambda a: [h.own(a)])
        add("other lists keep their length", [U], lambda a: z3.Implies(conj([h0.alloc(a), cls(a) == CLS_LIST, h0.own(a) == NONE, self.blown(a) == NONE]), h.ln(a) == h0.ln(a)), lambda a: [h.ln(a)])
        add("new nodes are references, citations or markers", [U], lambda x: z3.Implies(conj([live(it, h, x), neg(h0.alloc(x))]), it.in_set(x, FRESH)), lambda x: [h.alloc(x)])
        # what each resolved node became
        add("a reference to a known label points at its owner", [U], lambda x: z3.Implies(
            conj([done(x), self.is_(it, x, "PendingReference"), table.has(self.key(x))]),
            conj([self.is_(it, new(x), "Reference"), h.get("target", new(x)) == table.val(self.key(x)), h.get("overwrite_reftext", new(x)) == h0.get("overwrite_reftext", x)])), lambda x: [T.px(x)])
        add("a reference to an unknown label becomes a visible marker", [U], lambda x: z3.Implies(
            conj([done(x), self.is_(it, x, "PendingReference"), neg(table.has(self.key(x)))]),
            conj([self.is_(it, new(x), "Error"), h.get("text", new(x)) == self.error_text(it, self.key(x))])), lambda x: [T.px(x)])
        ts = lambda x: h.get("targets", new(x))
        add("a citation has one target per label", [U], lambda x: z3.Implies(conj([done(x), cite(x)]), conj([
            self.is_(it, new(x), "Cite"), h.ln(ts(x)) == self.nl(x), h.alloc(ts(x)), cls(ts(x)) == CLS_LIST, h.own(ts(x)) == NONE, neg(h0.alloc(ts(x)))])), lambda x: [T.px(x)])
        add("a citation points at the items it names", [U, I], lambda x, i: z3.Implies(conj([done(x), cite(x), i >= 0, i < self.nl(x), self.known(x, i)]),
                                                                                    h.el(ts(x), i) == table.val(self.lab(x, i))), lambda x, i: [self.lab(x, i)])
        add("a citation of anything else points at a placeholder", [U, I], lambda x, i: z3.Implies(conj([done(x), cite(x), i >= 0, i < self.nl(x), neg(self.known(x, i))]),
                                                                                                conj([self.is_(it, h.el(ts(x), i), "UnknownBibitem"), neg(h0.alloc(h.el(ts(x), i)))])), lambda x, i: [self.lab(x, i)])
        pv = lambda x: self.PV(self.E(x), z3.If(self.distance(it, x) > 0, self.distance(it, x), 0))
        add("a previous-step reference points the requested number of steps back", [U], lambda x: z3.Implies(
            conj([done(x), self.is_(it, x, "PendingPrev")]), conj([self.is_(it, new(x), "Reference"), self.E(x) != NONE, pv(x) != NONE, h.get("target", new(x)) == pv(x),
                                                              h.get("overwrite_reftext", new(x)) == h0.get("overwrite_reftext", x)])), lambda x: [T.px(x)])
        # labels of citations
        L = lambda x: h.get("label", new(x))
        add("a citation's label is generated and nobody else's", [U], lambda x: z3.Implies(
            conj([done(x), cite(x)]), conj([L(x) == self.CL(G.idx(x)), neg(table.has(L(x))), G.idx(x) < limit])), lambda x: [T.px(x)])
        add("citations have different labels", [U, U], lambda x, y: z3.Implies(
            conj([done(x), cite(x), done(y), cite(y), T.px(x) < T.px(y)]), G.idx(x) < G.idx(y)), lambda x, y: [z3.MultiPattern(T.px(x), T.px(y))])
        add("new references and markers have no label", [U], lambda x: z3.Implies(conj([done(x), neg(cite(x))]), L(x) == EMPTY), lambda x: [T.px(x)])
        # back-links
        entered, lbl = (lambda x, i: done(x)), L
        if partial:
            x0, m0, l0 = partial
            entered = lambda x, i: z3.Or(z3.And(done(x), x != x0), z3.And(x == x0, i < m0))
            lbl = lambda x: z3.If(x == x0, l0, L(x))
        bib = lambda b: conj([lv0(b), it.in_class(b, it.class_of("Bibitem"))])
        bl = self.bl
        b_of = lambda x, i: table.val(self.lab(x, i))
        add("every citation is among the back-links of each item it names", [U, I], lambda x, i: z3.Implies(
            conj([entered(x, i), cite(x), i >= 0, i < self.nl(x), self.known(x, i)]),
            conj([G.slot(x, i) >= 0, G.slot(x, i) < h.ln(bl(b_of(x, i))), h.el(bl(b_of(x, i)), G.slot(x, i)) == lbl(x),
                  G.src(b_of(x, i), G.slot(x, i)) == x, G.srci(b_of(x, i), G.slot(x, i)) == i])), lambda x, i: [self.lab(x, i)])
        s, si = (lambda b, j: G.src(b, j)), (lambda b, j: G.srci(b, j))
        add("back-links come from citations that name the item", [U, I], lambda b, j: z3.Implies(
            conj([bib(b), j >= 0, j < h.ln(bl(b))]),
            conj([cite(s(b, j)), T.inT(s(b, j)), entered(s(b, j), si(b, j)), si(b, j) >= 0, si(b, j) < self.nl(s(b, j)), self.known(s(b, j), si(b, j)), b_of(s(b, j), si(b, j)) == b,
                  G.slot(s(b, j), si(b, j)) == j, h.el(bl(b), j) == lbl(s(b, j))])), lambda b, j: [h.el(bl(b), j)])
        add("back-links are lists", [U], lambda b: z3.Implies(bib(b), h.ln(bl(b)) >= 0), lambda b: [h.ln(bl(b))])
        return out

    def assume(self, it, facts):
        for name, sorts, body, pat in facts:
            vs = [z3.Const(f"v{j}!r", s) for j, s in enumerate(sorts)]
            ps = pat(*vs) if pat else None
            try:
                it.assume(z3.ForAll(vs, body(*vs), patterns=ps or []))
            except z3.Z3Exception:
                it.assume(z3.ForAll(vs, body(*vs)))

    def oblige(self, it, facts, where):
        for name, sorts, body, pat in facts:
            vs = [it.fresh(f"v{j}", s) for j, s in enumerate(sorts)]
            it.oblige(f"{name} {where}", body(*vs))

    def wellformed(self, it, h):
        return [(f"well formed: {nm}", w) for nm, w in wf(it, h)] + [("the root stays the root", h.par(self.root) == NONE)]

    # ---- environment
    def env(self, it):
        A = it.attr_contracts
        self.saved = (dict(A), dict(it.contracts), dict(it.natives))
        for f in ("backlinks", "targetlabels", "targets"):
            A[f] = lambda it, t, f=f: HList(it.heap.get(f, t), "str" if f == "targetlabels" else "node" if f == "targets" else "any")
        it.contracts["nodes.Node.first_ancestor_of_type"] = self.ancestor
        it.contracts["nodes.Node.prev_sibling"] = self.sibling
        it.natives["comp-hook"] = self.comp
        it.natives["next-hook"] = self.next_label

    def unenv(self, it):
        a, c, n = self.saved
        for d, o in ((it.attr_contracts, a), (it.contracts, c), (it.natives, n)):
            d.clear()
            d.update(o)

    def ancestor(self, it, f, args, kwargs):
        """The original contract, and the induction that relates it to the enclosing step."""
        r = FirstAncestor().spec(it, args, kwargs)
        x, h, T = args[0], it.heap, self.T
        A = it.ghost[("anc", h.m("_parent").tag, x.get_id())]
        up = it.ghost["up"]
        j = it.fresh("j", I)
        h0 = self.h0

        def claim(j):
            a = A(j)
            return z3.And(z3.Or(a == NONE, conj([T.inT(a), live(it, h0, a), isnwc(it, a)])), self.E(x) == z3.If(a == NONE, NONE, z3.If(self.step(a), a, self.E(a))))
        it.oblige("the enclosing step: the parent", claim(z3.IntVal(0)))
        it.oblige("the enclosing step: one further up", implies(conj([j >= 0, j < up, claim(j)]), claim(j + 1)))
        it.assume(claim(up))
        return r

    def sibling(self, it, f, args, kwargs):
        """The original contract; the answer is the one the document before the loop gives."""
        c = args[1] if len(args) > 1 else kwargs.get("cls")
        r = PrevSibling().spec(it, args, kwargs)
        if isinstance(c, VClass) and c.name == "Step":
            x, h, h0 = args[0], it.heap, self.h0
            p = h0.par(x)
            for q in [self.pj(x)] + ([r.arg(1)] if isinstance(r, z3.ExprRef) and r.num_args() == 2 else []):
                it.assume(z3.Or(h.kid(p, q) == h0.kid(p, q), h.kid(p, q) != h0.kid(p, q)))
                rng = conj([live(it, h0, x), self.T.inT(x), q >= 0, q < h0.pos(x), h0.par(x) != NONE, neg(self.pend(it, x))])
                it.oblige("resolving does not move or create steps", implies(rng, conj([self.step(h.kid(p, q)) == self.step(h0.kid(p, q)), implies(self.step(h0.kid(p, q)), h.kid(p, q) == h0.kid(p, q))])))
                it.assume(implies(rng, conj([self.step(h.kid(p, q)) == self.step(h0.kid(p, q)), implies(self.step(h0.kid(p, q)), h.kid(p, q) == h0.kid(p, q))])))
            q, o, T = self.pj(x), self.T.o, self.T
            self.below(it, p, q)
            inside = implies(conj([live(it, h0, x), T.inT(x), q >= 0, h0.par(x) != NONE]), z3.And(T.inT(h0.kid(p, q)), live(it, h0, h0.kid(p, q)), h0.par(h0.kid(p, q)) == p))
            it.oblige("the previous step is in the document", inside)
            it.assume(inside)
            same = implies(conj([live(it, h0, x), self.T.inT(x), h0.par(x) != NONE, neg(self.pend(it, x))]), it.to_U(r) == self.prev(x))
            it.oblige("the previous step is the one of the document before", same)
            it.assume(same)
        return r

    def below(self, it, p, i):
        """Instances of the recursion equations at the i-th child of p (hints)."""
        h0, T, o = self.h0, self.T, self.T.o
        c, at = h0.kid(p, i), self.T.o.off(p, i)
        it.assume(implies(conj([live(it, h0, p), T.inT(p), i >= 0, i < h0.nk(p)]), z3.And(
            o.at_child(p, i, z3.IntVal(0)), at >= 1, at + o.size(c) <= o.size(p), o.size(c) >= 1, o.P(c, z3.IntVal(0)) == c, live(it, h0, c),
            implies(at < o.size(p), z3.And(o.P(T.root, T.px(p) + at) == o.P(p, at), T.inT(o.P(p, at)), T.px(o.P(p, at)) == T.px(p) + at)))))

    def comp(self, it, s, g, elt, cfr, gens):
        """[... for label in labels] whose element may create nodes."""
        if len(gens) > 1 or g.ifs or s.filt is not None or s.n is None or s.kind == "count":
            return NotImplemented
        hb = it.heap
        k = it.fresh("k", I)
        n = it.int_(s.n)
        nf0 = it.nfresh

        def one():
            it.assume(k >= 0, k < n)
            it.assign(g.target, s.at(k), cfr)
            return elt()
        res = it.explore(one, memo=("refmap", id(elt)))
        vals = [r for r in res if r.kind == "val"]
        if len(vals) != len(res) or all(r.snap[0] is hb for r in vals):
            return NotImplemented
        # every element: an existing node found without effect, or a new placeholder
        keep = it.snapshot() if hasattr(it, "snapshot") else None
        olds, conds = [], []
        pc, heap = it.pc, it.heap
        for r in vals:
            d = conj(list(r.delta))
            v = it.to_U(r.value)
            if r.snap[0] is hb:
                if any(is_new(c, nf0) and not c.eq(k) for c in terms(list(r.delta) + [v])):
                    raise Unsupported("comprehension element depends on internal choices")
                olds.append((d, v))
                continue
            h1 = r.snap[0]
            it.pc = pc + tuple(r.delta)
            x, i = it.fresh("x"), it.fresh("i", I)
            for f in sorted(set(h1.maps) | set(hb.maps)):
                if h1.m(f) is hb.m(f) or f == "$alloc":
                    continue
                if f == "$elt":
                    it.oblige("creating a placeholder changes no existing list", implies(hb.alloc(x), eq(h1.el(x, i), hb.el(x, i))))
                else:
                    it.oblige(f"creating a placeholder changes no existing object ({f})", implies(hb.alloc(x), eq(h1.get(f, x), hb.get(f, x))))
            it.oblige("creating a placeholder keeps what exists", implies(hb.alloc(x), h1.alloc(x)))
            for nm, q in self.placeholder(it, hb, h1, v):
                it.oblige(f"a placeholder: {nm}", q)
            for nm, q in self.newcomer(it, hb, h1, x):
                it.oblige(f"only placeholders are created: {nm}", q)
        it.pc = pc
        # the whole list
        it.nfresh += 1
        tag = f"C{it.nfresh}"
        hf = Heap(tag)
        isfr = it.fresh_fn("created", U, B)
        h = hb
        fields = set().union(*(set(r.snap[0].maps) for r in vals)) | {"_parent", "_children", "#pos", "#own", "$len", "label", "backlinks"}
        for f in sorted(fields):
            if f == "$alloc":
                h = h.put(f, Map(lambda x: z3.Or(hb.alloc(x), isfr(x))))
            elif f == "$elt":
                h = h.put(f, Map(lambda a, i: z3.If(isfr(a), hf.el(a, i), hb.el(a, i))))
            else:
                h = h.put(f, Map(lambda x, f=f: z3.If(isfr(x), hf.get(f, x), hb.get(f, x))))
        it.heap = h
        x, i = z3.Const("x!c", U), z3.Int("i!c")
        it.assume(z3.ForAll([x], z3.Implies(isfr(x), conj([neg(hb.alloc(x)), x != NONE] + [q for _, q in self.newcomer(it, hb, h, x)])), patterns=[isfr(x)]))
        u = it.fresh_fn("placeholder", I, U)
        val = u(i)
        new_when = TRUE
        for d, v in olds:
            new_when = z3.And(new_when, neg(z3.substitute(d, (k, i))))
        it.assume(z3.ForAll([i], z3.Implies(conj([i >= 0, i < n, new_when]), conj([isfr(u(i)), isfr(h.get("backlinks", u(i)))] + [q for _, q in self.placeholder(it, hb, h, u(i))])), patterns=[u(i)]))

        def at(j):
            j = it.int_(j)
            r = u(j)
            for d, v in olds:
                r = z3.If(z3.substitute(d, (k, j)), z3.substitute(v, (k, j)), r)
            it.setkind(r, "node")
            return r
        return VSeq(n, at, "list")

    def placeholder(self, it, hb, h, v):
        b = h.get("backlinks", v)
        return [("a new unknown item", conj([self.is_(it, v, "UnknownBibitem"), neg(hb.alloc(v)), h.alloc(v), v != NONE])),
                ("with back-links of its own", conj([neg(hb.alloc(b)), h.alloc(b), cls(b) == CLS_LIST, h.own(b) == NONE, b != NONE, h.ln(b) == 0]))]

    def newcomer(self, it, hb, h, x):
        c = h.chl(x)
        new = conj([h.alloc(x), neg(hb.alloc(x))])
        return [("class", implies(conj([new, it.isnode(x)]), self.is_(it, x, "UnknownBibitem"))),
                ("detached", implies(conj([new, it.isnode(x)]), conj([h.par(x) == NONE, h.own(c) == x, h.alloc(c), neg(hb.alloc(c)), cls(c) == CLS_LIST, h.ln(c) == 0])))]

    def next_label(self, it, v, a):
        """next() of a generator over itertools.count(): the first that passes (only: some later one that passes)."""
        if not isinstance(v, VGenExp):
            return NotImplemented
        chain, fr, cur = [], None, v
        while isinstance(cur, VGenExp):
            if len(cur.node.generators) != 1:
                return NotImplemented
            fr = it.new_frame(cur.frame, None, cur.frame.module)
            fr.nonlocals = {"$comp"}
            it.comp_frames.add(fr.fid)
            chain.append((cur, fr))
            cur = it.eval(cur.node.generators[0].iter, fr)
        if not isinstance(cur, VIter) or it.store[cur.oid][0] != "count":
            return NotImplemented
        _, c, stp = it.store[cur.oid]
        i = it.fresh("number", I)
        it.assume(i >= it.int_(c))
        if not (isinstance(stp, int) and stp == 1):
            raise Unsupported("counter with a step")
        x = i
        cur_, G = self.current, self.main.G
        self.main.G = G.but(idx=lambda y: z3.If(y == cur_, i, G.idx(y)))
        for gen, fr in reversed(chain):
            g = gen.node.generators[0]
            it.assign(g.target, x, fr)
            for cond in g.ifs:
                t = it.truth(it.eval(cond, fr))
                it.assume(t if isinstance(t, z3.ExprRef) else z3.BoolVal(t))
            x = it.eval(gen.node.elt, fr)
            if isinstance(x, VStr):
                self.numeral(it, x, i)
        it.store[cur.oid] = ("count", i + 1, 1)
        return x

    def numeral(self, it, v, i):
        """A label made of fixed text and one numeral: CL is the function of the number."""
        nums = [p for p in v.parts if isinstance(p, Piece) and p.name == "str" and p.terms and p.terms[0].eq(i)] if all(isinstance(p, (str, Piece)) for p in v.parts) else []
        shape = tuple(p if isinstance(p, str) else "#" for p in v.parts)
        if len(nums) != 1 or sum(not isinstance(p, str) for p in v.parts) != 1 or self.shape not in (None, shape):
            return
        self.shape = shape
        it.assume(it.to_U(v) == self.CL(i))

    # ---- verification
    def setup(self, it):
        t, root = transformer(it)
        has, val = it.fresh_fn("labelled", U, B), it.fresh_fn("owner", U, U)
        table = SymDict(has, val)
        o = it.new_oid()
        it.store[o] = table
        it.setattr(t, "labels_to_nodes", VDict(o))
        self.oid = o
        return t, root, table

    def verify(self, it):
        self.env(it)
        try:
            it.run_all(self.qual, lambda: self.run(it))
            it.run_all(f"{self.qual} [nothing pending remains]", lambda: self.lemma(it))
        finally:
            self.unenv(it)

    def start(self, it):
        t, root, table = self.setup(it)
        h0 = it.heap
        for _, w in wf(it, h0):
            it.assume(w)
        T = tree(it, h0, root)
        for w in self.before(it, h0, T, table):
            it.assume(w)
        self.prepare(it, h0, root, table)
        it.pre = it.pc
        return t, root

    def run(self, it):
        t, root = self.start(it)
        it.verifying = self.qual
        it.loopspecs = [MainLoop(self)]
        self.current = self.tried = None
        try:
            it.call_func(it.func(self.qual), [t], {})
        except PyExc as e:
            self.failed(it, e)
            return
        finally:
            it.verifying, it.loopspecs = None, []
        it.oblige("the label table is kept", z3.BoolVal(it.store[self.oid] is self.table))
        it.oblige("the loop over the pending nodes was run", z3.BoolVal(self.final is not None))
        if self.final is not None:
            heap_eq(it, "nothing happens after the loop", it.heap, self.final, strict=True)

    def failed(self, it, e):
        x = self.current
        ok = FALSE
        if x is not None and e.name == "RSMTransformerError":
            few = self.E(x) == NONE
            if self.tried is not None:
                top, k, n = self.tried
                few = z3.Or(few, conj([top == self.E(x), k >= 0, k < n, n == self.distance(it, x), self.PV(top, k + 1) == NONE]))
            ok = conj([self.is_(it, x, "PendingPrev"), few])
        it.oblige(f"it stops only at a previous-step reference without that many previous steps, with its own error ({e.name} from {e.origin})", ok)

    def lemma(self, it):
        """After the loop no node of the document is pending (induction on the new document order)."""
        t, root = self.start(it)
        h0, T = self.h0, self.T
        it.nfresh += 1
        h = Heap(f"V{it.nfresh}")
        G = Ghost(it)
        self.assume(it, self.facts(it, h, T.N, G, it.fresh("limit", I)))
        for _, w in self.wellformed(it, h):
            it.assume(w)
        it.heap = h
        T2 = tree(it, h, root)
        T2.parent_facts(it)
        j = z3.Int("j!l")
        n = it.fresh("n", I)
        P = T2.o.P
        claim = lambda x: z3.Or(neg(h0.alloc(x)), T.inT(x))
        it.assume(n >= 0, n < T2.N, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), claim(P(root, j))), patterns=[P(root, j)]))
        x = P(root, n)
        p, i = h.par(x), h.pos(x)
        it.assume(T2.inT(x), T2.px(x) == n, z3.Implies(x != root, z3.And(T2.inT(p), P(root, T2.px(p)) == p, h.kid(p, i) == x)))
        # a child of a node of the document is in the document
        c = h0.kid(p, i)
        self.below(it, p, i)
        it.oblige("every node of the new document is new or was in the document", claim(x))
        it.oblige("no node of the new document is pending", implies(claim(x), neg(self.pend(it, x))))
        # labels
        it.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < T2.N), claim(P(root, j))), patterns=[P(root, j)]))
        x, y = node(it, "x"), node(it, "y")
        lab = lambda x: h.get("label", x)
        for z in (x, y):
            it.assume(T2.inT(z), claim(z), z3.Implies(z != root, conj([live(it, h, h.par(z)), h.par(z) != NONE, isnwc(it, h.par(z)), h.kid(h.par(z), h.pos(z)) == z, T2.inT(h.par(z)), claim(h.par(z))])))
            o0 = h0.kid(h.par(z), h.pos(z))
            self.below(it, h.par(z), h.pos(z))
            origin = implies(neg(h0.alloc(z)), conj([T.inT(o0), self.pend(it, o0), h0.par(o0) == h.par(z), h0.pos(o0) == h.pos(z), h0.alloc(h.par(z)), T.px(o0) < T.N, T.px(o0) >= 0]))
            it.oblige("a new node of the document stands for a pending one", origin)
            it.assume(origin)
        it.oblige("labels are unique in the document", implies(conj([lab(x) == lab(y), lab(x) != EMPTY]), x == y))


def is_new(c, nf0):
    from interp import is_fresh_after
    return is_fresh_after(c, nf0)


def terms(ts):
    from interp import consts_of
    return consts_of(ts)


class MainLoop(LoopSpec):
    def __init__(self, c):
        super().__init__(("traverse",), "resolving loop")
        self.c = c
        c.final, c.main = None, self

    def matches(self, it, kind, st, stream):
        return kind in self.kinds and self.c.final is None

    def start(self, it, fr, stream):
        self.G = Ghost(it)
        self.ctr = [o for o, x in it.store.items() if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] == "count"]
        self.first = [it.store[o] for o in self.ctr]
        if len(self.ctr) > 1:
            raise Unsupported("several counters")
        b, s = BackLoop(self.c, self), StepLoop(self.c)
        self.nested = [b, s]

    def limit(self, it):
        return it.int_(it.store[self.ctr[0]][1]) if self.ctr else z3.IntVal(0)

    def manages(self, it, oid):
        return oid in self.ctr

    def heap_at(self, it, k):
        return None

    def check(self, it, fr, k, label):
        where = f"({self.name}) {label}"
        self.c.oblige(it, self.c.facts(it, it.heap, k, self.G, self.limit(it)), where)
        for nm, w in self.c.wellformed(it, it.heap):
            it.oblige(f"{nm} {where}", w)

    def havoc(self, it, fr, k):
        c = self.c
        it.nfresh += 1
        it.heap = h = Heap(f"V{it.nfresh}")
        self.G = Ghost(it)
        for o in self.ctr:
            it.store[o] = ("count", it.fresh("counter", I), 1)
        c.assume(it, c.facts(it, h, k, self.G, self.limit(it)))
        for _, w in c.wellformed(it, h):
            it.assume(w)

    def body_start(self, it, fr, k, v, run):
        self.c.current = v
        T = self.c.T
        h0 = self.c.h0
        it.assume(T.inT(v), T.px(v) == k)
        i = it.fresh("i", I)
        rng = conj([i >= 0, i < h0.nk(v)])
        claim = lambda i: z3.And(T.inT(h0.kid(v, i)), T.px(h0.kid(v, i)) > k)
        self.c.below(it, v, i)
        it.oblige(f"{self.name}: children come later", implies(rng, claim(i)))
        it.assume(z3.ForAll([i], implies(rng, claim(i)), patterns=[h0.kid(v, i)]))

    def leave(self, it, fr, n):
        c = self.c
        c.current = None
        c.final = it.heap
        T2 = tree(it, it.heap, c.root)
        j = z3.Int("j!l")
        it.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < T2.N), neg(c.pend(it, T2.o.P(c.root, j)))), patterns=[T2.o.P(c.root, j)]))  # proved by lemma()


class BackLoop(LoopSpec):
    """Enters the citation's label into the back-links of each of its targets."""

    def __init__(self, c, main):
        super().__init__(("seq",), "back-link loop")
        self.c, self.main = c, main

    def matches(self, it, kind, st, stream):
        import ast
        return kind == "seq" and any(isinstance(x, ast.Attribute) and x.attr == "backlinks" for b in st.body for x in ast.walk(b))

    def start(self, it, fr, stream):
        c = self.c
        self.x = c.current
        h = it.heap
        cites = [v for v in it.store[fr.fid].values() if isinstance(v, z3.ExprRef) and v.sort() == U and it.kind(v) == "node" and it.proves(it.in_set(v, ["Cite"]))]
        if len(cites) != 1:
            raise Unsupported("back-link loop without a citation")
        self.y = cites[0]
        self.k = c.T.px(self.x) + z3.If(h.par(self.x) == NONE, 1, 0)    # has it been replaced already?
        self.G0 = self.main.G
        self.label = h.get("label", self.y)
        self.limit = self.main.limit(it)

    def heap_at(self, it, k):
        return None

    def facts(self, it, h, m):
        c = self.c
        out = c.facts(it, h, self.k, self.main.G, self.limit, (self.x, m, self.label))
        h1 = self.h0
        for f in sorted(set(h1.maps) - {"$len", "$elt"}):
            out.append((f"{f} is kept", [U], lambda x, f=f: eq(h.get(f, x), h1.get(f, x)), lambda x, f=f: [h.get(f, x)]))
        # child lists and other lists
        tree_list = lambda a: conj([h1.alloc(a), z3.Or(h1.own(a) != NONE, conj([c.h0.alloc(a), c.blown(a) == NONE]))])
        ts = h1.get("targets", self.y)
        out.append(("child lists are kept", [U, I], lambda a, i: implies(z3.Or(tree_list(a), a == ts), conj([h.ln(a) == h1.ln(a), h.el(a, i) == h1.el(a, i)])), lambda a, i: [h.el(a, i)]))
        out.append(("child lists keep their length", [U], lambda a: implies(z3.Or(tree_list(a), a == ts), h.ln(a) == h1.ln(a)), lambda a: [h.ln(a)]))
        return out

    def check(self, it, fr, k, label):
        self.c.oblige(it, self.facts(it, it.heap, k), f"({self.name}) {label}")

    def havoc(self, it, fr, k):
        it.nfresh += 1
        hf = Heap(f"B{it.nfresh}")
        h = self.h0.put("$len", hf.m("$len")).put("$elt", hf.m("$elt"))
        it.heap = h
        self.main.G = G = Ghost(it)
        G.idx = self.G0.idx
        self.c.assume(it, self.facts(it, h, k))

    def body_start(self, it, fr, k, v, run):
        c, h, x = self.c, it.heap, self.x
        b = it.to_U(v)
        G = self.main.G
        at = h.ln(h.get("backlinks", b))
        self.main.G = G.but(slot=lambda y, i: z3.If(z3.And(y == x, i == k), at, G.slot(y, i)),
                            src=lambda d, j: z3.If(z3.And(d == b, j == at), x, G.src(d, j)),
                            srci=lambda d, j: z3.If(z3.And(d == b, j == at), k, G.srci(d, j)))

    def leave(self, it, fr, n):
        pass


class StepLoop(LoopSpec):
    """Goes back one step per iteration."""

    def __init__(self, c):
        super().__init__(("seq", "range"), "step loop")
        self.c = c

    def start(self, it, fr, stream):
        self.n = it.int_(stream.n)

    def enter(self, it, fr, stream, st):
        self.h0 = it.heap
        vs = [(nm, v) for nm, v in it.store[fr.fid].items() if isinstance(v, z3.ExprRef) and v.sort() == U and nm in it.assigned_names(st.body)]
        if len(vs) != 1:
            raise Unsupported("step loop with other variables")
        self.name_, self.top = vs[0]
        c = self.c
        it.assume(c.PV(self.top, z3.IntVal(0)) == self.top)
        t = self.top
        it.oblige(f"{self.name}: starts at a step of the document", conj([t != NONE, c.T.inT(t), live(it, c.h0, t), c.step(t), c.h0.par(t) != NONE]))
        it.assume(conj([t != NONE, c.T.inT(t), live(it, c.h0, t), c.step(t), c.h0.par(t) != NONE]))
        super().enter(it, fr, stream, st)

    def local(self, it, name, v0, k):
        if name != self.name_:
            return NotImplemented
        return it.setkind(self.c.PV(self.top, it.int_(k)), "node") if not z3.is_int_value(k) else v0

    def rel(self, it, k):
        c = self.c
        t = c.PV(self.top, k)
        return [("the step reached is a step of the document", conj([t != NONE, c.T.inT(t), live(it, c.h0, t), c.step(t), c.h0.par(t) != NONE]))]

    def body_start(self, it, fr, k, v, run):
        self.c.tried = (self.top, k, self.n)


class References(Compose):
    """After resolving, the later phases keep labels, references, citations and back-links as they are."""
    tracked = ("label", "target", "targets", "backlinks", "overwrite_reftext", "targetlabels")
    classes = PEND

    def __init__(self, prop):
        super().__init__(prop)
        self.r = Resolve()
        self.uses = {"collect_labels": Labels(), "resolve_pending_references": self.r}

    def precondition(self, it, h):
        self.r.after = None
        return [z3.ForAll([v], body, patterns=[pat]) for _, v, body, pat in self.r.given(it, h)]

    def goal(self, it, h, root):
        g = self.r.after
        it.oblige("references are resolved", z3.BoolVal(g is not None))
        if g is None:
            return
        x = it.fresh("x")
        for f in self.tracked:
            it.oblige(f"later phases keep {f} of every node", implies(live(it, g, x), h.get(f, x) == g.get(f, x)))
        it.oblige("later phases create nothing pending", implies(conj([live(it, h, x), self.r.pend(it, x)]), g.alloc(x)))
