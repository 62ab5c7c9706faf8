"""Contracts of the tree edits in rsm/nodes.py (properties C01 and C02)."""
from contracts.base import *  # noqa: F401,F403
from contracts.base import Contract, LoopSpec


def err(it):
    return PyExc(it.class_of("RSMNodeError"), (), origin="contract")


# ---------------------------------------------------------------- effects on the specified heap
def put(it, f, m):
    it.heap = it.heap.put(f, m)


def eff_insert(it, n, p, x):
    """x becomes the p-th child of n (x was detached)."""
    h = it.heap
    a, ln = h.chl(n), h.nk(n)
    it.set_hlist(a, ln + 1, lambda j: it.vite(j < p, h.el(a, j), it.vite(j == p, x, h.el(a, j - 1))))
    put(it, "_parent", it.heap.m("_parent").set(x, n))
    put(it, "#pos", h.m("#pos").upd(lambda old, y: ite(eq(y, x), p, ite(conj([h.par(y) == n, old(y) >= p]), old(y) + 1, old(y)))))


def eff_remove(it, n, x):
    h = it.heap
    a, ln, p = h.chl(n), h.nk(n), h.pos(x)
    it.set_hlist(a, ln - 1, lambda j: it.vite(j < p, h.el(a, j), h.el(a, j + 1)))
    put(it, "_parent", it.heap.m("_parent").set(x, NONE))
    put(it, "#pos", h.m("#pos").upd(lambda old, y: ite(conj([h.par(y) == n, old(y) > p]), old(y) - 1, old(y))))


def append_heap(it, h, n, at, fi, k):
    """Heap after the first k elements of a sequence were appended to n."""
    a, n0 = h.chl(n), h.nk(n)
    g = h
    g = g.put("$len", h.m("$len").set(a, n0 + k))
    old = h.m("$elt")
    g = g.put("$elt", Map(lambda b, i: it._elt_ite(a, b, i, lambda j: it.vite(j < n0, old(a, j), at(j - n0)), old)))
    g = g.put("_parent", h.m("_parent").upd(lambda o, y: ite(fi(y) < k, n, o(y))))
    g = g.put("#pos", h.m("#pos").upd(lambda o, y: ite(fi(y) < k, n0 + fi(y), o(y))))
    return g


def append_ok(it, h, n, at, fi, j):
    x = at(j)
    return conj([h.par(x) == NONE, fi(x) == j, allowed(it, x, n)])


def first_bad(it, n, ok, name, at=None):
    """The first index at which ok fails, or n (definable by well-ordering)."""
    if z3.is_int_value(n) and n.as_long() <= 3:
        for j in range(n.as_long()):
            if not it.branch(ok(z3.IntVal(j))):
                return z3.IntVal(j)
        return n
    f = it.fresh(name, I)
    j = z3.Int("j!s")
    it.assume(f >= 0, f <= n)
    pc = it.pc
    okj = ok(j)
    e = at(j) if at is not None else None
    it.pc = pc
    it.assume(forall_([j], z3.Implies(z3.And(j >= 0, j < f), okj)))
    shifted = by_element(j, z3.Implies(z3.And(j >= 0, j < f), okj), e) if isinstance(e, z3.ExprRef) else None
    if shifted is not None:
        it.assume(shifted)
    okf = ok(f)
    it.pc = pc + it.pc[len(pc):]
    it.assume(implies(f < n, neg(okf)))
    return f


def sp_append(it, self, child):
    if isinstance(child, z3.ExprRef):
        h = it.heap
        if it.branch(h.par(child) != NONE):
            raise err(it)
        if not it.branch(allowed(it, child, self)):
            raise err(it)
        a, ln = h.chl(self), h.nk(self)
        it.set_hlist(a, ln + 1, lambda j: it.vite(j < ln, h.el(a, j), child))
        put(it, "_parent", it.heap.m("_parent").set(child, self))
        put(it, "#pos", h.m("#pos").set(child, ln))
        return self
    if isinstance(child, (VList, HList, tuple, VSeq)):
        c = it.list_content(child) if isinstance(child, VList) else child
        if isinstance(c, (tuple, list)):
            for x in c:
                sp_append(it, self, x)
            return self
        n, at, fi = seq_first(it, child)
        h = it.heap
        f = first_bad(it, n, lambda j: append_ok(it, h, self, at, fi, j), "firstbad", at)
        it.heap = append_heap(it, h, self, at, fi, f)
        if it.branch(f < n):
            raise err(it)
        return self
    raise PyExc("TypeError", (), origin="contract")


class Append(Contract):
    qual = "nodes.NodeWithChildren.append"

    def cases(self):
        return ["single", "iterable", "other"]

    def setup(self, it):
        n = node(it, "self", nwc=True)
        if self.case == "single":
            return (n, node(it, "child")), {}
        if self.case == "other":
            return (n, it.choose(2) and 7 or None), {}
        return (n, node_seq(it, "xs")), {}

    def spec(self, it, args, kwargs):
        return sp_append(it, args[0], args[1] if len(args) > 1 else kwargs["child"])

    def loops(self, it):
        return [AppendLoop(self)] if self.case == "iterable" else []


class AppendLoop(LoopSpec):
    def __init__(self, c):
        super().__init__(name="append loop")
        self.c = c

    def start(self, it, fr, stream):
        self.n, self.at, self.fi = seq_first(it, self.c.args[1])

    def heap_at(self, it, k):
        return append_heap(it, self.h0, self.c.args[0], self.at, self.fi, k)

    def rel(self, it, k):
        j = z3.Int("j!a")
        pc = it.pc
        ok = append_ok(it, self.h0, self.c.args[0], self.at, self.fi, j)
        it.pc = pc
        return [("elements so far were acceptable", forall_([j], z3.Implies(z3.And(j >= 0, j < k), ok)))]


def sp_prepend(it, self, child):
    if isinstance(child, z3.ExprRef):
        h = it.heap
        p = h.par(child)
        if it.branch(conj([p != NONE, p != self])):
            raise err(it)
        if it.branch(p == self):
            eff_remove(it, self, child)
        elif not it.branch(allowed(it, child, self)):
            raise err(it)
        eff_insert(it, self, z3.IntVal(0), child)
        return self
    if it.is_seq(child):
        n, at = it.seq_parts(child)
        if isinstance(n, int):
            for j in range(n - 1, -1, -1):
                sp_prepend(it, self, at(j))
            return self
        raise Unsupported("prepending an arbitrary sequence")
    raise PyExc("TypeError", (), origin="contract")


class Prepend(Contract):
    qual = "nodes.NodeWithChildren.prepend"

    def cases(self):
        return ["single", "iterable", "other"]

    def setup(self, it):
        n = node(it, "self", nwc=True)
        if self.case == "single":
            return (n, node(it, "child")), {}
        if self.case == "other":
            return (n, it.choose(2) and 7 or None), {}
        return (n, node_seq(it, "xs")), {}

    def spec(self, it, args, kwargs):
        return sp_prepend(it, args[0], args[1] if len(args) > 1 else kwargs["child"])

    def loops(self, it):
        return [PrependLoop(self)] if self.case == "iterable" else []

    def judge(self, it, out, args, kwargs, h0, h1, ev0, ev1):
        if self.case != "iterable":
            return super().judge(it, out, args, kwargs, h0, h1, ev0, ev1)
        it.heap = h1
        lp = self.loop
        for nm, w in wf(it, h1):
            it.oblige(f"well-formedness kept: {nm}", w)
        if out[0] == "raise":
            it.oblige("only the package's own error is raised", z3.BoolVal(out[1].name == "RSMNodeError"))
            return
        it.oblige("the result is the node itself", it.spec_equal(out[1], args[0]))
        n, at = it.seq_parts(args[1])
        fi = args[1].meta["fi"]
        self_ = args[0]
        x, y = it.fresh("x"), it.fresh("y")
        for v in (x, y):
            it.assume(live(it, h0, v))
        ord_ = lambda v: lp.ord(n, v)
        it.oblige("lemma: processing order is first-occurrence order", ord_(x) == fi(x))
        it.assume(ord_(x) == fi(x), ord_(y) == fi(y))
        it.oblige("parents: given nodes and old children, nothing else", h1.par(x) == ite(fi(x) < n, self_, h0.par(x)))
        before = ite(fi(x) < n, ite(fi(y) < n, fi(x) < fi(y), TRUE), ite(fi(y) < n, FALSE, h0.pos(x) < h0.pos(y)))
        it.oblige("order: given nodes first, in the given order, then the old children in their order",
                  implies(conj([h1.par(x) == self_, h1.par(y) == self_]), (h1.pos(x) < h1.pos(y)) == before))
        it.oblige("no other child list changes", implies(conj([live(it, h0, x), x != self_]), conj([h1.nk(x) == h0.nk(x), h1.chl(x) == h0.chl(x)])))
        for f in sorted(set(h0.maps) | set(h1.maps)):
            if f.startswith("#") or f in ("_parent", "$len", "$elt", "_children", "$alloc"):
                continue
            if h0.m(f) is not h1.m(f):
                it.oblige(f"attribute {f} unchanged", eq(h1.get(f, x), h0.get(f, x)))


class PrependLoop(LoopSpec):
    """Iteration k puts element n-1-k in front; stated by membership and relative order."""

    def __init__(self, c):
        super().__init__(name="prepend loop")
        self.c = c
        c.loop = self

    def start(self, it, fr, stream):
        v = self.c.args[1]
        self.n, self.at = it.seq_parts(v)
        self.fi = v.meta["fi"]
        xs = v.meta["xs"]
        self.ord = it.fresh_fn("ord", I, U, I)
        k, m = z3.Int("k!p"), z3.Const("m!p", U)
        n = self.n
        it.assume(z3.ForAll([m], self.ord(z3.IntVal(0), m) == n, patterns=[self.ord(z3.IntVal(0), m)]))
        self.step = lambda k: z3.ForAll([m], self.ord(k + 1, m) == z3.If(m == xs(n - 1 - k), n - 1 - k, self.ord(k, m)),
                                        patterns=[self.ord(k + 1, m)])

    def heap_at(self, it, k):
        return None

    def view(self, it, k, h):
        h0, self_, n = self.h0, self.c.args[0], self.n
        x, y, b = z3.Const("x!p", U), z3.Const("y!p", U), z3.Const("b!p", U)
        i, j = z3.Int("i!p"), z3.Int("j!p")
        o = lambda v: self.ord(k, v)
        xs = self.c.args[1].meta["xs"]
        before = ite(o(x) < n, ite(o(y) < n, o(x) < o(y), TRUE), ite(o(y) < n, FALSE, h0.pos(x) < h0.pos(y)))
        out = list(wf(it, h))
        out.append(("processed elements", forall_([x], z3.And(o(x) <= n, o(x) >= n - k, z3.Implies(o(x) < n, xs(o(x)) == x)), [o(x)])))
        out.append(("processed elements are ordered by their first occurrence", forall_([j], z3.Implies(z3.And(j >= n - k, j < n), o(xs(j)) <= j), [xs(j)])))
        out.append(("parents", forall_([x], z3.Implies(live(it, h0, x), h.par(x) == ite(o(x) < n, self_, h0.par(x))), pats(h.par(x), x))))
        out.append(("relative order", forall_([x, y], z3.Implies(
            conj([live(it, h0, x), live(it, h0, y), h.par(x) == self_, h.par(y) == self_]), (h.pos(x) < h.pos(y)) == before),
            [z3.MultiPattern(h.pos(x), h.pos(y))] if pats(h.pos(x), x) else None)))
        out.append(("earlier positions kept elsewhere", forall_([x], z3.Implies(conj([live(it, h0, x), h.par(x) != self_, h.par(x) == h0.par(x)]), h.pos(x) == h0.pos(x)), pats(h.pos(x), x))))
        out.append(("other lists' lengths", forall_([b], z3.Implies(b != h0.chl(self_), h.ln(b) == h0.ln(b)), pats(h.ln(b), b))))
        out.append(("other lists' elements", forall_([b, i], z3.Implies(b != h0.chl(self_), h.el(b, i) == h0.el(b, i)), pats(h.el(b, i), b))))
        out.append(("processed elements were acceptable", forall_([x], z3.Implies(z3.And(o(x) < n), z3.Or(h0.par(x) == NONE, h0.par(x) == self_)), [o(x)])))
        out.append(("children live", forall_([x], h.alloc(x) == h0.alloc(x), pats(h.alloc(x), x))))
        return out

    def rel(self, it, k):
        return self.view(it, k, it.heap)

    def check(self, it, fr, k, label):
        h = it.heap
        for f in set(h.maps) | set(self.h0.maps):
            if f not in ("_parent", "$len", "$elt", "#pos") and h.m(f) is not self.h0.m(f):
                heap_eq(it, f"{self.name}: other attributes {label}", h, self.h0.put("_parent", h.m("_parent")).put("$len", h.m("$len")).put("$elt", h.m("$elt")), strict=True)
                break
        for nm, f in self.rel(it, k):
            it.oblige(f"{self.name}: {nm} {label}", f)

    def havoc(self, it, fr, k):
        h = self.h0
        it.nfresh += 1
        for f in ("_parent", "$len", "$elt", "#pos"):
            h = h.put(f, h.fresh_map(f, f"P{it.nfresh}"))
        it.heap = h
        for nm, f in self.rel(it, k):
            it.assume(f)

    def body_start(self, it, fr, k, v, run):
        it.assume(self.step(k))


def sp_remove(it, self, child):
    if not it.branch(it.heap.par(child) == self):
        raise PyExc("ValueError", (), origin="contract")
    eff_remove(it, self, child)
    return None


class Remove(Contract):
    qual = "nodes.NodeWithChildren.remove"

    def setup(self, it):
        return (node(it, "self", nwc=True), node(it, "child")), {}

    def spec(self, it, args, kwargs):
        return sp_remove(it, args[0], args[1] if len(args) > 1 else kwargs["child"])


def clear_heap(it, h, n, k):
    return h.put("_parent", h.m("_parent").upd(lambda o, y: ite(conj([live(it, h, y), o(y) == n, h.pos(y) < k]), NONE, o(y))))


class Clear(Contract):
    qual = "nodes.NodeWithChildren.clear"

    def setup(self, it):
        return (node(it, "self", nwc=True),), {}

    def spec(self, it, args, kwargs):
        h = it.heap
        n = args[0]
        it.heap = h.put("_parent", h.m("_parent").upd(lambda o, y: ite(o(y) == n, NONE, o(y))))
        it.write_field(n, "_children", ())
        return None

    def loops(self, it):
        return [ClearLoop(self)]


class ClearLoop(LoopSpec):
    def __init__(self, c):
        super().__init__(name="clear loop")
        self.c = c

    def heap_at(self, it, k):
        return clear_heap(it, self.h0, self.c.args[0], k)


class RemoveSelf(Contract):
    qual = "nodes.Node.remove_self"

    def setup(self, it):
        return (node(it, "self"),), {}

    def spec(self, it, args, kwargs):
        n = args[0]
        h = it.heap
        if it.branch(h.par(n) != NONE):
            eff_remove(it, h.par(n), n)
        return None


def replace_heap(it, h, n, par, at, fi, k):
    """Heap after n (child of par) was taken out and the first k replacements put in its place."""
    a, ln, p = h.chl(par), h.nk(par), h.pos(n)
    g = h.put("$len", h.m("$len").set(a, ln - 1 + k))
    old = h.m("$elt")

    def el(j):
        return it.vite(j < p, old(a, j), it.vite(j < p + k, at(j - p), old(a, j - k + 1)))
    g = g.put("$elt", Map(lambda b, i: it._elt_ite(a, b, i, el, old)))
    g = g.put("_parent", h.m("_parent").upd(lambda o, y: ite(fi(y) < k, par, ite(eq(y, n), NONE, o(y)))))
    g = g.put("#pos", h.m("#pos").upd(lambda o, y: ite(fi(y) < k, p + fi(y), ite(conj([h.par(y) == par, o(y) > p]), o(y) - 1 + k, o(y)))))
    return g


def replace_ok(it, h, n, par, at, j):
    x = at(j)
    return conj([z3.Or(h.par(x) == NONE, x == n), allowed(it, x, par)])


def sp_replace(it, self, rep):
    h = it.heap
    if not it.branch(h.par(self) != NONE):
        raise err(it)
    par = h.par(self)
    it.setkind(par, "node")
    if isinstance(rep, z3.ExprRef):
        if not it.branch(replace_ok(it, h, self, par, lambda j: rep, z3.IntVal(0))):
            raise err(it)
        it.heap = replace_heap(it, h, self, par, lambda j: rep, lambda y: ite(eq(y, rep), z3.IntVal(0), z3.IntVal(1)), z3.IntVal(1))
        return None
    if not it.is_seq(rep):
        raise PyExc("TypeError", (), origin="contract")
    n, at, fi = seq_first(it, rep)
    bad = first_bad(it, n, lambda j: replace_ok(it, h, self, par, at, j), "unfit")
    if it.branch(bad < n):
        raise err(it)
    dup = first_bad(it, n, lambda j: fi(at(j)) == j, "dup")
    it.heap = replace_heap(it, h, self, par, at, fi, dup)
    if it.branch(dup < n):
        raise err(it)
    return None


class ReplaceSelf(Contract):
    qual = "nodes.Node.replace_self"

    def cases(self):
        return ["single", "sequence"]

    def setup(self, it):
        n = node(it, "self")
        if self.case == "single":
            return (n, node(it, "rep")), {}
        return (n, node_seq(it, "reps")), {}

    def spec(self, it, args, kwargs):
        return sp_replace(it, args[0], args[1] if len(args) > 1 else kwargs["replacement"])

    def loops(self, it):
        return [ReplaceLoop(self)] if self.case == "sequence" else []


class ReplaceLoop(LoopSpec):
    """The insertion loop (the checking loop changes nothing and needs no invariant)."""

    def __init__(self, c):
        super().__init__(name="replacement loop")
        self.c = c

    def matches(self, it, kind, st, stream):
        import ast
        return kind == "seq" and any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) or
                                     isinstance(x, ast.Attribute) and x.attr in ("insert", "append") for b in st.body for x in ast.walk(b))

    def start(self, it, fr, stream):
        self.base = it.entry_heap
        self.n, self.at, self.fi = seq_first(it, self.c.args[1])
        self.par = self.base.par(self.c.args[0])

    def heap_at(self, it, k):
        return replace_heap(it, self.base, self.c.args[0], self.par, self.at, self.fi, k)

    def rel(self, it, k):
        j = z3.Int("j!a")
        pc = it.pc
        ok = self.fi(self.at(j)) == j
        it.pc = pc
        return [("no replacement so far was given twice", forall_([j], z3.Implies(z3.And(j >= 0, j < k), ok)))]


class CheckParent(Contract):
    qual = "nodes.Node._check_parent_type"

    def setup(self, it):
        c = it.choose(2)
        return (node(it, "self"), node(it, "par", nwc=True) if c == 0 else None), {}

    def spec(self, it, args, kwargs):
        p = args[1] if len(args) > 1 else kwargs["node"]
        if p is None:
            return None
        if isinstance(p, z3.ExprRef) and it.kind(p) != "node" and it.branch(p == NONE):
            return None
        if not it.branch(allowed(it, args[0], p)):
            raise err(it)
        return None


CONTRACTS = [Append(), Prepend(), Remove(), Clear(), RemoveSelf(), ReplaceSelf(), CheckParent()]
