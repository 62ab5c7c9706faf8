"""Document order: functions defined by recursion over finite trees, and the facts about them used by
the contracts.  Everything except the defining equations is proved by induction (lemmas below)."""
from contracts.base import *  # noqa: F401,F403


class Order:
    """Document order of the (finite) trees given by the child lists of heap h.

    size(n): number of nodes below and including n; P(n, j): the j-th of them in document order;
    off(n, i): how many come before the i-th child's own.  Defined by recursion on the tree."""

    def __init__(self, it, h):
        self.h = h
        self.size = it.fresh_fn("size", U, I)
        self.P = it.fresh_fn("P", U, I, U)
        self.off = it.fresh_fn("off", U, I, I)
        n, i, j = z3.Const("n!o", U), z3.Int("i!o"), z3.Int("j!o")
        size, P, off = self.size, self.P, self.off
        kid = h.kid(n, i)
        lv = live(it, h, n)
        self.defs = [
            z3.ForAll([n], z3.Implies(lv, z3.And(P(n, z3.IntVal(0)) == n, off(n, z3.IntVal(0)) == 1, off(n, h.nk(n)) == size(n))), patterns=[size(n)]),
            z3.ForAll([n, i], z3.Implies(z3.And(lv, i >= 0, i < h.nk(n)), off(n, i + 1) == off(n, i) + size(kid)), patterns=[off(n, i)]),
            z3.ForAll([n, i, j], z3.Implies(z3.And(lv, i >= 0, i < h.nk(n), j >= 0, j < size(kid)), P(n, off(n, i) + j) == P(kid, j)),
                      patterns=[z3.MultiPattern(off(n, i), P(kid, j))] if pats(kid, n) else []),
        ]
        self.lemmas = [
            z3.ForAll([n], z3.Implies(lv, size(n) >= 1), patterns=[size(n)]),
            z3.ForAll([n, i], z3.Implies(z3.And(lv, i >= 0, i < h.nk(n)), z3.And(off(n, i) >= 1, off(n, i) + size(kid) <= size(n))), patterns=[off(n, i)]),
            z3.ForAll([n, j], z3.Implies(z3.And(lv, j >= 0, j < size(n)), live(it, h, P(n, j))), patterns=[P(n, j)]),
        ]
        self.axioms = self.defs + self.lemmas

    def at_child(self, t, i, j):
        """Instance of the recursion equation."""
        h = self.h
        return z3.Implies(z3.And(i >= 0, i < h.nk(t), j >= 0, j < self.size(h.kid(t, i))),
                          self.P(t, self.off(t, i) + j) == self.P(h.kid(t, i), j))


def structure_key(h):
    return (h.m("_children").tag, h.m("$len").tag, h.m("$elt").tag)


def order(it, h):
    key = ("order",) + structure_key(h)
    o = it.ghost.get(key)
    if o is None:
        o = Order(it, h)
        it.ghost[key] = o
        it.assume(*o.axioms)
    return o


class Tree:
    """The tree below root: px(x) is the position of x in document order, in_(x) membership."""

    def __init__(self, it, h, root):
        self.h, self.root = h, root
        self.o = o = order(it, h)
        self.px = it.fresh_fn("px", U, I)
        self.N = o.size(root)
        x, t, j = z3.Const("x!t", U), z3.Const("t!t", U), z3.Int("j!t")
        self.inT = it.fresh_fn("inT", U, B)
        px, P, inT, size, N = self.px, o.P, self.inT, o.size, self.N
        self.axioms = [
            N >= 1, inT(root), px(root) == 0, root != NONE,
            z3.ForAll([x], inT(x) == z3.And(px(x) >= 0, px(x) < N, P(root, px(x)) == x, live(it, h, x)), patterns=[inT(x)]),
            z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N), z3.And(px(P(root, j)) == j, inT(P(root, j)), live(it, h, P(root, j)))), patterns=[P(root, j)]),
        ]
        # the subtree of t is an interval of the document order
        self.axioms.append(z3.ForAll([t], z3.Implies(inT(t), z3.And(px(t) + size(t) <= N, size(t) >= 1)), patterns=[z3.MultiPattern(inT(t), size(t))]))
        self.axioms.append(z3.ForAll([t, j], z3.Implies(z3.And(inT(t), j >= 0, j < size(t)), z3.And(P(root, px(t) + j) == P(t, j), inT(P(t, j)), px(P(t, j)) == px(t) + j)),
                                     patterns=[z3.MultiPattern(inT(t), P(t, j))]))

    def parent_facts(self, it):
        """Every node below the root has its parent in the tree, earlier in document order."""
        h, px, inT, size = self.h, self.px, self.inT, self.o.size
        x, a = z3.Const("x!t", U), z3.Const("a!t", U)
        it.assume(
            z3.ForAll([x], z3.Implies(z3.And(inT(x), x != self.root), z3.And(inT(h.par(x)), px(h.par(x)) < px(x), px(x) + size(x) <= px(h.par(x)) + size(h.par(x)), h.par(x) != NONE)), patterns=[inT(x)]),
            # the subtrees containing x are its own and those containing its parent
            z3.ForAll([x, a], z3.Implies(z3.And(inT(x), inT(a), x != self.root),
                                         self.under(x, a) == z3.Or(h.par(x) == a, self.under(h.par(x), a))), patterns=[z3.MultiPattern(inT(x), inT(a))]))

    def under(self, x, a):
        """x lies strictly below a (interval form)."""
        return z3.And(self.px(a) < self.px(x), self.px(x) < self.px(a) + self.o.size(a))


def tree(it, h, root):
    key = ("tree", root.get_id()) + structure_key(h)
    t = it.ghost.get(key)
    if t is None:
        t = Tree(it, h, root)
        it.ghost[key] = t
        it.keep.append(root)
        it.assume(*t.axioms)
    return t


def induct(it, name, T, claim, hint=None, cases=None):
    """claim holds of every node of T, if of each node all earlier ones satisfy it (induction along document order)."""
    pc = it.pc
    x, y = it.fresh("x"), z3.Const("y!i", U)
    it.assume(T.inT(x), z3.ForAll([y], z3.Implies(z3.And(T.inT(y), T.px(y) < T.px(x)), claim(y)), patterns=[T.inT(y)]))
    seen(it, T.inT(T.h.par(x)))
    if hint:
        hint(x)
    cs = [(f" ({nm})", c) for nm, c in cases(x)] if cases else []
    cs.append((" (otherwise)" if cs else "", conj([neg(c) for _, c in cs])))
    for nm, c in cs:
        it.oblige(name + nm, implies(c, claim(x)))
    it.pc = pc
    it.assume(z3.ForAll([y], z3.Implies(T.inT(y), claim(y)), patterns=[T.inT(y)]))


def seen(it, *ts):
    """Brings the terms to the solvers' attention."""
    for t in ts:
        it.assume(z3.Function(f"seen{t.sort()}", t.sort(), B)(t))


def children(it, T, quiet=False):
    """Children of a tree's nodes are in the tree, later in document order."""
    g, o = T.h, T.o
    m, j = z3.Const("n!i", U), z3.Int("i!i")
    claim = lambda n, i: z3.Implies(z3.And(T.inT(n), i >= 0, i < g.nk(n)), z3.And(T.inT(g.kid(n, i)), T.px(g.kid(n, i)) > T.px(n)))
    if not quiet or ("children", id(T)) not in it.ghost:
        n, i = it.fresh("n"), it.fresh("i", I)
        c, at = g.kid(n, i), o.off(n, i)
        it.assume(implies(z3.And(T.inT(n), i >= 0, i < g.nk(n)), z3.And(
            o.at_child(n, i, z3.IntVal(0)), at >= 1, at + o.size(c) <= o.size(n), o.size(c) >= 1, o.P(c, z3.IntVal(0)) == c, live(it, g, c),
            o.P(T.root, T.px(n) + at) == o.P(n, at), T.inT(o.P(n, at)), T.px(o.P(n, at)) == T.px(n) + at)))
        it.oblige("children of a tree's nodes are in the tree", claim(n, i))
    it.assume(z3.ForAll([m, j], claim(m, j), patterns=[g.kid(m, j)]))


def verify_lemmas(it):
    """The facts assumed by order() and tree(), from the defining equations, by induction."""
    def setup():
        h = it.heap
        for _, w in wf(it, h):
            it.assume(w)
        o = Order(it, h)
        it.assume(*o.defs)
        rank = it.fresh_fn("rank", U, I)
        n, i = z3.Const("n!r", U), z3.Int("i!r")
        # finite trees: a rank decreasing towards the leaves
        it.assume(z3.ForAll([n, i], z3.Implies(conj([live(it, h, n), i >= 0, i < h.nk(n)]), z3.And(rank(h.kid(n, i)) < rank(n), rank(h.kid(n, i)) >= 0)), patterns=[h.kid(n, i)]))
        t = node(it, "t")
        it.pre = it.pc
        return h, o, rank, t

    def sizes():
        h, o, rank, t = setup()
        n, m = z3.Const("n!i", U), it.fresh("m", I)
        it.assume(z3.ForAll([n], z3.Implies(z3.And(live(it, h, n), rank(n) < rank(t), rank(n) >= 0), o.size(n) >= 1), patterns=[o.size(n)]))
        it.assume(h.nk(t) >= 0, o.size(t) == o.off(t, h.nk(t)), o.off(t, z3.IntVal(0)) == 1)
        kid = h.kid(t, m)
        rec = z3.Implies(z3.And(m >= 0, m < h.nk(t)), o.off(t, m + 1) == o.off(t, m) + o.size(kid))
        it.assume(rec)
        it.oblige("offsets are positive: base", o.off(t, z3.IntVal(0)) >= 1)
        it.oblige("offsets are positive: step", implies(conj([m >= 0, m < h.nk(t), o.off(t, m) >= 1]), o.off(t, m + 1) >= 1))
        i = z3.Int("i!p")
        it.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= h.nk(t)), o.off(t, i) >= 1), patterns=[o.off(t, i)]))
        it.oblige("sizes are positive", o.size(t) >= 1)
        it.oblige("offsets stay below the size: base", o.off(t, h.nk(t)) <= o.size(t))
        it.oblige("offsets stay below the size: step", implies(conj([m >= 0, m < h.nk(t), o.off(t, m + 1) <= o.size(t)]), o.off(t, m) <= o.size(t)))
        it.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= h.nk(t)), o.off(t, i) <= o.size(t)), patterns=[o.off(t, i)]))
        it.oblige("a child's nodes lie within the parent's", implies(conj([m >= 0, m < h.nk(t)]), z3.And(o.off(t, m) >= 1, o.off(t, m) + o.size(kid) <= o.size(t))))
        # which child a position belongs to
        w = it.fresh_fn("w", I, I)
        j = z3.Int("j!w")
        jj = it.fresh("jj", I)
        inside = lambda i, j: z3.And(o.off(t, i) <= j, j < o.off(t, i + 1))
        it.assume(m >= 0, m < h.nk(t), z3.ForAll([j], z3.Implies(z3.And(j >= 1, j < o.off(t, m)), z3.And(w(j) >= 0, w(j) < m, inside(w(j), j))), patterns=[w(j)]))
        it.oblige("every later position belongs to a child: step",
                  implies(z3.And(jj >= 1, jj < o.off(t, m + 1)), z3.Or(z3.And(w(jj) >= 0, w(jj) < m, inside(w(jj), jj)), inside(m, jj))))
        it.oblige("every later position belongs to a child: base", neg(z3.And(jj >= 1, jj < o.off(t, z3.IntVal(0)))))

    def positions():
        h, o, rank, t = setup()
        it.assume(*o.lemmas[:2])
        px = it.fresh_fn("px", U, I)
        ci = it.fresh_fn("ci", U, I, I)
        n, j, i = z3.Const("n!i", U), z3.Int("j!i"), z3.Int("i!i")
        # px by recursion along the (finite) chain of parents
        it.assume(z3.ForAll([n], z3.Implies(z3.And(live(it, h, n), h.par(n) != NONE), px(n) == px(h.par(n)) + o.off(h.par(n), h.pos(n))), patterns=[px(n)]))
        j0 = it.fresh("j", I)
        P, size = o.P, o.size

        def claims(t, j, i):
            x = P(t, j)
            rng = z3.And(j >= 0, j < size(t))
            d = px(h.par(x)) - px(t)
            return [("positions below it are live nodes", implies(rng, live(it, h, x))),
                    ("positions count on", implies(rng, px(x) == px(t) + j)),
                    ("subtrees are intervals: end", implies(rng, j + size(x) <= size(t))),
                    ("subtrees are intervals", implies(z3.And(rng, i >= 0, i < size(x)), P(t, j + i) == P(x, i))),
                    ("parents come first", implies(z3.And(rng, j >= 1), z3.And(d >= 0, d < j, P(t, d) == h.par(x), j + size(x) <= d + size(h.par(x)), h.par(x) != NONE)))]
        i0 = it.fresh("i", I)
        k = ci(t, j0)
        kid = h.kid(t, k)
        it.assume(j0 >= 0, j0 < size(t), h.par(t) == h.par(t))
        it.assume(z3.Implies(j0 >= 1, z3.And(k >= 0, k < h.nk(t), o.off(t, k) <= j0, j0 < o.off(t, k + 1))))  # which child: proved above
        it.assume(z3.Implies(j0 >= 1, z3.And(o.off(t, k + 1) == o.off(t, k) + size(kid), rank(kid) < rank(t), live(it, h, kid), h.par(kid) == t, h.pos(kid) == k, o.off(t, k) >= 1,
                                             o.off(t, k) + size(kid) <= size(t))))
        it.assume(P(t, z3.IntVal(0)) == t)
        jk = j0 - o.off(t, k)
        for nm, c in claims(kid, jk, i0):                           # induction hypothesis at the child
            it.assume(z3.Implies(j0 >= 1, c))
        x = P(kid, jk)
        it.assume(z3.Implies(j0 >= 1, z3.And(P(kid, z3.IntVal(0)) == kid, px(kid) == px(t) + o.off(t, k))))
        for q in (jk, jk + i0, px(h.par(x)) - px(kid)):
            it.assume(z3.Implies(j0 >= 1, o.at_child(t, k, q)))
        for nm, c in claims(t, j0, i0):
            it.oblige(nm, c)

    def below():
        h, o, rank, t = setup()
        it.assume(*o.lemmas)
        root = node(it, "root")
        it.assume(h.par(root) == NONE)
        it.ghost[("order",) + structure_key(h)] = o
        T = Tree(it, h, root)
        it.assume(*T.axioms)
        x, a = node(it, "x"), node(it, "a")
        it.assume(T.inT(x), T.inT(a), x != root)
        px, size, P = T.px, o.size, o.P
        p = h.par(x)
        # "parents come first" at (root, px(x))
        d = it.fresh("d", I)
        it.assume(d == px(p) - px(root), d >= 0, d < px(x), P(root, d) == p, px(x) + size(x) <= d + size(p), p != NONE, T.inT(P(root, d)))
        it.assume(size(x) >= 1, size(p) >= 1, px(P(root, d)) == d)
        it.oblige("the parent is in the tree", T.inT(p))
        it.oblige("the parent comes earlier", z3.And(px(p) < px(x), px(x) + size(x) <= px(p) + size(p)))
        # x in the subtree of a, not a itself: "parents come first" at (a, px(x)-px(a))
        q, e = it.fresh("q", I), it.fresh("e", I)
        it.assume(q == px(x) - px(a), e == px(p) - px(a))
        # "subtrees are intervals: end" at (a, px(p)-px(a)), which is p
        it.assume(z3.Implies(T.under(p, a), z3.And(P(a, e) == p, e + size(p) <= size(a))))
        it.assume(z3.Implies(T.under(x, a), z3.And(P(a, q) == x, e >= 0, e < q, P(a, e) == p)))
        it.assume(z3.Implies(z3.And(T.under(x, a), e == 0), P(a, e) == a))
        it.oblige("a subtree containing the node contains its parent or is rooted there", implies(T.under(x, a), z3.Or(p == a, T.under(p, a))))
        it.oblige("a subtree containing the parent contains the node", implies(T.under(p, a), T.under(x, a)))
        it.oblige("the parent's subtree contains the node", T.under(x, p))
    it.run_all("document order [sizes]", sizes)
    it.run_all("document order [positions]", positions)
    it.run_all("document order [ancestors]", below)
