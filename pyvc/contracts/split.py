"""add_necessary_subproofs: every non-empty step becomes a statement, followed by at most one subproof (property C09).

The traversal runs while its document is restructured, so the contract of traverse used here speaks of the set of
nodes visited so far, at every moment of an arbitrary run: TraverseVisits."""
from contracts.base import *  # noqa: F401,F403
from contracts.base import Contract, LoopSpec
from contracts.order import tree
from contracts.nodes_query import Traverse, FirstOfType, one_stack, arg
from contracts.tform import transformer
from contracts.compose import Compose

STRUCT = ("_parent", "_children", "$len", "$elt", "$alloc")


# ---------------------------------------------------------------- what a traversal visits
def closed_above(h, Vis, root):
    """Visited nodes hang below visited nodes."""
    return lambda x: z3.Implies(Vis(x), z3.Or(x == root, Vis(h.par(x))))


def rely(it, h0, h, Vis, root):
    """What the consumer of a traversal may do between two nodes: [(name, body, pattern)].
    Vis: the nodes visited before the current one."""
    return [
        ("nodes stay nodes", lambda x: z3.Implies(h0.alloc(x), h.alloc(x)), lambda x: h.alloc(x)),
        ("visited nodes keep their place", lambda x: z3.Implies(z3.And(live(it, h0, x), z3.Or(Vis(x), x == root)), h.par(x) == h0.par(x)), lambda x: h.par(x)),
        ("no child of a visited node is moved", lambda x: z3.Implies(z3.And(live(it, h0, x), h0.par(x) != NONE, Vis(h0.par(x))), h.par(x) == h0.par(x)), lambda x: h.par(x)),
        ("visited nodes get no child", lambda x: z3.Implies(z3.And(live(it, h, x), h.par(x) != NONE, Vis(h.par(x))), z3.And(live(it, h0, x), h0.par(x) == h.par(x))), lambda x: h.par(x)),
    ]


class TraverseVisits(Traverse):
    """Whatever is done between yields within `rely`: every yielded node is a matching node of the document, not
    visited before, the root or a child of a visited node; every matching visited node has been yielded, once; at
    the end the root and every child of a visited node have been visited."""

    def verify(self, it):
        f = it.func(self.qual)
        for case in self.cases():
            self.case = case

            def thunk():
                args, kwargs = self.setup(it)
                self.root = root = args[0]
                it.assume(it.heap.par(root) == NONE)
                it.pre = it.pc
                it.verifying = self.qual
                self.done = False

                def hook(v):
                    v = it.to_U(v)
                    lp = self.loop
                    it.oblige("what is yielded is the node being visited", v == lp.t)
                    self.ys += 1
                    h0 = it.heap
                    it.nfresh += 1
                    it.heap = h = Heap(f"Y{it.nfresh}")
                    for nm, body, pat in rely(it, h0, h, lp.Vis, root):
                        x = z3.Const("x!y", U)
                        it.assume(z3.ForAll([x], body(x), patterns=[pat(x)]))
                    for _, w in wf(it, h):
                        it.assume(w)
                    self.last = h
                it.yield_hook = hook
                self.loop = VisitLoop(self)
                it.loopspecs = [self.loop]
                try:
                    try:
                        it.call_func(f, list(args), dict(kwargs))
                    finally:
                        it.verifying, it.yield_hook, it.loopspecs = None, None, []
                except PyExc as e:
                    it.oblige(f"no exception ({e.name} from {e.origin})", neg(TRUE) if self.bad is None or self.done else self.bad)
                    return
                it.oblige("the traversal ran its loop", z3.BoolVal(self.done))
            it.run_all(f"{self.qual} [nodes visited, {case}]", thunk)


class VisitLoop(LoopSpec):
    """The stack holds exactly the unvisited nodes that are the root or a child of a visited node, each once."""

    def __init__(self, c):
        super().__init__(kinds=("while",), name="traversal loop")
        self.c = c

    def enter(self, it, fr, stream, st):
        self.c.done = True
        self.c.ys = 0
        self.stack = one_stack(it, fr)
        self.t = None
        self.Vis = lambda x: FALSE
        self.where = lambda x: z3.IntVal(0)
        self.c.last = it.heap

    def local(self, it, name, v0, k):
        if isinstance(v0, VList) and v0.oid == self.stack.oid:
            return v0
        return NotImplemented

    def manages(self, it, oid):
        return oid == self.stack.oid

    def invariant(self, it, h, n, at, Vis, where):
        root = self.c.root
        lv = lambda x: conj([live(it, h, x), x != NONE])
        inr = lambda q: z3.And(q >= 0, q < n)
        pend = lambda x: conj([lv(x), neg(Vis(x)), z3.Or(x == root, z3.And(h.par(x) != NONE, Vis(h.par(x))))])
        return [
            ("visited nodes are nodes of the document", [U], lambda x: z3.Implies(Vis(x), lv(x)), None),
            ("visited nodes hang below visited nodes", [U], lambda x: z3.Implies(Vis(x), z3.Or(x == root, z3.And(h.par(x) != NONE, Vis(h.par(x))))), None),
            ("pending nodes are unvisited, the root or below a visited node", [I], lambda q: z3.Implies(inr(q), pend(at(q))), lambda q: at(q)),
            ("each node is pending once", [I], lambda q: z3.Implies(inr(q), where(at(q)) == q), lambda q: at(q)),
            ("nothing is forgotten", [U], lambda x: z3.Implies(pend(x), z3.And(inr(where(x)), at(where(x)) == x)), lambda x: h.par(x)),
        ]

    def check(self, it, fr, k, label):
        h = it.heap
        c = self.c
        n, raw = it.seq_parts(self.stack)
        n = it.int_(n)
        at = lambda q: it.to_U(pure(it, lambda: raw(it.int_(q))))
        Vis, where = self.Vis, self.where
        if self.t is not None:
            t, m, st, V0, w0 = self.hist
            Vis = lambda x: z3.Or(V0(x), x == t)
            # children of the visited node enter the stack from the last to the first
            where = lambda x: z3.If(z3.And(h.par(x) == t, x != c.root), m - 1 + h.nk(t) - 1 - h.pos(x), w0(x))
            if c.ys > 1:
                it.oblige(f"{self.name}: each node is yielded at most once", FALSE)
            want = c.pred(t)
            it.oblige(f"{self.name}: matching nodes, and only they, are yielded", want if c.ys else neg(want))
            it.assume(live(it, h, t) == live(it, h, t))
        heap_eq(it, f"{self.name}: traversal changes nothing {label}", h, c.last, strict=True)
        for name, sorts, body, pat in self.invariant(it, h, n, at, Vis, where):
            vs = [it.fresh(f"v{j}", s) for j, s in enumerate(sorts)]
            it.oblige(f"{self.name}: {name} {label}", body(*vs))

    def havoc(self, it, fr, k):
        c = self.c
        it.nfresh += 1
        it.heap = h = c.last = Heap(f"Y{it.nfresh}")
        for _, w in wf(it, h):
            it.assume(w)
        it.assume(h.par(c.root) == NONE, live(it, h, c.root))
        m, st = it.fresh("m", I), it.fresh_fn("st", I, U)
        Vis, where = it.fresh_fn("Vis", U, B), it.fresh_fn("where", U, I)
        it.assume(m >= 0)
        for name, sorts, body, pat in self.invariant(it, h, m, st, Vis, where):
            vs = [z3.Const(f"v{j}!w", s) for j, s in enumerate(sorts)]
            it.assume(z3.ForAll(vs, body(*vs), patterns=[pat(*vs) if pat else Vis(*vs)]))
        self.Vis, self.where = Vis, where

        def at(i):
            i = it.int_(i)
            x = st(i)
            it.setkind(x, "node")
            it.assume(z3.Implies(z3.And(i >= 0, i < m), conj([live(it, h, x), x != NONE])))
            return x
        it.store[self.stack.oid] = VSeq(m, at, "list")
        self.t = st(m - 1)
        self.hist = (self.t, m, st, Vis, where)
        c.ys = 0

    def leave(self, it, fr, k):
        """The stack is empty."""
        h, V, root = it.heap, self.Vis, self.c.root
        n, _ = it.seq_parts(self.stack)
        x = it.fresh("x")
        it.oblige(f"{self.name}: at the end the root has been visited", V(root))
        it.oblige(f"{self.name}: at the end the children of visited nodes have been visited",
                  implies(conj([live(it, h, x), x != NONE, h.par(x) != NONE, V(h.par(x))]), V(x)))
        self.t = None


# ---------------------------------------------------------------- splitting
class Split(Contract):
    qual = "transformer.Transformer.add_necessary_subproofs"

    def __init__(self, owner=None):
        self.owner = owner

    def prepare(self, it, h0, root):
        self.h0, self.root = h0, root
        self.sp = sp = it.fresh_fn("splitpoint", U, I)
        n, i = z3.Const("n!s", U), z3.Int("i!s")
        inner = lambda x: z3.Or(it.in_class(x, it.class_of("Step")), it.in_class(x, it.class_of("Subproof")))
        it.assume(z3.ForAll([n], z3.Implies(live(it, h0, n), conj([sp(n) >= 0, sp(n) <= h0.nk(n), z3.Implies(sp(n) < h0.nk(n), inner(h0.kid(n, sp(n))))])), patterns=[sp(n)]))
        it.assume(z3.ForAll([n, i], z3.Implies(conj([live(it, h0, n), i >= 0, i < sp(n)]), neg(inner(h0.kid(n, i)))), patterns=[z3.MultiPattern(sp(n), h0.kid(n, i))]))

    def step(self, it, x):
        return it.in_class(x, it.class_of("Step"))

    def sub(self, it, x):
        return it.in_class(x, it.class_of("Subproof"))

    def explicit(self, it, s):
        """The step has a subproof of its own, before any sub-step."""
        h0, sp = self.h0, self.sp
        return conj([sp(s) < h0.nk(s), self.sub(it, h0.kid(s, sp(s)))])

    def facts(self, it, h, D):
        """Relation of the document h to the one before, when exactly the steps in D have been split."""
        h0, sp = self.h0, self.sp
        K, NK = h0.kid, h0.nk
        lv0 = lambda x: conj([live(it, h0, x), x != NONE])
        split = lambda s: conj([D(s), lv0(s), self.step(it, s), NK(s) > 0])
        taken = lambda e: conj([h0.par(e) != NONE, split(h0.par(e)), h0.pos(e) == sp(h0.par(e)), self.sub(it, e)])
        st, sb = (lambda s: h.kid(s, z3.IntVal(0))), (lambda s: h.kid(s, z3.IntVal(1)))
        out = []
        add = lambda name, sorts, body, pat: out.append((name, sorts, body, pat))
        add("everything that existed still exists", [U], lambda x: z3.Implies(h0.alloc(x), h.alloc(x)), lambda x: h.alloc(x))
        add("new nodes are statements and subproofs", [U], lambda x: z3.Implies(conj([live(it, h, x), neg(h0.alloc(x))]), it.in_set(x, ["Statement", "Subproof"])), lambda x: h.alloc(x))
        same = lambda n: conj([lv0(n), neg(split(n)), neg(taken(n))])
        add("everything outside split steps keeps its number of children", [U], lambda n: z3.Implies(same(n), h.nk(n) == NK(n)), lambda n: h.chl(n))
        add("everything outside split steps keeps its children", [U, I], lambda n, i: z3.Implies(conj([same(n), i >= 0, i < NK(n)]), h.kid(n, i) == K(n, i)), lambda n, i: h.kid(n, i))
        add("a split step has a statement and at most one subproof", [U], lambda s: z3.Implies(split(s), conj([
            h.nk(s) == z3.If(sp(s) < NK(s), 2, 1), it.in_class(st(s), it.class_of("Statement")), neg(h0.alloc(st(s))),
            z3.Implies(sp(s) < NK(s), self.sub(it, sb(s)))])), lambda s: h.chl(s))
        add("the statement holds what came first", [U], lambda s: z3.Implies(split(s), h.nk(st(s)) == sp(s)), lambda s: h.chl(s))
        add("the statement holds what came first, in order", [U, I], lambda s, i: z3.Implies(conj([split(s), i >= 0, i < sp(s)]), h.kid(st(s), i) == K(s, i)), lambda s, i: K(s, i))
        made = lambda s: conj([split(s), sp(s) < NK(s), neg(self.explicit(it, s))])
        add("a new subproof holds the rest", [U], lambda s: z3.Implies(made(s), conj([neg(h0.alloc(sb(s))), h.nk(sb(s)) == NK(s) - sp(s)])), lambda s: h.chl(s))
        add("a new subproof holds the rest, in order", [U, I], lambda s, i: z3.Implies(conj([made(s), i >= sp(s), i < NK(s)]), h.kid(sb(s), i - sp(s)) == K(s, i)), lambda s, i: K(s, i))
        own = lambda s: conj([split(s), self.explicit(it, s)])
        e = lambda s: K(s, sp(s))
        add("an explicit subproof is the step's subproof", [U], lambda s: z3.Implies(own(s), conj([sb(s) == e(s), h.nk(e(s)) == NK(e(s)) + NK(s) - sp(s) - 1])), lambda s: h.chl(s))
        add("an explicit subproof keeps its children", [U, I], lambda x, i: z3.Implies(conj([lv0(x), taken(x), i >= 0, i < NK(x)]), h.kid(x, i) == K(x, i)), lambda x, i: K(x, i))
        add("an explicit subproof receives what follows it", [U, I], lambda s, i: z3.Implies(conj([own(s), i > sp(s), i < NK(s)]), h.kid(e(s), NK(e(s)) + i - sp(s) - 1) == K(s, i)), lambda s, i: K(s, i))
        return out

    def wellformed(self, it, h):
        return [(f"well formed: {nm}", w) for nm, w in wf(it, h)] + [("the root stays the root", h.par(self.root) == NONE)]

    def assume(self, it, facts):
        for name, sorts, body, pat in facts:
            vs = [z3.Const(f"v{j}!r", s) for j, s in enumerate(sorts)]
            it.assume(z3.ForAll(vs, body(*vs), patterns=[pat(*vs)]))

    def oblige(self, it, facts, where, now=None):
        for name, sorts, body, pat in facts:
            vs = [it.fresh(f"v{j}", s) for j, s in enumerate(sorts)]
            if now is None:
                it.oblige(f"{name} {where}", body(*vs))
                continue
            it.oblige(f"{name} {where} (other nodes)", implies(vs[0] != now, body(*vs)))
            it.oblige(f"{name} {where} (the node split)", body(now, *vs[1:]))

    def effect(self, it, root):
        """Use by callers."""
        h0 = it.heap
        self.prepare(it, h0, root)
        V = it.fresh_fn("Vis", U, B)
        it.nfresh += 1
        it.heap = h = Heap(f"V{it.nfresh}")
        self.assume(it, self.facts(it, h, V))
        for _, w in self.wellformed(it, h):
            it.assume(w)
        T, T0 = tree(it, h, root), tree(it, h0, root)
        T.parent_facts(it)
        T0.parent_facts(it)
        x = z3.Const("x!v", U)
        K, sp = h0.kid, self.sp
        split = lambda s: conj([live(it, h0, s), self.step(it, s), h0.nk(s) > 0])
        it.assume(z3.ForAll([x], z3.Implies(T.inT(x), V(x)), patterns=[T.inT(x)]))
        it.assume(z3.ForAll([x], z3.Implies(T0.inT(x), T.inT(x)), patterns=[T0.inT(x)]))
        it.assume(z3.ForAll([x], z3.Implies(conj([T.inT(x), h0.alloc(x)]), T0.inT(x)), patterns=[T.inT(x)]))
        return T

    def first_of_type(self, it, f, args, kwargs):
        """The original contract; the index it finds is compared with the split point."""
        r = FirstOfType().spec(it, args, kwargs)
        if isinstance(r, tuple):
            x = args[0]
            got = self.h0.nk(x) if r[1] is None else it.int_(r[1])
            if it.proves(got == self.sp(x)):
                it.oblige("the position found is the split point", got == self.sp(x))
                it.assume(got == self.sp(x))
        return r

    def verify(self, it):
        def thunk():
            t, root = transformer(it)
            for _, w in wf(it, it.heap):
                it.assume(w)
            self.prepare(it, it.heap, root)
            it.pre = it.pc
            it.verifying = self.qual
            loop = SplitLoop(self)
            it.loopspecs = [loop]
            saved = it.contracts.get("nodes.Node.first_of_type")
            it.contracts["nodes.Node.first_of_type"] = self.first_of_type
            try:
                it.call_func(it.func(self.qual), [t], {})
            except PyExc as e:
                it.oblige(f"no exception ({e.name} from {e.origin})", FALSE)
                return
            finally:
                it.verifying, it.loopspecs = None, []
                it.contracts["nodes.Node.first_of_type"] = saved
            if loop.Vis is None:
                it.oblige("the document is traversed", FALSE)
                return
            h = it.heap
            if h is not loop.final:
                heap_eq(it, "nothing is changed after the loop", h, loop.final, strict=True)
                it.heap = h = loop.final
            self.result(it, h, loop)
        it.run_all(f"{self.qual} [C09]", thunk)

    def result(self, it, h, loop):
        """Both documents as wholes: nothing is lost, nothing appears from elsewhere, every step is split."""
        root, h0, V, sp = self.root, self.h0, loop.Vis, self.sp
        K, NK = h0.kid, h0.nk
        T, T0 = tree(it, h, root), tree(it, h0, root)
        T.parent_facts(it)
        T0.parent_facts(it)
        y = z3.Const("y!i", U)

        def induct(name, T, claim, hint=None, cases=None):
            """claim holds of every node of T, if of each node all earlier ones satisfy it."""
            pc = it.pc
            x = it.fresh("x")
            it.assume(T.inT(x), z3.ForAll([y], z3.Implies(z3.And(T.inT(y), T.px(y) < T.px(x)), claim(y)), patterns=[T.inT(y)]))
            it.assume(T.inT(T.h.par(x)) == T.inT(T.h.par(x)))
            if hint:
                hint(x)
            cs = [(f" ({nm})", c) for nm, c in cases(x)] if cases else []
            cs.append((" (otherwise)" if cs else "", conj([neg(c) for _, c in cs])))
            for nm, c in cs:
                it.oblige(name + nm, implies(c, claim(x)))
            it.pc = pc
            it.assume(z3.ForAll([y], z3.Implies(T.inT(y), claim(y)), patterns=[T.inT(y)]))

        def children(T):
            """Children of a tree's nodes are in the tree."""
            g, o = T.h, T.o
            n, i = it.fresh("n"), it.fresh("i", I)
            c, at = g.kid(n, i), o.off(n, i)
            it.assume(implies(z3.And(T.inT(n), i >= 0, i < g.nk(n)), z3.And(
                o.at_child(n, i, z3.IntVal(0)), at >= 1, at + o.size(c) <= o.size(n), o.size(c) >= 1, o.P(c, z3.IntVal(0)) == c, live(it, g, c),
                o.P(T.root, T.px(n) + at) == o.P(n, at), T.inT(o.P(n, at)))))
            it.oblige("children of a tree's nodes are in the tree", implies(z3.And(T.inT(n), i >= 0, i < g.nk(n)), T.inT(c)))
            m, j = z3.Const("n!i", U), z3.Int("i!i")
            it.assume(z3.ForAll([m, j], z3.Implies(z3.And(T.inT(m), j >= 0, j < g.nk(m)), T.inT(g.kid(m, j))), patterns=[g.kid(m, j)]))
        children(T)
        children(T0)
        induct("every node of the final document has been visited", T, V)
        split = lambda s: conj([live(it, h0, s), self.step(it, s), NK(s) > 0])
        mention = lambda *ts: [it.assume(z3.Function(f"seen{t.sort()}", t.sort(), B)(t)) for t in ts]       # brings the terms to the solvers' attention

        def at_place(x):
            p = h0.par(x)
            mention(K(p, h0.pos(x)), sp(p), h.chl(p), h.kid(p, h0.pos(x)), K(p, sp(p)), h0.par(p), h.kid(p, z3.IntVal(0)), h.kid(p, z3.IntVal(1)), h.chl(h0.par(p)))
            own = conj([T0.inT(p), live(it, h0, p), h0.nk(p) > 0, h0.kid(p, h0.pos(x)) == x, T.inT(p), V(p), p != NONE])
            return p, h0.pos(x), own
        gone = lambda p: conj([h0.par(p) != NONE, split(h0.par(p)), V(h0.par(p)), h0.pos(p) == sp(h0.par(p)), self.sub(it, p)])

        def where(x):
            p, i, own = at_place(x)
            st = self.step(it, p)
            return [("the root", x == root),
                    ("below no step", conj([own, neg(st), neg(gone(p))])),
                    ("below an explicit subproof", conj([own, neg(st), gone(p)])),
                    ("the first part of a step", conj([own, st, i < sp(p)])),
                    ("the second part of a step", conj([own, st, i >= sp(p), neg(self.explicit(it, p))])),
                    ("an explicit subproof", conj([own, st, i == sp(p), self.explicit(it, p)])),
                    ("after an explicit subproof", conj([own, st, i > sp(p), self.explicit(it, p)]))]
        induct("nothing is lost", T0, lambda x: T.inT(x), at_place, where)

        def from_place(x):
            p = h.par(x)
            g = h.par(p)
            mention(h.kid(p, h.pos(x)), h.kid(g, h.pos(p)), K(p, h.pos(x)), K(g, h.pos(x)), K(g, sp(g) + h.pos(x)), K(g, sp(g)), K(p, sp(p)), h.chl(p), h.chl(g), h0.par(p), sp(p), sp(g),
                    K(h0.par(p), sp(h0.par(p)) + 1 + h.pos(x) - NK(p)))
        def origin(x):
            p, g, i = h.par(x), h.par(h.par(x)), h.pos(x)
            own = conj([T.inT(p), V(p), live(it, h, p), p != NONE, h.kid(p, i) == x, i >= 0, i < h.nk(p)])
            old, st = h0.alloc(p), self.step(it, p)
            part = conj([neg(old), T.inT(g), T0.inT(g), split(g), V(g), h.kid(g, h.pos(p)) == p, h.pos(p) >= 0, h.pos(p) < h.nk(g)])
            return [("the root", x == root),
                    ("below no step", conj([own, old, T0.inT(p), neg(st), neg(gone(p))])),
                    ("below an explicit subproof, of its own", conj([own, old, T0.inT(p), neg(st), gone(p), i < NK(p)])),
                    ("below an explicit subproof, received", conj([own, old, T0.inT(p), neg(st), gone(p), i >= NK(p)])),
                    ("part of a step", conj([own, old, T0.inT(p), st])),
                    ("in a statement", conj([own, part, h.pos(p) == 0])),
                    ("in a new subproof", conj([own, part, h.pos(p) == 1, neg(self.explicit(it, g))])),
                    ("in another subproof", conj([own, part, h.pos(p) == 1, self.explicit(it, g)]))]
        induct("nothing appears from elsewhere", T, lambda x: z3.If(h0.alloc(x), T0.inT(x), z3.And(h.par(x) != NONE, T0.inT(h.par(x)), split(h.par(x)))), from_place, origin)
        x = it.fresh("x")
        it.oblige("every non-empty step of the document has been split", implies(conj([T0.inT(x), split(x)]), V(x)))


class SplitLoop(LoopSpec):
    anytime = True

    def __init__(self, c):
        super().__init__(("traverse",), "splitting loop")
        self.c = c
        self.Vis = None

    def start(self, it, fr, stream):
        self.Vis = lambda x: FALSE
        self.now = None
        self.stream = stream
        it.oblige(f"{self.name}: traverses the document", stream.meta["root"] == self.c.root)

    def facts(self, it, h):
        return self.c.facts(it, h, self.Vis)

    def check(self, it, fr, k, label):
        self.c.oblige(it, self.facts(it, it.heap), f"({self.name}) {label}", self.now)
        h, v = it.heap, self.now
        for n, (nm, w) in enumerate(self.c.wellformed(it, h)):
            if v is None or n != 0:
                it.oblige(f"{self.name}: {nm} {label}", w)
                continue
            x, i = it.fresh("n"), it.fresh("i", I)
            y0, y1 = h.kid(v, z3.IntVal(0)), h.kid(v, z3.IntVal(1))
            body = lambda x: implies(conj([live(it, h, x), i >= 0, i < h.nk(x)]), conj([live(it, h, h.kid(x, i)), h.par(h.kid(x, i)) == x, h.pos(h.kid(x, i)) == i, isnwc(it, x), allowed(it, h.kid(x, i), x)]))
            it.oblige(f"{self.name}: {nm} {label} (the node split)", body(v))
            it.oblige(f"{self.name}: {nm} {label} (its statement)", implies(h.nk(v) > 0, body(y0)))
            it.oblige(f"{self.name}: {nm} {label} (its subproof)", implies(h.nk(v) > 1, body(y1)))
            it.oblige(f"{self.name}: {nm} {label} (other nodes)", implies(conj([x != v, z3.Or(h.nk(v) < 1, x != y0), z3.Or(h.nk(v) < 2, x != y1)]), body(x)))

    def havoc(self, it, fr, k):
        c = self.c
        it.nfresh += 1
        it.heap = h = Heap(f"V{it.nfresh}")
        self.Vis = V = it.fresh_fn("Vis", U, B)
        c.assume(it, self.facts(it, h))
        for _, w in c.wellformed(it, h):
            it.assume(w)
        x = z3.Const("x!v", U)
        it.assume(z3.ForAll([x], z3.Implies(V(x), conj([live(it, h, x), x != NONE, z3.Or(x == c.root, z3.And(h.par(x) != NONE, V(h.par(x))))])), patterns=[V(x)]))
        it.assume(live(it, h, c.root))

    def item(self, it, stream, k):
        t, V, h = node(it, "visited"), self.Vis, it.heap
        it.assume(neg(V(t)), z3.Or(t == self.c.root, z3.And(h.par(t) != NONE, V(h.par(t)))))
        return t

    def body_start(self, it, fr, k, v, run):
        self.hb = h = it.heap
        if run:
            c, h0 = self.c, self.c.h0
            i = z3.Int("i!b")
            s = c.sp(v)
            for nm, g in [("a step not split yet has its own children", conj([live(it, h0, v), h.nk(v) == h0.nk(v)])),
                          ("its explicit subproof has its own children", implies(c.explicit(it, v), conj([live(it, h0, h0.kid(v, s)), h0.par(h0.kid(v, s)) == v, h.nk(h0.kid(v, s)) == h0.nk(h0.kid(v, s))])))]:
                it.oblige(f"{self.name}: {nm}", g)
                it.assume(g)
            j = it.fresh("j", I)
            g = lambda j: implies(conj([j >= 0, j < h0.nk(v)]), h.kid(v, j) == h0.kid(v, j))
            it.oblige(f"{self.name}: a step not split yet has its own children, in order", g(j))
            it.assume(z3.ForAll([i], g(i), patterns=[h0.kid(v, i)]), z3.ForAll([i], g(i), patterns=[h.kid(v, i)]))

    def body_end(self, it, fr, k, v, run):
        c, V, h0, h = self.c, self.Vis, self.hb, it.heap
        v = it.to_U(v)
        if h is not h0:
            for nm, body, _ in rely(it, h0, h, V, c.root):
                it.oblige(f"{self.name}: while the traversal runs, {nm}", body(it.fresh("x")))
            x = it.fresh("x")
            for f in sorted(set(h.maps) | set(h0.maps)):
                if f in STRUCT or f.startswith("#") or h.m(f) is h0.m(f):
                    continue
                it.oblige(f"{self.name}: attribute {f} of existing nodes is kept", implies(live(it, h0, x), eq(h.get(f, x), h0.get(f, x))))
        self.Vis = lambda x: z3.Or(V(x), x == v)
        self.now = v

    def leave(self, it, fr, n):
        V, h, root = self.Vis, it.heap, self.c.root
        self.final = h
        x = z3.Const("x!v", U)
        it.assume(V(root), z3.ForAll([x], z3.Implies(conj([live(it, h, x), x != NONE, h.par(x) != NONE, V(h.par(x))]), V(x)), patterns=[h.par(x)]))


def units(it):
    s = Split()
    return [("nodes visited", lambda: TraverseVisits().verify(it)), ("splitting", lambda: s.verify(it))]
