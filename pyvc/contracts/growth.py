"""traverse while the document grows: nodes may get new children behind the ones they had, as long as everything
new stays below new nodes and does not match.  The matching nodes are then visited in the document order of the
document as it was when the traversal began (property C11)."""
from contracts.base import *  # noqa: F401,F403
from contracts.base import LoopSpec
from contracts.nodes_query import Traverse, one_stack
from contracts.order import order


def extension(it, g, h, pred):
    """The document h extends g: [(name, sorts, body, pattern)]."""
    new = lambda x: neg(g.alloc(x))
    lvg = lambda n: conj([live(it, g, n), n != NONE])
    lvh = lambda n: conj([live(it, h, n), n != NONE])
    return [
        ("nodes stay nodes", [U], lambda x: z3.Implies(g.alloc(x), h.alloc(x)), lambda x: h.alloc(x)),
        ("no node loses children", [U], lambda n: z3.Implies(lvg(n), h.nk(n) >= g.nk(n)), lambda n: h.chl(n)),
        ("children stay in place", [U, I], lambda n, i: z3.Implies(conj([lvg(n), i >= 0, i < g.nk(n)]), h.kid(n, i) == g.kid(n, i)), lambda n, i: h.kid(n, i)),
        ("added children are new", [U, I], lambda n, i: z3.Implies(conj([lvg(n), i >= g.nk(n), i < h.nk(n)]), new(h.kid(n, i))), lambda n, i: h.kid(n, i)),
        ("children of new nodes are new", [U, I], lambda n, i: z3.Implies(conj([lvh(n), new(n), i >= 0, i < h.nk(n)]), new(h.kid(n, i))), lambda n, i: h.kid(n, i)),
        ("new nodes do not match", [U], lambda n: z3.Implies(conj([lvh(n), new(n)]), neg(pred(n))), lambda n: h.alloc(n)),
    ]


def assume_all(it, facts):
    for name, sorts, body, pat in facts:
        vs = [z3.Const(f"v{j}!x", s) for j, s in enumerate(sorts)]
        if not vs:
            it.assume(body())
            continue
        try:
            it.assume(z3.ForAll(vs, body(*vs), patterns=[pat(*vs)]))
        except z3.Z3Exception:
            it.assume(z3.ForAll(vs, body(*vs)))


def oblige_all(it, facts, fmt):
    for name, sorts, body, pat in facts:
        vs = [it.fresh(f"v{j}", s) for j, s in enumerate(sorts)]
        it.oblige(fmt.format(name), body(*vs))


class TraverseGrowing(Traverse):
    def verify(self, it):
        f = it.func(self.qual)
        for case in self.cases():
            self.case = case

            def thunk():
                args, kwargs = self.setup(it)
                self.args = args
                self.g = g = it.heap
                self.o = order(it, g)
                it.pre = it.pc
                self.yields = []
                self.last_heap = it.heap
                it.verifying = self.qual

                def hook(v):
                    self.yields.append(v)
                    self.havoc_heap(it)
                it.yield_hook = hook
                it.loopspecs = [GrowingLoop(self)]
                self.done = False
                try:
                    try:
                        it.call_func(f, list(args), dict(kwargs))
                    finally:
                        it.verifying, it.yield_hook, it.loopspecs = None, None, []
                except PyExc as e:
                    it.oblige(f"no exception ({e.name} from {e.origin})", neg(TRUE) if self.bad is None or self.done else self.bad)
                    return
                it.oblige("the traversal ran its loop", z3.BoolVal(self.done))
            it.run_all(f"{self.qual} [growing document, {case}]", thunk)

    def havoc_heap(self, it):
        it.nfresh += 1
        h0 = self.last_heap
        it.heap = self.last_heap = h = Heap(f"Y{it.nfresh}")
        x = z3.Const("x!y", U)
        it.assume(z3.ForAll([x], z3.Implies(h0.alloc(x), h.alloc(x)), patterns=[h.alloc(x)]), z3.ForAll([x], z3.Implies(h0.alloc(x), h.alloc(x)), patterns=[h0.alloc(x)]))
        for _, w in wf(it, h):
            it.assume(w)
        assume_all(it, extension(it, self.g, h, self.pred))


class GrowingLoop(LoopSpec):
    """The stack holds pending subtrees, whose original parts are consecutive ranges of the original order."""

    def __init__(self, c):
        super().__init__(kinds=("while",), name="traversal loop")
        self.c = c

    def enter(self, it, fr, stream, st):
        self.c.done = True
        self.stack = one_stack(it, fr)
        self.hist = None

    def local(self, it, name, v0, k):
        if isinstance(v0, VList) and v0.oid == self.stack.oid:
            return v0
        return NotImplemented

    def manages(self, it, oid):
        return oid == self.stack.oid

    def size(self, e):
        return z3.If(self.c.g.alloc(e), self.c.o.size(e), 0)

    def check(self, it, fr, k, label):
        c, o, g, h = self.c, self.c.o, self.c.g, it.heap
        root = c.args[0]
        n, at = it.seq_parts(self.stack)
        n = it.int_(n)
        q, j = it.fresh("q", I), it.fresh("j", I)
        entry = lambda i: it.to_U(pure(it, lambda: at(it.int_(i))))
        rng = z3.And(q >= 0, q < n)
        e = entry(q)
        if self.hist is None:
            so, cnt = (lambda i: z3.IntVal(0)), z3.IntVal(0)
        else:
            m, st, so0, t, cnt0 = self.hist
            old = g.alloc(t)
            cnt = z3.If(old, cnt0 + 1, cnt0)
            # new entries lie above the old ones: entry m-1+r is child nk-1-r of the popped node
            child = lambda i: h.nk(t) - 1 - (i - (m - 1))
            off = lambda i: z3.If(old, z3.If(i < g.nk(t), o.off(t, i), o.size(t)), 0)
            so = lambda i: z3.If(i < m - 1, so0(i), cnt0 + off(child(i)))
            ch = child(q)
            it.assume(z3.Implies(old, z3.And(o.at_child(t, ch, j), o.off(t, g.nk(t)) == o.size(t), o.off(t, z3.IntVal(0)) == 1, live(it, g, t))))
            for x in (ch, ch + 1, z3.IntVal(0)):
                it.assume(z3.Implies(conj([old, x >= 0, x < g.nk(t)]), z3.And(o.off(t, x + 1) == o.off(t, x) + o.size(g.kid(t, x)), o.off(t, x) >= 1, g.alloc(g.kid(t, x)), o.size(g.kid(t, x)) >= 1)))
            jj = o.off(t, ch) + j
            it.assume(z3.Implies(conj([old, jj >= 0, jj < o.size(t)]), o.P(root, so0(m - 1) + jj) == o.P(t, jj)))
            it.assume(z3.Implies(conj([old, ch >= 0, ch < g.nk(t)]), conj([o.off(t, ch) + o.size(g.kid(t, ch)) <= o.size(t), h.kid(t, ch) == g.kid(t, ch)])))
        heap_eq(it, f"{self.name}: traversal changes nothing {label}", it.heap, c.last_heap, strict=True)
        it.oblige(f"{self.name}: pending entries are nodes {label}", implies(rng, conj([live(it, h, e), so(q) >= 0])))
        it.oblige(f"{self.name}: pending ranges are consecutive {label}", implies(rng, so(q) + self.size(e) == z3.If(q == 0, o.size(root), so(q - 1))))
        it.oblige(f"{self.name}: pending ranges hold the pending subtrees {label}",
                  implies(conj([rng, g.alloc(e), j >= 0, j < o.size(e)]), o.P(root, so(q) + j) == o.P(e, j)))
        it.oblige(f"{self.name}: the next node is on top {label}", z3.If(n > 0, so(n - 1) == cnt, cnt == o.size(root)))
        if self.hist is not None:
            ys = c.yields
            want = c.pred(t)
            if len(ys) > 1:
                it.oblige(f"{self.name}: each node is yielded at most once", FALSE)
            elif ys:
                it.oblige(f"{self.name}: the node yielded is the next in the original order", conj([old, it.to_U(ys[0]) == o.P(root, cnt0)]))
                it.oblige(f"{self.name}: only matching nodes are yielded", c.pred(o.P(root, cnt0)))
            else:
                it.oblige(f"{self.name}: a matching node is yielded", implies(old, neg(c.pred(o.P(root, cnt0)))))

    def havoc(self, it, fr, k):
        c, o, g = self.c, self.c.o, self.c.g
        root = c.args[0]
        c.havoc_heap(it)
        h = it.heap
        m, cnt = it.fresh("m", I), it.fresh("cnt", I)
        st, so = it.fresh_fn("st", I, U), it.fresh_fn("so", I, I)
        q, j = z3.Int("q!t"), z3.Int("j!t")
        it.assume(m >= 0, cnt >= 0)
        rng = z3.And(q >= 0, q < m)
        it.assume(z3.ForAll([q], z3.Implies(rng, conj([live(it, h, st(q)), so(q) >= 0, so(q) + self.size(st(q)) == z3.If(q == 0, o.size(root), so(q - 1))])), patterns=[st(q)]))
        it.assume(z3.ForAll([q, j], z3.Implies(conj([rng, g.alloc(st(q)), j >= 0, j < o.size(st(q))]), o.P(root, so(q) + j) == o.P(st(q), j)), patterns=[z3.MultiPattern(st(q), o.P(st(q), j))]))
        it.assume(z3.If(m > 0, so(m - 1) == cnt, cnt == o.size(root)))
        t = st(m - 1)
        it.assume(z3.Implies(m > 0, conj([live(it, h, t), so(m - 1) >= 0, so(m - 1) + self.size(t) == z3.If(m == 1, o.size(root), so(m - 2))])))
        it.assume(z3.Implies(conj([m > 0, g.alloc(t)]), z3.And(o.P(root, so(m - 1)) == o.P(t, z3.IntVal(0)), o.P(t, z3.IntVal(0)) == t, o.size(t) >= 1)))

        def at(i):
            i = it.int_(i)
            x = st(i)
            it.setkind(x, "node")
            it.assume(z3.Implies(z3.And(i >= 0, i < m), conj([live(it, h, x), x != NONE])))
            return x
        it.store[self.stack.oid] = VSeq(m, at, "list")
        c.yields = []
        self.hist = (m, st, so, t, cnt)
        self.cnt = cnt

    def leave(self, it, fr, k):
        heap_eq(it, f"{self.name}: traversal changes nothing", it.heap, self.c.last_heap, strict=True)
        it.oblige(f"{self.name}: it ends after the last node", self.cnt == self.c.o.size(self.c.args[0]))
        self.c.yields = []
