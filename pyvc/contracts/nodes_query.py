"""Contracts of the queries and of traversal in rsm/nodes.py (properties C03 and C04)."""
from contracts.base import *  # noqa: F401,F403
from contracts.base import Contract, LoopSpec, first_where
from contracts.nodes_edit import err
from contracts.order import order


def inst(it, x, c):
    r = it.isinstance_(x, c)
    return r if isinstance(r, z3.ExprRef) else z3.BoolVal(r)


def class_args(it, i):
    """One arbitrary class / one arbitrary tuple of classes."""
    return ClsArg(it.fresh("cls")) if i == 0 else ClsArg(it.fresh("classes"), "tuple")


def arg(args, kwargs, i, name, default=None):
    return args[i] if len(args) > i else kwargs.get(name, default)


class Query(Contract):
    """A query: result as specified, document untouched."""


class FirstOfType(Query):
    qual = "nodes.Node.first_of_type"
    last = False

    def cases(self):
        return [(w, r) for w in ("class", "tuple") for r in (False, True)]

    def setup(self, it):
        return (node(it, "self"), class_args(it, self.case[0] != "class")), ({"return_idx": True} if self.case[1] else {})

    def spec(self, it, args, kwargs):
        n, c = args[0], arg(args, kwargs, 1, "cls")
        idx = arg(args, kwargs, 2, "return_idx", False)
        h = it.heap
        ln = h.nk(n)
        it.assume(ln >= 0)
        ok = lambda i: inst(it, h.kid(n, i), c)
        f = last_where(it, ln, ok, "last") if self.last else first_where(it, ln, ok, "first")
        found = it.branch(z3.And(f >= 0, f < ln))
        child = it.setkind(h.kid(n, f), "node") if found else None
        if it.test(idx):
            return (child, f) if found else (None, None)
        return child


class LastOfType(FirstOfType):
    qual = "nodes.Node.last_of_type"
    last = True


def last_where(it, n, ok, name):
    """The last index in [0, n) at which ok holds, or -1."""
    f = it.fresh(name, I)
    j = z3.Int("j!s")
    it.assume(f >= -1, f < n)
    okj = pure(it, lambda: ok(j))
    from interp import stream_triggers
    it.assume(forall_([j], z3.Implies(z3.And(j > f, j < n), neg(okj)), stream_triggers(it, None, j, okj)))
    it.assume(implies(f >= 0, ok(f)))
    return f


class Sibling(Query):
    prev = True

    def cases(self):
        return ["any", "class", "self"]

    def setup(self, it):
        n = node(it, "self")
        if self.case == "any":
            return (n,), {}
        return (n, "self" if self.case == "self" else class_args(it, 0)), {}

    def spec(self, it, args, kwargs):
        n, c = args[0], arg(args, kwargs, 1, "cls")
        h = it.heap
        if it.branch(h.par(n) == NONE):
            return None
        p = h.par(n)
        pos, ln = h.pos(n), h.nk(p)
        if c is None:
            q = pos - 1 if self.prev else pos + 1
            if it.branch(z3.And(q >= 0, q < ln)):
                return it.setkind(h.kid(p, q), "node")
            return None
        if c == "self":
            c = ClsOf(cls(n))
        ok = lambda i: inst(it, h.kid(p, i), c)
        if self.prev:
            f = last_where(it, pos, ok, "last")
            found = it.branch(f >= 0)
        else:
            f = first_where(it, ln, lambda i: z3.And(i > pos, ok(i)), "first")
            found = it.branch(f < ln)
        return it.setkind(h.kid(p, f), "node") if found else None


class PrevSibling(Sibling):
    qual = "nodes.Node.prev_sibling"


class NextSibling(Sibling):
    qual = "nodes.Node.next_sibling"
    prev = False


def exact(it, x, c):
    """type(x) is c (or one of the classes c)."""
    if isinstance(c, ClsArg) and c.what == "tuple":
        i = z3.Int("i!c")
        el = c.as_stream(it).at(i)
        return z3.Exists([i], z3.And(i >= 0, i < c.as_stream(it).n, it.class_identical(ClsOf(cls(x)), el)))
    if isinstance(c, tuple):
        return disj([exact(it, x, k) for k in c])
    r = it.class_identical(ClsOf(cls(x)), c)
    return r if isinstance(r, z3.ExprRef) else z3.BoolVal(bool(r))


def ancestors(it, h, n):
    """A(0) = parent of n, A(k+1) = parent of A(k)."""
    A = it.fresh_fn("anc", I, U)
    k = z3.Int("k!n")
    it.assume(A(z3.IntVal(0)) == h.par(n))
    it.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, A(k) != NONE), A(k + 1) == h.par(A(k))), patterns=[A(k)]))
    return A


class FirstAncestor(Query):
    qual = "nodes.Node.first_ancestor_of_type"

    def cases(self):
        return ["class", "tuple"]

    def setup(self, it):
        return (node(it, "self"), class_args(it, self.case != "class")), {}

    def spec(self, it, args, kwargs):
        n, c = args[0], arg(args, kwargs, 1, "cls")
        h = it.heap
        memo = it.ghost.get(("anc", h.m("_parent").tag, n.get_id()))
        A = ancestors(it, h, n) if memo is None else memo
        it.ghost[("anc", h.m("_parent").tag, n.get_id())] = A
        f = it.fresh("up", I)
        j = z3.Int("j!s")
        it.assume(f >= 0)
        it.assume(forall_([j], z3.Implies(z3.And(j >= 0, j < f), conj([A(j) != NONE, live(it, h, A(j)), neg(exact(it, A(j), c))])), [A(j)]))
        it.assume(z3.Or(A(f) == NONE, z3.And(live(it, h, A(f)), exact(it, A(f), c))))
        it.ghost["up"] = f
        r = A(f)
        it.setkind(r, "ref")
        return r

    def loops(self, it):
        return [AncestorLoop(self)]


class AncestorLoop(LoopSpec):
    def __init__(self, c):
        super().__init__(kinds=("while",), name="ancestor loop")
        self.c = c

    def start(self, it, fr, stream):
        n = self.c.args[0]
        self.A = ancestors(it, it.heap, n)
        it.ghost[("anc", it.heap.m("_parent").tag, n.get_id())] = self.A

    def local(self, it, name, v0, k):
        if isinstance(v0, z3.ExprRef) and v0.sort() == U:
            return it.setkind(self.A(k), "ref")
        return NotImplemented

    def rel(self, it, k):
        A, j = self.A, z3.Int("j!n")
        c = self.c.args[1]
        h = self.h0
        return [("ancestors passed were no match", forall_([j], z3.Implies(z3.And(j >= 0, j < k), conj([A(j) != NONE, neg(exact(it, A(j), c))])), [A(j)])),
                ("ancestors are nodes", forall_([j], z3.Implies(z3.And(j >= 0, j <= k), z3.Or(A(j) == NONE, live(it, h, A(j)))), [A(j)]))]


class TraverseStream(Stream):
    pass


def traverse_stream(it, v):
    h = it.heap
    o = order(it, h)
    n = o.size(v.root)
    it.assume(n >= 1)

    def at(k):
        k = it.int_(k)
        x = o.P(v.root, k)
        it.setkind(x, "node")
        it.assume(z3.Implies(z3.And(k >= 0, k < n), conj([live(it, h, x), x != NONE])))
        return x
    filt = None if v.cond is None else v.cond
    s = TraverseStream(n, at, "traverse", filt, meta={"order": o, "root": v.root, "heap": h})
    return s


class Traverse(Contract):
    qual = "nodes.Node.traverse"
    wf_on = False

    def cases(self):
        return ["all", "condition", "nodeclass", "both"]

    def setup(self, it):
        n = node(it, "self")
        kw = {}
        self.pred = lambda x: TRUE
        self.bad = None
        if self.case in ("condition", "both"):
            p = it.fresh_fn("cond", U, B)
            kw["condition"] = Native("condition", lambda it, a, k: p(a[0]))
            self.pred = lambda x: p(x)
        if self.case in ("nodeclass", "both"):
            c = class_args(it, 0)
            kw["nodeclass"] = c
            self.pred = lambda x: inst(it, x, c)
            self.bad = neg(it.issubclass_(c, it.class_of("Node")))
        for _, w in wf(it, it.heap):
            it.assume(w)
        return (n,), kw

    def __call__(self, it, f, args, kwargs):
        cond, nc = kwargs.get("condition"), kwargs.get("nodeclass")
        if nc is not None:
            if isinstance(nc, VClass):
                if nc.cid is None:
                    raise err(it)
            else:
                raise Unsupported("traverse with an unknown class")
            c = lambda x: it.isinstance_(x, nc)
        elif cond is not None:
            c = lambda x: it.truth(it.call(cond, [x], {}))
        else:
            c = None
        return VTraverse(it, args[0], c)

    def verify(self, it):
        f = it.func(self.qual)
        for case in self.cases():
            self.case = case

            def thunk():
                args, kwargs = self.setup(it)
                self.args = args
                root = args[0]
                # the structure visited: a child list enters it as it is when its owner's visit ends,
                # so it need not be the structure of the document at any one time
                self.o = o = order(it, it.heap)
                it.heap = Heap("Y0")
                it.pre = it.pc
                self.yields = []
                self.last_heap = it.heap
                it.verifying = self.qual

                def hook(v):
                    self.yields.append(v)
                    self.havoc_heap(it)
                it.yield_hook = hook
                it.loopspecs = [TraverseLoop(self)]
                self.done = False
                try:
                    try:
                        r = it.call_func(f, list(args), dict(kwargs))
                    finally:
                        it.verifying, it.yield_hook, it.loopspecs = None, None, []
                except PyExc as e:
                    if self.bad is not None and e.name == "RSMNodeError" and not self.done:
                        it.oblige("an error is raised only for a class that is no node class", self.bad)
                        return
                    it.oblige(f"no exception ({e.name} from {e.origin})", FALSE)
                    return
                if self.bad is not None:
                    it.oblige("a class that is no node class is refused", neg(self.bad))
                it.oblige("the traversal ran its loop", z3.BoolVal(self.done))
                heap_eq(it, "traversal changes nothing", it.heap, self.last_heap, strict=True)
                it.oblige("nothing is yielded outside the loop", z3.BoolVal(not self.yields))
            it.run_all(f"{self.qual} [{case}]", thunk)

    def havoc_heap(self, it):
        it.nfresh += 1
        it.heap = self.last_heap = Heap(f"Y{it.nfresh}")
        t, g = self.current, self.o.h
        if t is not None:
            i = z3.Int("i!y")
            h = it.heap
            it.assume(h.nk(t) == g.nk(t), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < g.nk(t)), h.kid(t, i) == g.kid(t, i)), patterns=[h.kid(t, i)]))


class TraverseAny(Traverse):
    """Whatever happens to the (well-formed) document between yields, only its nodes are yielded."""

    def verify(self, it):
        f = it.func(self.qual)
        for case in self.cases():
            self.case = case

            def thunk():
                args, kwargs = self.setup(it)
                it.pre = it.pc
                it.verifying = self.qual

                def hook(v):
                    v = it.to_U(v)
                    it.oblige("a node of the document is yielded", live(it, it.heap, v))
                    it.oblige("only matching nodes are yielded", self.pred(v))
                    h0 = it.heap
                    it.nfresh += 1
                    it.heap = h = Heap(f"Y{it.nfresh}")
                    x = z3.Const("x!y", U)
                    it.assume(z3.ForAll([x], z3.Implies(h0.alloc(x), h.alloc(x)), patterns=[h.alloc(x)]))
                    for _, w in wf(it, h):
                        it.assume(w)
                    it.assume(live(it, h, v))
                it.yield_hook = hook
                it.loopspecs = [AnyLoop(self)]
                try:
                    try:
                        it.call_func(f, list(args), dict(kwargs))
                    finally:
                        it.verifying, it.yield_hook, it.loopspecs = None, None, []
                except PyExc as e:
                    it.oblige(f"no exception ({e.name} from {e.origin})", neg(TRUE) if self.bad is None else self.bad)
            it.run_all(f"{self.qual} [any edits, {case}]", thunk)


def one_stack(it, fr):
    stacks = []
    for nm, v in it.store[fr.fid].items():
        if isinstance(v, VList) and all(v.oid != x.oid for x in stacks):
            stacks.append(v)
    if len(stacks) != 1:
        raise Unsupported("traversal without a single work list")
    return stacks[0]


class AnyLoop(LoopSpec):
    def __init__(self, c):
        super().__init__(kinds=("while",), name="traversal loop")
        self.c = c

    def enter(self, it, fr, stream, st):
        self.stack = one_stack(it, fr)

    def local(self, it, name, v0, k):
        if isinstance(v0, VList) and v0.oid == self.stack.oid:
            return v0
        return NotImplemented

    def manages(self, it, oid):
        return oid == self.stack.oid

    def check(self, it, fr, k, label):
        n, at = it.seq_parts(self.stack)
        q = it.fresh("q", I)
        e = it.to_U(pure(it, lambda: at(q)))
        it.oblige(f"{self.name}: pending entries are nodes of the document {label}", implies(z3.And(q >= 0, q < it.int_(n)), live(it, it.heap, e)))

    def havoc(self, it, fr, k):
        it.nfresh += 1
        h0 = it.heap
        it.heap = h = Heap(f"Y{it.nfresh}")
        for _, w in wf(it, h):
            it.assume(w)
        m, st = it.fresh("m", I), it.fresh_fn("st", I, U)
        q = z3.Int("q!t")
        it.assume(m >= 0, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m), conj([live(it, h, st(q)), st(q) != NONE])), patterns=[st(q)]))

        def at(i):
            i = it.int_(i)
            x = st(i)
            it.setkind(x, "node")
            it.assume(z3.Implies(z3.And(i >= 0, i < m), conj([live(it, h, x), x != NONE])))
            return x
        it.store[self.stack.oid] = VSeq(m, at, "list")


class TraverseLoop(LoopSpec):
    """Work-list invariant: the stack lists pending subtrees; their preorders are consecutive ranges of P(root)."""

    def __init__(self, c):
        super().__init__(kinds=("while",), name="traversal loop")
        self.c = c

    def enter(self, it, fr, stream, st):
        self.c.done = True
        self.stack = one_stack(it, fr)
        self.ev0 = it.events
        self.hist = None

    def local(self, it, name, v0, k):
        if isinstance(v0, VList) and v0.oid == self.stack.oid:
            return v0
        return NotImplemented

    def manages(self, it, oid):
        return oid == self.stack.oid

    def check(self, it, fr, k, label):
        c, o = self.c, self.c.o
        root = c.args[0]
        h = o.h
        n, at = it.seq_parts(self.stack)
        n = it.int_(n)
        q, j = it.fresh("q", I), it.fresh("j", I)
        entry = lambda i: it.to_U(pure(it, lambda: at(it.int_(i))))
        if self.hist is None:
            so = lambda i: z3.IntVal(0)
        else:
            m, st, so0, t = self.hist
            # new entries lie above the old ones: entry m-1+r is child nk-1-r of the popped node
            so = lambda i: z3.If(i < m - 1, so0(i), (k - 1) + o.off(t, h.nk(t) - 1 - (i - (m - 1))))
            ch = h.nk(t) - 1 - (q - (m - 1))
            it.assume(o.at_child(t, ch, j))
            off_ok = lambda x: z3.Implies(z3.And(x >= 0, x < h.nk(t)), z3.And(o.off(t, x + 1) == o.off(t, x) + o.size(h.kid(t, x)), o.off(t, x) >= 1))
            it.assume(off_ok(ch), off_ok(h.nk(t) - 1), off_ok(z3.IntVal(0)))
            it.assume(o.off(t, h.nk(t)) == o.size(t), o.off(t, z3.IntVal(0)) == 1)
            jj = o.off(t, ch) + j
            it.assume(z3.Implies(z3.And(jj >= 0, jj < o.size(t)), o.P(root, so0(m - 1) + jj) == o.P(t, jj)))
            it.assume(z3.Implies(z3.And(ch >= 0, ch < h.nk(t)), o.off(t, ch) + o.size(h.kid(t, ch)) <= o.size(t)))
        rng = z3.And(q >= 0, q < n)
        e = entry(q)
        heap_eq(it, f"{self.name}: traversal changes nothing {label}", it.heap, c.last_heap, strict=True)
        it.oblige(f"{self.name}: pending entries are nodes {label}", implies(rng, conj([live(it, h, e), so(q) >= 0])))
        it.oblige(f"{self.name}: pending ranges are consecutive {label}",
                  implies(rng, so(q) + o.size(e) == z3.If(q == 0, o.size(root), so(q - 1))))
        it.oblige(f"{self.name}: pending ranges hold the pending subtrees {label}",
                  implies(z3.And(rng, j >= 0, j < o.size(e)), o.P(root, so(q) + j) == o.P(e, j)))
        it.oblige(f"{self.name}: the next node is on top {label}",
                  z3.If(n > 0, so(n - 1) == k, k == o.size(root)))
        if self.hist is not None:
            ys = c.yields
            want = c.pred(self.hist[3])
            x = o.P(root, k - 1)
            if len(ys) > 1:
                it.oblige(f"{self.name}: each node is yielded at most once", FALSE)
            elif ys:
                it.oblige(f"{self.name}: the node yielded is the next in document order", it.to_U(ys[0]) == x)
                it.oblige(f"{self.name}: only matching nodes are yielded", want)
            else:
                it.oblige(f"{self.name}: a matching node is yielded", neg(want))

    def havoc(self, it, fr, k):
        c, o = self.c, self.c.o
        root = c.args[0]
        m = it.fresh("m", I)
        st = it.fresh_fn("st", I, U)
        so = it.fresh_fn("so", I, I)
        q, j = z3.Int("q!t"), z3.Int("j!t")
        h = o.h
        it.assume(m >= 0)
        rng = z3.And(q >= 0, q < m)
        it.assume(z3.ForAll([q], z3.Implies(rng, z3.And(live(it, h, st(q)), so(q) >= 0, so(q) + o.size(st(q)) == z3.If(q == 0, o.size(root), so(q - 1)))), patterns=[st(q)]))
        it.assume(z3.ForAll([q, j], z3.Implies(z3.And(rng, j >= 0, j < o.size(st(q))), o.P(root, so(q) + j) == o.P(st(q), j)), patterns=[z3.MultiPattern(st(q), o.P(st(q), j))]))
        it.assume(z3.If(m > 0, so(m - 1) == k, k == o.size(root)))
        it.assume(z3.Implies(m > 0, z3.And(live(it, h, st(m - 1)), o.P(root, so(m - 1)) == o.P(st(m - 1), z3.IntVal(0)), o.P(st(m - 1), z3.IntVal(0)) == st(m - 1), o.size(st(m - 1)) >= 1)))

        def at(i):
            t = st(it.int_(i))
            it.setkind(t, "node")
            ii = it.int_(i)
            it.assume(z3.Implies(z3.And(ii >= 0, ii < m), it.isnode(t)))
            return t
        it.store[self.stack.oid] = VSeq(m, at, "list")
        c.yields = []
        self.hist = (m, st, so, st(m - 1))
        c.current = st(m - 1)
        c.havoc_heap(it)

    def leave(self, it, fr, k):
        heap_eq(it, f"{self.name}: traversal changes nothing", it.heap, self.c.last_heap, strict=True)
        it.oblige(f"{self.name}: it ends after the last node", k == self.c.o.size(self.c.args[0]))
        self.c.yields = []


class ChildById(Query):
    qual = "nodes.Node.get_child_by_id"

    def setup(self, it):
        x = it.fresh("wanted")
        it.setkind(x, "any")
        return (node(it, "self"), x), {}

    def spec(self, it, args, kwargs):
        n, x = args[0], arg(args, kwargs, 1, "nodeid")
        h = it.heap
        o = order(it, h)
        ln = o.size(n)
        it.assume(ln >= 1)
        f = first_where(it, ln, lambda i: h.get("nodeid", o.P(n, i)) == it.to_U(x), "hit")
        if it.branch(f < ln):
            return it.setkind(o.P(n, f), "node")
        return None


CONTRACTS = [FirstOfType(), LastOfType(), PrevSibling(), NextSibling(), FirstAncestor(), Traverse(), ChildById()]


def install(it):
    it.natives["traverse-stream"] = traverse_stream
