"""Shared vocabulary of the contracts: well-formed document heaps, frames, loop specifications."""
import z3

from logic import *  # noqa: F401,F403
from values import *  # noqa: F401,F403
from interp import Interp, Stream, forall_, REPO  # noqa: F401


class LoopSpec:
    """Loop invariant.  rel(k): relational facts; heap_at(k): functional heap (or None: heap unchanged)."""
    nested = ()
    anytime = False         # the loop's argument does not depend on the order of the traversal

    def item(self, it, stream, k):
        if not self.anytime:
            return stream.at(k)
        t = node(it, "visited")         # weak contract of traverse (TraverseAny): some live node
        return t

    def __init__(self, kinds=("seq",), name="loop"):
        self.kinds, self.name = kinds, name
        self.nested = []

    def frame(self, it, stream, k):
        it.traversal_frame(stream, k, self.name)

    def matches(self, it, kind, st, stream):
        return kind in self.kinds

    # to override
    def start(self, it, fr, stream):
        pass

    def rel(self, it, k):
        return []

    def heap_at(self, it, k):
        return self.h0

    def local(self, it, name, v0, k):
        return NotImplemented

    def manages(self, it, oid):
        return False

    def on_break(self, it, fr, k):
        raise Unsupported("break out of a loop with an invariant")

    # driver protocol
    def enter(self, it, fr, stream, st):
        self.h0 = it.heap
        self.ev0 = it.events
        self.st0 = dict(it.store)
        self.stream = stream
        self.start(it, fr, stream)

    def check(self, it, fr, k, label):
        for nm, f in self.rel(it, k):
            it.oblige(f"{self.name}: {nm} {label}", f)
        h = self.heap_at(it, k)
        if h is not None:
            heap_eq(it, f"{self.name}: document state {label}", it.heap, h, strict=True)
        if it.events is not self.ev0:
            self.events_changed(it, k)

    def events_changed(self, it, k):
        raise Unsupported("loop with effects needs an event invariant")

    def havoc(self, it, fr, k):
        h = self.heap_at(it, k)
        if h is not None:
            it.heap = h
        for nm, f in self.rel(it, k):
            it.assume(f)

    def body_start(self, it, fr, k, v, run):
        pass

    def body_end(self, it, fr, k, v, run):
        pass

    def leave(self, it, fr, k):
        pass


class Candidates(LoopSpec):
    """Loop invariant selected from candidate facts about each integer local: the facts that do not
    hold on entry or are not preserved are dropped; the rest are proof obligations."""

    def __init__(self, facts, kinds=("while",), name="loop"):
        super().__init__(kinds, name)
        self.facts = facts          # [(name, fn(it, x))]

    def enter(self, it, fr, stream, st):
        self.fr, self.st, self.cur, self.vars = fr, st, {}, set()
        super().enter(it, fr, stream, st)

    def value(self, it, nm):
        v = it.store[self.fr.fid].get(nm)
        if isinstance(v, int) and not isinstance(v, bool):
            return z3.IntVal(v)
        return v if isinstance(v, z3.ExprRef) and v.sort() == I else None

    def local(self, it, name, v0, k):
        if self.isint(v0):
            self.vars.add(name)
        elif name not in self.vars:
            return NotImplemented
        if z3.is_int_value(k):
            return v0
        if name not in self.cur:
            self.cur[name] = it.fresh(name, I)
            return self.cur[name]
        v = self.value(it, name)
        if v is None:
            raise Unsupported(f"loop variable {name} is no longer an integer")
        return v

    def isint(self, v):
        return isinstance(v, int) and not isinstance(v, bool) or isinstance(v, z3.ExprRef) and v.sort() == I

    def items(self, it):
        names = self.vars or {nm for nm, v in it.store[self.fr.fid].items() if isinstance(nm, str) and self.isint(v) and nm in it.assigned_names(self.st.body)}
        for nm in sorted(names):
            x = self.value(it, nm)
            for what, f in self.facts:
                key = (id(self.st), nm, what)
                if key not in it.loop_poison and x is not None:
                    yield key, f"{nm} {what}", f(it, x)

    def check(self, it, fr, k, label):
        for key, what, f in list(self.items(it)):
            if not it.proves(f):
                it.loop_poison.add(key)
                raise Restart()
            it.oblige(f"{self.name}: {what} {label}", f)
        h = self.heap_at(it, k)
        if h is not None:
            heap_eq(it, f"{self.name}: document state {label}", it.heap, h, strict=True)
        if it.events is not self.ev0:
            self.events_changed(it, k)

    def havoc(self, it, fr, k):
        for _, _, f in list(self.items(it)):
            it.assume(f)

    def on_break(self, it, fr, k):
        pass


def allowed(it, child, parent):
    """The class of child allows a parent of exactly the class of parent (class tables of the package)."""
    out = []
    groups = {}
    for n in it.facts.order:
        r = it.facts.attr_of(n, "possible_parents")
        if r is None or r[0] != "attr":
            raise Unsupported("possible_parents is not a class attribute")
        names = tuple(x["class"] for x in r[2]["set"])
        if names:
            groups.setdefault(names, []).append(n)
    for names, ns in groups.items():
        out.append(implies(it.in_set(child, ns), it.in_set(parent, names)))
    return conj(out)


def nwc_names(it):
    return [n for n in it.facts.order if it.facts_nwc(n)]


def isnwc(it, n):
    return it.in_set(n, nwc_names(it))


def live(it, h, n):
    return conj([h.alloc(n), it.isnode(n)])


def wf(it, h, tag=""):
    """Well-formed document heap."""
    n, c, a = z3.Const("n!w", U), z3.Const("c!w", U), z3.Const("a!w", U)
    i = z3.Int("i!w")
    kid = h.kid(n, i)
    out = []
    body = z3.Implies(conj([live(it, h, n), i >= 0, i < h.nk(n)]),
                      conj([live(it, h, kid), h.par(kid) == n, h.pos(kid) == i, isnwc(it, n), allowed(it, kid, n)]))
    out.append(("every listed child names its list's owner as parent, once, and is allowed there", forall_([n, i], body, pats(kid, n, i))))
    p = h.par(c)
    body = z3.Implies(conj([live(it, h, c), p != NONE]),
                      conj([live(it, h, p), isnwc(it, p), h.pos(c) >= 0, h.pos(c) < h.nk(p), h.kid(p, h.pos(c)) == c]))
    out.append(("every node with a parent is listed among the parent's children", forall_([c], body, pats(p, c))))
    l = h.chl(n)
    body = z3.Implies(live(it, h, n), conj([h.own(l) == n, h.alloc(l), cls(l) == CLS_LIST, h.ln(l) >= 0,
                                            z3.Or(isnwc(it, n), h.ln(l) == 0)]))
    out.append(("child lists are private to their node", forall_([n], body, pats(l, n))))
    return out


def pats(t, *vs):
    """Pattern usable by the solver, when t is a plain application."""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return [t]
    return None


def heap_eq(it, name, h1, h2, strict=False, alloc_ref=None):
    """Obligations: the real heap h1 and the specified heap h2 agree (ghost fields excepted)."""
    fs = sorted(f for f in set(h1.maps) | set(h2.maps) if h1.m(f) is not h2.m(f))
    n = it.fresh("n")
    i = it.fresh("i", I)
    lists = False
    for f in fs:
        if f.startswith("#"):
            continue
        if f in ("$len", "$elt", "_children"):
            lists = True
            continue
        if f == "$alloc":
            if strict:
                it.oblige(f"{name} (allocation)", h1.alloc(n) == h2.alloc(n))
            continue
        a, b = h1.get(f, n), h2.get(f, n)
        goal = eq(a, b)
        if not strict:
            goal = implies(live(it, h2, n), goal)
        it.oblige(f"{name} (attribute {f})", goal)
    if lists:
        if strict:
            it.oblige(f"{name} (child lists)", eq(h1.chl(n), h2.chl(n)))
            a = n
            it.oblige(f"{name} (list lengths)", eq(h1.ln(a), h2.ln(a)))
            it.oblige(f"{name} (list elements)", implies(conj([i >= 0, i < h2.ln(a)]), eq(h1.el(a, i), h2.el(a, i))))
        else:
            it.oblige(f"{name} (number of children)", implies(live(it, h2, n), eq(h1.nk(n), h2.nk(n))))
            it.oblige(f"{name} (children)", implies(conj([live(it, h2, n), i >= 0, i < h2.nk(n)]), eq(h1.kid(n, i), h2.kid(n, i))))
            other = conj([h2.alloc(n), cls(n) == CLS_LIST, h2.own(n) == NONE])
            it.oblige(f"{name} (other lists' lengths)", implies(other, eq(h1.ln(n), h2.ln(n))))
            it.oblige(f"{name} (other lists' elements)", implies(conj([other, i >= 0, i < h2.ln(n)]), eq(h1.el(n, i), h2.el(n, i))))


def node(it, name, nwc=False, cid=None):
    t = it.fresh(name)
    it.setkind(t, "node")
    it.assume(it.isnode(t), it.heap.alloc(t), t != NONE)
    it.heap.exists(t)
    if nwc:
        it.assume(isnwc(it, t))
    if cid is not None:
        it.assume(it.in_class(t, it.class_of(cid)))
    return t


def node_seq(it, name, kind="list"):
    """An arbitrary finite sequence of nodes, with the first-occurrence function of its elements."""
    n = it.fresh(name + "_n", I)
    xs = it.fresh_fn(name, I, U)
    fi = it.fresh_fn(name + "_first", U, I)
    j, m = z3.Int("j!s"), z3.Const("m!s", U)
    h = it.heap
    it.assume(n >= 0)
    it.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), conj([it.isnode(xs(j)), h.alloc(xs(j)), xs(j) != NONE, fi(xs(j)) <= j])), patterns=[xs(j)]))
    it.assume(z3.ForAll([m], z3.And(fi(m) >= 0, fi(m) <= n, z3.Implies(fi(m) < n, xs(fi(m)) == m)), patterns=[fi(m)]))

    def at(i):
        i = it.int_(i)
        t = xs(i)
        it.setkind(t, "node")
        it.assume(z3.Implies(z3.And(i >= 0, i < n), conj([it.isnode(t), h.alloc(t), t != NONE])))
        return t
    return VSeq(n, at, kind, meta={"fi": fi, "xs": xs})


def seq_first(it, v):
    """(n, at, fi) for any sequence value: fi(m) = first index of m (definable)."""
    n, at = it.seq_parts(v)
    if isinstance(v, VSeq) and v.meta and "fi" in v.meta:
        return it.int_(n), at, v.meta["fi"]
    n = it.int_(n)
    fi = it.fresh_fn("first", U, I)
    j, m = z3.Int("j!s"), z3.Const("m!s", U)
    pc = it.pc
    e = at(j)
    if it.pc is not pc:
        it.pc = pc
    first = z3.Implies(z3.And(j >= 0, j < n), fi(e) <= j)
    it.assume(forall_([j], first, pats(e, j)))
    shifted = by_element(j, first, e) if isinstance(e, z3.ExprRef) else None
    if shifted is not None:
        it.assume(shifted)
    pc = it.pc
    em = at(fi(m))
    it.pc = pc
    it.assume(z3.ForAll([m], z3.And(fi(m) >= 0, fi(m) <= n, z3.Implies(fi(m) < n, em == m)), patterns=[fi(m)]))
    return n, at, fi


def by_element(j, body, e):
    """ForAll j: body, stated by the element e(j) itself when its place in the underlying list is j plus an offset."""
    if pats(e) and e.num_args() and not any(a.eq(j) for a in e.children()):
        for n, a in enumerate(e.children()):
            if a.sort() != I:
                continue
            off = z3.simplify(a - j)
            if j.get_id() in {t.get_id() for t in subterms(off)}:
                continue
            q = z3.Int("q!b")
            eq_ = e.decl()(*[q if m == n else c for m, c in enumerate(e.children())])
            return forall_([q], z3.substitute(z3.substitute(body, (e, eq_)), (j, q - off)), [eq_])
    return None


def subterms(t):
    todo, out = [t], []
    while todo:
        x = todo.pop()
        out.append(x)
        todo.extend(x.children())
    return out


def pure(it, thunk):
    """Evaluate a term without keeping the side assumptions made on bound variables."""
    pc = it.pc
    r = thunk()
    it.pc = pc
    return r


def first_where(it, n, ok, name):
    """The first index in [0, n) at which ok holds, or n."""
    from interp import stream_triggers
    f = it.fresh(name, I)
    j = z3.Int("j!s")
    it.assume(f >= 0, f <= n)
    okj = pure(it, lambda: ok(j))
    it.assume(forall_([j], z3.Implies(z3.And(j >= 0, j < f), neg(okj)), stream_triggers(it, None, j, okj)))
    it.assume(implies(f < n, ok(f)))
    return f


class Contract:
    """Functional contract: spec computes outcome and heap from the entry heap, deterministically."""
    qual = None
    props = ()
    view = True

    def setup(self, it):
        raise NotImplementedError

    def spec(self, it, args, kwargs):
        raise NotImplementedError

    def loops(self, it):
        return []

    def cases(self):
        return [None]

    def __call__(self, it, f, args, kwargs):
        """Use by callers."""
        return self.spec(it, args, kwargs)

    def capture(self, it):
        """Note results held outside the heap before the specification is evaluated."""

    def post(self, it, outcome, h0, h1):
        pass

    wf_on = True

    def verify(self, it):
        f = it.func(self.qual)
        if not isinstance(f, VFunc):
            it.ctx = self.qual
            it.oblige("the function exists", FALSE)
            it.ctx = ""
            return
        for case in self.cases():
            self.case = case

            def thunk():
                args, kwargs = self.setup(it)
                if self.wf_on:
                    for _, w in wf(it, it.heap):
                        it.assume(w)
                h0 = it.heap
                ev0 = it.events
                it.pre = it.pc
                it.entry_heap = it.heap
                it.verifying = self.qual
                it.loopspecs = self.loops(it)
                self.args = args
                try:
                    out = ("return", it.call_func(f, list(args), dict(kwargs)))
                except PyExc as e:
                    out = ("raise", e)
                finally:
                    it.verifying = None
                    it.loopspecs = []
                h1, ev1 = it.heap, it.events
                it.heap, it.events = h0, ev0
                self.capture(it)
                self.judge(it, out, args, kwargs, h0, h1, ev0, ev1)
            it.run_all(self.qual + (f" [{case}]" if case else ""), thunk)

    def judge(self, it, out, args, kwargs, h0, h1, ev0, ev1):
        try:
            exp = ("return", self.spec(it, list(args), dict(kwargs)))
        except PyExc as e:
            exp = ("raise", e)
        h2 = it.heap
        if out[0] != exp[0] or (out[0] == "raise" and out[1].name != exp[1].name):
            it.oblige(f"outcome is as specified ({show(exp)}, but this path ends with {show(out)})", FALSE)
            return
        if out[0] == "return":
            g = it.spec_equal(out[1], exp[1])
            it.oblige("the result is the specified one", g)
        heap_eq(it, "exactly the specified change to the document", h1, h2)
        if h2 is not h0 and self.wf_on:
            for nm, w in wf(it, h2):
                it.oblige(f"well-formedness kept: {nm}", w)
            n = it.fresh("n")
            it.oblige("child lists stay private", implies(live(it, h2, n), h1.own(h1.chl(n)) == n))
        self.post(it, out, h0, h1)


def show(o):
    if o[0] == "raise":
        return f"raises {o[1].name}"
    return "returns"
