"""The work loop of Translator.translate (C14): each node visited once, in order, and left after its descendants.

What visiting and leaving a single node does to the translator is its contract, proved per class in
emit.py: a visit only appends (BV), its command leaves one deferral exactly when it says so (D), a leave
takes exactly that deferral and only appends (BL), and the document's child lists stay as they are."""
import logic
from contracts.base import *  # noqa: F401,F403
from contracts.base import LoopSpec

F = z3.Function
BV, BL = F("out!visit", U, U, U), F("out!leave", U, U, U)            # output so far, node -> output
DONE, KIDS = F("out!done", U, U, U), F("out!kids", U, U, I, U)       # ... after a subtree / its children from i on
FULL = F("out!full", U, U, U)                                        # ... after all pending work
NILS, NILD = z3.Const("work!none", U), z3.Const("deferred!none", U)
PV, PL = F("work!visit", U, U, U), F("work!leave", U, U, U)          # pending work, node -> pending work
DP = F("deferred!push", U, U, U)
DEF, OKS = F("work!deferred", U, U), F("work!ok", U, B)
D = F("defers", U, B)


def axioms(it):
    x, s, n = z3.Const("x!w", U), z3.Const("s!w", U), z3.Const("n!w", U)
    for P, step in ((PV, DONE(x, n)), (PL, BL(x, n))):
        it.assume(z3.ForAll([x, s, n], FULL(x, P(s, n)) == FULL(step, s), patterns=[FULL(x, P(s, n))]))
        it.assume(z3.ForAll([s, n], P(s, n) != NILS, patterns=[P(s, n)]))
        it.assume(z3.ForAll([s, n], OKS(P(s, n)) == z3.And(OKS(s), live(it, it.heap, n)), patterns=[OKS(P(s, n))]))
    it.assume(z3.ForAll([x], FULL(x, NILS) == x, patterns=[FULL(x, NILS)]))
    it.assume(z3.ForAll([s, n], DEF(PV(s, n)) == DEF(s), patterns=[DEF(PV(s, n))]))
    it.assume(z3.ForAll([s, n], DEF(PL(s, n)) == DP(DEF(s), n), patterns=[DEF(PL(s, n))]))
    it.assume(z3.ForAll([s, n], DP(s, n) != NILD, patterns=[DP(s, n)]))
    it.assume(DEF(NILS) == NILD, OKS(NILS))


def unfold(it, x, n):
    h = it.heap
    k = KIDS(BV(x, n), n, z3.IntVal(0))
    it.assume(DONE(x, n) == z3.If(D(n), BL(k, n), k))
    it.assume(implies(h.nk(n) <= 0, k == BV(x, n)))
    it.assume(disj([isnwc(it, n), h.nk(n) == 0]))       # well-formed: leaf nodes have no children


class Work:
    """The stack of pending work as an algebraic term; `shape` rebuilds an entry as the code pushed it."""

    def __init__(self, t, shape=None):
        self.t, self.shape = t, shape

    def l_append(self, it, l, v):
        kind, n, shape = entry(it, v)
        if kind is None:
            raise Unsupported("unknown kind of work pushed")
        it.store[l.oid] = Work((PV if kind == "visit" else PL)(self.t, n), self.shape or shape)

    def l_pop(self, it, l, idx):
        if idx != -1:
            raise Unsupported("work taken from the middle of the stack")
        it.oblige("work is taken only while there is some", self.t != NILS)
        s, n = it.fresh("rest"), it.fresh("node")
        kind = ("visit", "leave")[it.choose(2)]
        it.assume(self.t == (PV if kind == "visit" else PL)(s, n), self.t != NILS)
        it.assume(implies(OKS(self.t), conj([OKS(s), live(it, it.heap, n)])))
        it.keep.append(n)
        it.setkind(n, "node")
        it.assume(n != NONE, it.isnode(n))
        it.store[l.oid] = Work(s, self.shape)
        it.ghost["popped"] = (kind, n, s)
        return self.shape(kind, n)

    def l_extend(self, it, l, v):
        s = it.stream(v)
        if not isinstance(s, list):
            raise Unsupported("work pushed as a symbolic sequence")
        for x in s:
            it.store[l.oid].l_append(it, l, x)

    def truth(self, it):
        return self.t != NILS


def entry(it, v):
    """(kind, node, rebuild) of an entry of the stack."""
    if not isinstance(v, tuple):
        raise Unsupported("entries of the work list are no tuples")
    kind = n = None
    parts = []
    for x in v:
        if isinstance(x, str) and x in ("visit", "leave"):
            parts.append(lambda k, n: k)
            kind = kind or x
            if kind != x:
                return None, None, None
        elif isinstance(x, Method):
            parts.append(lambda k, n: Method(n, k))
            kind = kind or x.action
            n = x.n if n is None else n
            if kind != x.action or not x.n.eq(n):
                return None, None, None
        elif isinstance(x, z3.ExprRef) and x.sort() == U:
            parts.append(lambda k, n: n)
            if n is not None and not n.eq(x):
                return None, None, None
            n = x
        else:
            raise Unsupported("entries of the work list hold something else")
    mk = (lambda t: NTuple(t, v.cls, v.fields)) if isinstance(v, NTuple) else tuple
    return kind, n, lambda k, n: mk([p(k, n) for p in parts])


class Deferred:
    def __init__(self, t):
        self.t = t

    def truth(self, it):
        return self.t != NILD

    def l_append(self, it, l, v):
        raise Unsupported("the work loop defers something itself")

    l_pop = l_extend = lambda self, *a: self.l_append(*a)


class Method:
    """A visit_ or leave_ method bound to no translator; contract of the methods for any class of nodes."""

    def __init__(self, n, action):
        self.n, self.action = n, action

    def __call__(self, it, args, kwargs):
        if kwargs or len(args) != 2:
            raise Unsupported("visit or leave method called in another way")
        tr, n = args
        it.oblige("the method is called with the translator and its own node", conj([z3.BoolVal(isinstance(tr, VObj) and tr.oid == it.ghost["translator"]), eq(n, self.n)]))
        if self.action == "leave":
            l = it.getattr(tr, "deferred")
            d = it.store[l.oid]
            if not it.ghost.get("popped"):
                raise Unsupported("a leave outside the work loop")
            rest = DEF(it.ghost["popped"][2])
            it.oblige("leave: the newest deferral is the node's own", d.t == DP(rest, n) if isinstance(d, Deferred) else FALSE)
            it.store[l.oid] = Deferred(rest)
        return Command(self.n, self.action)


class Command:
    def __init__(self, n, action):
        self.n, self.action = n, action

    def method(self, it, name):
        if name == "defers":
            if self.action == "visit":
                return D(self.n)
            return it.fresh("defers", B)
        if name == "execute":
            return Native("execute", self.execute)
        raise Unsupported(f"command.{name}")

    def execute(self, it, a, k):
        tr, = a
        d = it.store[tr.oid]
        b = it.to_U(it.getattr(tr, "body"))
        it.setattr(tr, "body", it.setkind((BV if self.action == "visit" else BL)(b, self.n), "str"))
        if self.action == "visit" and it.branch(D(self.n)):
            l = it.getattr(tr, "deferred")
            it.store[l.oid] = Deferred(DP(it.store[l.oid].t, self.n))


def state(it, tr):
    l = it.getattr(tr, "deferred")
    d = it.store[l.oid]
    return it.to_U(it.getattr(tr, "body")), d.t if isinstance(d, Deferred) else NILD if d == () else None, l


def others(it, tr):
    return {k: v for k, v in it.store[tr.oid].items() if k != "body"}


class MainLoop(LoopSpec):
    def __init__(self, c):
        super().__init__(kinds=("while",), name="work loop")
        self.c = c

    def enter(self, it, fr, stream, st):
        self.h0, self.ev0 = it.heap, it.events
        from contracts.nodes_query import one_stack
        self.stack = one_stack(it, fr)
        c = it.store[self.stack.oid]
        if isinstance(c, tuple):
            it.store[self.stack.oid] = Work(NILS)
            for v in c:
                it.store[self.stack.oid].l_append(it, self.stack, v)
        self.tr = self.c.tr
        self.others = others(it, self.tr)
        self.dl = state(it, self.tr)[2]
        self.nested = [KidsLoop(self)]
        self.c.ran = True

    def local(self, it, name, v0, k):
        if isinstance(v0, VList) and v0.oid == self.stack.oid:
            return v0
        return NotImplemented

    def manages(self, it, oid):
        return oid in (self.stack.oid, self.tr.oid, self.dl.oid)

    def check(self, it, fr, k, label):
        s = it.store[self.stack.oid]
        b, d, l = state(it, self.tr)
        root, b0 = self.c.root, self.c.b0(it)
        if it.ghost.get("popped"):
            unfold(it, self.b, it.ghost["popped"][1])
        it.oblige(f"work loop: the document stays {label}", z3.BoolVal(it.heap is self.h0))
        it.oblige(f"work loop: the translator remembers only its output {label}", z3.BoolVal(same_dict(others(it, self.tr), self.others) and l.oid == self.dl.oid))
        it.oblige(f"work loop: output so far and pending work make up the document {label}", FULL(b, s.t) == DONE(b0, root))
        it.oblige(f"work loop: deferred is what the pending leaves take {label}", d == DEF(s.t) if d is not None else FALSE)
        it.oblige(f"work loop: pending nodes are nodes of the document {label}", OKS(s.t))

    def havoc(self, it, fr, k):
        t = it.fresh("work")
        it.store[self.stack.oid] = Work(t, it.store[self.stack.oid].shape)
        self.b = it.fresh("output")
        it.assume(logic._cls(self.b) == CLS_STR)
        it.setattr(self.tr, "body", it.setkind(self.b, "str"))
        it.store[self.dl.oid] = Deferred(DEF(t))
        it.ghost["popped"] = None
        it.assume(FULL(self.b, t) == DONE(self.c.b0(it), self.c.root), OKS(t))

    def leave(self, it, fr, k):
        it.assume(it.store[self.stack.oid].t == NILS)   # the loop's test
        self.c.left = True


class KidsLoop(LoopSpec):
    """Pushing the children, last one first."""

    def __init__(self, main):
        super().__init__(name="pushing the children")
        self.main = main

    def matches(self, it, kind, st, stream):
        return kind != "while"

    def start(self, it, fr, stream):
        self.s0 = it.store[self.main.stack.oid]
        self.kind, self.n, _ = it.ghost["popped"]
        self.m = it.heap.nk(self.n)

    def manages(self, it, oid):
        return oid == self.main.stack.oid

    def local(self, it, name, v0, k):
        if isinstance(v0, VList) and v0.oid == self.main.stack.oid:
            return v0
        return NotImplemented

    def law(self, x, t, k):
        return FULL(x, t) == FULL(KIDS(x, self.n, z3.simplify(self.m - k)), self.s0.t)

    def check(self, it, fr, k, label):
        x = it.fresh("x")
        h, n, i = it.heap, self.n, self.m - k
        s = it.store[self.main.stack.oid]
        it.assume(h.nk(n) >= 0)
        it.assume(implies(i >= h.nk(n), KIDS(x, n, i) == x))
        it.assume(implies(conj([i >= 0, i < h.nk(n)]), conj([KIDS(x, n, i) == KIDS(DONE(x, h.kid(n, i)), n, i + 1), live(it, h, h.kid(n, i))])))
        it.oblige(f"pushing the children: the remaining children come in order {label}", self.law(x, s.t, k))
        it.oblige(f"pushing the children: no deferrals {label}", DEF(s.t) == DEF(self.s0.t))
        it.oblige(f"pushing the children: pending nodes are nodes of the document {label}", implies(OKS(self.s0.t), OKS(s.t)))
        it.oblige(f"pushing the children: the document stays {label}", z3.BoolVal(h is self.h0))

    def havoc(self, it, fr, k):
        t = it.fresh("work")
        it.store[self.main.stack.oid] = Work(t, self.s0.shape)
        x = z3.Const("x!k", U)
        it.assume(z3.ForAll([x], self.law(x, t, k), patterns=[FULL(x, t)]))
        it.assume(DEF(t) == DEF(self.s0.t), implies(OKS(self.s0.t), OKS(t)))


def same_dict(a, b):
    return set(a) == set(b) and all(a[k] is b[k] or (isinstance(a[k], VList) and isinstance(b[k], VList) and a[k].oid == b[k].oid) for k in a)


class WorkLoop:
    qual = "translator.Translator.translate"

    def __init__(self, tr):
        self.cls = tr

    def b0(self, it):
        return self.start

    def verify(self, it):
        for case in ("default", "new", "continued"):
            self.case = case
            it.run_all(f"{self.qual} [{self.cls}, {case}]", lambda: self.thunk(it, case))

    def thunk(self, it, case):
        saved = dict(it.contracts), dict(it.natives)
        try:
            self.one(it, case)
        finally:
            it.contracts.clear()
            it.contracts.update(saved[0])
            it.natives.clear()
            it.natives.update(saved[1])
            it.loopspecs = []
            it.verifying = None

    def one(self, it, case):
        root = self.root = node(it, "tree", cid="Manuscript")
        axioms(it)
        kw = {"quiet": it.fresh("quiet", B)}
        if self.cls == "HandrailsTranslator":
            kw["add_source"] = it.fresh("add_source", B)
        tr = self.tr = it.instantiate(it.class_of(self.cls, "translator"), [], kw)
        b, d, l = state(it, tr)
        it.oblige("a new translator has nothing deferred", d == NILD if d is not None else FALSE)
        # any earlier successful translation
        it.store[l.oid] = Deferred(NILD)
        old = it.setkind(it.fresh("earlier"), "str")
        it.assume(logic._cls(old) == CLS_STR)
        it.setattr(tr, "body", old)
        it.setattr(tr, "tree", node(it, "earlier_tree", cid="Manuscript"))
        self.start = old if case == "continued" else EMPTY
        it.ghost["translator"] = tr.oid
        it.ghost["popped"] = None
        it.pre = it.pc
        for c in it.class_of(self.cls, "translator").mro():
            it.contracts[f"translator.{c.name}.get_action_method"] = self.action
        self.ran = self.left = False
        it.loopspecs = [MainLoop(self)]
        f = it.getattr(tr, "translate")
        try:
            r = it.call(f, [root] if case == "default" else [root, case == "new"], {})
        except PyExc as e:
            it.oblige(f"no exception ({e.name} from {e.origin})", FALSE)
            return
        it.oblige("the document is walked by the work loop", z3.BoolVal(self.ran))
        b, d, l = state(it, tr)
        it.oblige("the result is the document rendered in order", eq(it.to_U(r), DONE(self.start, root)))
        it.oblige("the output kept is the result", b == DONE(self.start, root))
        it.oblige("nothing is left deferred", d == NILD if d is not None else FALSE)

    def action(self, it, f, args, kwargs):
        action = [a for a in list(args) + list(kwargs.values()) if isinstance(a, str)]
        ns = [a for a in list(args) + list(kwargs.values()) if isinstance(a, z3.ExprRef)]
        if len(action) != 1 or len(ns) != 1 or action[0] not in ("visit", "leave"):
            raise Unsupported("get_action_method called in another way")
        return Method(ns[0], action[0])
