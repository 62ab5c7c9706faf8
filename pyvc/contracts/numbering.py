"""Contracts of the numbering phase (C07): autonumber_nodes, _autonumber_steps, full_number, reftext."""
from contracts.base import *  # noqa: F401,F403
from contracts.base import Contract, LoopSpec
from contracts.order import tree
from contracts.tform import Phase, the_tree, transformer
from contracts import compose
from logic import boxI
import natives

LETTER = z3.Function("letter", I, U)          # A, B, ..., Z, AA, ... (bounded check of _appendix_letters)


class DefDict:
    """collections.defaultdict with concrete keys."""
    symbolic = True

    def __init__(self, factory, items=()):
        self.factory, self.items = factory, tuple(items)

    def lookup(self, it, k, o):
        for kk, v in self.items:
            e = it.equal(kk, k)
            if e is True or (isinstance(e, z3.ExprRef) and z3.is_true(z3.simplify(e))):
                return v
            if e is not False and not (isinstance(e, z3.ExprRef) and z3.is_false(z3.simplify(e))):
                raise Unsupported("defaultdict with symbolic keys")
        if isinstance(k, (z3.ExprRef, ClsOf)):
            raise Unsupported("defaultdict with symbolic keys")
        v = it.call(self.factory, [], {})
        it.store[o.oid] = DefDict(self.factory, self.items + ((k, v),))
        return v

    def store_item(self, it, o, k, v):
        if isinstance(k, (z3.ExprRef, ClsOf)):
            raise Unsupported("defaultdict with symbolic keys")
        it.store[o.oid] = DefDict(self.factory, tuple((a, b) for a, b in self.items if it.equal(a, k) is not True) + ((k, v),))

    def contains(self, it, x):
        raise Unsupported("membership in a defaultdict")

    def truth(self, it):
        return bool(self.items)

    def method(self, it, name, d):
        raise Unsupported(f"defaultdict.{name}")


def counts_from_one(it, v):
    """v is a fresh defaultdict whose missing entries count 1, 2, 3, ..."""
    if not isinstance(v, VDict) or not isinstance(it.store[v.oid], DefDict) or it.store[v.oid].items:
        return False
    f = it.store[v.oid].factory
    return f is not None and fresh_count(it, it.call(f, [], {}))


def fresh_count(it, c):
    if not isinstance(c, VIter):
        return False
    st = it.store[c.oid]
    return st[0] == "count" and isinstance(st[1], int) and st[1] == 1 and st[2] == 1


def ckey(it, k):
    if isinstance(k, VClass) and k.cid is not None:
        return z3.IntVal(k.cid)
    if isinstance(k, ClsOf):
        return k.term
    raise Unsupported(f"counter keyed by {k!r}")


class Counters:
    """Table of counters, two levels of symbolic class keys: n(W, A) numbers handed out; letters(W, A)."""
    symbolic = True

    def __init__(self, n, letters, version=0):
        self.n, self.letters, self.version = n, letters, version

    def lookup(self, it, k, o):
        oid = it.new_oid()
        it.store[oid] = Row(o.oid, ckey(it, k), self.version)
        return VDict(oid)

    def store_item(self, it, o, k, v):
        if not counts_from_one(it, v):
            raise Unsupported("a row of counters that does not count from one")
        w = ckey(it, k)
        n, le = self.n, self.letters
        it.store[o.oid] = Counters(lambda W, A: z3.If(W == w, 0, n(W, A)), lambda W, A: z3.And(W != w, le(W, A)), self.version + 1)
        it.store[v.oid] = Row(o.oid, w, self.version + 1)

    def contains(self, it, x):
        raise Unsupported("membership in the counters")

    truth = method = stream = None


class Row:
    symbolic = True

    def __init__(self, base, w, version):
        self.base, self.w, self.version = base, w, version

    def table(self, it):
        c = it.store[self.base]
        if c.version != self.version:
            raise Unsupported("a stale row of counters")
        return c

    def lookup(self, it, k, o):
        self.table(it)
        oid = it.new_oid()
        it.store[oid] = ("cell", self.base, self.w, ckey(it, k), self.version)
        return VIter(oid)

    def store_item(self, it, o, k, v):
        c = self.table(it)
        w, a = self.w, ckey(it, k)
        st = it.store[v.oid] if isinstance(v, VIter) else None
        if st is not None and st[0] == "letters" and st[1] == 0:
            lt = TRUE
        elif st is not None and fresh_count(it, v):
            lt = FALSE
        else:
            raise Unsupported("an unknown counter")
        n, le = c.n, c.letters
        here = lambda W, A: z3.And(W == w, A == a)
        it.store[self.base] = Counters(lambda W, A: z3.If(here(W, A), 0, n(W, A)), lambda W, A: z3.If(here(W, A), lt, le(W, A)), c.version + 1)
        it.store[o.oid] = Row(self.base, w, c.version + 1)
        it.store[v.oid] = ("cell", self.base, w, a, c.version + 1)

    def contains(self, it, x):
        raise Unsupported("membership in the counters")

    truth = method = stream = None


def next_hook(it, v, a):
    if isinstance(v, VIter) and it.store[v.oid][0] == "cell":
        _, base, w, k, version = it.store[v.oid]
        c = it.store[base]
        if c.version != version:
            raise Unsupported("a stale counter")
        n, le = c.n, c.letters
        r = ite(le(w, k), LETTER(n(w, k)), boxI(n(w, k) + 1))
        it.store[base] = Counters(lambda W, A: n(W, A) + z3.If(z3.And(W == w, A == k), 1, 0), le, version)
        it.setkind(r, "any")
        return r
    return NotImplemented


class Letters(Contract):
    qual = "transformer.Transformer._appendix_letters"

    def __call__(self, it, f, args, kwargs):
        o = it.new_oid()
        it.store[o] = ("letters", 0)
        return VIter(o)


def enum_filter(it, v):
    """enumerate(filtered sequence): the running index is the number of matches so far (checked by the loop spec)."""
    s, start = v.stream, v.start
    h = it.natives.get("rank")
    if h is None:
        raise Unsupported("enumerate of a filtered symbolic sequence")
    rank = h(it, s)

    def at(k):
        return (rank(it.int_(k)) + start, s.at(k))
    return Stream(s.n, at, s.kind, lambda x: s.filt(x[1]), meta={"rank": rank, "inner": s.meta})


def kinds(it):
    """(scope class, counter class) of every kind, from the class tables."""
    F = it.facts
    out = {}
    for n in F.order:
        w, a = F.attr_of(n, "_number_within"), F.attr_of(n, "_number_as")
        if not w or w[0] != "attr" or not a or a[0] != "attr":
            raise Unsupported("numbering attributes are not class attributes")
        wv = w[2]["class"] if isinstance(w[2], dict) and "class" in w[2] else "Manuscript" if w[2] is None else None
        out[n] = (wv, a[2]["class"] if a[2] is not None else n)
    return out


def by_class(it, x, table):
    """Int term: table[class of x]."""
    vals = {}
    for n, v in table.items():
        vals.setdefault(v, []).append(n)
    items = list(vals.items())
    out = None
    for v, ns in items:
        v = z3.IntVal(v) if isinstance(v, int) else v
        out = v if out is None else z3.If(it.in_set(x, ns), v, out)
    return out


class Autonumber(Phase):
    qual = "transformer.Transformer.autonumber_nodes"

    def theory(self, it, h, T):
        key = ("numbering", id(T), h.m("nonum").tag)
        if key in it.ghost:
            return it.ghost[key]
        g = it.ghost[key] = Numbering(it, h, T)
        return g

    def heap(self, it, h, g, k):
        T = g.T
        mine = lambda x: conj([T.inT(x), T.px(x) < k, g.active(x)])
        p = h.par
        step = lambda x: conj([live(it, h, x), g.is_step(x), neg(h.get("nonum", x)), T.inT(p(x)), T.px(p(x)) < k, g.is_proof(p(x))])
        h2 = h.put("number", h.m("number").upd(lambda old, x: ite(mine(x), g.num(x), ite(step(x), boxI(g.sr(p(x), h.pos(x)) + 1), old(x)))))
        return h2.put("reftext_template", h.m("reftext_template").upd(
            lambda old, x: ite(conj([mine(x), g.app(T.px(x)), g.is_section(x)]), g.renamed(old(x)), old(x))))

    def effect(self, it, root):
        h = it.heap
        T = tree(it, h, root)
        g = self.theory(it, h, T)
        it.heap = self.heap(it, h, g, T.N)

    def setup(self, it):
        a = super().setup(it)
        return a

    def loops(self, it):
        c = self

        class L(LoopSpec):
            def start(self, it, fr, stream):
                self.T = T = tree(it, self.h0, c.root)
                T.parent_facts(it)
                self.g = c.theory(it, self.h0, T)

            def enter(self, it, fr, stream, st):
                ds = [v for v in it.store[fr.fid].values() if isinstance(v, VDict) and isinstance(it.store[v.oid], DefDict)]
                if len(ds) != 1:
                    raise Unsupported("one table of counters expected")
                self.d = ds[0]
                dd = it.store[self.d.oid]
                if dd.items or not counts_from_one(it, it.call(dd.factory, [], {})):
                    raise Unsupported("counters do not start from one")
                super().enter(it, fr, stream, st)

            def heap_at(self, it, k):
                return c.heap(it, self.h0, self.g, k)

            def local(self, it, name, v0, k):
                if isinstance(v0, bool):
                    return self.g.app(k) if v0 is False else NotImplemented
                return NotImplemented

            def manages(self, it, oid):
                return oid == self.d.oid

            def check(self, it, fr, k, label):
                super().check(it, fr, k, label)
                cur = it.store[self.d.oid]
                g = self.g
                W, A = it.fresh("W", I), it.fresh("A", I)
                if isinstance(cur, DefDict):
                    cur = Counters(lambda W, A: z3.IntVal(0), lambda W, A: FALSE)
                it.oblige(f"{self.name}: counters {label}", cur.n(W, A) == g.C(k, W, A))
                it.oblige(f"{self.name}: lettered counters {label}", cur.letters(W, A) == g.Lt(k, W, A))

            def havoc(self, it, fr, k):
                super().havoc(it, fr, k)
                g = self.g
                it.store[self.d.oid] = Counters(lambda W, A: g.C(k, W, A), lambda W, A: g.Lt(k, W, A))

            def body_start(self, it, fr, k, v, run):
                self.g.step(it, k)
        return [L(("traverse",), "numbering loop")]

    def lemma(self, it):
        """The user-level reading of the recursion: first in its scope 1, then one more than the previous."""
        def thunk():
            t, root = transformer(it)
            h = it.heap
            for _, w in wf(it, h):
                it.assume(w)
            T = tree(it, h, root)
            g = Numbering(it, h, T)
            it.pre = it.pc
            k, m = it.fresh("k", I), it.fresh("m", I)
            W, A = it.fresh("W", I), it.fresh("A", I)
            it.assume(k >= 0, k < m, m < T.N)
            P = lambda j: T.o.P(T.root, j)
            for j in (k, m):
                g.step(it, j)
            x, y = P(k), P(m)
            uses = lambda z: conj([g.active(z), g.w(z) == W, g.a(z) == A])
            opens = lambda z: z3.Or(z3.And(g.active(z), cls(z) == W), z3.And(it.in_set(z, g.appendix), W == it.facts.lo["Manuscript"], A == it.facts.lo["Section"]))
            quiet = lambda j: z3.And(neg(uses(P(j))), neg(opens(P(j))))
            it.oblige("between two uses the counter stands still: step", implies(z3.And(quiet(k), g.C(k, W, A) == m, g.Lt(k, W, A) == g.Lt(m, W, A)),
                                                                               z3.And(g.C(k + 1, W, A) == m, g.Lt(k + 1, W, A) == g.Lt(m, W, A))))
            # conclusion of that induction for the open interval (k, m)
            still = z3.And(g.C(m, W, A) == g.C(k + 1, W, A), g.Lt(m, W, A) == g.Lt(k + 1, W, A))
            nx, ny = g.number_at(k), g.number_at(m)
            plain = neg(g.Lt(m, W, A))
            it.oblige("consecutive users of a counter get consecutive numbers",
                      implies(conj([uses(x), cls(x) != W, neg(opens(y)), uses(y), still, plain]), z3.And(nx == boxI(g.C(k, W, A) + 1), ny == boxI(g.C(k, W, A) + 2))))
            it.oblige("consecutive users of the lettered counter get consecutive letters",
                      implies(conj([uses(x), cls(x) != W, neg(opens(y)), uses(y), still, g.Lt(m, W, A)]), z3.And(nx == LETTER(g.C(k, W, A)), ny == LETTER(g.C(k, W, A) + 1))))
            it.oblige("the first user after a node opens its scope gets number one",
                      implies(conj([g.active(x), cls(x) == W, z3.Or(g.w(x) != W, g.a(x) != A), neg(opens(y)), uses(y), still]), ny == boxI(z3.IntVal(1))))
            it.oblige("the first section after an appendix marker gets the first letter",
                      implies(conj([it.in_set(x, g.appendix), W == it.facts.lo["Manuscript"], A == it.facts.lo["Section"], cls(y) != W, uses(y), still]), ny == LETTER(z3.IntVal(0))))
            it.oblige("counters start at one", implies(z3.And(m >= 0, uses(y), g.C(m, W, A) == g.C(z3.IntVal(0), W, A), neg(g.Lt(m, W, A)), cls(y) != W), ny == boxI(z3.IntVal(1))))
        it.run_all(f"{self.qual} [consecutive numbers]", thunk)


class Numbering:
    """Ghost state of the numbering: C(k, W, A) numbers handed out in cell (W, A) before position k; Lt: lettered."""

    def __init__(self, it, h, T):
        self.it, self.h, self.T = it, h, T
        self.C = C = it.fresh_fn("C", I, I, I, I)
        self.Lt = it.fresh_fn("Lt", I, I, I, B)
        self.app = it.fresh_fn("App", I, B)
        self.sr = it.fresh_fn("sr", U, I, I)
        F = it.facts
        ks = kinds(it)
        # unknown scope (a tuple of classes): such kinds are numbered by _autonumber_steps only
        self.w = lambda x: by_class(it, x, {n: (F.lo[w] if w else -7) for n, (w, a) in ks.items()})
        self.a = lambda x: by_class(it, x, {n: (cls(x) if a == n else F.lo[a]) for n, (w, a) in ks.items()})
        sub = lambda c: [n for n in F.order if c in F.classes[n]["mro"]]
        self.appendix, self.proofs, self.steps, self.sections = sub("Appendix"), sub("Proof") + sub("Subproof"), sub("Step"), sub("Section")
        auto = [n for n in F.order if (r := F.attr_of(n, "autonumber")) and r[2] is True]
        inset = lambda ns: (lambda x: it.in_set(x, ns))
        self.is_proof, self.is_step, self.is_section = inset(self.proofs), inset(self.steps), inset(self.sections)
        self.is_app = inset(self.appendix)
        self.active = lambda x: conj([neg(self.is_app(x)), neg(self.is_proof(x)), neg(self.is_step(x)), it.in_set(x, auto), neg(h.get("nonum", x))])
        w, a = z3.Int("w!n"), z3.Int("a!n")
        z = z3.IntVal(0)
        it.assume(z3.ForAll([w, a], z3.And(C(z, w, a) == 0, z3.Not(self.Lt(z, w, a))), patterns=[C(z, w, a)]),
                  z3.ForAll([w, a], z3.Not(self.Lt(z, w, a)), patterns=[self.Lt(z, w, a)]), z3.Not(self.app(z)))
        p, i = z3.Const("p!n", U), z3.Int("i!n")
        it.assume(z3.ForAll([p], self.sr(p, z) == 0, patterns=[self.sr(p, z)]))

    def counted(self, p, i):
        x = self.h.kid(p, i)
        return conj([self.is_step(x), neg(self.h.get("nonum", x))])

    def base(self, k, W, A):
        x = self.T.o.P(self.T.root, k)
        return z3.If(W == cls(x), 0, self.C(k, W, A))

    def lbase(self, k, W, A):
        x = self.T.o.P(self.T.root, k)
        return z3.And(W != cls(x), self.Lt(k, W, A))

    def number_at(self, k):
        x = self.T.o.P(self.T.root, k)
        w, a = self.w(x), self.a(x)
        return ite(self.lbase(k, w, a), LETTER(self.base(k, w, a)), boxI(self.base(k, w, a) + 1))

    def num(self, x):
        T, k = self.T, self.T.px(x)
        w, a = self.w(x), self.a(x)
        lb = z3.And(w != cls(x), self.Lt(k, w, a))
        b = z3.If(w == cls(x), 0, self.C(k, w, a))
        return ite(lb, LETTER(b), boxI(b + 1))

    def renamed(self, s):
        it = self.it
        it.setkind(s, "str")
        return it.to_U(it.call(it.getattr(s, "replace"), ["{nodeclass}", "Appendix"], {}))

    def step(self, it, k):
        """The defining equations of position k + 1."""
        x = self.T.o.P(self.T.root, k)
        w, a = z3.Int("w!n"), z3.Int("a!n")
        F = it.facts
        here = z3.And(w == F.lo["Manuscript"], a == F.lo["Section"])
        act = self.active(x)
        C1 = z3.If(self.is_app(x), z3.If(here, 0, self.C(k, w, a)),
                   z3.If(act, self.base(k, w, a) + z3.If(z3.And(w == self.w(x), a == self.a(x)), 1, 0), self.C(k, w, a)))
        L1 = z3.If(self.is_app(x), z3.Or(here, self.Lt(k, w, a)), z3.If(act, self.lbase(k, w, a), self.Lt(k, w, a)))
        it.assume(z3.ForAll([w, a], self.C(k + 1, w, a) == C1, patterns=[self.C(k + 1, w, a)]),
                  z3.ForAll([w, a], self.Lt(k + 1, w, a) == L1, patterns=[self.Lt(k + 1, w, a)]),
                  self.app(k + 1) == z3.Or(self.app(k), self.is_app(x)))


class Steps(Contract):
    """_autonumber_steps: the numbered steps among the children are numbered 1, 2, 3, ..."""
    qual = "transformer.Transformer._autonumber_steps"

    def setup(self, it):
        t, root = transformer(it)
        p = node(it, "proof", nwc=True)
        it.assume(it.in_set(p, [n for n in it.facts.order if set(it.facts.classes[n]["mro"]) & {"Proof", "Subproof"}]))
        return (t, p), {}

    def rank(self, it, h, p):
        """Numbered steps among the first i children (recursion on i)."""
        for k, g in it.ghost.items():
            if isinstance(k, tuple) and k[0] == "numbering" and g.h.m("nonum") is h.m("nonum") and g.h.m("_children") is h.m("_children"):
                return g.sr
        g = it.ghost.get(("rank", h.m("nonum").tag))
        if g is None:
            g = it.ghost[("rank", h.m("nonum").tag)] = it.fresh_fn("sr", U, I, I)
            x = z3.Const("p!n", U)
            it.assume(z3.ForAll([x], g(x, z3.IntVal(0)) == 0, patterns=[g(x, z3.IntVal(0))]))
        return g

    def names(self, it):
        return [n for n in it.facts.order if "Step" in it.facts.classes[n]["mro"]]

    def counted(self, it, h, x):
        return conj([it.in_set(x, self.names(it)), neg(h.get("nonum", x))])

    def heap(self, it, h, p, sr, k):
        return h.put("number", h.m("number").upd(
            lambda old, x: ite(conj([live(it, h, x), h.par(x) == p, self.counted(it, h, x), h.pos(x) < k]), boxI(sr(p, h.pos(x)) + 1), old(x))))

    def spec(self, it, args, kwargs):
        p = args[1] if len(args) > 1 else kwargs["proof"]
        h = it.heap
        it.heap = self.heap(it, h, p, self.rank(it, h, p), h.nk(p))

    def __call__(self, it, f, args, kwargs):
        p = args[-1] if args else kwargs["proof"]
        h = it.heap
        it.heap = self.heap(it, h, it.to_U(p), self.rank(it, h, p), h.nk(it.to_U(p)))

    def loops(self, it):
        c = self
        p = None

        class L(LoopSpec):
            def start(self, it, fr, stream):
                self.p = c.args[1]
                self.sr = c.rank(it, self.h0, self.p)

            def heap_at(self, it, k):
                return c.heap(it, self.h0, self.p, self.sr, k)

            def local(self, it, name, v0, k):
                if isinstance(v0, int) and not isinstance(v0, bool):
                    return self.sr(self.p, it.int_(k)) + v0
                return NotImplemented

            def item(self, it, stream, k):
                h, p, sr = self.h0, self.p, self.sr
                x = h.kid(p, k)
                it.assume(sr(p, k + 1) == sr(p, k) + z3.If(c.counted(it, h, x), 1, 0))
                v = stream.at(k)
                self.rank = stream.meta.get("rank") if isinstance(stream.meta, dict) else None
                if self.rank is not None:
                    it.assume(z3.BoolVal(True))
                return v

            def body_start(self, it, fr, k, v, run):
                if self.rank is not None:
                    it.oblige(f"{self.name}: the running index counts the numbered steps", c.counted(it, self.h0, self.h0.kid(self.p, k)) if run else neg(c.counted(it, self.h0, self.h0.kid(self.p, k))))
        it.natives["rank"] = lambda it, s: (lambda k: self.rank(it, it.heap, self.args[1])(self.args[1], k))
        return [L(("seq",), "steps loop")]


def arith(it):
    natives_ = it.natives
    natives_["collections.defaultdict"] = Native("defaultdict", lambda it, a, k: mk_defdict(it, a))
    natives_["enum-filter-stream"] = enum_filter
    natives_["next-hook"] = next_hook


def mk_defdict(it, a):
    o = it.new_oid()
    it.store[o] = DefDict(a[0] if a else None)
    return VDict(o)


class Numbers(compose.Compose):
    """Numbers and templates stay as the numbering phase left them; steps are split before they are numbered."""
    tracked = ("number", "nonum", "reftext_template")

    def __init__(self, prop):
        super().__init__(prop)
        me = self

        class Use(Autonumber):
            def __call__(self, it, f, args, kwargs):
                me.trace.append("autonumber_nodes")
                Autonumber.__call__(self, it, f, args, kwargs)
                me.after = it.heap
        self.uses = {"autonumber_nodes": Use()}

    def goal(self, it, h, root):
        if "autonumber_nodes" not in self.trace or self.trace.count("autonumber_nodes") != 1:
            it.oblige("the transform numbers the nodes once", FALSE)
            return
        i = self.trace.index("autonumber_nodes")
        it.oblige("steps are split before the nodes are numbered", z3.BoolVal("add_necessary_subproofs" in self.trace[:i] and "add_necessary_subproofs" not in self.trace[i:]))
        x = it.fresh("x")
        g = self.after
        for f in self.tracked:
            it.oblige(f"no later phase changes {f}", implies(live(it, g, x), h.get(f, x) == g.get(f, x)))


CONTRACTS = [Letters(), Steps(), Autonumber()]


def install(it):
    arith(it)


FULL = z3.Function("full_number", U, U)


class FullNumber(Contract):
    """Own number behind the enclosing scope's full number and a dot (recursion towards the root)."""
    qual = "nodes.Node.full_number"

    def setup(self, it):
        x = node(it, "self")
        own = [n for n in it.facts.order if it.facts.attr_of(n, "full_number") == ("defines", "Node")]
        it.assume(it.in_set(x, own))
        return (x,), {}

    def verify(self, it):
        def full(it, t):
            r = FULL(t)
            it.setkind(r, "optstr")
            it.assume(z3.Or(r == NONE, cls(r) == CLS_STR))
            return r
        it.attr_contracts["full_number"] = full
        try:
            super().verify(it)
        finally:
            del it.attr_contracts["full_number"]

    def spec(self, it, args, kwargs):
        x = args[0]
        h = it.heap
        if it.branch(h.get("nonum", x)):
            return None
        groups = {}
        for n in it.facts.order:
            r = it.facts.attr_of(n, "_number_within")
            groups.setdefault(repr(r[2]), (r[2], []))[1].append(n)
        c = None
        for v, ns in groups.values():
            if it.branch(it.in_set(x, ns)):
                c = it.class_of("Manuscript") if v is None else it.fact_value(v)
                break
        if c is None:
            raise PathEnd()
        anc = it.call(it.getattr(x, "first_ancestor_of_type"), [c], {})
        if not it.branch(anc != NONE):
            anc = it.call(it.getattr(x, "first_ancestor_of_type"), [it.class_of("Manuscript")], {})
        num = it.getattr(x, "number")
        if it.branch(anc != NONE):
            f = it.attr_contracts["full_number"](it, anc)
            if it.branch(z3.And(f != NONE, f != EMPTY)):
                return VStr([it.to_str(f), ".", it.to_str(num)])
        return it.to_str(num) if it.test(num) else ""


class FullNumberRoot(Contract):
    qual = "nodes.Manuscript.full_number"

    def setup(self, it):
        return (node(it, "self", cid="Manuscript"),), {}

    def spec(self, it, args, kwargs):
        return ""


class Reftext(FullNumber):
    """The template filled with the kind and the full number."""
    qual = "nodes.Node.reftext"

    def setup(self, it):
        x = node(it, "self")
        own = [n for n in it.facts.order if it.facts.attr_of(n, "reftext") == ("defines", "Node")]
        it.assume(it.in_set(x, own))
        return (x,), {}

    def spec(self, it, args, kwargs):
        x = args[0]
        t = it.heap.get("reftext_template", x)
        it.setkind(t, "str")
        name = it.getattr(it.getattr(x, "__class__"), "__name__")
        s = it.call(it.getattr(t, "format"), [], {"nodeclass": name, "number": it.getattr(x, "full_number")})
        return it.call(it.getattr(s, "strip"), [], {})


def letters_bounded(it):
    """Bounded stand-in: the first letters produced by the real generator."""
    import json
    import subprocess
    from interp import REPO
    import os
    code = ("import json,itertools;from rsm.transformer import Transformer as T;g=T._appendix_letters();"
            "print(json.dumps([next(g) for _ in range(20000)]))")
    p = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-c", code], capture_output=True, text=True, timeout=100,
                       env=dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1"), cwd=REPO)
    got = json.loads(p.stdout) if p.returncode == 0 else None

    def name(i):
        s, i = "", i + 1
        while i:
            i, r = divmod(i - 1, 26)
            s = chr(65 + r) + s
        return s
    it.ctx = "transformer.Transformer._appendix_letters [bounded: the first 20000 letters]"
    it.oblige("A, B, ..., Z, AA, AB, ...", z3.BoolVal(got == [name(i) for i in range(20000)]))
    it.ctx = ""
