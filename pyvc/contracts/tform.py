"""Contracts of rsm/transformer.py."""
from contracts.base import *  # noqa: F401,F403
from contracts.base import Contract, LoopSpec
from contracts.order import order, tree
from contracts.nodes_edit import put
from symdict import SymDict, as_sym
import symdict


def transformer(it):
    """A Transformer about to work on an arbitrary manuscript (a root)."""
    t = it.instantiate(it.class_of("Transformer", "transformer"), (), {})
    root = node(it, "root", nwc=True, cid="Manuscript")
    it.assume(it.heap.par(root) == NONE)
    it.setattr(t, "tree", root)
    return t, root


def the_tree(it, self_):
    return it.store[self_.oid].get("tree")


class Phase(Contract):
    """A method of Transformer: spec(it, root) edits it.heap."""
    qual = None

    def setup(self, it):
        t, root = transformer(it)
        self.root = root
        return (t,), {}

    def spec(self, it, args, kwargs):
        root = the_tree(it, args[0])
        return self.effect(it, root)


class NodeIds(Phase):
    qual = "transformer.Transformer.assign_node_ids"

    def effect(self, it, root):
        T = tree(it, it.heap, root)
        it.heap = self.numbered(it, it.heap, T, T.N)

    def numbered(self, it, h, T, k):
        return h.put("nodeid", h.m("nodeid").upd(lambda old, x: ite(z3.And(T.inT(x), T.px(x) < k), boxI(T.px(x)), old(x))))

    def loops(self, it):
        c = self

        class L(LoopSpec):
            def start(self, it, fr, stream):
                self.T = tree(it, self.h0, c.root)

            def heap_at(self, it, k):
                return c.numbered(it, self.h0, self.T, k)
        return [L(("traverse",), "numbering loop")]


class HandrailDepth(Phase):
    """Every node's depth grows by the number of its proper ancestors that have a handrail."""
    qual = "transformer.Transformer.add_handrail_depth"

    def depth_fn(self, it, h, T):
        """D(x): handrails among the proper ancestors of x (recursion towards the root)."""
        key = ("hd", id(T))
        if key in it.ghost:
            return it.ghost[key]
        D = it.fresh_fn("D", U, I)
        x = z3.Const("x!d", U)
        it.ghost[key] = D
        rail = self.rail(it, h)
        it.assume(D(T.root) == 0)
        it.assume(z3.ForAll([x], z3.Implies(z3.And(T.inT(x), x != T.root), D(x) == D(h.par(x)) + z3.If(rail(h.par(x)), 1, 0)), patterns=[D(x)]))
        return D

    def rail(self, it, h):
        names = [n for n in it.facts.order if (r := it.facts.attr_of(n, "has_handrail")) and r[0] == "attr" and r[2] is True]
        bad = [n for n in it.facts.order if not (r := it.facts.attr_of(n, "has_handrail")) or r[0] != "attr" or "has_handrail" in it.facts.instances.get(n, {})]
        if bad:
            raise Unsupported(f"has_handrail is not a class attribute of {bad[:3]}")
        return lambda x: it.in_set(x, names)

    def deeper(self, it, h, T, amount):
        return h.put("handrail_depth", h.m("handrail_depth").upd(lambda old, x: z3.If(T.inT(x), old(x) + amount(x), old(x))))

    def effect(self, it, root):
        h = it.heap
        T = tree(it, h, root)
        D = self.depth_fn(it, h, T)
        it.heap = self.deeper(it, h, T, D)

    def loops(self, it):
        c = self

        class Inner(LoopSpec):
            def start(self, it, fr, stream):
                self.top = stream.meta["root"]

            def heap_at(self, it, k):
                T = outer.T
                t = self.top
                return c.deeper(it, self.h0, T, lambda x: z3.If(z3.And(T.px(t) < T.px(x), T.px(x) < T.px(t) + k), 1, 0))

        class Outer(LoopSpec):
            def start(self, it, fr, stream):
                self.T = T = tree(it, self.h0, c.root)
                self.cnt = cnt = it.fresh_fn("cnt", I, U, I)
                self.rail = c.rail(it, self.h0)
                k, x = z3.Int("k!c"), z3.Const("x!c", U)
                it.assume(z3.ForAll([x], cnt(z3.IntVal(0), x) == 0, patterns=[cnt(z3.IntVal(0), x)]))
                self.step = lambda k, x: cnt(k + 1, x) == cnt(k, x) + z3.If(z3.And(self.rail(T.o.P(T.root, k)), T.under(x, T.o.P(T.root, k))), 1, 0)

            def heap_at(self, it, k):
                return c.deeper(it, self.h0, self.T, lambda x: self.cnt(k, x))

            def body_start(self, it, fr, k, v, run):
                x = z3.Const("x!c", U)
                it.assume(z3.ForAll([x], z3.Implies(z3.And(k >= 0, k < self.T.N), self.step(k, x)), patterns=[self.cnt(k + 1, x)]))

            def leave(self, it, fr, n):
                # cnt(N, x) = D(x): proved by the induction of verify_counting
                T, cnt = self.T, self.cnt
                D = c.depth_fn(it, self.h0, T)
                x = z3.Const("x!c", U)
                it.assume(z3.ForAll([x], z3.Implies(T.inT(x), cnt(n, x) == D(x)), patterns=[cnt(n, x)]))
        outer = Outer(("traverse",), "handrail loop")
        outer.nested = [Inner(("traverse",), "descendants loop")]
        return [outer]

    def lemma(self, it):
        """The number of earlier handrail nodes whose subtree contains x = the number of x's ancestors with a handrail."""
        def thunk():
            t, root = transformer(it)
            h = it.heap
            for _, w in wf(it, h):
                it.assume(w)
            T = tree(it, h, root)
            T.parent_facts(it)
            it.pre = it.pc
            rail = self.rail(it, h)
            cnt, D = it.fresh_fn("cnt", I, U, I), self.depth_fn(it, h, T)
            x, k = node(it, "x"), it.fresh("k", I)
            a = T.o.P(T.root, k)
            step = lambda k, x: cnt(k + 1, x) == cnt(k, x) + z3.If(z3.And(rail(T.o.P(T.root, k)), T.under(x, T.o.P(T.root, k))), 1, 0)
            p = h.par(x)
            it.assume(T.inT(x), k >= 0, k < T.N)
            it.assume(cnt(z3.IntVal(0), x) == 0, cnt(z3.IntVal(0), p) == 0, step(k, x), step(k, p), T.inT(a), T.px(a) == k)
            it.oblige("nothing encloses the root: step", implies(z3.And(x == T.root, cnt(k, x) == 0), cnt(k + 1, x) == 0))
            it.assume(x != T.root)
            claim = lambda k: cnt(k, x) == cnt(k, p) + z3.If(z3.And(T.px(p) < k, rail(p)), 1, 0)
            it.assume(z3.Implies(k == T.px(p), a == p), T.inT(p), T.px(p) >= 0)
            it.oblige("one more than the parent: base", claim(z3.IntVal(0)))
            it.oblige("one more than the parent: step", implies(claim(k), claim(k + 1)))
            n = T.N
            it.oblige("count of enclosing handrails (induction on the position)",
                      implies(z3.And(claim(n), T.px(p) < n, cnt(n, p) == D(p), D(x) == D(p) + z3.If(rail(p), 1, 0)), cnt(n, x) == D(x)))
        it.run_all(f"{self.qual} [counting lemma]", thunk)


def find_dict(it, fr, want=lambda c: True):
    """Dictionaries reachable from the frame and from self's attributes."""
    out = {}
    for nm, v in it.store[fr.fid].items():
        vs = [v]
        if isinstance(v, VObj):
            vs += list(it.store[v.oid].values())
        for x in vs:
            if isinstance(x, VDict) and want(it.store[x.oid]):
                out[x.oid] = x
    return list(out.values())


class DictInvariant:
    """Mixin of LoopSpec: one dictionary is maintained by the loop; dict_at(it, k) gives (has, val)."""
    dict_kind = "node"

    def enter(self, it, fr, stream, st):
        ds = find_dict(it, fr, lambda c: not c)
        if len(ds) != 1:
            raise Unsupported(f"{self.name}: one dictionary expected, found {len(ds)}")
        self.d = ds[0]
        super().enter(it, fr, stream, st)

    def manages(self, it, oid):
        return oid == self.d.oid

    def check(self, it, fr, k, label):
        super().check(it, fr, k, label)
        same_dict(it, f"{self.name}: dictionary {label}", it.store[self.d.oid], self.dict_at(it, k))

    def havoc(self, it, fr, k):
        super().havoc(it, fr, k)
        it.store[self.d.oid] = self.dict_at(it, k)

    def on_break(self, it, fr, k):
        pass


def same_dict(it, name, c, want):
    c = as_sym(it, c)
    x = it.fresh("key")
    it.oblige(f"{name}: keys", c.has(x) == want.has(x))
    it.oblige(f"{name}: values", implies(want.has(x), it.spec_equal(c.val(x), want.val(x))))


class Labels(Phase):
    """The first claimant keeps a label; the dictionary maps labels to their owners."""
    qual = "transformer.Transformer.collect_labels"

    def first(self, it, h, T):
        key = ("first", id(T), h.m("label").tag)
        if key in it.ghost:
            return it.ghost[key]
        f = it.ghost[key] = it.fresh_fn("first", U, I)
        l, j = z3.Const("l!f", U), z3.Int("j!f")
        P = T.o.P
        lab = lambda j: h.get("label", P(T.root, j))
        it.assume(z3.ForAll([l], z3.And(f(l) >= 0, f(l) <= T.N, z3.Implies(f(l) < T.N, lab(f(l)) == l)), patterns=[f(l)]))
        it.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < T.N), f(lab(j)) <= j), patterns=[P(T.root, j)]))
        return f

    def heap(self, it, h, T, f, k):
        return h.put("label", h.m("label").upd(lambda old, x: ite(conj([T.inT(x), T.px(x) < k, f(old(x)) != T.px(x)]), EMPTY, old(x))))

    def table(self, it, T, f, k):
        return SymDict(lambda l: conj([l != EMPTY, f(l) < k]), lambda l: T.o.P(T.root, f(l)))

    def spec(self, it, args, kwargs):
        root = the_tree(it, args[0])
        h = it.heap
        T = tree(it, h, root)
        f = self.first(it, h, T)
        it.heap = self.heap(it, h, T, f, T.N)
        o = it.new_oid()
        it.store[o] = self.wanted = self.table(it, T, f, T.N)
        it.setattr(args[0], "labels_to_nodes", VDict(o))

    def capture(self, it):
        self.got = it.store[self.args[0].oid].get("labels_to_nodes")
        self.got = it.store[self.got.oid] if isinstance(self.got, VDict) else None

    def post(self, it, out, h0, h1):
        if self.got is None:
            it.oblige("the label table is a dictionary", FALSE)
            return
        same_dict(it, "label table", self.got, self.wanted)

    def loops(self, it):
        c = self

        class L(DictInvariant, LoopSpec):
            def start(self, it, fr, stream):
                self.T = tree(it, self.h0, c.root)
                self.f = c.first(it, self.h0, self.T)

            def heap_at(self, it, k):
                return c.heap(it, self.h0, self.T, self.f, k)

            def dict_at(self, it, k):
                return c.table(it, self.T, self.f, k)
        return [L(("traverse",), "label loop")]


PHASES = [NodeIds(), HandrailDepth(), Labels()]
CONTRACTS = list(PHASES)


def install(it):
    symdict.install(it)
