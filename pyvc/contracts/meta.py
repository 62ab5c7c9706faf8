"""Contracts of Node.ingest_dict_as_meta and Node.metakeys (C21)."""
import ast

from contracts.base import *  # noqa: F401,F403
from contracts.base import Contract, LoopSpec
from symdict import SymDict

RT, TPL = S("reftext"), S("reftext_template")


class Ingest(Contract):
    """Exactly the named attributes of this node get the given values; reftext goes to reftext_template.

    Attributes written under a name that is only known at run time are kept in a ghost overlay (written, value)."""
    qual = "nodes.Node.ingest_dict_as_meta"

    def cases(self):
        return ["with reftext", "without reftext"]

    def setup(self, it):
        self.n = node(it, "self")
        self.has = it.fresh_fn("given", U, B)
        self.val = it.fresh_fn("value", U, U)
        x = z3.Const("x!m", U)
        it.assume(z3.ForAll([x], z3.Implies(self.has(x), cls(x) == CLS_STR), patterns=[self.has(x)]))
        it.assume(neg(self.has(TPL)))           # not one of the keys a class accepts
        it.assume(self.has(RT) if self.case == "with reftext" else neg(self.has(RT)))
        d = SymDict(lambda k: self.has(k), lambda k: self.val(k), None)
        d.strkeys = True
        o = it.new_oid()
        it.store[o] = d
        self.ov = it.new_oid()
        it.store[self.ov] = (lambda name: FALSE, lambda name: NONE)

        def put(it, a):
            if not (isinstance(a[0], z3.ExprRef) and a[0].eq(self.n)):
                it.oblige("only this node's attributes are set", eq(it.to_U(a[0]), self.n))
            name, v = it.to_U(a[1]), it.to_U(a[2])
            w, old = it.store[self.ov]
            it.store[self.ov] = (lambda x: z3.Or(x == name, w(x)), lambda x: z3.If(x == name, v, old(x)))
        it.natives["setattr-symbolic"] = put
        return (self.n, VDict(o)), {}

    def loops(self, it):
        return [Items(self)]

    def judge(self, it, out, args, kwargs, h0, h1, ev0, ev1):
        if out[0] == "raise":
            it.oblige(f"giving metadata does not fail ({out[1].name})", FALSE)
            return
        w, val = it.store[self.ov]
        x = it.fresh("name")
        direct = sorted(f for f in set(h0.maps) | set(h1.maps) if h0.m(f) is not h1.m(f))
        given = z3.Or(z3.And(self.has(x), x != RT), z3.And(x == TPL, self.has(RT)))
        wanted = z3.If(x == TPL, self.val(RT), self.val(x))
        known = [x == S(f) for f in direct]
        it.oblige("every named attribute is set, to the given value", implies(conj([given, neg(disj(known))]), z3.And(w(x), val(x) == wanted)))
        it.oblige("no other attribute is set", implies(w(x), given))
        m = it.fresh("m")
        for f in direct:
            nm = S(f)
            it.oblige(f"attribute {f} is not also set by name", neg(w(nm)))
            g = z3.Or(z3.And(self.has(nm), nm != RT), z3.And(nm == TPL, self.has(RT)))
            wv = self.val(RT) if f == "reftext_template" else self.val(nm)
            a = h1.get(f, m)
            it.oblige(f"attribute {f} of the other nodes is kept", implies(m != self.n, eq(a, h0.get(f, m))))
            it.oblige(f"attribute {f} is set to the given value", implies(m == self.n, z3.And(g, it.to_U(a) == wv)))


class Items(LoopSpec):
    def __init__(self, c):
        super().__init__(("dict",), "keys")
        self.c = c

    def start(self, it, fr, stream):
        self.d, self.wh = stream.meta
        self.w0 = it.store[self.c.ov]

    def state(self, k):
        w, v = self.w0
        done = lambda x: z3.And(self.d.has(x), self.wh(x) < k)
        return (lambda x: z3.Or(done(x), w(x)), lambda x: z3.If(done(x), self.d.val(x), v(x)))

    def manages(self, it, oid):
        return oid == self.c.ov

    def havoc(self, it, fr, k):
        super().havoc(it, fr, k)
        it.store[self.c.ov] = self.state(k)

    def check(self, it, fr, k, label):
        super().check(it, fr, k, label)
        w, v = it.store[self.c.ov]
        w2, v2 = self.state(k)
        x = it.fresh("x")
        it.oblige(f"{self.name}: attributes set so far {label}", z3.And(w(x) == w2(x), z3.Implies(w(x), v(x) == v2(x))))


class MetaKeys:
    """For every class of the package: the accepted keys are its own and those of all its ancestors."""
    qual = "nodes.Node.metakeys"

    def verify(self, it):
        for name in it.facts.order:
            def thunk(name=name):
                c = it.class_of(name)
                want = set()
                for k in c.mro():
                    m = k.members.get("newmetakeys")
                    if isinstance(m, tuple) and m[0] == "lazy":
                        want |= self.keys(m[1])
                it.loopspecs = []
                it.events = ()
                f = it.getattr(c, "metakeys")
                r = it.call(f, [], {})
                s = it.store.get(r.oid) if isinstance(r, VSet) else None
                it.oblige("a set of keys", z3.BoolVal(isinstance(s, frozenset)))
                it.oblige("its own keys and those of all its ancestors", z3.BoolVal(s == frozenset(want)))
                it.oblige("the class tables are unchanged", z3.BoolVal(it.events == ()))
            it.run_all(f"{self.qual} of {name}", thunk)

    def keys(self, e):
        v = ast.literal_eval(e) if not isinstance(e, ast.Call) else set()
        return set(v) if not isinstance(v, dict) else set()


class Accepted:
    """No accepted key is a property or method of the class (so setting it stores a plain attribute)."""

    def verify(self, it):
        for name in it.facts.order:
            def thunk(name=name):
                c = it.class_of(name)
                keys = set()
                for k in c.mro():
                    m = k.members.get("newmetakeys")
                    if isinstance(m, tuple) and m[0] == "lazy":
                        keys |= MetaKeys().keys(m[1])
                for key in sorted(keys):
                    if key == "reftext":
                        key = "reftext_template"
                    m = it.class_member(c, key)
                    it.oblige(f"{key} is a plain attribute", z3.BoolVal(not isinstance(m, (VProp, VFunc))))
            it.run_all(f"keys accepted by {name}", thunk)


def units(it):
    i = Ingest()
    return [(i.qual, lambda: i.verify(it)), (MetaKeys.qual, lambda: MetaKeys().verify(it)), ("accepted keys", lambda: Accepted().verify(it))]
