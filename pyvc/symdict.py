"""Dictionaries with symbolic keys (kept in the interpreter's store)."""
import z3

from logic import *  # noqa: F401,F403
from values import *  # noqa: F401,F403


class SymDict:
    """Immutable: has(key term) -> Bool, val(key term) -> value."""
    symbolic = True

    def __init__(self, has, val, kind="node", rekey=None):
        self.has, self.val, self.kind = has, val, kind

    def key(self, it, k):
        return it.to_U(k)

    def read(self, it, k):
        v = self.val(k)
        if isinstance(v, z3.ExprRef) and v.sort() == U and self.kind and it.kind(v) is None:
            it.setkind(v, self.kind)
        return v

    def contains(self, it, x):
        return self.has(self.key(it, x))

    def truth(self, it):
        raise Unsupported("truth of a symbolic dictionary")

    def lookup(self, it, k, o):
        k = self.key(it, k)
        if it.branch(self.has(k)):
            return self.read(it, k)
        raise PyExc("KeyError", (k,), origin="dictionary lookup")

    def store_item(self, it, o, k, v):
        kk = self.key(it, k)
        has, val = self.has, self.val
        it.store[o.oid] = self.copied(lambda x: z3.Or(x == kk, has(x)), lambda x: it.vite(x == kk, v, val(x)))

    def delete(self, it, o, k):
        kk = self.key(it, k)
        if not it.branch(self.has(kk)):
            raise PyExc("KeyError", (kk,), origin="del")
        has = self.has
        it.store[o.oid] = self.copied(lambda x: z3.And(x != kk, has(x)), self.val)

    def enum(self, it):
        """Some enumeration of the keys, each once (the insertion order is not modelled)."""
        k = (id(self), "enumeration")
        if k not in it.ghost:
            m, el, wh = it.fresh("dict_size", I), it.fresh_fn("dict_key", I, U), it.fresh_fn("dict_pos", U, I)
            x, i = z3.Const("x!d", U), z3.Int("i!d")
            it.assume(m >= 0,
                      z3.ForAll([x], z3.Implies(self.has(x), z3.And(wh(x) >= 0, wh(x) < m, el(wh(x)) == x)), patterns=[wh(x)]),
                      z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), z3.And(self.has(el(i)), wh(el(i)) == i)), patterns=[el(i)]))
            it.ghost[k] = (m, el, wh, self)
        return it.ghost[k]

    def stream(self, it, what):
        from interp import Stream
        m, el, wh, _ = self.enum(it)

        def at(i):
            i = it.int_(i)
            key = it.setkind(el(i), "str") if getattr(self, "strkeys", False) else el(i)
            if what == "keys":
                return key
            v = self.read(it, el(i))
            return v if what == "values" else (key, v)
        return Stream(m, at, "dict", None, meta=(self, wh))

    def copied(self, has, val):
        d = SymDict(has, val, self.kind)
        d.strkeys = getattr(self, "strkeys", False)
        return d

    def method(self, it, name, d):
        def get(k, default=None):
            c = it.store[d.oid]
            kk = c.key(it, k)
            if it.branch(c.has(kk)):
                return c.read(it, kk)
            return default

        def setdefault(k, default=None):
            c = it.store[d.oid]
            kk = c.key(it, k)
            if it.branch(c.has(kk)):
                return c.read(it, kk)
            c.store_item(it, d, k, default)
            return default

        def pop(k, *default):
            c = it.store[d.oid]
            kk = c.key(it, k)
            if it.branch(c.has(kk)):
                v = c.read(it, kk)
                c.delete(it, d, k)
                return v
            if default:
                return default[0]
            raise PyExc("KeyError", (k,), origin="dict.pop")

        def copy():
            o = it.new_oid()
            it.store[o] = it.store[d.oid]
            return VDict(o)
        fns = {"get": get, "setdefault": setdefault, "pop": pop, "copy": copy}
        if name in ("keys", "values", "items"):
            return Native("dict." + name, lambda it, a, k: it.store[d.oid].stream(it, name))
        if name in fns:
            return Native("dict." + name, lambda it, a, k: fns[name](*a, **k))
        raise Unsupported(f"dict.{name} of a symbolic dictionary")


def from_concrete(it, d):
    items = [(it.to_U(k), v) for k, v in d.items()]

    def has(x):
        return disj([x == k for k, _ in items])

    def val(x):
        out = NONE
        for k, v in items:
            out = it.vite(x == k, v, out) if items else NONE
        return out
    return SymDict(has, val)


def as_sym(it, c):
    return c if isinstance(c, SymDict) else from_concrete(it, c)


def install(it):
    it.natives["symdict"] = from_concrete
