"""Strings with symbolic characters: base[i] for the positions i that are kept.

A SymStr is the subsequence of a base string (length n, characters at(i)) selected by keep(i)."""
import z3

from logic import *  # noqa: F401,F403
from values import *  # noqa: F401,F403

CHARSTR = z3.Function("is_char", U, B)


class Base:
    def __init__(self, it, name):
        self.n = it.fresh(name + "_len", I)
        self.at = it.fresh_fn(name + "_char", I, U)
        self.ident = it.fresh(name)
        it.assume(self.n >= 0)


class SymStr:
    def __init__(self, base, keep=None):
        self.base, self.keep = base, keep            # keep None: every position

    def whole(self):
        if self.keep is not None:
            raise Unsupported("position arithmetic on an edited string")
        return self.base

    def to_U(self, it):
        return self.whole().ident

    def getitem(self, it, k):
        b = self.whole()
        if isinstance(k, slice):
            raise Unsupported("slice of a symbolic string")
        k = it.int_(k)
        ok = z3.And(k >= -b.n, k < b.n)
        if not it.branch(ok):
            raise PyExc("IndexError", (), origin="string index")
        t = b.at(z3.If(k < 0, k + b.n, k))
        it.setkind(t, "str")
        return t

    def length(self, it):
        return self.whole().n

    def to_str(self, it):
        return self

    def same(self, it, other):
        """Same characters kept (checked for an arbitrary position)."""
        if not isinstance(other, SymStr) or other.base is not self.base:
            return FALSE
        i = it.fresh("i", I)
        k1, k2 = ((x.keep or (lambda i: TRUE))(i) for x in (self, other))
        return implies(z3.And(i >= 0, i < self.base.n), k1 == k2)

    def compare(self, it, op, other, swapped):
        return NotImplemented

    def contains(self, it, x):
        raise Unsupported("substring test")

    def method(self, it, name):
        if name in ("find", "index"):
            return Native("str." + name, lambda it, a, k: self.search(it, name, a, k))
        if name == "replace":
            return Native("str.replace", lambda it, a, k: self.replace(it, a, k))
        if hasattr(str, name):
            return Native("str." + name, lambda it, a, k: opaque(it, self, name, a))
        return None

    # ---- trusted contracts of the built-in string operations
    def search(self, it, name, a, k):
        if k:
            raise Unsupported("keyword arguments of str.find")
        b = self.whole()
        r = found(it, b, a[0], a[1] if len(a) > 1 else None, a[2] if len(a) > 2 else None)
        if name == "index":
            if it.branch(r == -1):
                raise PyExc("ValueError", (), origin="str.index")
        return r

    def replace(self, it, a, k):
        """s.replace('\\\\' + c, c) with c another character than the backslash: occurrences cannot overlap."""
        old, new = a[0], a[1]
        if k or len(a) > 2:
            raise Unsupported("str.replace with a count")
        if not (isinstance(old, VStr) and len(old.parts) == 2 and old.parts[0] == "\\" and not isinstance(old.parts[1], str)):
            raise Unsupported("str.replace of this pattern")
        c = old.parts[1]
        if isinstance(c, Piece):
            raise Unsupported("str.replace of this pattern")
        new = it.to_U(new)
        it.oblige("the replaced text is a backslash and one character", CHARSTR(c))
        if not new.eq(c):
            raise Unsupported("str.replace with another text")
        it.oblige("the special character is not the backslash", c != S("\\"))
        b, keep = self.base, self.keep or (lambda i: TRUE)
        nxt = it.fresh_fn("next", I, I)             # the next kept position
        i, j = z3.Int("i!r"), z3.Int("j!r")
        it.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < b.n), z3.And(nxt(i) > i, nxt(i) <= b.n, z3.Implies(nxt(i) < b.n, keep(nxt(i))))), patterns=[nxt(i)]))
        it.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < nxt(i)), neg(keep(j))), patterns=[z3.MultiPattern(nxt(i), b.at(j))]))
        return SymStr(b, lambda i: z3.And(keep(i), z3.Not(z3.And(b.at(i) == S("\\"), nxt(i) < b.n, b.at(nxt(i)) == c))))


def opaque(it, s, name, a):
    """Built-in string operation used as is (uninterpreted)."""
    b = s.whole()
    if name in ("rfind", "rindex", "count"):
        lo, hi = bounds(it, b, a[1] if len(a) > 1 else None, a[2] if len(a) > 2 else None)
        r = z3.Function("str." + name, U, U, I, I, I)(b.ident, it.to_U(a[0]), lo, hi)
        if name == "rindex" and it.branch(r == -1):
            raise PyExc("ValueError", (), origin="str.rindex")
        return r
    ts = [b.ident] + [it.to_U(x) for x in a]
    if name in ("startswith", "endswith"):
        return z3.Function(f"str.{name}.{len(ts)}", *[U] * len(ts), B)(*ts)
    r = z3.Function(f"str.{name}.{len(ts)}", *[U] * len(ts), U)(*ts)
    it.assume(cls(r) == CLS_STR)
    return it.setkind(r, "str")


def found(it, b, sub, lo, hi):
    """s.find(sub, lo, hi): for a one-character sub, its first position in the clamped bounds, or -1."""
    sub = it.to_U(sub)
    lo, hi = bounds(it, b, lo, hi)
    k = ("find", b.ident.get_id())
    if k not in it.ghost:
        it.ghost[k] = it.fresh_fn("FIND", U, I, I, I)
    r = it.ghost[k](sub, lo, hi)
    j = z3.Int("j!f")
    one = CHARSTR(sub)
    it.assume(z3.Implies(one, z3.Or(r == -1, z3.And(r >= lo, r < hi, b.at(r) == sub))))
    it.assume(z3.ForAll([j], z3.Implies(z3.And(one, j >= lo, j < hi, z3.Or(r == -1, j < r)), b.at(j) != sub), patterns=[b.at(j)]))
    return r


def bounds(it, b, lo, hi):
    """Python's clamping of slice bounds."""
    lo = z3.IntVal(0) if lo is None else it.int_(lo)
    hi = b.n if hi is None else it.int_(hi)
    clamp = lambda x: z3.If(x < 0, z3.If(x + b.n < 0, 0, x + b.n), x)
    hi = clamp(hi)
    return clamp(lo), z3.If(hi > b.n, b.n, hi)


class SymCharSet:
    """A set of characters: membership predicate, enumeration elems(0..m-1) in arbitrary order."""
    symbolic = True

    def __init__(self, it, name):
        self.has = it.fresh_fn(name + "_has", U, B)
        self.m = it.fresh(name + "_size", I)
        self.elem = it.fresh_fn(name + "_elem", I, U)
        self.where = it.fresh_fn(name + "_pos", U, I)
        c, i = z3.Const("c!s", U), z3.Int("i!s")
        it.assume(self.m >= 0,
                  z3.ForAll([c], z3.Implies(self.has(c), z3.And(CHARSTR(c), cls(c) == CLS_STR, self.where(c) >= 0, self.where(c) < self.m, self.elem(self.where(c)) == c)), patterns=[self.has(c)]),
                  z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.m), z3.And(self.has(self.elem(i)), self.where(self.elem(i)) == i)), patterns=[self.elem(i)]))

    def contains(self, it, x):
        if x is None:
            return False
        return self.has(it.to_U(x))


class CharArg:
    """The argument giving the special characters: set(argument) is the set of them."""

    def __init__(self, cs):
        self.cs = cs

    def as_set(self, it):
        o = it.new_oid()
        it.store[o] = self.cs
        return VSet(o)


def install(it):
    def set_stream(it, v):
        from interp import Stream
        c = it.store[v.oid]
        if not isinstance(c, SymCharSet):
            raise Unsupported("iteration over a symbolic set")

        def at(k):
            t = c.elem(it.int_(k))
            it.setkind(t, "str")
            return t
        return Stream(c.m, at, "set", None, meta=c)
    it.natives["set-stream"] = set_stream

    def length(it, v):
        return v.length(it) if isinstance(v, SymStr) else None
    it.natives["len-hook"] = length
