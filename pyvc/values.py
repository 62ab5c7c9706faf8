"""Run-time values of the symbolic interpreter (besides plain Python values and z3 terms)."""
import z3

from logic import *  # noqa: F401,F403


class Unsupported(Exception):
    """The construct is outside the engine's reach: the obligation stays open."""


class Restart(Exception):
    """Start the exploration of this function again (a loop variable turned out to change)."""


class PathEnd(Exception):
    """The current path is finished (loop iteration proved, or infeasible)."""


class PyExc(Exception):
    """A Python exception raised by the interpreted program."""

    def __init__(self, cls, args=(), origin="", cause=None):
        self.cls, self.args_, self.origin = cls, args, origin
        super().__init__(cls)

    @property
    def name(self):
        return self.cls if isinstance(self.cls, str) else self.cls.name


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class Poison:
    def __repr__(self):
        return "<poison>"


POISON = Poison()


class VClass:
    """A class of the repository (node classes carry a class id)."""

    def __init__(self, name, module, node, bases, cid=None):
        self.name, self.module, self.node, self.bases, self.cid = name, module, node, bases, cid
        self.members = {}
        self.hi = cid

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, VClass):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def __repr__(self):
        return f"<class {self.name}>"


class ClsOf:
    """type(x) for a symbolic node; term is its class id."""

    def __init__(self, term):
        self.term = term


class ClsArg:
    """An arbitrary class (or tuple of classes) given as an argument."""

    def __init__(self, term, what="class"):
        self.term, self.what = term, what

    def as_stream(self, it):
        from interp import Stream
        if self.what != "tuple":
            raise PyExc("TypeError", (), origin="a class is not iterable")
        n = z3.Function("tuple.len", U, I)(self.term)
        it.assume(n >= 0)
        el = z3.Function("tuple.item", U, I, U)
        return Stream(n, lambda i: ClsArg(el(self.term, it.int_(i))), "seq")


class VFunc:
    def __init__(self, node, module, cls=None, frame=None, kind="function", name=None):
        self.node, self.module, self.cls, self.frame, self.kind = node, module, cls, frame, kind
        self.name = name or getattr(node, "name", "<lambda>")
        self.defaults = None
        self.kwdefaults = None

    @property
    def qual(self):
        p = self.module.name + "."
        if self.cls is not None:
            p += self.cls.name + "."
        return p + self.name

    def __repr__(self):
        return f"<func {self.qual}>"


class VProp:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class Bound:
    def __init__(self, self_, func):
        self.self_, self.func = self_, func


class Native:
    """A builtin or modelled external callable."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<native {self.name}>"


class Ext:
    """Something outside the repository, by dotted name."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<ext {self.name}>"


class VObj:
    """Instance of a non-node class; attributes live in the store."""

    def __init__(self, oid, cls):
        self.oid, self.cls = oid, cls

    def __repr__(self):
        return f"<{getattr(self.cls, 'name', self.cls)}#{self.oid}>"


class VList:
    def __init__(self, oid):
        self.oid = oid


class VDict:
    def __init__(self, oid):
        self.oid = oid


class VSet:
    def __init__(self, oid):
        self.oid = oid


class VSeq:
    """Immutable symbolic sequence."""
    __slots__ = ("n", "at", "kind", "meta")

    def __init__(self, n, at, kind="tuple", meta=None):
        self.n, self.at, self.kind, self.meta = n, at, kind, meta


class HList:
    """A list held in the symbolic heap (attribute of a node)."""

    def __init__(self, addr, elem="any"):
        self.addr, self.elem = addr, elem


class VId:
    """id(x)."""

    def __init__(self, term):
        self.term = term


class VStr:
    """A string built from literal pieces and symbolic pieces."""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, VStr):
                out.extend(p.parts)
            else:
                out.append(p)
        acc = []
        for p in out:
            if isinstance(p, str) and acc and isinstance(acc[-1], str):
                acc[-1] += p
            elif not isinstance(p, str) or p != "":
                acc.append(p)
        self.parts = tuple(acc)

    def __repr__(self):
        return f"VStr{self.parts}"


class Piece:
    """An opaque symbolic string piece: name plus the terms it depends on."""

    def __init__(self, name, terms=(), val=None):
        self.name, self.terms, self.val = name, tuple(terms), val

    def __repr__(self):
        return f"{{{self.name}}}"


class VIter:
    """An iterator object with a position (next() works on it)."""

    def __init__(self, oid):
        self.oid = oid


class VTraverse:
    """node.traverse(...) under its contract (a generator: it can be consumed once)."""

    def __init__(self, it, root, cond):
        self.root, self.cond = root, cond
        self.oid = it.new_oid()
        it.store[self.oid] = "generator"


class VGenExp:
    def __init__(self, it, node, frame):
        self.node, self.frame = node, frame
        self.oid = it.new_oid()
        it.store[self.oid] = "generator"


def consume(it, v):
    if it.store.get(v.oid) != "generator":
        raise Unsupported("a generator that was used before")
    it.store[v.oid] = "used generator"


class VModule:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.globals = {}


class NTuple(tuple):
    """Instance of a NamedTuple class."""

    def __new__(cls, vals, vcls, fields):
        t = super().__new__(cls, vals)
        t.cls, t.fields = vcls, fields
        return t
