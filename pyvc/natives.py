"""Builtins, methods of builtin types and iteration, on concrete and symbolic values."""
import ast
import logging

import z3

from logic import *  # noqa: F401,F403
from values import *  # noqa: F401,F403

RAISES = "raises"


def install(it):
    from interp import Stream, same_heap_objects, is_fresh_after, consts_of
    N = it.natives

    def nat(name):
        def deco(fn):
            N[name] = Native(name, fn)
            return fn
        return deco

    @nat("len")
    def _len(it, a, k):
        v = a[0]
        if isinstance(v, str):
            return len(v)
        if isinstance(v, (VDict, VSet)):
            c = it.store[v.oid]
            if isinstance(c, (dict, frozenset)):
                return len(c)
            raise Unsupported("len of a symbolic dictionary")
        if it.is_seq(v):
            n, _ = it.seq_parts(v)
            return n
        if isinstance(v, VObj):
            f = it.class_member(v.cls, "__len__")
            if f is not None:
                return it.call(Bound(v, f), [], {})
        h = it.natives.get("len-hook")
        if h is not None:
            r = h(it, v)
            if r is not None:
                return r
        raise Unsupported(f"len of {type(v).__name__}")

    @nat("isinstance")
    def _isinstance(it, a, k):
        return it.isinstance_(a[0], a[1])

    @nat("issubclass")
    def _issubclass(it, a, k):
        return it.issubclass_(a[0], a[1])

    @nat("type")
    def _type(it, a, k):
        v = a[0]
        if isinstance(v, z3.ExprRef) and v.sort() == U:
            return ClsOf(cls(v))
        if isinstance(v, VObj):
            return v.cls
        if v is None:
            return Ext("builtins.NoneType")
        if isinstance(v, (VClass,)):
            return Ext("builtins.type")
        for t in (bool, int, str, tuple):
            if isinstance(v, t):
                return it.natives[t.__name__]
        if isinstance(v, VList):
            return it.natives["list"]
        raise Unsupported("type of value")

    @nat("id")
    def _id(it, a, k):
        v = a[0]
        if isinstance(v, z3.ExprRef):
            return VId(v)
        return VId(it.to_U(v))

    @nat("bool")
    def _bool(it, a, k):
        return it.truth(a[0]) if a else False

    @nat("str")
    def _str(it, a, k):
        return it.to_str(a[0]) if a else ""

    @nat("repr")
    def _repr(it, a, k):
        if isinstance(a[0], (str, int, bool, type(None))):
            return repr(a[0])
        return VStr([Piece("repr", it.piece_terms(a[0]))])

    @nat("int")
    def _int(it, a, k):
        v = a[0] if a else 0
        if isinstance(v, (int, float)):
            return int(v)
        if isinstance(v, z3.ExprRef) and v.sort() == I:
            return v
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                raise PyExc("ValueError", (v,), origin="int()")
        t = it.to_U(v)
        if isinstance(v, VStr) and len(v.parts) == 1 and isinstance(v.parts[0], Piece) and v.parts[0].name == "str":
            t = it.to_U(v.parts[0].val)
        okf, val = z3.Function("int.ok", U, B), z3.Function("int", U, I)
        it.assume(z3.Implies(cls(t) == CLS_INT, z3.And(okf(t), val(t) == unI(t))))
        if it.branch(okf(t)):
            return val(t)
        raise PyExc("ValueError", (), origin="int()")

    @nat("float")
    def _float(it, a, k):
        if isinstance(a[0], (int, float)):
            return float(a[0])
        raise Unsupported("float()")

    @nat("max")
    def _max(it, a, k):
        return minmax(it, a, True)

    @nat("min")
    def _min(it, a, k):
        return minmax(it, a, False)

    def minmax(it, a, big):
        if len(a) == 1:
            s = it.stream(a[0])
            if not isinstance(s, list):
                raise Unsupported("max of a symbolic sequence")
            a = s
        r = a[0]
        for x in a[1:]:
            if isinstance(r, (int, float)) and isinstance(x, (int, float)):
                r = max(r, x) if big else min(r, x)
            else:
                ri, xi = it.int_(r), it.int_(x)
                r = z3.If(xi > ri, xi, ri) if big else z3.If(xi < ri, xi, ri)
        return r

    @nat("abs")
    def _abs(it, a, k):
        v = a[0]
        return abs(v) if isinstance(v, int) else z3.If(v >= 0, v, -v)

    @nat("print")
    def _print(it, a, k):
        it.event("print", tuple(a))

    @nat("hasattr")
    def _hasattr(it, a, k):
        try:
            it.getattr(a[0], it_str(a[1]))
            return True
        except PyExc as e:
            if e.name == "AttributeError":
                return False
            raise

    @nat("getattr")
    def _getattr(it, a, k):
        name = a[1]
        if not isinstance(name, str):
            h = it.natives.get("getattr-symbolic")
            if h is not None:
                return h(it, a)
            raise Unsupported("getattr with a symbolic name")
        try:
            return it.getattr(a[0], name)
        except PyExc as e:
            if e.name == "AttributeError" and len(a) > 2:
                return a[2]
            raise

    @nat("setattr")
    def _setattr(it, a, k):
        if isinstance(a[1], str):
            it.setattr(a[0], a[1], a[2])
            return None
        h = it.natives.get("setattr-symbolic")
        if h is not None:
            return h(it, a)
        raise Unsupported("setattr with a symbolic name")

    @nat("callable")
    def _callable(it, a, k):
        return isinstance(a[0], (VFunc, Bound, Native, VClass))

    @nat("tuple")
    def _tuple(it, a, k):
        if not a:
            return ()
        return as_seq(it, a[0], "tuple")

    @nat("list")
    def _list(it, a, k):
        if not a:
            return it.new_list(())
        if hasattr(a[0], "as_list"):
            return a[0].as_list(it)
        return it.new_list(as_seq(it, a[0], "list"))

    @nat("set")
    def _set(it, a, k):
        o = it.new_oid()
        if not a:
            it.store[o] = frozenset()
            return VSet(o)
        if isinstance(a[0], VSet):
            it.store[o] = it.store[a[0].oid]
            return VSet(o)
        if hasattr(a[0], "as_set"):
            return a[0].as_set(it)
        s = it.stream(a[0])
        if isinstance(s, list):
            it.store[o] = frozenset(s)
            return VSet(o)
        h = it.natives.get("symbolic-set")
        if h is not None:
            return h(it, a[0])
        raise Unsupported("set of a symbolic sequence")

    N["frozenset"] = Native("frozenset", lambda it, a, k: _set(it, a, k))

    @nat("dict")
    def _dict(it, a, k):
        o = it.new_oid()
        it.store[o] = {}
        d = VDict(o)
        if a:
            if isinstance(a[0], VDict):
                it.store[o] = dict_copy(it.store[a[0].oid])
            else:
                s = it.stream(a[0])
                if not isinstance(s, list):
                    raise Unsupported("dict of a symbolic sequence")
                for pair in s:
                    kk, vv = it.unpack(pair, 2, [False, False])
                    setitem(it, d, kk, vv)
        for kk, vv in k.items():
            setitem(it, d, kk, vv)
        return d

    @nat("dict.fromkeys")
    def _fromkeys(it, a, k):
        h = it.natives.get("fromkeys-hook")
        if h is not None:
            r = h(it, a)
            if r is not None:
                return r
        s = it.stream(a[0])
        if not isinstance(s, list):
            raise Unsupported("dict.fromkeys of a symbolic sequence")
        o = it.new_oid()
        it.store[o] = {}
        for x in s:
            setitem(it, VDict(o), x, a[1] if len(a) > 1 else None)
        return VDict(o)

    @nat("range")
    def _range(it, a, k):
        lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if all(isinstance(x, int) for x in (lo, hi, step)):
            return tuple(range(lo, hi, step))
        lo, hi = it.int_(lo), it.int_(hi)
        if isinstance(step, int) and step == 1:
            n = z3.If(hi > lo, hi - lo, z3.IntVal(0))
            return VSeq(n, lambda i: lo + i, "tuple")
        if isinstance(step, int) and step == -1:
            n = z3.If(lo > hi, lo - hi, z3.IntVal(0))
            return VSeq(n, lambda i: lo - i, "tuple")
        raise Unsupported("range step")

    @nat("reversed")
    def _reversed(it, a, k):
        v = a[0]
        n, at = it.seq_parts(v)
        if isinstance(n, int):
            c = v if isinstance(v, tuple) else it.list_content(v) if isinstance(v, VList) else tuple(at(z3.IntVal(i)) for i in range(n))
            return tuple(reversed(c))
        return VSeq(n, lambda i: at(n - 1 - i), "iter")

    @nat("sorted")
    def _sorted(it, a, k):
        if isinstance(a[0], VSet):
            c = it.store[a[0].oid]
            if all(isinstance(x, str) for x in c):
                return it.new_list(tuple(sorted(c)))
        s = it.stream(a[0])
        if isinstance(s, list) and all(isinstance(x, (int, str)) for x in s) and not k:
            return it.new_list(tuple(sorted(s)))
        raise Unsupported("sorted")

    @nat("enumerate")
    def _enumerate(it, a, k):
        start = k.get("start", a[1] if len(a) > 1 else 0)
        s = it.stream(a[0])
        if isinstance(s, list):
            return tuple((add_int(it, start, i), v) for i, v in enumerate(s))
        if s.filt is not None:
            return VEnumFilter(s, start)
        return Stream(s.n, lambda i: (add_int(it, start, i), s.at(i)), s.kind, None, meta=s.meta)

    @nat("zip")
    def _zip(it, a, k):
        ss = [it.stream(x) for x in a]
        if all(isinstance(s, list) for s in ss):
            return tuple(zip(*ss))
        raise Unsupported("zip of symbolic sequences")

    @nat("map")
    def _map(it, a, k):
        s = it.stream(a[1])
        if isinstance(s, list):
            return tuple(it.call(a[0], [x], {}) for x in s)
        raise Unsupported("map over a symbolic sequence")

    @nat("filter")
    def _filter(it, a, k):
        s = it.stream(a[1])
        if isinstance(s, list):
            return tuple(x for x in s if it.test(x if a[0] is None else it.call(a[0], [x], {})))
        raise Unsupported("filter over a symbolic sequence")

    @nat("sum")
    def _sum(it, a, k):
        s = it.stream(a[0])
        if isinstance(s, list):
            r = a[1] if len(a) > 1 else 0
            for x in s:
                r = binop(it, ast.Add(), r, x)
            return r
        raise Unsupported("sum of a symbolic sequence")

    def quant(it, v, conj_):
        if isinstance(v, VGenExp):
            consume(it, v)
            r = it.comp(v.node, v.frame) if not lazy_concrete(it, v) else lazy_concrete(it, v)
            if isinstance(r, tuple) and r and isinstance(r[0], str) and r[0] == "$lazy":
                _, items, target, fr, elt, ifs = r
                for x in items:
                    it.assign(target, x, fr)
                    if not all(it.test(it.eval(c, fr)) for c in ifs):
                        continue
                    t = it.truth(it.eval(elt, fr))
                    if it.branch(t) != conj_:
                        return not conj_
                return conj_
            if isinstance(r, Stream):
                def iteration(k):
                    it.assume(k >= 0)
                    if r.n is not None:
                        it.assume(k < it.int_(r.n))
                    x = r.at(k)
                    if not r.filt(x):
                        return None
                    if it.test(r.meta["map"][2]()) != conj_:
                        raise ReturnSig(not conj_)
                ex = it.search(r, iteration, "any/all")
                if ex is None:
                    return conj_
                if ex[0] == "return":
                    return ex[1]
                raise ex[1]
        else:
            r = v
        s = it.stream(r)
        if isinstance(s, list):
            for x in s:
                if it.test(x) != conj_:
                    return not conj_
            return conj_
        j = z3.Int(f"q!{it.new_oid()}")
        t = it.truth(s.at(j))
        t = t if isinstance(t, z3.ExprRef) else z3.BoolVal(t)
        rng = z3.And(j >= 0, j < it.int_(s.n))
        from interp import forall_, stream_triggers
        if conj_:
            return forall_([j], z3.Implies(rng, t), stream_triggers(it, s, j, t))
        return z3.Exists([j], z3.And(rng, t))

    def lazy_concrete(it, v):
        e = v.node
        if len(e.generators) != 1:
            return None
        g = e.generators[0]
        fr = it.new_frame(v.frame, None, v.frame.module)
        fr.nonlocals = {"$comp"}
        s = it.stream(it.eval(g.iter, fr))
        if isinstance(s, list):
            return ("$lazy", s, g.target, fr, e.elt, g.ifs)
        return None

    N["all"] = Native("all", lambda it, a, k: quant(it, a[0], True))
    N["any"] = Native("any", lambda it, a, k: quant(it, a[0], False))

    @nat("iter")
    def _iter(it, a, k):
        return make_iter(it, a[0])

    @nat("next")
    def _next(it, a, k):
        v = a[0]
        h = it.natives.get("next-hook")
        if h is not None:
            r = h(it, v, a)
            if r is not NotImplemented:
                return r
        if isinstance(v, VGenExp):
            consume(it, v)
            return next_genexp(it, v, a[1:])
        if isinstance(v, VTraverse):
            return next_stream(it, it.stream(v), a[1:])
        if isinstance(v, VIter):
            st = it.store[v.oid]
            if st[0] == "count":
                it.store[v.oid] = ("count", add_int(it, st[1], st[2]), st[2])
                return st[1]
            if st[0] == "list":
                _, items, pos = st
                if pos < len(items):
                    it.store[v.oid] = ("list", items, pos + 1)
                    return items[pos]
                if len(a) > 1:
                    return a[1]
                raise PyExc("StopIteration", (), origin="next()")
        raise Unsupported("next()")

    def next_genexp(it, v, default):
        e = v.node
        if len(e.generators) != 1:
            raise Unsupported("next() of a nested generator")
        g = e.generators[0]
        fr = it.new_frame(v.frame, None, v.frame.module)
        fr.nonlocals = {"$comp"}
        src = it.eval(g.iter, fr)
        if isinstance(src, VGenExp) or isinstance(src, VIter):
            h = it.natives.get("next-infinite")
            if h is not None:
                return h(it, g, fr, e, src)
        s = it.stream(src)
        if isinstance(s, list):
            for x in s:
                it.assign(g.target, x, fr)
                if all(it.test(it.eval(c, fr)) for c in g.ifs):
                    return it.eval(e.elt, fr)
            if default:
                return default[0]
            raise PyExc("StopIteration", (), origin="next()")

        def body(x):
            it.assign(g.target, x, fr)
            if all(it.test(it.eval(c, fr)) for c in g.ifs):
                raise ReturnSig(it.eval(e.elt, fr))
        return next_stream(it, s, default, body, fr, it.assigned_names([ast.Assign(targets=[g.target], value=ast.Constant(0))]))

    def next_stream(it, s, default, body=None, fr=None, names=()):
        def iteration(k):
            it.assume(k >= 0)
            if s.n is not None:
                it.assume(k < it.int_(s.n))
            x = s.at(k)
            if s.filt is not None and not it.branch(it.truth(s.filt(x))):
                return None
            if body is None:
                raise ReturnSig(x)
            body(x)
        ex = it.search(s, iteration, "next()", fr, names)
        if ex is None:
            if default:
                return default[0]
            raise PyExc("StopIteration", (), origin="next()")
        if ex[0] == "return":
            return ex[1]
        raise ex[1]

    @nat("itertools.count")
    def _count(it, a, k):
        o = it.new_oid()
        it.store[o] = ("count", k.get("start", a[0] if a else 0), k.get("step", a[1] if len(a) > 1 else 1))
        return VIter(o)

    @nat("typing.cast")
    def _cast(it, a, k):
        return a[1]

    @nat("icecream.ic")
    def _ic(it, a, k):
        it.event("ic", tuple(a))

    N["object"] = Native("object", lambda it, a, k: VObj(it.new_oid(), Ext("builtins.object")))

    for lvl in ("DEBUG", "INFO", "WARNING", "WARN", "ERROR", "CRITICAL", "NOTSET"):
        N["logging." + lvl] = getattr(logging, lvl)

    @nat("logging.getLogger")
    def _getlogger(it, a, k):
        return Ext("LOGGER:" + (a[0] if a and isinstance(a[0], str) else "?"))

    def ext_call(it, name, args, kwargs, self_):
        if name.startswith("LOGGER:"):
            base, meth = name.rsplit(".", 1)
            if meth == "getChild":
                return Ext(base + "/" + str(args[0]))
            if meth in ("debug", "info", "warning", "error", "critical", "lint", "log", "exception"):
                if meth == "log" and args and it.natives.get("lint-level") is not None and args[0] == it.natives["lint-level"]:
                    meth, args = "lint", args[1:]
                if meth == "lint" or it.natives.get("record-logs"):
                    it.event("log", meth, tuple(args), tuple(sorted(kwargs.items(), key=lambda x: x[0])))
                return None
            if meth in ("isEnabledFor",):
                return it.fresh("enabled", B)
            if meth == "getEffectiveLevel":
                return it.fresh("level", I)
        if name.startswith("typing."):
            return Ext(name)
        if name == "logging.addLevelName":
            it.event("ext", name, tuple(args))
            return None
        if name == "collections.namedtuple":
            return Ext("namedtuple")
        h = it.natives.get("ext-call2")
        if h is not None:
            return h(it, name, args, kwargs, self_)
        raise Unsupported(f"external call {name}")
    N["ext-call"] = ext_call


class VEnumFilter:
    def __init__(self, stream, start):
        self.stream, self.start = stream, start


def it_str(x):
    if isinstance(x, str):
        return x
    raise Unsupported("symbolic attribute name")


def add_int(it, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return it.int_(a) + it.int_(b)


def dict_copy(c):
    return dict(c) if isinstance(c, dict) else c


def as_seq(it, v, kind):
    from interp import Stream
    if isinstance(v, VGenExp):
        consume(it, v)
        r = it.comp(v.node, v.frame)
        if isinstance(r, Stream):
            h = it.natives.get("filtered-list")
            if h is not None:
                return h(it, r, kind)
            raise Unsupported("list of a filtered symbolic sequence")
        return r if isinstance(r, tuple) else VSeq(r.n, r.at, kind)
    s = it.stream(v)
    if isinstance(s, list):
        return tuple(s)
    if s.filt is not None or s.n is None or s.kind == "traverse":
        h = it.natives.get("filtered-list")
        if h is not None:
            return h(it, s, kind)
        raise Unsupported("list of a filtered symbolic sequence")
    return VSeq(s.n, s.at, kind)


def make_iter(it, v):
    if isinstance(v, VIter):
        return v
    s = it.stream(v)
    if isinstance(s, list):
        o = it.new_oid()
        it.store[o] = ("list", tuple(s), 0)
        return VIter(o)
    raise Unsupported("iterator over a symbolic sequence")


def stream(it, v):
    """list of concrete elements, or Stream."""
    from interp import Stream
    if isinstance(v, Stream):
        return v
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, str):
        return list(v)
    if isinstance(v, VList):
        c = it.list_content(v)
        if isinstance(c, tuple):
            return list(c)
        return Stream(c.n, c.at, "seq", None, meta=v)
    if isinstance(v, HList):
        c = it.hseq(v.addr)
        if isinstance(c, tuple):
            return list(c)
        return Stream(c.n, c.at, "seq", None, meta=v)
    if isinstance(v, VSeq):
        if isinstance(v.n, int):
            return [v.at(z3.IntVal(i)) for i in range(v.n)]
        return Stream(v.n, v.at, "seq", None, meta=v)
    if isinstance(v, VSet):
        c = it.store[v.oid]
        if isinstance(c, frozenset):
            return sorted(c, key=lambda x: (str(type(x)), getattr(x, "name", str(x))))
        h = it.natives.get("set-stream")
        if h is not None:
            return h(it, v)
        raise Unsupported("iteration over a symbolic set")
    if isinstance(v, VDict):
        c = it.store[v.oid]
        if isinstance(c, dict):
            return list(c)
        return c.stream(it, "keys")
    if isinstance(v, VGenExp):
        consume(it, v)
        r = it.comp(v.node, v.frame)
        if isinstance(r, Stream):
            target, fr, elt = r.meta["map"]
            return Stream(r.n, r.at, r.kind, r.filt, meta=r.meta)
        return stream(it, r)
    if isinstance(v, VIter):
        st = it.store[v.oid]
        if st[0] == "list":
            items = list(st[1][st[2]:])
            it.store[v.oid] = ("list", st[1], len(st[1]))
            return items
        if st[0] == "count":
            return Stream(None, lambda i: add_int(it, st[1], i), "count", None, meta=v)
    if isinstance(v, VTraverse):
        consume(it, v)
        h = it.natives.get("traverse-stream")
        return h(it, v)
    if isinstance(v, VEnumFilter):
        h = it.natives.get("enum-filter-stream")
        if h is not None:
            return h(it, v)
        raise Unsupported("enumerate of a filtered symbolic sequence")
    if hasattr(v, "as_stream"):
        return v.as_stream(it)
    h = it.natives.get("stream-hook")
    if h is not None:
        r = h(it, v)
        if r is not None:
            return r
    if v is None or isinstance(v, (int, bool)):
        raise PyExc("TypeError", (), origin="not iterable")
    if isinstance(v, z3.ExprRef) and v.sort() == U:
        if it.branch(cls(v) == CLS_LIST):
            return stream(it, HList(v))
        if it.kind(v) == "node" or it.branch(it.isnode(v)):
            raise PyExc("TypeError", (), origin="node is not iterable")
    raise Unsupported(f"iteration over {type(v).__name__}")


# ---------------------------------------------------------------------- operators
def binop(it, op, a, b):
    if hasattr(a, "binop"):
        return a.binop(it, op, b, False)
    if hasattr(b, "binop"):
        return b.binop(it, op, a, True)
    num = (int, float)
    if isinstance(a, num) and isinstance(b, num):
        try:
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.FloorDiv: lambda: a // b,
                    ast.Mod: lambda: a % b, ast.Div: lambda: a / b, ast.Pow: lambda: a ** b,
                    ast.BitOr: lambda: a | b, ast.BitAnd: lambda: a & b}[type(op)]()
        except ZeroDivisionError:
            raise PyExc("ZeroDivisionError", (), origin="division")
    isint = lambda x: (isinstance(x, int) and not isinstance(x, bool)) or (isinstance(x, z3.ExprRef) and x.sort() == I)
    if isint(a) and isint(b):
        x, y = it.int_(a), it.int_(b)
        if isinstance(op, ast.Add):
            return x + y
        if isinstance(op, ast.Sub):
            return x - y
        if isinstance(op, ast.Mult):
            return x * y
    if isinstance(op, ast.Add):
        sa, sb = str_like(it, a), str_like(it, b)
        if sa and sb:
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            r = VStr([it.to_str(a), it.to_str(b)])
            return "".join(r.parts) if all(isinstance(p, str) for p in r.parts) else r
        if it.is_seq(a) and it.is_seq(b):
            ca = it.list_content(a) if isinstance(a, VList) else it.hseq(a.addr) if isinstance(a, HList) else a
            cb = it.list_content(b) if isinstance(b, VList) else it.hseq(b.addr) if isinstance(b, HList) else b
            r = it.seq_concat(ca, cb)
            if isinstance(a, (VList, HList)) or (isinstance(a, VSeq) and a.kind == "list"):
                return it.new_list(r)
            return r
        if (sa and (b is None or isinstance(b, (int, bool)))) or (sb and (a is None or isinstance(a, (int, bool)))):
            raise PyExc("TypeError", (), origin="string + non-string")
        for x, other in ((a, sb), (b, sa)):
            if isinstance(x, z3.ExprRef) and x.sort() == U and other:
                if it.branch(cls(x) == CLS_STR):
                    it.setkind(x, "str")
                    return VStr([it.to_str(a), it.to_str(b)])
                raise PyExc("TypeError", (), origin="string + non-string")
        if isinstance(a, VObj) or isinstance(b, VObj):
            for x, y, nm in ((a, b, "__add__"), (b, a, "__radd__")):
                if isinstance(x, VObj):
                    f = it.class_member(x.cls, nm)
                    if f is not None:
                        return it.call(Bound(x, f), [y], {})
    if isinstance(op, ast.Mult):
        if isinstance(a, str) and isinstance(b, int):
            return a * b
        if isinstance(b, str) and isinstance(a, int):
            return a * b
        if isinstance(a, str) or isinstance(b, str):
            return VStr([Piece("rep", it.piece_terms(a) + it.piece_terms(b))])
    if isinstance(op, ast.Mod) and isinstance(a, str):
        return VStr([Piece("percent:" + a, it.piece_terms(b))])
    if isinstance(op, ast.BitOr):
        if isinstance(a, VSet) and isinstance(b, VSet):
            o = it.new_oid()
            it.store[o] = it.store[a.oid] | it.store[b.oid]
            return VSet(o)
        return Ext("typing.union")
    raise Unsupported(f"operator {type(op).__name__} on {type(a).__name__}, {type(b).__name__}")


def str_like(it, v):
    if isinstance(v, (str, VStr)):
        return True
    if isinstance(v, z3.ExprRef) and v.sort() == U:
        return it.kind(v) == "str"
    return False


def compare(it, op, a, b):
    if isinstance(op, ast.Is):
        return it.identical(a, b)
    if isinstance(op, ast.IsNot):
        r = it.identical(a, b)
        return (not r) if isinstance(r, bool) else neg(r)
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(it, b, a)
        if isinstance(op, ast.In):
            return r
        return (not r) if isinstance(r, bool) else neg(r)
    for x, y, sw in ((a, b, False), (b, a, True)):
        if hasattr(x, "compare"):
            r = x.compare(it, op, y, sw)
            if r is not NotImplemented:
                return r
    if isinstance(op, (ast.Eq, ast.NotEq)):
        r = None
        if isinstance(a, VObj) and isinstance(a.cls, VClass):
            f = it.class_member(a.cls, "__eq__")
            if f is not None:
                r = it.truth(it.call(Bound(a, f), [b], {}))
        if r is None:
            r = it.equal(a, b)
        if isinstance(op, ast.Eq):
            return r
        return (not r) if isinstance(r, bool) else neg(r)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) or isinstance(a, str) and isinstance(b, str):
        return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
    if isinstance(a, VSet) and isinstance(b, VSet):
        x, y = it.store[a.oid], it.store[b.oid]
        if isinstance(x, frozenset) and isinstance(y, frozenset):
            return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
    x, y = it.int_(a), it.int_(b)
    return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]


def contains(it, c, x):
    if hasattr(c, "contains"):
        return c.contains(it, x)
    if isinstance(c, str):
        if isinstance(x, str):
            return x in c
        h = it.natives.get("str-contains")
        if h is not None:
            return h(it, c, x)
        raise Unsupported("substring test")
    if isinstance(c, VSet):
        s = it.store[c.oid]
        if isinstance(s, frozenset):
            out = [it.equal(x, y) for y in sorted(s, key=lambda v: (str(type(v)), getattr(v, "name", str(v))))]
            if any(o is True for o in out):
                return True
            out = [o for o in out if o is not False]
            return disj(out) if out else False
        return s.contains(it, x)
    if isinstance(c, VDict):
        d = it.store[c.oid]
        if isinstance(d, dict):
            return key_lookup(it, d, x) is not None if concrete_key(x) and all(concrete_key(k) for k in d) else sym_in_dict(it, d, x)
        return d.contains(it, x)
    if isinstance(c, VObj):
        f = it.class_member(c.cls, "__contains__") if isinstance(c.cls, VClass) else None
        if f is not None:
            return it.truth(it.call(Bound(c, f), [x], {}))
    if it.is_seq(c):
        n, at = it.seq_parts(c)
        if isinstance(n, int):
            cc = c if isinstance(c, tuple) else it.list_content(c) if isinstance(c, VList) else tuple(at(z3.IntVal(i)) for i in range(n))
            out = []
            for y in cc:
                e = it.identical(x, y)
                if e is not True and not isnode_like(it, x, y):
                    e = it.equal(x, y)
                out.append(e)
            if any(o is True for o in out):
                return True
            out = [o for o in out if o is not False]
            return disj(out) if out else False
        j = z3.Int(f"in!{it.new_oid()}")
        e = it.equal(at(j), x)
        e = e if isinstance(e, z3.ExprRef) else z3.BoolVal(e)
        return z3.Exists([j], z3.And(j >= 0, j < n, e))
    if isinstance(c, (VStr, z3.ExprRef)):
        if isinstance(c, VStr) and isinstance(x, str) and any(isinstance(p, str) and x in p for p in c.parts):
            return True
        return z3.Function("str.contains", U, U, B)(it.to_U(c), it.to_U(x))
    if isinstance(c, VGenExp):
        s = stream(it, c)
        if isinstance(s, list):
            return contains(it, tuple(s), x)
    raise Unsupported(f"membership in {type(c).__name__}")


def isnode_like(it, x, y):
    return any(isinstance(v, z3.ExprRef) and it.kind(v) in ("node", "ref") for v in (x, y))


def concrete_key(x):
    return isinstance(x, (str, int, bool, type(None), VClass, VFunc, tuple))


def key_lookup(it, d, x):
    for k in d:
        if it.equal(k, x) is True:
            return k
    if None in d and x is None:
        return None
    return None


def sym_in_dict(it, d, x):
    out = [it.equal(k, x) for k in d]
    if any(o is True for o in out):
        return True
    out = [o for o in out if o is not False]
    return disj(out) if out else False


def find_key(it, d, x):
    """Branching lookup; returns (found, key)."""
    for k in d:
        e = it.equal(k, x)
        if e is True or (e is not False and it.branch(e)):
            return True, k
    return False, None


def getitem(it, o, k):
    if hasattr(o, "getitem"):
        return o.getitem(it, k)
    if isinstance(k, slice) and "slice-hook" in it.natives and isinstance(o, (VStr, z3.ExprRef)) and str_like(it, o):
        return it.natives["slice-hook"](it, o, k)
    if isinstance(o, VDict):
        d = it.store[o.oid]
        if isinstance(d, dict):
            f, key = find_key(it, d, k)
            if f:
                return d[key]
            raise PyExc("KeyError", (k,), origin="dictionary lookup")
        return d.lookup(it, k, o)
    if isinstance(o, str):
        if isinstance(k, slice) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
            return o[k]
        if isinstance(k, int):
            try:
                return o[k]
            except IndexError:
                raise PyExc("IndexError", (), origin="string index")
        raise Unsupported("symbolic index into a string")
    if it.is_seq(o):
        if isinstance(k, slice):
            return slice_(it, o, k)
        n, at = it.seq_parts(o)
        if isinstance(n, int) and isinstance(k, int):
            c = o if isinstance(o, tuple) else it.list_content(o) if isinstance(o, VList) else None
            if not -n <= k < n:
                raise PyExc("IndexError", (), origin="index")
            if c is not None:
                return c[k]
            return at(z3.IntVal(k % n))
        ni, ki = it.int_(n), it.int_(k)
        if isinstance(k, int) and k < 0:
            if it.branch(ni >= -k):
                return at(ni + k)
            raise PyExc("IndexError", (), origin="index")
        if it.branch(z3.And(ki >= 0, ki < ni)):
            return at(ki)
        if it.branch(z3.And(ki < 0, ki >= -ni)):
            return at(ki + ni)
        raise PyExc("IndexError", (), origin="index")
    if isinstance(o, VObj) and isinstance(o.cls, VClass):
        f = it.class_member(o.cls, "__getitem__")
        if f is not None:
            return it.call(Bound(o, f), [k], {})
    if isinstance(o, (VStr, z3.ExprRef)):
        if str_like(it, o):
            return VStr([Piece(f"slice[{k!r}]" if not isinstance(k, slice) else f"slice[{k.start}:{k.stop}:{k.step}]", (it.to_U(o),))])
    if isinstance(o, z3.ExprRef) and o.sort() == U:
        h = it.natives.get("getitem-U")
        if h is not None:
            return h(it, o, k)
        raise Unsupported("subscript of an unknown value")
    if isinstance(o, Ext):
        return Ext(o.name)
    raise Unsupported(f"subscript of {type(o).__name__}")


def clamp(x, n):
    return z3.If(x < 0, z3.If(x + n < 0, z3.IntVal(0), x + n), z3.If(x > n, n, x))


def slice_(it, o, k):
    islist = isinstance(o, (VList, HList)) or (isinstance(o, VSeq) and o.kind == "list")
    n, at = it.seq_parts(o)
    if isinstance(n, int) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
        c = o if isinstance(o, tuple) else it.list_content(o) if isinstance(o, VList) else tuple(at(z3.IntVal(i)) for i in range(n))
        r = c[k]
        return it.new_list(r) if islist else r
    n = it.int_(n)
    step = 1 if k.step is None else k.step
    if step == -1 and k.start is None and k.stop is None:
        r = VSeq(n, lambda i: at(n - 1 - i), "list" if islist else "tuple")
        return it.new_list(r) if islist else r
    if step != 1:
        raise Unsupported("slice step")
    lo = z3.IntVal(0) if k.start is None else bound(it, k.start, n)
    hi = n if k.stop is None else bound(it, k.stop, n)
    m = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
    if k.start is None:
        if k.stop is not None and it_entails(it, z3.And(hi >= 0)):
            m = hi
    elif k.stop is None:
        m = n - lo
    r = VSeq(m, lambda i: at(lo + i) if k.start is not None else at(i), "list" if islist else "tuple")
    if k.start is None and k.stop is None:
        r = VSeq(n, at, "list" if islist else "tuple")
    return it.new_list(r) if islist else r


def it_entails(it, f):
    return not it.feasible(neg(f))


def bound(it, x, n):
    x = it.int_(x)
    if it_entails(it, z3.And(x >= 0, x <= n)):
        return x
    return z3.simplify(clamp(x, n))


def setitem(it, o, k, v):
    if hasattr(o, "setitem"):
        return o.setitem(it, k, v)
    if isinstance(o, VDict):
        d = it.store[o.oid]
        if isinstance(d, dict):
            if concrete_key(k) and all(concrete_key(x) for x in d):
                d = dict(d)
                f, key = find_key(it, d, k)
                d[key if f else k] = v
                it.store[o.oid] = d
                return
            h = it.natives.get("symdict")
            if h is not None:
                d = h(it, d)
                it.store[o.oid] = d
                d.store_item(it, o, k, v)
                return
            raise Unsupported("dictionary with symbolic keys")
        return d.store_item(it, o, k, v)
    if isinstance(o, VList):
        c = it.list_content(o)
        if isinstance(c, tuple) and isinstance(k, int):
            if not -len(c) <= k < len(c):
                raise PyExc("IndexError", (), origin="index")
            l = list(c)
            l[k] = v
            it.set_list(o, tuple(l))
            return
        if isinstance(k, slice):
            raise Unsupported("slice assignment")
        n, at = it.seq_parts(o)
        n = it.int_(n)
        ki = it.int_(k)
        if not it.branch(z3.And(ki >= 0, ki < n)):
            if it.branch(z3.And(ki < 0, ki >= -n)):
                ki = ki + n
            else:
                raise PyExc("IndexError", (), origin="index")
        it.set_list(o, VSeq(n, lambda i: it.vite(i == ki, v, at(i)), "list"))
        return
    if isinstance(o, VObj) and isinstance(o.cls, VClass):
        f = it.class_member(o.cls, "__setitem__")
        if f is not None:
            it.call(Bound(o, f), [k, v], {})
            return
    if isinstance(o, Ext):
        it.event("ext-setitem", o.name, k, v)
        return
    raise Unsupported(f"item assignment on {type(o).__name__}")


def delitem(it, o, k):
    if isinstance(o, VDict):
        d = it.store[o.oid]
        if isinstance(d, dict):
            f, key = find_key(it, d, k)
            if not f:
                raise PyExc("KeyError", (k,), origin="del")
            d = dict(d)
            del d[key]
            it.store[o.oid] = d
            return
        return d.delete(it, o, k)
    if isinstance(o, (VList, HList)):
        if isinstance(k, slice):
            n, at = it.seq_parts(o)
            if k.start is None and k.stop is None and k.step is None:
                list_set(it, o, ())
                return
            raise Unsupported("slice deletion")
        list_pop(it, o, k)
        return
    raise Unsupported("del")


# ---------------------------------------------------------------------- lists
def algebraic(it, l):
    """Content of a list kept as an algebraic term."""
    c = it.store.get(l.oid) if isinstance(l, VList) else None
    return c if hasattr(c, "l_append") else None


def list_get(it, l):
    return it.hseq(l.addr) if isinstance(l, HList) else it.list_content(l)


def list_set(it, l, c):
    if isinstance(l, HList):
        n, at = it.seq_parts(c)
        it.set_hlist(l.addr, n, at)
    else:
        it.set_list(l, c)


def list_extend(it, l, v):
    a = algebraic(it, l)
    if a is not None:
        return a.l_extend(it, l, v)
    c = list_get(it, l)
    s = stream(it, v)
    if isinstance(s, list):
        add = tuple(s)
    else:
        if s.filt is not None or s.n is None:
            add = as_seq(it, v, "list")
        else:
            add = VSeq(s.n, s.at, "list")
    list_set(it, l, it.seq_concat(c, add))


def list_append(it, l, v):
    a = algebraic(it, l)
    if a is not None:
        return a.l_append(it, l, v)
    list_set(it, l, it.seq_concat(list_get(it, l), (v,)))


def list_insert(it, l, idx, v):
    c = list_get(it, l)
    if isinstance(c, tuple) and isinstance(idx, int):
        x = list(c)
        x.insert(idx, v)
        list_set(it, l, tuple(x))
        return
    n, at = it.seq_parts(c)
    n = it.int_(n)
    i = it.int_(idx)
    if it_entails(it, z3.And(i >= 0, i <= n)):
        p = i
    else:
        p = clamp(i, n)
    list_set(it, l, VSeq(n + 1, lambda j: it.vite(j < p, at(j), it.vite(j == p, v, at(j - 1))), "list"))


def list_pop(it, l, idx=-1):
    a = algebraic(it, l)
    if a is not None:
        return a.l_pop(it, l, idx)
    c = list_get(it, l)
    n, at = it.seq_parts(c)
    if isinstance(c, tuple) and isinstance(idx, int):
        if not -len(c) <= idx < len(c):
            raise PyExc("IndexError", (), origin="pop")
        x = list(c)
        v = x.pop(idx)
        list_set(it, l, tuple(x))
        return v
    n = it.int_(n)
    if isinstance(idx, int) and idx == -1:
        if not it.branch(n > 0):
            raise PyExc("IndexError", (), origin="pop")
        v = at(n - 1)
        list_set(it, l, VSeq(n - 1, at, "list"))
        return v
    i = it.int_(idx)
    if not it.branch(z3.And(i >= 0, i < n)):
        if it.branch(z3.And(i < 0, i >= -n)):
            i = i + n
        else:
            raise PyExc("IndexError", (), origin="pop")
    v = at(i)
    list_set(it, l, VSeq(n - 1, lambda j: it.vite(j < i, at(j), at(j + 1)), "list"))
    return v


def list_index(it, l, x):
    n, at = it.seq_parts(l)
    if isinstance(n, int):
        c = l if isinstance(l, tuple) else list_get(it, l)
        for i, y in enumerate(c):
            e = it.identical(x, y)
            if e is not True and not isnode_like(it, x, y):
                e = it.equal(x, y)
            if e is True or (e is not False and it.branch(e)):
                return i
        raise PyExc("ValueError", (), origin="list.index")
    from interp import Stream

    def iteration(k):
        it.assume(k >= 0, k < n)
        y = at(k)
        e = it.equal(y, x)
        if it.branch(e):
            raise ReturnSig(k)
    ex = it.search(Stream(n, at, "seq"), iteration, "list.index")
    if ex is None:
        raise PyExc("ValueError", (), origin="list.index")
    return ex[1]


def method_of(it, v, name):
    """Methods of builtin types."""
    if hasattr(v, "method"):
        return v.method(it, name)
    if isinstance(v, Native):
        key = f"{v.name}.{name}"
        if key in it.natives:
            return it.natives[key]
        if name == "__name__":
            return v.name
        return None
    if isinstance(v, (VList, HList)):
        return list_method(it, v, name)
    if isinstance(v, (tuple, VSeq)):
        if name == "index":
            return Native("tuple.index", lambda it, a, k: list_index(it, v, a[0]))
        if name == "count":
            raise Unsupported("tuple.count")
        if name == "_replace" or name in ("node", "action", "method"):
            names = it.natives.get("namedtuple-fields")
            if names and isinstance(v, tuple) and name in names:
                return v[names.index(name)]
        return None
    if isinstance(v, VDict):
        return dict_method(it, v, name)
    if isinstance(v, VSet):
        return set_method(it, v, name)
    if isinstance(v, str) or isinstance(v, VStr) or (isinstance(v, z3.ExprRef) and v.sort() == U):
        return str_method(it, v, name)
    return None


def list_method(it, l, name):
    def nat(fn):
        return Native("list." + name, lambda it, a, k: fn(*a, **k))
    if name == "append":
        return nat(lambda v: list_append(it, l, v))
    if name == "extend":
        return nat(lambda v: list_extend(it, l, v))
    if name == "insert":
        return nat(lambda i, v: list_insert(it, l, i, v))
    if name == "pop":
        return nat(lambda i=-1: list_pop(it, l, i))
    if name == "clear":
        return nat(lambda: list_set(it, l, ()))
    if name == "copy":
        return nat(lambda: it.new_list(list_get(it, l)))
    if name == "index":
        return nat(lambda x: list_index(it, l, x))
    if name == "remove":
        def rm(x):
            c = list_get(it, l)
            i = list_index(it, l if not isinstance(c, tuple) else c, x)
            list_pop(it, l, i)
        return nat(rm)
    if name == "reverse":
        def rv():
            c = list_get(it, l)
            n, at = it.seq_parts(c)
            list_set(it, l, tuple(reversed(c)) if isinstance(c, tuple) else VSeq(n, lambda i: at(n - 1 - i), "list"))
        return nat(rv)
    if name in ("sort", "count"):
        def bad(*a, **k):
            raise Unsupported(f"list.{name}")
        return nat(bad)
    return None


def dict_method(it, d, name):
    c = it.store[d.oid]

    def nat(fn):
        return Native("dict." + name, lambda it, a, k: fn(*a, **k))
    if not isinstance(c, dict):
        return c.method(it, name, d)
    if name == "get":
        def get(k, default=None):
            f, key = find_key(it, it.store[d.oid], k)
            return it.store[d.oid][key] if f else default
        return nat(get)
    if name == "items":
        return nat(lambda: tuple(it.store[d.oid].items()))
    if name == "keys":
        return nat(lambda: tuple(it.store[d.oid]))
    if name == "values":
        return nat(lambda: tuple(it.store[d.oid].values()))
    if name == "copy":
        def cp():
            o = it.new_oid()
            it.store[o] = dict(it.store[d.oid])
            return VDict(o)
        return nat(cp)
    if name == "update":
        def up(other=None, **kw):
            if other is not None:
                for k, v in it.store[other.oid].items():
                    setitem(it, d, k, v)
            for k, v in kw.items():
                setitem(it, d, k, v)
        return nat(up)
    if name == "pop":
        def pop(k, *default):
            x = dict(it.store[d.oid])
            f, key = find_key(it, x, k)
            if f:
                v = x.pop(key)
                it.store[d.oid] = x
                return v
            if default:
                return default[0]
            raise PyExc("KeyError", (k,), origin="dict.pop")
        return nat(pop)
    if name == "setdefault":
        def sd(k, v=None):
            f, key = find_key(it, it.store[d.oid], k)
            if f:
                return it.store[d.oid][key]
            setitem(it, d, k, v)
            return v
        return nat(sd)
    if name == "clear":
        def clear():
            it.store[d.oid] = {}
        return nat(clear)
    return None


def set_method(it, s, name):
    def nat(fn):
        return Native("set." + name, lambda it, a, k: fn(*a, **k))

    def val(x):
        if isinstance(x, VSet):
            return it.store[x.oid]
        v = stream(it, x)
        if isinstance(v, list):
            return frozenset(v)
        raise Unsupported("set operation on a symbolic sequence")

    def mk(c):
        o = it.new_oid()
        it.store[o] = c
        return VSet(o)
    if name == "union":
        return nat(lambda *o: mk(frozenset().union(val(s), *[val(x) for x in o])))
    if name == "intersection":
        return nat(lambda *o: mk(val(s).intersection(*[val(x) for x in o])))
    if name == "difference":
        return nat(lambda *o: mk(val(s).difference(*[val(x) for x in o])))
    if name == "add":
        def add(x):
            it.store[s.oid] = val(s) | {x}
        return nat(add)
    if name in ("discard", "remove"):
        def rem(x):
            it.store[s.oid] = val(s) - {x}
        return nat(rem)
    if name == "copy":
        return nat(lambda: mk(val(s)))
    return None


STR_BOOL = {"startswith", "endswith", "isspace", "isdigit", "isalpha", "isupper", "islower"}
STR_STR = {"strip", "lstrip", "rstrip", "lower", "upper", "capitalize", "replace", "format", "title", "removeprefix", "removesuffix", "expandtabs"}


def str_method(it, v, name):
    concrete = isinstance(v, str)
    if not hasattr(str, name):
        return None

    def call(it, a, k):
        plain = (str, int, bool, type(None))
        if name == "join":
            return join(it, v, a[0])
        if concrete and all(isinstance(x, plain) for x in a) and all(isinstance(x, plain) for x in k.values()):
            try:
                r = getattr(v, name)(*a, **k)
            except ValueError as e:
                raise PyExc("ValueError", (str(e),), origin=f"str.{name}")
            except (KeyError, IndexError) as e:
                raise PyExc(type(e).__name__, (str(e),), origin=f"str.{name}")
            return it.new_list(tuple(r)) if isinstance(r, list) else r
        h = it.natives.get("str." + name)
        if h is not None:
            r = h(it, v, a, k)
            if r is not NotImplemented:
                return r
        if name in STR_BOOL:
            if name == "startswith" and isinstance(v, VStr) and isinstance(a[0], str) and v.parts and isinstance(v.parts[0], str) and len(v.parts[0]) >= len(a[0]):
                return v.parts[0].startswith(a[0])
            args = [it.to_U(x) for x in a]
            return z3.Function("str." + name, U, *([U] * len(args)), B)(it.to_U(v), *args)
        if name in STR_STR:
            args = [it.to_U(x) for x in a] + [it.to_U(x) for _, x in sorted(k.items())]
            tag = name + "".join(":" + kk for kk in sorted(k))
            t = z3.Function(sym("str." + tag), U, *([U] * len(args)), U)(it.to_U(v), *args)
            it.assume(cls(t) == CLS_STR)
            return it.setkind(t, "str")
        raise Unsupported(f"str.{name} on a symbolic string")
    return Native("str." + name, call)


def join(it, sep, seq):
    if hasattr(seq, "joined"):
        return seq.joined(it, sep)
    s = stream(it, seq)
    if isinstance(s, list):
        parts = []
        for i, x in enumerate(s):
            if i:
                parts.append(it.to_str(sep))
            if hasattr(x, "joined"):
                parts.append(x.joined(it, sep))
                continue
            if isinstance(x, z3.ExprRef) and x.sort() == U and it.kind(x) != "str":
                if not it.branch(cls(x) == CLS_STR):
                    raise PyExc("TypeError", (), origin="join of a non-string")
                it.setkind(x, "str")
            elif x is None or isinstance(x, (int, bool)):
                raise PyExc("TypeError", (), origin="join of a non-string")
            parts.append(it.to_str(x))
        r = VStr(parts)
        return "".join(r.parts) if all(isinstance(p, str) for p in r.parts) else r
    h = it.natives.get("join-hook")
    if h is not None:
        return h(it, sep, seq, s)
    if isinstance(seq, HList):
        return VStr([Piece("join", (it.to_U(sep), seq.addr))])
    raise Unsupported("join of a symbolic sequence")
