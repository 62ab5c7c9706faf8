"""Terms, maps and heaps of the verifier (z3 as term language)."""
import z3

U = z3.DeclareSort("U")
I = z3.IntSort()
B = z3.BoolSort()
NONE = z3.Const("None!", U)
_cls = z3.Function("cls", U, I)
EXACT = {}      # nodes whose exact class is fixed while one contract is verified: id -> (term, class id)


def cls(t):
    e = EXACT.get(t.get_id())
    return _cls(t) if e is None else e[1]


boxI = z3.Function("boxI", I, U)
unI = z3.Function("unI", U, I)
boxB = z3.Function("boxB", B, U)

CLS_NONE, CLS_STR, CLS_INT, CLS_BOOL, CLS_LIST, CLS_OTHER = -1, -2, -3, -4, -5, -6

_strs = {}
_sid = {NONE.get_id()}


def sym(name):
    """A symbol name every solver reads."""
    return "".join(ch if ch.isascii() and (ch.isalnum() or ch in "_!@.$#-") else f"_{ord(ch):x}_" for ch in name)


def S(lit):
    """The U constant of a string literal."""
    if lit not in _strs:
        _strs[lit] = z3.Const(sym("str!" + lit), U)
        _sid.add(_strs[lit].get_id())
    return _strs[lit]


EMPTY = S("")
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


PROW, PCOL = z3.Function("row", U, I), z3.Function("col", U, I)     # a source position


_scanned = {}


def scan(f):
    """(string constants, integer boxes) occurring in a formula; remembered per formula."""
    hit = _scanned.get(f.get_id())
    if hit is not None:
        return hit
    ids = {v.get_id(): k for k, v in _strs.items()}
    seen, out, boxes = set(), set(), {}
    todo = [f]
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in ids:
            out.add(ids[i])
        if z3.is_quantifier(t):
            todo.append(t.body())
        else:
            if z3.is_app(t) and t.num_args() == 1 and t.decl().name() == "boxI":
                boxes[i] = t
            todo.extend(t.children())
    if len(_scanned) > 50000:
        _scanned.clear()
    r = _scanned[f.get_id()] = (out, boxes, f)
    return r


def consts_in(fmls):
    """String constants occurring in the formulas."""
    return set().union(*(scan(f)[0] for f in fmls))


def boxes_in(fmls):
    out = {}
    for f in fmls:
        out.update(scan(f)[1])
    return list(out.values())


def background(fmls):
    used = consts_in(fmls) | {""}
    out = []
    cs = [S(s) for s in sorted(used)]
    if len(cs) > 1:
        out.append(z3.Distinct(*cs))
    for c in cs:
        out.append(cls(c) == CLS_STR)
    out.append(cls(NONE) == CLS_NONE)
    i = z3.Int("i!bg")
    b = z3.Bool("b!bg")
    out.append(z3.ForAll([i], z3.And(unI(boxI(i)) == i, cls(boxI(i)) == CLS_INT), patterns=[boxI(i)]))
    out.append(cls(boxB(TRUE)) == CLS_BOOL)
    out.append(cls(boxB(FALSE)) == CLS_BOOL)
    out.append(boxB(TRUE) != boxB(FALSE))
    return out


def conj(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if not xs:
        return TRUE
    if any(z3.is_false(x) for x in xs):
        return FALSE
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def disj(xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if not xs:
        return FALSE
    if any(z3.is_true(x) for x in xs):
        return TRUE
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def neg(x):
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def implies(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return TRUE
    return z3.Implies(a, b)


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


_older = {}             # id of an object's constant -> (constant, ids of the constants known to exist before it)


def younger(t, heap):
    """t is an object created in heap: distinct from what is known to exist there."""
    _older[t.get_id()] = (t, heap.known)


def eq(a, b):
    if a.eq(b):
        return TRUE
    i, j = a.get_id(), b.get_id()
    if i in _older and j in _older[i][1] or j in _older and i in _older[j][1]:
        return FALSE
    if z3.is_int_value(a) and z3.is_int_value(b):
        return FALSE
    if a.get_id() in _sid and b.get_id() in _sid:
        return FALSE
    return a == b


def simp(t):
    return z3.simplify(t)


class Map:
    """A total function given by closures: base symbol plus updates."""
    __slots__ = ("fn", "cache", "tag", "base")
    _n = 0

    def __init__(self, fn, base=None):
        self.fn = fn
        self.cache = {}
        Map._n += 1
        self.tag = Map._n
        self.base = base

    def __call__(self, *xs):
        k = tuple(x.get_id() for x in xs)
        hit = self.cache.get(k)
        if hit is None:
            hit = (self.fn(*xs), xs)
            self.cache[k] = hit
        return hit[0]

    def set(self, keys, v):
        keys = keys if isinstance(keys, tuple) else (keys,)
        old = self
        return Map(lambda *ys: ite(conj([eq(y, k) for y, k in zip(ys, keys)]), v, old(*ys)))

    def upd(self, f):
        """f(old, *xs) -> new value."""
        old = self
        return Map(lambda *xs: f(old, *xs))


SORT = {"ref": U, "any": U, "str": U, "list": U, "bool": B, "int": I, "point": U}

# declared kinds of the attributes of heap objects (the well-typedness assumption)
FIELDS = {
    "_parent": "ref", "_children": "list", "types": "list", "label": "str", "nonum": "bool", "handrail_depth": "int",
    "nodeid": "any", "number": "any", "reftext_template": "str", "start_point": "point", "end_point": "point",
    "title": "str", "text": "str", "asis": "bool", "target": "any", "overwrite_reftext": "str",
    "targetlabels": "list", "targets": "list", "backlinks": "list", "kind": "str", "isclaim": "bool", "lang": "str",
    "keywords": "list", "msc": "list", "goals": "list",
    "strong": "bool", "emphas": "bool", "little": "bool", "insert": "bool", "delete": "bool",
    "name": "str", "affiliation": "str", "email": "str", "src": "str",
    "author": "str", "journal": "str", "publisher": "str", "doi": "str",
    "$alloc": "bool", "#pos": "int", "#own": "ref", "#rank": "int",
}
ARGS = {"$len": (U,), "$elt": (U, I)}
RES = {"$len": I, "$elt": U}


class Heap:
    """Immutable snapshot: field name -> Map.  Missing fields are created on demand (per lineage base)."""

    def __init__(self, tag="H0", maps=None, base=None):
        self.tag = tag
        self.maps = dict(maps or {})
        self.base = {} if base is None else base
        self.known = {}          # constants known to exist: id -> constant

    def exists(self, t):
        self.known = {**self.known, t.get_id(): t}

    def sig(self, f):
        if f in ARGS:
            return ARGS[f], RES[f]
        return (U,), SORT[FIELDS.get(f, "any")]

    def fresh_map(self, f, tag):
        a, r = self.sig(f)
        fn = z3.Function(f"{f}@{tag}", *a, r)
        return Map(lambda *xs: fn(*xs), base=fn)

    def m(self, f):
        if f not in self.maps:
            if f not in self.base:
                self.base[f] = self.fresh_map(f, self.tag)
            self.maps[f] = self.base[f]
        return self.maps[f]

    def with_(self, **kw):
        raise NotImplementedError

    def put(self, f, mp):
        h = Heap(self.tag, self.maps, self.base)
        h.maps[f] = mp
        h.known = self.known
        return h

    def get(self, f, *xs):
        return self.m(f)(*xs)

    def fields(self):
        return set(self.maps)

    # ---- tree views
    def par(self, n):
        return self.get("_parent", n)

    def chl(self, n):
        return self.get("_children", n)

    def ln(self, a):
        return self.get("$len", a)

    def el(self, a, i):
        return self.get("$elt", a, i)

    def nk(self, n):
        return self.ln(self.chl(n))

    def kid(self, n, i):
        return self.el(self.chl(n), i)

    def pos(self, n):
        return self.get("#pos", n)

    def own(self, a):
        return self.get("#own", a)

    def alloc(self, n):
        return self.get("$alloc", n)
