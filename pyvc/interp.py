"""Symbolic interpreter for the repository's own Python source (parsed afresh on every run).

Paths are explored by re-execution: every branch consults a decision trail.  Values are plain
Python values, z3 terms (sorts U, Int, Bool) and the classes of values.py.  The heap of node
attributes is logic.Heap; everything else that is mutable lives in `store`.
"""
import ast
import builtins as pybuiltins
import json
import os
import subprocess

import z3

from logic import *  # noqa: F401,F403
from values import *  # noqa: F401,F403

REPO = os.environ.get("PYVC_REPO", "/repo")
BUILTIN_EXC = {n: getattr(pybuiltins, n) for n in dir(pybuiltins)
               if isinstance(getattr(pybuiltins, n), type) and issubclass(getattr(pybuiltins, n), BaseException)}


def quantified(t, _cache={}):
    k = t.get_id()
    hit = _cache.get(k)
    if hit is not None and hit[1].eq(t):
        return hit[0]
    r = False
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            r = True
            break
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        todo.extend(x.children())
    _cache[k] = (r, t)
    return r


class Frame:
    __slots__ = ("fid", "parent", "func", "module", "nonlocals", "self_")

    def __init__(self, fid, parent, func, module):
        self.fid, self.parent, self.func, self.module = fid, parent, func, module
        self.nonlocals = set()
        self.self_ = None


class Stream:
    """Iteration space of a loop: n iterations (None: infinite), at(k), optional visit filter."""

    def __init__(self, n, at, kind="seq", filt=None, meta=None):
        self.n, self.at, self.kind, self.filt, self.meta = n, at, kind, filt, meta


class Result:
    def __init__(self, kind, value, snap, delta):
        self.kind, self.value, self.snap, self.delta = kind, value, snap, delta


class Facts:
    _cache = {}

    def __init__(self, repo=REPO):
        self.repo = repo
        py = "/opt/venv/bin/python"
        here = os.path.dirname(os.path.abspath(__file__))
        env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([py, "-W", "ignore", os.path.join(here, "facts_dump.py")], capture_output=True, text=True,
                           env=env, cwd=repo, timeout=120)
        if p.returncode:
            raise RuntimeError("class tables: " + p.stderr[-1500:])
        d = json.loads(p.stdout)
        self.classes, self.order, self.instances = d["classes"], d["order"], d["instances"]
        kids = {n: [] for n in self.order}
        for n in self.order:
            bases = [b for b in self.classes[n]["bases"] if b in self.classes]
            if len(bases) > 1:
                raise RuntimeError(f"class {n} has several node bases")
            if bases:
                kids[bases[0]].append(n)
        self.lo, self.hi = {}, {}
        cnt = [0]

        def dfs(n):
            self.lo[n] = cnt[0]
            cnt[0] += 1
            for k in kids[n]:
                dfs(k)
            self.hi[n] = cnt[0] - 1
        dfs("Node")
        self.ncls = cnt[0]
        self.byid = {v: k for k, v in self.lo.items()}

        for n in self.order:
            bad = [x for x in self.classes[n]["special"] if x != "__eq__"]
            if bad:
                raise RuntimeError(f"class {n} defines {bad}: outside the verifier's object model")

    def attr_of(self, cname, attr):
        """Where attribute lookup on the class finds attr: ('defines', owner) / ('attr', owner, value) / None."""
        for o in self.classes[cname]["mro"]:
            c = self.classes.get(o)
            if c is None:
                continue
            if attr in c["defines"]:
                return ("defines", o)
            if attr in c["attrs"]:
                return ("attr", o, c["attrs"][attr])
        return None


class Interp:
    def __init__(self, facts=None):
        self.facts = facts or Facts()
        self.modules = {}
        self.contracts = {}
        self.attr_contracts = {}
        self.natives = {}
        self.kinds = {}
        self.obls = []
        self.obl_keys = set()
        self.keep = []
        self.root_heap = Heap()
        self.reset()
        self.unsupported = []
        self.functions = set()
        self.loopspecs = []
        self.verifying = None
        self.depth = 0
        self.ctx = ""
        self.trail, self.tpos, self.alts = [], 0, []
        self.trailstack = []
        self.memo = {}
        self.feas_cache = {}
        self.paths = 0
        self.yield_hook = None
        self.max_paths = 4000
        self.reads = None
        import natives
        natives.install(self)

    # ------------------------------------------------------------------ state
    def reset(self):
        self.comp_frames = set()        # scratch variables of comprehensions
        self.heap = self.root_heap
        self.store = {}
        self.pc = ()
        self.events = ()
        self.nfresh = 0
        self.noid = 0
        self.ghost = {}
        self.depth = 0
        self.kinds = {}

    def snap(self):
        return (self.heap, dict(self.store), self.pc, self.events, self.nfresh, self.noid, dict(self.ghost))

    def restore(self, s):
        self.heap, st, self.pc, self.events, self.nfresh, self.noid, gh = s
        self.store = dict(st)
        self.ghost = dict(gh)

    def fresh(self, name, sort=U):
        self.nfresh += 1
        c = z3.Const(f"{name}!{self.nfresh}", sort)
        return c

    def fresh_fn(self, name, *sorts):
        self.nfresh += 1
        return z3.Function(f"{name}!{self.nfresh}", *sorts)

    def new_oid(self):
        self.noid += 1
        return self.noid

    def assume(self, *fs):
        for f in fs:
            if isinstance(f, bool):
                if not f:
                    raise PathEnd()
                continue
            if z3.is_true(f):
                continue
            if z3.is_false(f):
                raise PathEnd()
            self.pc = self.pc + (f,)

    def oblige(self, name, goal, extra=()):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if z3.is_and(goal) and not extra:
            for i, g in enumerate(goal.children()):
                self.oblige(f"{name}.{i}", g)
            return
        key = (name, tuple(f.get_id() for f in self.pc), goal.get_id(), tuple(f.get_id() for f in extra))
        if key in self.obl_keys:
            return
        self.obl_keys.add(key)
        full = f"{self.ctx}: {name}" if self.ctx else name
        self.obls.append((full, list(self.pc) + list(extra), goal))
        self.keep.append((self.pc, goal, extra))

    def proves(self, goal, ms=1500):
        """Quick check of a candidate (its obligation is generated all the same)."""
        fs = list(self.pc) + [z3.Not(goal)]
        s = z3.Solver()
        s.set("timeout", ms)
        for f in background(fs) + fs:
            s.add(f)
        return s.check() == z3.unsat

    # ------------------------------------------------------------------ path exploration
    def feasible(self, extra):
        """False only if the quantifier-free part of the path condition refutes it."""
        fs = [f for f in self.pc if not quantified(f)] + [extra]
        key = tuple(sorted(f.get_id() for f in fs))
        hit = self.feas_cache.get(key)
        if hit is not None:
            return hit[0]
        s = z3.Solver()
        s.set("timeout", 400)
        for f in fs:
            s.add(f)
        used = consts_in(fs) | {""}
        cs = [S(x) for x in sorted(used)]
        if len(cs) > 1:
            s.add(z3.Distinct(*cs))
        for c in cs:
            s.add(cls(c) == CLS_STR)
        s.add(cls(NONE) == CLS_NONE)
        s.add(cls(boxB(TRUE)) == CLS_BOOL, cls(boxB(FALSE)) == CLS_BOOL, boxB(TRUE) != boxB(FALSE))
        for b in boxes_in(fs):
            s.add(unI(b) == b.arg(0), cls(b) == CLS_INT)
        r = s.check() != z3.unsat
        self.feas_cache[key] = (r, fs)
        return r

    def choose(self, n, label=""):
        if n <= 1:
            return 0
        if self.tpos < len(self.trail):
            c = self.trail[self.tpos]
        else:
            c = 0
            self.trail.append(0)
            self.alts.append((self.tpos, n))
        self.tpos += 1
        return c

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.tpos < len(self.trail):
            c = self.trail[self.tpos]
            self.tpos += 1
        else:
            t, f = self.feasible(cond), self.feasible(neg(cond))
            if not t and not f:
                raise PathEnd()
            c = 0 if t else 1
            self.trail.append(c)
            if t and f:
                self.alts.append((self.tpos, 2))
            self.tpos += 1
        if c == 0:
            self.pc = self.pc + (cond,)
            return True
        self.pc = self.pc + (neg(cond),)
        return False

    def explore(self, thunk, memo=None):
        """Run thunk from the current state along every path; the state is left as it was."""
        base = self.snap()
        saved = (self.trail, self.tpos, self.alts)
        key = None
        if self.trailstack or memo:
            key = (tuple(self.trailstack), tuple(self.trail[: self.tpos]), self.noid, self.nfresh, memo)
            if key in self.memo:
                res, nf, no, self.explored_from = self.memo[key]
                self.nfresh, self.noid = nf, no
                return res
        self.trailstack.append(tuple(self.trail[: self.tpos]))
        todo = [[]]
        out = []
        maxf, maxo = self.nfresh, self.noid
        d = self.depth
        try:
            while todo:
                prefix = todo.pop()
                self.restore(base)
                self.depth = d
                self.trail, self.tpos, self.alts = list(prefix), 0, []
                self.paths += 1
                if self.paths > self.max_paths:
                    raise Unsupported("too many paths")
                kind, val = None, None
                try:
                    val = thunk()
                    kind = "val"
                except PathEnd:
                    pass
                except ReturnSig as r:
                    kind, val = "return", r.v
                except BreakSig:
                    kind = "break"
                except ContinueSig:
                    kind = "continue"
                except PyExc as e:
                    kind, val = "raise", e
                if kind is not None:
                    self.check_shared()
                maxf, maxo = max(maxf, self.nfresh), max(maxo, self.noid)
                for pos, n in self.alts:
                    for alt in range(1, n):
                        todo.append(self.trail[:pos] + [alt])
                if kind:
                    out.append(Result(kind, val, self.snap(), self.pc[len(base[2]):]))
        finally:
            self.trailstack.pop()
            self.restore(base)
            self.depth = d
            self.trail, self.tpos, self.alts = saved
        self.nfresh, self.noid = maxf, maxo
        if key is not None:
            self.memo[key] = (out, maxf, maxo, base)
        self.explored_from = base
        return out

    loop_poison = frozenset()

    def run_all(self, name, thunk):
        """Top level: verify thunk along every path; unsupported constructs become open obligations."""
        self.reset()
        self.memo = {}
        self.loop_poison = set(self.loop_poison)
        self.root_heap = Heap()
        self.paths = 0
        self.ctx = name
        self.trailstack = []
        todo = [[]]
        n = 0
        start, restarts = len(self.obls), 0
        self.obl_keys = set()
        while todo:
            prefix = todo.pop()
            self.reset()
            self.trail, self.tpos, self.alts = list(prefix), 0, []
            n += 1
            if n > self.max_paths:
                self.oblige("too many paths", FALSE)
                break
            try:
                thunk()
                self.check_shared()
            except Restart:
                del self.obls[start:]
                self.obl_keys = set()
                self.memo, self.trailstack, todo, n = {}, [], [[]], 0
                restarts += 1
                if restarts > 60:
                    self.oblige("loop invariants do not settle", FALSE)
                    break
                continue
            except PathEnd:
                pass
            except Unsupported as e:
                self.oblige(f"outside the verifier's reach: {e}", FALSE)
            except PyExc as e:
                self.oblige(f"unexpected exception {e.name} from {e.origin}", FALSE)
            except (ReturnSig, BreakSig, ContinueSig) as e:
                self.oblige(f"stray control flow {type(e).__name__}", FALSE)
            for pos, k in self.alts:
                for alt in range(1, k):
                    todo.append(self.trail[:pos] + [alt])
        self.ctx = ""
        return n

    # ------------------------------------------------------------------ modules
    def module(self, name):
        """rsm submodule by short name ('nodes', 'transformer', ...)."""
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.facts.repo, "rsm", name + ".py")
        tree = ast.parse(open(path).read(), path)
        m = VModule(name, path, tree)
        self.modules[name] = m
        self.collect(m, tree.body)
        return m

    def collect(self, m, body):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                m.globals[st.name] = VFunc(st, m)
            elif isinstance(st, ast.ClassDef):
                self.make_class(m, st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    nm = a.asname or a.name.split(".")[0]
                    m.globals[nm] = self.import_(a.name if a.asname else a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    m.globals[a.asname or a.name] = self.import_from(st.module or "", st.level, a.name)
            elif isinstance(st, ast.If):
                self.collect(m, st.body)
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                tgts = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in tgts:
                    if isinstance(t, ast.Name) and st.value is not None:
                        m.globals[t.id] = ("lazy", st.value)

    def import_(self, name):
        return Ext(name)

    def import_from(self, mod, level, name):
        if level or mod.split(".")[0] == "rsm":
            base = mod if level else ".".join(mod.split(".")[1:])
            if not base:
                if os.path.exists(os.path.join(self.facts.repo, "rsm", name + ".py")):
                    return ("lazymod", name)
                return Ext("rsm." + name)
            return ("lazyfrom", base, name)
        return Ext(f"{mod}.{name}")

    def make_class(self, m, st):
        bases = []
        for b in st.bases:
            try:
                v = self.lookup_static(m, b)
            except Unsupported:
                v = Ext(ast.unparse(b))
            bases.append(v)
        c = VClass(st.name, m, st, bases)
        if m.name == "nodes" and st.name in self.facts.lo:
            c.cid, c.hi = self.facts.lo[st.name], self.facts.hi[st.name]
        m.globals[st.name] = c
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                decs = [ast.unparse(d) for d in s.decorator_list]
                kind = "function"
                if "staticmethod" in decs:
                    kind = "static"
                elif "classmethod" in decs:
                    kind = "class"
                f = VFunc(s, m, c, kind=kind)
                if any(d == "property" for d in decs):
                    c.members[s.name] = VProp(f)
                elif any(d.endswith(".setter") for d in decs):
                    p = c.members.get(s.name)
                    c.members[s.name] = VProp(p.fget if isinstance(p, VProp) else None, f)
                elif decs and not set(decs) <= {"staticmethod", "classmethod", "abstractmethod"}:
                    c.members[s.name] = Ext(f"decorated {decs}")
                else:
                    c.members[s.name] = f
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                tgts = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in tgts:
                    if isinstance(t, ast.Name) and s.value is not None:
                        c.members[t.id] = ("lazy", s.value)
            elif isinstance(s, ast.ClassDef):
                inner = self.make_class_inner(m, s)
                c.members[s.name] = inner
        return c

    def make_class_inner(self, m, s):
        saved = dict(m.globals)
        c = self.make_class(m, s)
        m.globals.clear()
        m.globals.update(saved)
        return c

    def lookup_static(self, m, e):
        if isinstance(e, ast.Name):
            return self.global_(m, e.id)
        if isinstance(e, ast.Attribute):
            return self.getattr(self.lookup_static(m, e.value), e.attr)
        if isinstance(e, ast.Call):
            return Ext(ast.unparse(e))
        if isinstance(e, ast.Subscript):
            return self.lookup_static(m, e.value)
        raise Unsupported("static " + ast.dump(e)[:60])

    def global_(self, m, name):
        if name not in m.globals:
            if name in self.natives:
                return self.natives[name]
            if name in BUILTIN_EXC:
                return Ext("builtins." + name)
            raise PyExc("NameError", (name,), origin=f"{m.name}.{name}")
        v = m.globals[name]
        if isinstance(v, tuple):
            if v[0] == "lazymod":
                v = self.module(v[1])
            elif v[0] == "lazyfrom":
                v = self.global_(self.module(v[1]), v[2])
            elif v[0] == "lazy":
                fid = self.new_frame(None, None, m)
                v = self.eval(v[1], fid)
                if isinstance(v, (VList, VDict, VSet, VObj)):
                    return self.share(v)          # mutable module data: re-evaluated per use; it may not change
                if isinstance(v, z3.ExprRef):
                    return v
            m.globals[name] = v
        return v

    def class_of(self, name, module="nodes"):
        return self.module(module).globals[name]

    def func(self, qual):
        """VFunc by 'module.Class.method' or 'module.func'."""
        parts = qual.split(".")
        m = self.module(parts[0])
        v = m.globals.get(parts[1])
        if len(parts) == 2:
            return v
        for c in v.mro() if isinstance(v, VClass) else ():
            if parts[2] in c.members:
                f = c.members[parts[2]]
                return f.fget if isinstance(f, VProp) else f
        return None

    # ------------------------------------------------------------------ frames
    def new_frame(self, parent, func, module):
        fid = self.new_oid()
        self.store[fid] = {}
        return Frame(fid, parent, func, module)

    def get_var(self, fr, name):
        f = fr
        while f is not None:
            d = self.store.get(f.fid)
            if d is not None and name in d:
                v = d[name]
                if v is POISON:
                    raise Unsupported(f"value of {name} carried around a loop")
                return v
            f = f.parent
        return self.global_(fr.module, name)

    def set_var(self, fr, name, v):
        f = fr
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None and name not in self.store[f.fid]:
                f = f.parent
        d = dict(self.store[f.fid])
        d[name] = v
        self.store[f.fid] = d

    # ------------------------------------------------------------------ conversions
    def to_U(self, v):
        if v is None:
            return NONE
        if isinstance(v, bool):
            return boxB(z3.BoolVal(v))
        if isinstance(v, int):
            return boxI(z3.IntVal(v))
        if isinstance(v, str):
            return S(v)
        if isinstance(v, z3.ExprRef):
            if v.sort() == U:
                return v
            if v.sort() == I:
                return boxI(v)
            if v.sort() == B:
                return boxB(v)
        if isinstance(v, VStr):
            return self.str_term(v)
        if isinstance(v, HList):
            return v.addr
        if isinstance(v, VId):
            return v.term
        if isinstance(v, VClass):
            return S(f"<class {v.module.name}.{v.name}>")
        if isinstance(v, ClsOf):
            return z3.Function("classobj", I, U)(v.term)
        if isinstance(v, VList):
            return self.to_heap_list(v).addr
        if isinstance(v, tuple):
            f = z3.Function(f"tup{len(v)}", *([U] * len(v)), U)
            return f(*[self.to_U(x) for x in v]) if v else S("<empty tuple>")
        if isinstance(v, VObj):
            if v.cls == "opaque":
                return self.store[v.oid]["term"]
            return S(f"<object {v.oid}>")
        if isinstance(v, Ext):
            return S(f"<ext {v.name}>")
        if isinstance(v, float):
            return S(f"<float {v}>")
        if hasattr(v, "to_U"):
            return v.to_U(self)
        if isinstance(v, VFunc):
            return S(f"<function {v.qual}>")
        if isinstance(v, VSeq):
            raise Unsupported("symbolic sequence stored as a value")
        raise Unsupported(f"value of type {type(v).__name__} as a term")

    def str_term(self, v):
        if isinstance(v, str):
            return S(v)
        if not isinstance(v, VStr):
            return self.to_U(v)
        if not v.parts:
            return EMPTY
        if all(isinstance(p, str) for p in v.parts):
            return S("".join(v.parts))
        tpl, terms = "", []
        for p in v.parts:
            if isinstance(p, str):
                tpl += p.replace("{", "{{").replace("}", "}}")
            elif isinstance(p, Piece):
                tpl += "{" + p.name + "}"
                terms.extend(p.terms)
            else:
                tpl += "{}"
                terms.append(p)
        if tpl == "{}" and terms[0].sort() == U and self.kind(terms[0]) == "str":
            return terms[0]
        f = z3.Function(sym("fmt!" + tpl), *[t.sort() for t in terms], U)
        t = f(*terms) if terms else S(tpl)
        self.assume(cls(t) == CLS_STR)
        if any(isinstance(p, str) and p for p in v.parts):
            self.assume(t != EMPTY)
        self.setkind(t, "str")
        return t

    def setkind(self, t, k):
        self.kinds[t.get_id()] = k
        self.keep.append(t)
        return t

    def kind(self, t):
        return self.kinds.get(t.get_id())

    def coerce(self, v, kind):
        if kind == "bool":
            if isinstance(v, bool):
                return z3.BoolVal(v)
            if isinstance(v, z3.ExprRef) and v.sort() == B:
                return v
            raise Unsupported(f"non-boolean value in a boolean attribute")
        if kind == "int":
            if isinstance(v, int) and not isinstance(v, bool):
                return z3.IntVal(v)
            if isinstance(v, z3.ExprRef) and v.sort() == I:
                return v
            raise Unsupported("non-integer value in an integer attribute")
        if kind == "point" and isinstance(v, tuple) and len(v) == 2:
            t = self.to_U(v)
            self.assume(PROW(t) == self.int_(v[0]), PCOL(t) == self.int_(v[1]))
            return t
        if kind == "list":
            if isinstance(v, HList):
                return v.addr
            if isinstance(v, VList):
                return self.to_heap_list(v).addr
            if isinstance(v, (VSeq, tuple)):
                return self.alloc_list(*self.seq_parts(v)).addr
            return self.to_U(v)
        return self.to_U(v)

    def int_(self, v):
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, z3.ExprRef):
            if v.sort() == I:
                return v
            if v.sort() == U:
                if self.branch(cls(v) == CLS_INT):
                    return unI(v)
                raise PyExc("TypeError", (), origin="integer expected")
        raise Unsupported(f"integer expected, got {v!r}")

    # ------------------------------------------------------------------ lists
    def new_list(self, content=()):
        o = self.new_oid()
        self.store[o] = content if isinstance(content, VSeq) else tuple(content)
        return VList(o)

    def list_content(self, l):
        """tuple or VSeq (or ('heap', addr))."""
        c = self.store[l.oid]
        if isinstance(c, tuple) and len(c) == 2 and c and isinstance(c[0], str) and c[0] == "$heap":
            return self.hseq(c[1])
        if c is POISON:
            raise Unsupported("list carried around a loop")
        return c

    def heap_alias(self, l):
        c = self.store[l.oid]
        if isinstance(c, tuple) and len(c) == 2 and c and isinstance(c[0], str) and c[0] == "$heap":
            return c[1]
        return None

    def set_list(self, l, content):
        a = self.heap_alias(l)
        if a is not None:
            n, at = self.seq_parts(content)
            self.set_hlist(a, n, at)
        else:
            self.store[l.oid] = content if isinstance(content, VSeq) else tuple(content)

    def to_heap_list(self, l):
        a = self.heap_alias(l)
        if a is not None:
            return HList(a)
        n, at = self.seq_parts(self.store[l.oid])
        h = self.alloc_list(n, at)
        self.store[l.oid] = ("$heap", h.addr)
        return h

    def alloc_list(self, n, at):
        a = self.fresh("list")
        self.assume(cls(a) == CLS_LIST, neg(self.heap.alloc(a)), a != NONE)
        self.heap = self.heap.put("$alloc", self.heap.m("$alloc").set(a, TRUE))
        self.heap = self.heap.put("#own", self.heap.m("#own").set(a, NONE))
        self.set_hlist(a, n, at)
        return HList(a)

    def set_hlist(self, a, n, at):
        ni = self.int_(n)
        old = self.heap.m("$elt")
        conc = None
        if isinstance(n, int) or z3.is_int_value(ni):
            k = n if isinstance(n, int) else ni.as_long()
            vals = [self.to_U(at(j)) for j in range(k)]
            def conc(i, vals=vals):
                r = vals[-1] if vals else NONE
                for j in range(len(vals) - 1, -1, -1):
                    r = ite(eq(i, z3.IntVal(j)), vals[j], r)
                return r
        f = conc or (lambda i: self.to_U(at(i)))
        self.heap = self.heap.put("$len", self.heap.m("$len").set(a, ni))
        self.heap = self.heap.put("$elt", Map(lambda b, i: self._elt_ite(a, b, i, f, old)))

    def _elt_ite(self, a, b, i, f, old):
        c = eq(b, a)
        if z3.is_true(c):
            return f(i)
        if z3.is_false(c):
            return old(b, i)
        return ite(c, f(i), old(b, i))

    def hseq(self, addr):
        h = self.heap
        n = h.ln(addr)
        if z3.is_int_value(z3.simplify(n)):
            k = z3.simplify(n).as_long()
            return tuple(z3.simplify(h.el(addr, z3.IntVal(j))) for j in range(k))
        return VSeq(n, lambda i: h.el(addr, i), "list")

    def seq_parts(self, v):
        """(n, at) of any sequence value."""
        if isinstance(v, VList):
            v = self.list_content(v)
        if isinstance(v, HList):
            v = self.hseq(v.addr)
        if isinstance(v, (tuple, list)):
            items = list(v)

            def at(i):
                if isinstance(i, int):
                    return items[i]
                if z3.is_int_value(i):
                    return items[i.as_long()]
                if not items:
                    return NONE
                r = items[-1]
                for j in range(len(items) - 2, -1, -1):
                    r = self.vite(eq(i, z3.IntVal(j)), items[j], r)
                return r
            return len(items), at
        if isinstance(v, VSeq):
            return v.n, v.at
        raise Unsupported(f"sequence expected, got {type(v).__name__}")

    def vite(self, c, a, b):
        """if-then-else on values."""
        if isinstance(c, bool):
            return a if c else b
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if a is b:
            return a
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() == b.sort():
            return ite(c, a, b)
        if isinstance(a, VId) and isinstance(b, VId):
            return VId(ite(c, a.term, b.term))
        if hasattr(a, "vite"):
            return a.vite(self, c, b)
        if isinstance(a, NTuple) and isinstance(b, NTuple) and a.cls is b.cls:
            return NTuple([self.vite(c, x, y) for x, y in zip(a, b)], a.cls, a.fields)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.vite(c, x, y) for x, y in zip(a, b))
        if isinstance(a, (int, str)) and isinstance(b, (int, str)) and type(a) is type(b) and a == b:
            return a
        if isinstance(a, bool) or isinstance(b, bool):
            return ite(c, self.as_bool(a), self.as_bool(b))
        num = lambda x: (isinstance(x, int) and not isinstance(x, bool)) or (isinstance(x, z3.ExprRef) and x.sort() == I)
        if num(a) and num(b):
            return ite(c, self.int_(a), self.int_(b))
        return ite(c, self.to_U(a), self.to_U(b))

    def as_bool(self, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, z3.ExprRef) and v.sort() == B:
            return v
        raise Unsupported("boolean expected")

    def seq_concat(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        n1, f = self.seq_parts(a)
        n2, g = self.seq_parts(b)
        if isinstance(n1, int) and n1 == 0:
            return b
        if isinstance(n2, int) and n2 == 0:
            return a
        n1, n2 = self.int_(n1), self.int_(n2)
        return VSeq(n1 + n2, lambda i: self.vite(i < n1, f(i), g(i - n1)), "list")

    def is_seq(self, v):
        return isinstance(v, (tuple, VSeq, VList, HList))

    # ------------------------------------------------------------------ truth
    def truth(self, v):
        """Python truth value: bool or Bool term."""
        if v is None:
            return False
        if isinstance(v, (bool, int, str, float)):
            return bool(v)
        if isinstance(v, z3.ExprRef):
            if v.sort() == B:
                return v
            if v.sort() == I:
                return v != 0
            k = self.kind(v)
            if k == "node":
                return True
            if k == "str":
                return v != EMPTY
            if k == "ref":
                return v != NONE
            if k == "optstr":
                return conj([v != NONE, v != EMPTY])
            return conj([v != NONE, v != EMPTY, v != boxI(z3.IntVal(0)), v != boxB(FALSE)])
        if isinstance(v, (tuple,)):
            return len(v) > 0
        if isinstance(v, VList) and hasattr(self.store.get(v.oid), "l_append"):
            return self.store[v.oid].truth(self)
        if isinstance(v, (VSeq, VList, HList)):
            n, _ = self.seq_parts(v)
            return n != 0 if isinstance(n, int) else n != 0
        if isinstance(v, (VDict, VSet)):
            c = self.store[v.oid]
            if isinstance(c, (dict, frozenset)):
                return len(c) > 0
            raise Unsupported("truth of a symbolic dictionary")
        if isinstance(v, VStr):
            if any(isinstance(p, str) and p for p in v.parts):
                return True
            if not v.parts:
                return False
            return self.str_term(v) != EMPTY
        if isinstance(v, VObj):
            if isinstance(v.cls, VClass):
                for nm in ("__bool__", "__len__"):
                    f = self.class_member(v.cls, nm)
                    if f is not None:
                        r = self.call(Bound(v, f), [], {})
                        return self.truth(r)
            return True
        return True

    def test(self, v):
        return self.branch(self.truth(v))

    # ------------------------------------------------------------------ equality / identity
    def identical(self, a, b):
        for x, y in ((a, b), (b, a)):
            if hasattr(x, "identical"):
                return x.identical(self, y)
        if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
            if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() == b.sort():
                return eq(a, b)
            if (a is None and self.kind(b) == "node") or (b is None and self.kind(a) == "node"):
                return False
            try:
                if isinstance(a, (VObj, VList, VDict, VSet, VClass, ClsOf)) or isinstance(b, (VObj, VList, VDict, VSet, VClass, ClsOf)):
                    return False
                return eq(self.to_U(a), self.to_U(b))
            except Unsupported:
                return False
        if isinstance(a, (VClass, ClsOf, ClsArg)) or isinstance(b, (VClass, ClsOf, ClsArg)):
            return self.class_identical(a, b)
        if isinstance(a, (VObj, VList, VDict, VSet)) and type(a) is type(b):
            return a.oid == b.oid
        if isinstance(a, HList) and isinstance(b, HList):
            return eq(a.addr, b.addr)
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, VFunc) and isinstance(b, VFunc):
            return a.node is b.node
        if type(a) is type(b) and isinstance(a, (int, str)):
            return a == b
        return a is b

    def class_identical(self, a, b):
        if isinstance(a, VClass) and isinstance(b, VClass):
            return a is b
        if isinstance(b, ClsOf):
            a, b = b, a
        if isinstance(a, ClsOf):
            if isinstance(b, VClass):
                if b.cid is None:
                    return False
                return eq(a.term, z3.IntVal(b.cid))
            if isinstance(b, ClsOf):
                return eq(a.term, b.term)
            if isinstance(b, ClsArg):
                return z3.Function("exactly", I, U, B)(a.term, b.term)
            if isinstance(b, Ext):
                return False
        return False

    def equal(self, a, b):
        if isinstance(a, VStr) and all(isinstance(p, str) for p in a.parts):
            a = "".join(a.parts)
        if isinstance(b, VStr) and all(isinstance(p, str) for p in b.parts):
            b = "".join(b.parts)
        prim = (bool, int, str, float, type(None))
        if isinstance(a, prim) and isinstance(b, prim):
            return a == b
        if isinstance(a, (VClass, ClsOf, ClsArg)) or isinstance(b, (VClass, ClsOf, ClsArg)):
            return self.class_identical(a, b)
        if isinstance(a, VId) and isinstance(b, VId):
            return eq(a.term, b.term)
        if isinstance(a, VId) or isinstance(b, VId):
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            out = [self.equal(x, y) for x, y in zip(a, b)]
            if any(x is False for x in out):
                return False
            return conj([x for x in out if x is not True])
        ta = isinstance(a, z3.ExprRef)
        tb = isinstance(b, z3.ExprRef)
        if ta and tb and a.sort() == b.sort() and a.sort() != U:
            return eq(a, b)
        if ta or tb or isinstance(a, VStr) or isinstance(b, VStr):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, z3.ExprRef) and x.sort() == I and isinstance(y, int):
                    return eq(x, z3.IntVal(int(y)))
                if isinstance(x, z3.ExprRef) and x.sort() == B and isinstance(y, bool):
                    return x if y else neg(x)
            if isinstance(a, (VObj, VList, VDict, VSet, VSeq, HList, tuple)) or isinstance(b, (VObj, VList, VDict, VSet, VSeq, HList, tuple)):
                if (ta and self.kind(a) == "str") or (tb and self.kind(b) == "str"):
                    return False
                raise Unsupported("comparison of an unknown value")
            ua, ub = self.to_U(a), self.to_U(b)
            for u in (ua, ub):
                if self.kind(u) in ("node", "ref"):
                    raise Unsupported("structural comparison of nodes")
            return eq(ua, ub)
        if isinstance(a, VObj) and isinstance(b, VObj):
            if isinstance(a.cls, VClass) and self.class_member(a.cls, "__eq__"):
                raise Unsupported("user-defined equality")
            return a.oid == b.oid
        if self.is_seq(a) and self.is_seq(b):
            ca = a if isinstance(a, tuple) else (self.list_content(a) if isinstance(a, VList) else None)
            cb = b if isinstance(b, tuple) else (self.list_content(b) if isinstance(b, VList) else None)
            if isinstance(ca, tuple) and isinstance(cb, tuple):
                return self.equal(ca, cb)
            raise Unsupported("comparison of symbolic sequences")
        if isinstance(a, VSet) and isinstance(b, VSet):
            return self.store[a.oid] == self.store[b.oid]
        if type(a) is not type(b):
            return False
        return a is b

    # ------------------------------------------------------------------ classes
    def isnode(self, t):
        return conj([cls(t) >= 0, cls(t) < self.facts.ncls])

    def in_class(self, term, c):
        if c.cid is None:
            return FALSE
        if c.cid == c.hi:
            return cls(term) == c.cid
        return conj([cls(term) >= c.cid, cls(term) <= c.hi])

    def in_set(self, term, names):
        """cls(term) is one of the named classes, as few intervals as possible."""
        ids = sorted(self.facts.lo[n] for n in names)
        out = []
        i = 0
        while i < len(ids):
            j = i
            while j + 1 < len(ids) and ids[j + 1] == ids[j] + 1:
                j += 1
            if i == j:
                out.append(cls(term) == ids[i])
            else:
                out.append(conj([cls(term) >= ids[i], cls(term) <= ids[j]]))
            i = j + 1
        return disj(out)

    def isinstance_(self, v, c):
        """bool or Bool term."""
        if hasattr(v, "isinstance") and not isinstance(c, tuple):
            return v.isinstance(self, c)
        if c is None:
            raise PyExc("TypeError", (), origin="isinstance")
        if isinstance(c, tuple):
            out = [self.isinstance_(v, x) for x in c]
            if any(x is True for x in out):
                return True
            return disj([x for x in out if x is not False]) if any(x is not False for x in out) else False
        if isinstance(c, ClsArg):
            if isinstance(v, z3.ExprRef) and v.sort() == U:
                return z3.Function("instof", I, U, B)(cls(v), c.term)
            raise Unsupported("isinstance with an unknown class")
        if isinstance(c, ClsOf):
            if isinstance(v, z3.ExprRef) and v.sort() == U:
                hi = z3.Function("hi", I, I)
                if not self.ghost.get("hi"):
                    self.ghost["hi"] = True
                    self.assume(*[hi(z3.IntVal(self.facts.lo[n])) == self.facts.hi[n] for n in self.facts.order])
                return conj([cls(v) >= c.term, cls(v) <= hi(c.term)])
        if isinstance(c, VClass):
            if isinstance(v, z3.ExprRef) and v.sort() == U:
                if c.cid is None:
                    return False
                return self.in_class(v, c)
            if isinstance(v, VObj) and isinstance(v.cls, VClass):
                return c in v.cls.mro()
            return False
        if isinstance(c, Native):
            n = c.name
            if isinstance(v, z3.ExprRef):
                if v.sort() == I:
                    return n == "int"
                if v.sort() == B:
                    return n in ("bool", "int")
                code = {"str": CLS_STR, "int": CLS_INT, "bool": CLS_BOOL, "list": CLS_LIST}.get(n)
                if n == "int":
                    return disj([cls(v) == CLS_INT, cls(v) == CLS_BOOL])
                if code is not None:
                    return cls(v) == code
                return False
            if n == "str":
                return isinstance(v, (str, VStr))
            if n == "list":
                return isinstance(v, (VList, HList)) or (isinstance(v, VSeq) and v.kind == "list")
            if n == "tuple":
                return isinstance(v, tuple) or isinstance(v, ClsArg) and v.what == "tuple" or (isinstance(v, VSeq) and v.kind == "tuple")
            if n == "dict":
                return isinstance(v, VDict)
            if n == "set":
                return isinstance(v, VSet)
            if n == "int":
                return isinstance(v, int)
            if n == "bool":
                return isinstance(v, bool)
            return False
        if isinstance(c, Ext):
            n = c.name.split(".")[-1]
            if n == "Iterable":
                if isinstance(v, (VList, HList, VSeq, tuple, VDict, VSet, str, VStr, VTraverse, VGenExp, VIter)):
                    return True
                if isinstance(v, z3.ExprRef) and v.sort() == U:
                    it = [x for x in self.facts.order if self.facts.classes[x]["iterable"]]
                    ns = self.in_set(v, it) if it else FALSE
                    return disj([ns, cls(v) == CLS_STR, cls(v) == CLS_LIST])
                return False
            if isinstance(v, VObj):
                return v.cls is c or (isinstance(v.cls, Ext) and v.cls.name == c.name)
            return False
        raise Unsupported(f"isinstance with {c!r}")

    def issubclass_(self, a, b):
        if isinstance(b, tuple):
            return any(self.issubclass_(a, x) for x in b)
        if isinstance(a, VClass) and isinstance(b, VClass):
            return b in a.mro()
        if isinstance(a, ClsArg) and isinstance(b, VClass):
            return z3.Function("subclassof", U, I, B)(a.term, z3.IntVal(b.cid))
        raise Unsupported("issubclass of unknown classes")

    def class_member(self, c, name):
        if isinstance(c, VClass):
            for k in c.mro():
                if name in k.members:
                    return k.members[name]
        return None

    def fact_value(self, v):
        """Python value of a class attribute dumped by the facts."""
        if isinstance(v, dict):
            if "class" in v:
                return self.class_of(v["class"])
            if "tuple" in v:
                return tuple(self.fact_value(x) for x in v["tuple"])
            if "set" in v:
                o = self.new_oid()
                self.store[o] = frozenset(self.fact_value(x) for x in v["set"])
                return VSet(o)
            if "dict" in v:
                o = self.new_oid()
                self.store[o] = {self.fact_value(k): self.fact_value(x) for k, x in v["dict"]}
                return VDict(o)
            if "list" in v:
                return self.new_list([self.fact_value(x) for x in v["list"]])
            raise Unsupported("opaque class attribute")
        return v

    def node_groups(self, attr, inst=True):
        """Resolution of attr on node instances: list of (key, classnames)."""
        groups = {}
        for n in self.facts.order:
            r = self.facts.attr_of(n, attr)
            has = isinstance(self.facts.instances[n], list) and attr in self.facts.instances[n]
            if r and r[0] == "defines":
                mem = self.class_of(r[1]).members.get(attr)
                if isinstance(mem, VProp):
                    key = ("prop", r[1])
                elif has and inst:
                    key = ("field",)
                else:
                    key = ("func", r[1])
            elif has and inst:
                key = ("field",)
            elif r:
                key = ("const", json.dumps(r[2], sort_keys=True))
            else:
                key = ("missing",)
            groups.setdefault(key, []).append(n)
        return list(groups.items())

    def pick_group(self, term, groups):
        """Branch on the class of term; returns the chosen key."""
        for i, (key, names) in enumerate(groups):
            if i == len(groups) - 1:
                if self.branch(self.in_set(term, names)):
                    return key
                break
            if self.branch(self.in_set(term, names)):
                return key
        raise PathEnd()

    # ------------------------------------------------------------------ attributes
    def getattr(self, v, name):
        if isinstance(v, z3.ExprRef) and v.sort() == U:
            return self.getattr_U(v, name)
        if isinstance(v, VObj):
            return self.getattr_obj(v, name)
        if isinstance(v, VModule):
            return self.global_(v, name)
        if isinstance(v, VClass):
            return self.getattr_class(v, name)
        if isinstance(v, ClsOf):
            return self.getattr_clsof(v, name)
        if isinstance(v, Ext):
            return self.ext_attr(v, name)
        if isinstance(v, ClsArg):
            raise Unsupported(f"attribute {name} of an unknown class")
        if isinstance(v, VFunc) and name == "__name__":
            return v.name
        if isinstance(v, NTuple) and name in v.fields:
            return v[v.fields.index(name)]
        if v is None:
            raise PyExc("AttributeError", (name,), origin=f"None.{name}")
        import natives
        m = natives.method_of(self, v, name)
        if m is not None:
            return m
        raise PyExc("AttributeError", (name,), origin=f"{type(v).__name__}.{name}")

    def ext_attr(self, v, name):
        key = f"{v.name}.{name}"
        if key in self.natives:
            return self.natives[key]
        return Ext(key)

    def getattr_class(self, c, name):
        if name == "__name__":
            return c.name
        if name == "__bases__":
            return tuple(c.bases)
        if c.cid is not None and name in ("__doc__",):
            return Ext("doc")
        m = self.class_member(c, name)
        if c.cid is not None and not isinstance(m, (VFunc, VProp)):
            r = self.facts.attr_of(c.name, name)
            if r and r[0] == "attr":
                return self.fact_value(r[2])
        if m is None:
            for b in c.mro():
                for x in b.bases:
                    if isinstance(x, Ext):
                        return self.ext_attr(x, name)
            raise PyExc("AttributeError", (name,), origin=f"class {c.name}.{name}")
        if isinstance(m, tuple) and m[0] == "lazy":
            return self.class_const(c, name)
        if isinstance(m, VFunc) and m.kind == "class":
            return Bound(c, m)
        return m

    def share(self, v):
        """Data made once and shared by all later uses: a path that changes it is beyond the verifier."""
        if isinstance(v, (VList, VDict, VSet)) and v.oid in self.store:
            c = self.store[v.oid]
            self.ghost[("shared", v.oid)] = c
            for x in c if isinstance(c, tuple) else c.values() if isinstance(c, dict) else ():
                self.share(x)
        return v

    def check_shared(self):
        for k, c in self.ghost.items():
            if isinstance(k, tuple) and k[0] == "shared" and self.store.get(k[1]) is not c:
                a = self.store.get(k[1])
                if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str) and a[0] == "$heap" and isinstance(c, tuple):
                    h = self.heap           # stored in a node's attribute: still as it was?
                    if self.proves(conj([h.ln(a[1]) == len(c)] + [h.el(a[1], z3.IntVal(i)) == self.to_U(x) for i, x in enumerate(c)])):
                        continue
                raise Unsupported("data shared by all later uses (class, module or default argument) is changed")

    def class_const(self, c, name):
        for k in c.mro():
            m = k.members.get(name)
            if isinstance(m, tuple) and m[0] == "lazy":
                fr = self.new_frame(None, None, k.module)
                # names bound earlier in the class body are visible
                for nm, mm in k.members.items():
                    if isinstance(mm, tuple) and mm[0] == "lazy" and nm != name and nm in names_in(m[1]):
                        self.set_var(fr, nm, self.class_const(k, nm))
                return self.share(self.eval(m[1], fr))
        raise PyExc("AttributeError", (name,), origin=c.name)

    def getattr_clsof(self, v, name):
        if name == "__name__":
            t = z3.simplify(v.term)
            if z3.is_int_value(t):
                return self.facts.byid[t.as_long()]
            return VStr([Piece("classname", (v.term,))])
        t = z3.simplify(v.term)
        if z3.is_int_value(t):
            return self.getattr_class(self.class_of(self.facts.byid[t.as_long()]), name)
        groups = {}
        for n in self.facts.order:
            r = self.facts.attr_of(n, name)
            key = ("missing",) if r is None else (("func", r[1]) if r[0] == "defines" else ("const", json.dumps(r[2], sort_keys=True)))
            groups.setdefault(key, []).append(n)
        return self.group_value(v.term, list(groups.items()), name, None)

    def group_value(self, clsterm, groups, name, self_):
        consts = [(json.loads(k[1]), ns) for k, ns in groups if k[0] == "const"]
        sel = lambda ns: self.ids_cond(clsterm, ns)
        if len(consts) == len(groups):
            vals = [c for c, _ in consts]
            if len(vals) == 1:
                return self.fact_value(vals[0])
            if all(isinstance(x, bool) for x in vals):
                return disj([sel(ns) for x, ns in consts if x])
            if all(isinstance(x, str) for x in vals):
                r = S(vals[-1])
                for x, ns in consts[:-1][::-1]:
                    r = ite(sel(ns), S(x), r)
                return self.setkind(r, "str")
        for i, (key, ns) in enumerate(groups):
            if self.branch(sel(ns)):
                if key[0] == "const":
                    return self.fact_value(json.loads(key[1]))
                if key[0] == "missing":
                    raise PyExc("AttributeError", (name,), origin=f"{ns[0]}.{name}")
                return self.class_of(key[1]).members[name]
        raise PathEnd()

    def ids_cond(self, clsterm, names):
        ids = sorted(self.facts.lo[n] for n in names)
        out = []
        i = 0
        while i < len(ids):
            j = i
            while j + 1 < len(ids) and ids[j + 1] == ids[j] + 1:
                j += 1
            out.append(clsterm == ids[i] if i == j else conj([clsterm >= ids[i], clsterm <= ids[j]]))
            i = j + 1
        return disj(out)

    def getattr_obj(self, v, name):
        if isinstance(v.cls, Ext) and "getattr-ext-object" in self.natives and name not in self.store.get(v.oid, ()):
            return self.natives["getattr-ext-object"](self, v, name)
        if v.cls == "exc":
            e = self.store[v.oid]["exc"]
            if name == "args":
                return tuple(e.args_)
            if isinstance(e.cls, str):
                return Ext(f"exc.{name}")
        d = self.store[v.oid]
        m = self.class_member(v.cls, name)
        if isinstance(m, VProp):
            return self.call(Bound(v, m.fget), [], {})
        if name in d:
            x = d[name]
            if x is POISON:
                raise Unsupported(f"attribute {name} carried around a loop")
            return x
        if name == "__class__":
            return v.cls
        if isinstance(m, VFunc):
            if m.kind == "static":
                return m
            if m.kind == "class":
                return Bound(v.cls, m)
            return Bound(v, m)
        if isinstance(m, tuple) and m[0] == "lazy":
            return self.class_const(v.cls, name)
        if isinstance(m, VClass):
            return m
        if m is not None:
            return m
        if isinstance(v.cls, VClass):
            for b in v.cls.mro():
                for x in b.bases:
                    if isinstance(x, Ext) and x.name not in ("abc.ABC",):
                        key = f"{x.name}.{name}"
                        return Native(key, lambda it, a, k, key=key: it.ext_call(key, a, k, self_=v))
        if isinstance(v.cls, Ext):
            return Native(f"{v.cls.name}.{name}", lambda it, a, k: it.ext_call(f"{v.cls.name}.{name}", a, k, self_=v))
        raise PyExc("AttributeError", (name,), origin=f"{getattr(v.cls, 'name', v.cls)}.{name}")

    def node_assumption(self, t):
        k = self.kind(t)
        if k == "node":
            return True
        return self.branch(self.isnode(t))

    def getattr_U(self, t, name):
        if name == "__class__" and self.node_assumption(t):
            return ClsOf(cls(t))
        k = self.kind(t)
        if k in ("str", "optstr"):
            if k == "optstr" and self.branch(t == NONE):
                raise PyExc("AttributeError", (name,), origin=f"None.{name}")
            import natives
            m = natives.method_of(self, t, name)
            if m is not None:
                return m
        if not self.node_assumption(t):
            if self.branch(t == NONE):
                raise PyExc("AttributeError", (name,), origin=f"None.{name}")
            import natives
            m = natives.method_of(self, t, name)
            if m is not None:
                if self.branch(cls(t) == CLS_STR):
                    return m
            raise PyExc("AttributeError", (name,), origin=f"?.{name}")
        if name in self.attr_contracts and not self.attr_off(name):
            return self.attr_contracts[name](self, t)
        if ("$dyn", t.get_id(), name) in self.store:
            return self.store[("$dyn", t.get_id(), name)]
        if name in self.natives.get("dynamic-unknown", ()):     # left by earlier work on the document
            c = self.choose(3)
            if c == 0:
                raise PyExc("AttributeError", (name,), origin=f"node.{name}")
            self.keep.append(t)
            self.store[("$dyn", t.get_id(), name)] = c == 1
            return c == 1
        groups = self.node_groups(name)
        if len(groups) == 1 and groups[0][0][0] == "field":
            return self.read_field(t, name)
        if all(g[0][0] == "const" for g in groups):
            return self.group_value(cls(t), groups, name, t)
        key = self.pick_group(t, groups)
        if key[0] == "field":
            return self.read_field(t, name)
        if key[0] == "prop":
            return self.call(Bound(t, self.class_of(key[1]).members[name].fget), [], {})
        if key[0] == "func":
            m = self.class_of(key[1]).members[name]
            if isinstance(m, VFunc) and m.kind == "static":
                return m
            if isinstance(m, VFunc) and m.kind == "class":
                return Bound(ClsOf(cls(t)), m)
            return Bound(t, m)
        if key[0] == "const":
            return self.fact_value(json.loads(key[1]))
        raise PyExc("AttributeError", (name,), origin=f"node.{name}")

    def attr_off(self, name):
        return self.ghost.get("attr_off") == name

    def read_field(self, t, name):
        v = self.heap.get(name, t)
        k = FIELDS.get(name, "any")
        if k == "list":
            return HList(v)
        if k == "point":
            return (PROW(v), PCOL(v))
        if k == "ref":
            self.setkind(v, "ref")
            self.keep.append(v)
        elif k == "str":
            if self.kind(v) is None:
                self.setkind(v, "str")
                self.assume(cls(v) == CLS_STR) if not v.eq(EMPTY) else None
        return v

    def setattr(self, v, name, val):
        if isinstance(v, z3.ExprRef) and v.sort() == U:
            if not self.node_assumption(v):
                raise PyExc("AttributeError", (name,), origin="attribute set on a non-node")
            if "dynamic-attributes" in self.natives and not any(self.facts.attr_of(n, name) for n in self.facts.order) and name not in FIELDS:
                self.keep.append(v)
                self.store[("$dyn", v.get_id(), name)] = val
                return
            props = {}
            for n in self.facts.order:
                r = self.facts.attr_of(n, name)
                if r and r[0] == "defines" and isinstance(self.class_of(r[1]).members.get(name), VProp):
                    props.setdefault(r[1], []).append(n)
            for owner, ns in props.items():
                if len(ns) == len(self.facts.order) or self.branch(self.in_set(v, ns)):
                    p = self.class_of(owner).members[name]
                    if p.fset is None:
                        raise PyExc("AttributeError", (name,), origin=f"read-only property {name}")
                    self.call(Bound(v, p.fset), [val], {})
                    return
            self.write_field(v, name, val)
            return
        if isinstance(v, VObj):
            m = self.class_member(v.cls, name)
            if isinstance(m, VProp):
                if m.fset is None:
                    raise PyExc("AttributeError", (name,), origin=f"read-only property {name}")
                self.call(Bound(v, m.fset), [val], {})
                return
            d = dict(self.store[v.oid])
            d[name] = val
            self.store[v.oid] = d
            return
        if isinstance(v, (VClass, ClsOf, VModule)):
            self.event("class-write", getattr(v, "name", "?"), name)
            return
        if isinstance(v, Ext):
            self.event("ext-write", v.name, name, val)
            return
        raise PyExc("AttributeError", (name,), origin=f"set {type(v).__name__}.{name}")

    def write_field(self, t, name, val):
        k = FIELDS.get(name, "any")
        x = self.coerce(val, k)
        self.heap = self.heap.put(name, self.heap.m(name).set(t, x))
        if name == "_children":
            self.heap = self.heap.put("#own", self.heap.m("#own").set(x, t))

    def event(self, *e):
        self.events = self.events + (e,)

    # ------------------------------------------------------------------ allocation
    def new_node(self, c):
        t = self.fresh("new" + c.name)
        self.assume(cls(t) == c.cid, t != NONE, neg(self.heap.alloc(t)))
        younger(t, self.heap)
        self.heap = self.heap.put("$alloc", self.heap.m("$alloc").set(t, TRUE))
        self.heap.exists(t)
        self.setkind(t, "node")
        if not self.facts_nwc(c.name):
            self.write_field(t, "_children", ())       # ghost: leaves have an empty child list
        return t

    def facts_nwc(self, name):
        return "NodeWithChildren" in self.facts.classes[name]["mro"]

    def instantiate(self, c, args, kwargs):
        if isinstance(c, VClass) and c.cid is not None:
            t = self.new_node(c)
            init = self.class_member(c, "__init__")
            self.call(Bound(t, init), args, kwargs)
            return t
        if isinstance(c, VClass):
            o = self.new_oid()
            self.store[o] = {}
            v = VObj(o, c)
            if self.is_exc_class(c):
                e = PyExc(c, tuple(args))
                self.store[o] = {"exc": e, "args": tuple(args)}
                return v
            if any(isinstance(b, Ext) and b.name == "typing.NamedTuple" for b in c.bases):
                return self.named_tuple(c, args, kwargs)
            if any(isinstance(b, Ext) and b.name.startswith("namedtuple") for b in c.bases):
                return tuple(args) if not kwargs else tuple(list(args) + list(kwargs.values()))
            init = self.class_member(c, "__init__")
            if init is not None:
                self.call(Bound(v, init), args, kwargs)
            else:
                for b in c.mro():
                    for x in b.bases:
                        if isinstance(x, Ext) and x.name not in ("abc.ABC", "builtins.object"):
                            self.ext_call(f"{x.name}.__init__", args, kwargs, self_=v)
            return v
        raise Unsupported(f"instantiate {c!r}")

    def named_tuple(self, c, args, kwargs):
        fields = [x.target.id for x in c.node.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
        vals = dict(zip(fields, args))
        if len(args) > len(fields) or set(vals) & set(kwargs) or not set(kwargs) <= set(fields):
            raise PyExc("TypeError", (), origin=c.name)
        vals.update(kwargs)
        for f in fields:
            if f not in vals:
                m = c.members.get(f)
                if m is None:
                    raise PyExc("TypeError", (), origin=c.name)
                vals[f] = self.class_const(c, f)
        return NTuple([vals[f] for f in fields], c, fields)

    def is_exc_class(self, c):
        if isinstance(c, Ext):
            return c.name.split(".")[-1] in BUILTIN_EXC
        return isinstance(c, VClass) and any(self.is_exc_class(b) for b in c.bases)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        if isinstance(f, Bound):
            if f.func is None:
                raise PyExc("AttributeError", (), origin="missing member")
            if isinstance(f.func, Native):
                return f.func.fn(self, [f.self_] + list(args), kwargs)
            return self.call_func(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, VFunc):
            return self.call_func(f, list(args), kwargs)
        if isinstance(f, Native):
            return f.fn(self, list(args), kwargs)
        if isinstance(f, VClass):
            return self.instantiate(f, list(args), kwargs)
        if isinstance(f, Ext):
            return self.ext_call(f.name, list(args), kwargs)
        if isinstance(f, VObj):
            m = self.class_member(f.cls, "__call__")
            if m is not None:
                return self.call(Bound(f, m), args, kwargs)
            return self.ext_call(f"{getattr(f.cls, 'name', f.cls)}.__call__", list(args), kwargs, self_=f)
        if callable(f) and not isinstance(f, z3.ExprRef):
            return f(self, list(args), kwargs)
        if isinstance(f, z3.ExprRef) and f.sort() == U:
            h = self.natives.get("call-symbolic")
            if h:
                return h(self, f, args, kwargs)
        raise Unsupported(f"call of {f!r}")

    def ext_call(self, name, args, kwargs, self_=None):
        if name in self.natives:
            n = self.natives[name]
            return n.fn(self, ([self_] if self_ is not None else []) + list(args), kwargs)
        last = name.split(".")[-1]
        if last in BUILTIN_EXC:
            o = self.new_oid()
            e = PyExc(last, tuple(args))
            self.store[o] = {"exc": e, "args": tuple(args)}
            return VObj(o, "exc")
        h = self.natives.get("ext-call")
        if h:
            return h(self, name, args, kwargs, self_)
        raise Unsupported(f"external call {name}")

    def call_func(self, f, args, kwargs):
        c = self.contracts.get(f.qual)
        if c is not None and not (self.verifying == f.qual and self.depth == 0):
            if self.depth > 0 or self.verifying != f.qual:
                return c(self, f, args, kwargs)
        return self.run_func(f, args, kwargs)

    def run_func(self, f, args, kwargs):
        if self.depth > 60:
            raise Unsupported("call depth (recursion without contract)")
        node = f.node
        if f.qual.split(".")[-1] != "<lambda>":
            self.functions.add(f.qual)
        fr = self.new_frame(f.frame, f, f.module)
        self.bind(f, node.args, args, kwargs, fr)
        if args and f.cls is not None:
            fr.self_ = args[0]
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            if is_generator(node) and self.yield_hook is None:
                return self.generator(f, node, fr)
            try:
                self.exec_block(node.body, fr)
            except ReturnSig as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def generator(self, f, node, fr):
        """Generator without contract: run eagerly (only when its effects stay local)."""
        out = []
        saved = self.yield_hook
        heap = self.heap
        self.yield_hook = lambda v: out.append(v)
        try:
            try:
                self.exec_block(node.body, fr)
            except ReturnSig:
                pass
        finally:
            self.yield_hook = saved
        if self.heap is not heap:
            raise Unsupported("generator with side effects")
        return self.new_list(out)

    def bind(self, f, a, args, kwargs, fr):
        env = {}
        kwargs = dict(kwargs)
        pos = [x.arg for x in a.posonlyargs + a.args]
        if f.defaults is None:
            dfr = f.frame or None
            dframe = dfr if dfr is not None else self.new_frame(None, None, f.module)
            if f.cls is not None and f.frame is None:
                need = set().union(*[names_in(d) for d in list(a.defaults) + [d for d in a.kw_defaults if d is not None]])
                for nm, mm in f.cls.members.items():
                    if nm in need and isinstance(mm, tuple) and mm[0] == "lazy":
                        self.set_var(dframe, nm, self.class_const(f.cls, nm))
            defaults = [self.share(self.eval(d, dframe)) for d in a.defaults]
            kwdefaults = {k.arg: self.share(self.eval(d, dframe)) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        else:
            defaults, kwdefaults = f.defaults, f.kwdefaults
        args = list(args)
        for i, p in enumerate(pos):
            if args:
                env[p] = args.pop(0)
                if p in kwargs and p not in [x.arg for x in a.posonlyargs]:
                    raise PyExc("TypeError", (p,), origin=f"{f.name}: multiple values for {p}")
            elif p in kwargs and p not in [x.arg for x in a.posonlyargs]:
                env[p] = kwargs.pop(p)
            else:
                j = i - (len(pos) - len(defaults))
                if j < 0:
                    raise PyExc("TypeError", (p,), origin=f"{f.name}: missing argument {p}")
                env[p] = defaults[j]
        if a.vararg:
            env[a.vararg.arg] = tuple(args)
        elif args:
            raise PyExc("TypeError", (), origin=f"{f.name}: too many arguments")
        for k in a.kwonlyargs:
            if k.arg in kwargs:
                env[k.arg] = kwargs.pop(k.arg)
            elif k.arg in kwdefaults:
                env[k.arg] = kwdefaults[k.arg]
            else:
                raise PyExc("TypeError", (k.arg,), origin=f"{f.name}: missing argument {k.arg}")
        if a.kwarg:
            o = self.new_oid()
            self.store[o] = dict(kwargs)
            env[a.kwarg.arg] = VDict(o)
        elif kwargs:
            raise PyExc("TypeError", tuple(kwargs), origin=f"{f.name}: unexpected arguments {sorted(map(str, kwargs))}")
        self.store[fr.fid] = env

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, fr):
        for st in body:
            self.exec(st, fr)

    def exec(self, st, fr):
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__}")
        m(st, fr)

    def x_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, fr)

    def x_Pass(self, st, fr):
        pass

    def x_Import(self, st, fr):
        for a in st.names:
            self.set_var(fr, a.asname or a.name.split(".")[0], self.import_(a.name))

    def x_ImportFrom(self, st, fr):
        for a in st.names:
            v = self.import_from(st.module or "", st.level, a.name)
            if isinstance(v, tuple):
                v = self.module(v[1]) if v[0] == "lazymod" else self.global_(self.module(v[1]), v[2])
            self.set_var(fr, a.asname or a.name, v)

    def x_Return(self, st, fr):
        raise ReturnSig(self.eval(st.value, fr) if st.value is not None else None)

    def x_Break(self, st, fr):
        raise BreakSig()

    def x_Continue(self, st, fr):
        raise ContinueSig()

    def x_Nonlocal(self, st, fr):
        fr.nonlocals.update(st.names)

    def x_Global(self, st, fr):
        self.event("global-decl", tuple(st.names))

    def x_Assert(self, st, fr):
        if not self.test(self.eval(st.test, fr)):
            raise PyExc("AssertionError", (), origin=f"assert line {st.lineno}")

    def x_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def x_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.get_var(fr, t.id)
            store = lambda v: self.set_var(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, fr)
            old = self.getattr(obj, t.attr)
            store = lambda v: self.setattr(obj, t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, fr)
            key = self.eval_index(t.slice, fr)
            old = self.getitem(obj, key)
            store = lambda v: self.setitem(obj, key, v)
        else:
            raise Unsupported("augmented target")
        rhs = self.eval(st.value, fr)
        if isinstance(st.op, ast.Add) and isinstance(old, (VList, HList)):
            import natives
            natives.list_extend(self, old, rhs)
            if isinstance(t, ast.Attribute) and isinstance(old, HList):
                return
            store(old)
            return
        store(self.binop(st.op, old, rhs))

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.set_var(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), [isinstance(e, ast.Starred) for e in t.elts])
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, star):
        if isinstance(v, VList):
            v = self.list_content(v)
        if isinstance(v, HList):
            v = self.hseq(v.addr)
        if isinstance(v, VSeq):
            if any(star):
                raise Unsupported("starred unpacking of a symbolic sequence")
            if self.branch(self.int_(v.n) == n):
                return [v.at(z3.IntVal(i)) for i in range(n)]
            raise PyExc("ValueError", (), origin="unpack")
        if isinstance(v, str):
            v = tuple(v)
        if not isinstance(v, tuple):
            if hasattr(v, "unpack"):
                return v.unpack(self, n)
            raise Unsupported(f"unpack {type(v).__name__}")
        if any(star):
            i = star.index(True)
            after = n - i - 1
            if len(v) < n - 1:
                raise PyExc("ValueError", (), origin="unpack")
            mid = self.new_list(v[i:len(v) - after])
            return list(v[:i]) + [mid] + list(v[len(v) - after:])
        if len(v) != n:
            raise PyExc("ValueError", (), origin="unpack")
        return list(v)

    def x_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                import natives
                natives.delitem(self, self.eval(t.value, fr), self.eval_index(t.slice, fr))
            elif isinstance(t, ast.Name):
                d = dict(self.store[fr.fid])
                d.pop(t.id, None)
                self.store[fr.fid] = d
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                if isinstance(o, VObj):
                    d = dict(self.store[o.oid])
                    d.pop(t.attr, None)
                    self.store[o.oid] = d
                else:
                    raise Unsupported("del attribute")
            else:
                raise Unsupported("del target")

    def x_If(self, st, fr):
        if self.test(self.eval(st.test, fr)):
            self.exec_block(st.body, fr)
        else:
            self.exec_block(st.orelse, fr)

    def x_FunctionDef(self, st, fr):
        self.set_var(fr, st.name, VFunc(st, fr.module, None, fr))

    def x_ClassDef(self, st, fr):
        raise Unsupported("local class")

    def x_Raise(self, st, fr):
        if st.exc is None:
            e = self.ghost.get("handling")
            if e is None:
                raise PyExc("RuntimeError", (), origin="raise without exception")
            raise e
        v = self.eval(st.exc, fr)
        cause = None
        if st.cause is not None:
            cause = self.eval(st.cause, fr)
        raise self.exc_value(v, st, fr)

    def exc_value(self, v, st, fr):
        where = f"{fr.func.qual if fr.func else fr.module.name}:{st.lineno}"
        if isinstance(v, VObj) and "exc" in self.store[v.oid]:
            e = self.store[v.oid]["exc"]
            e2 = PyExc(e.cls, e.args_, origin=where)
            return e2
        if isinstance(v, VClass) and self.is_exc_class(v):
            return PyExc(v, (), origin=where)
        if isinstance(v, Ext) and v.name.split(".")[-1] in BUILTIN_EXC:
            return PyExc(v.name.split(".")[-1], (), origin=where)
        if isinstance(v, VObj) and self.is_exc_class(v.cls):
            return PyExc(v.cls, (), origin=where)
        raise Unsupported("raise of an unknown value")

    def exc_matches(self, e, t):
        if isinstance(t, tuple):
            return any(self.exc_matches(e, x) for x in t)
        if isinstance(t, VClass):
            return isinstance(e.cls, VClass) and t in e.cls.mro()
        if isinstance(t, Ext):
            n = t.name.split(".")[-1]
            want = BUILTIN_EXC.get(n)
            if want is None:
                return e.name == n
            c = e.cls
            if isinstance(c, VClass):
                for k in c.mro():
                    for b in k.bases:
                        if isinstance(b, Ext):
                            bc = BUILTIN_EXC.get(b.name.split(".")[-1])
                            if bc is not None and issubclass(bc, want):
                                return True
                return False
            bc = BUILTIN_EXC.get(c)
            return bc is not None and issubclass(bc, want)
        raise Unsupported("except clause")

    def x_Try(self, st, fr):
        try:
            try:
                self.exec_block(st.body, fr)
            except PyExc as e:
                for h in st.handlers:
                    if h.type is None or self.exc_matches(e, self.eval(h.type, fr)):
                        if h.name:
                            o = self.new_oid()
                            self.store[o] = {"exc": e, "args": e.args_}
                            self.set_var(fr, h.name, VObj(o, e.cls if isinstance(e.cls, VClass) else "exc"))
                        old = self.ghost.get("handling")
                        self.ghost["handling"] = e
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            self.ghost["handling"] = old
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, fr)
        except (PyExc, ReturnSig, BreakSig, ContinueSig):
            self.exec_block(st.finalbody, fr)
            raise
        self.exec_block(st.finalbody, fr)

    def x_With(self, st, fr):
        for item in st.items:
            v = self.eval(item.context_expr, fr)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr)
        self.exec_block(st.body, fr)

    # ------------------------------------------------------------------ loops
    def take_spec(self, stream_kind, st, stream=None):
        for i, sp in enumerate(self.loopspecs):
            if sp.matches(self, stream_kind, st, stream):
                return sp
        return None

    def x_While(self, st, fr):
        spec = self.take_spec("while", st)
        if spec is not None:
            return self.spec_while(spec, st, fr)
        n = 0
        while True:
            v = self.truth(self.eval(st.test, fr))
            if isinstance(v, bool):
                go = v
            else:
                vv = z3.simplify(v)
                if z3.is_true(vv) or z3.is_false(vv):
                    go = z3.is_true(vv)
                else:
                    raise Unsupported(f"while loop without invariant (line {st.lineno})")
            if not go:
                break
            n += 1
            if n > 300:
                raise Unsupported("while loop does not end concretely")
            try:
                self.exec_block(st.body, fr)
            except BreakSig:
                return
            except ContinueSig:
                continue
        self.exec_block(st.orelse, fr)

    def x_For(self, st, fr):
        stream = self.stream(self.eval(st.iter, fr))
        self.for_stream(stream, st, fr)

    def for_stream(self, stream, st, fr):
        if not isinstance(stream, list) and "for-hook" in self.natives:
            if self.natives["for-hook"](self, stream, st, fr):
                return
        if isinstance(stream, list):
            spec = None
            for v in stream:
                self.assign(st.target, v, fr)
                try:
                    self.exec_block(st.body, fr)
                except BreakSig:
                    return
                except ContinueSig:
                    continue
            self.exec_block(st.orelse, fr)
            return
        spec = self.take_spec(stream.kind, st, stream)
        if spec is not None:
            return self.spec_for(spec, stream, st, fr)
        return self.auto_for(stream, st, fr)

    def assigned_names(self, body):
        out = set()
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    out.add(n.name)
        return out

    def auto_for(self, stream, st, fr):
        """Query loops: an iteration either leaves the loop or changes nothing."""
        body = st.body
        targets = self.assigned_names([ast.Assign(targets=[st.target], value=ast.Constant(0))])
        assigned = self.assigned_names(body) | targets
        frame0 = dict(self.store[fr.fid])
        keep = {nm for nm in assigned if nm in frame0 and frame0[nm] is not POISON and nm not in targets and (id(st), nm) not in self.loop_poison}
        for nm in assigned:
            if nm not in keep:
                self.set_var(fr, nm, POISON)

        def iteration(k):
            self.assume(k >= 0)
            if stream.n is not None:
                self.assume(k < self.int_(stream.n))
            v = stream.at(k)
            if stream.filt is not None and not self.branch(self.truth(stream.filt(v))):
                return None
            self.assign(st.target, v, fr)
            try:
                self.exec_block(body, fr)
            except ContinueSig:
                pass
            return None
        exit_ = self.search(stream, iteration, f"line {st.lineno}", fr, assigned, {nm: (id(st), nm) for nm in keep})
        if exit_ is not None:
            kind, val = exit_
            if kind == "break":
                return
            if kind == "return":
                raise ReturnSig(val)
            raise val
        for nm in assigned:
            if nm in frame0 and nm not in targets and nm not in keep:
                self.set_var(fr, nm, POISON)
        self.exec_block(st.orelse, fr)

    def search(self, stream, iteration, where, fr=None, scratch=(), keep=()):
        """Summarise a loop whose falling-through iterations have no effect.

        Returns None on the path where all iterations fall through, or (kind, value) on a path
        where the loop is left at the (then existing) first index that does not fall through."""
        k = self.fresh("k", I)
        nf0 = self.nfresh
        res = self.explore(lambda: iteration(k), memo=("search", where))
        base_heap, base_store, _, base_events = self.explored_from[:4]
        fall = [r for r in res if r.kind in ("val", "continue")]
        exits = [r for r in res if r.kind in ("return", "break", "raise")]
        for r in fall:
            h, store, pc, ev = r.snap[0], r.snap[1], r.snap[2], r.snap[3]
            if not same_heap_objects(h, base_heap):
                raise Unsupported(f"loop at {where} changes the heap ({diff_fields(h, base_heap)}); it needs an invariant")
            if ev is not base_events:
                raise Unsupported(f"loop at {where} has effects; it needs an invariant")
            for o, c in base_store.items():
                c2 = store.get(o)
                if c2 is c:
                    continue
                if fr is not None and o == fr.fid:
                    for nm in keep:
                        if c2.get(nm) is not c[nm]:
                            self.loop_poison.add(keep[nm])
                            raise Restart()
                    for nm in c:
                        if nm not in scratch and c2.get(nm) is not c[nm]:
                            raise Unsupported(f"loop at {where} changes {nm}; it needs an invariant")
                    continue
                if c2 != c:
                    raise Unsupported(f"loop at {where} changes local data; it needs an invariant")
        conds = []
        for r in fall:
            d = [f for f in r.delta]
            fresh = [c for c in consts_of(d) if is_fresh_after(c, nf0 + 0) and not c.eq(k)]
            if fresh:
                raise Unsupported(f"loop at {where}: iteration outcome depends on internal choices {fresh[:3]}")
            conds.append(conj(d))
        F = disj(conds) if conds else FALSE
        j = z3.Int(f"j!{self.nfresh}")
        Fj = z3.substitute(F, (k, j))
        c = self.choose(len(exits) + 1)
        if c == 0:
            if stream.n is None:
                raise PathEnd()
            n = self.int_(stream.n)
            self.assume(n >= 0)
            self.assume(forall_([j], z3.Implies(z3.And(j >= 0, j < n), Fj), stream_triggers(self, stream, j, Fj)))
            return None
        r = exits[c - 1]
        # adopt the state of the exit path
        nf, no = self.nfresh, self.noid
        pc0 = self.pc
        self.restore(r.snap)
        self.nfresh, self.noid = max(nf, self.nfresh), max(no, self.noid)
        self.assume(forall_([j], z3.Implies(z3.And(j >= 0, j < k), Fj), stream_triggers(self, stream, j, Fj)))
        self.ghost["k"] = k
        if not self.feasible(TRUE):
            raise PathEnd()
        return (r.kind, r.value)

    def spec_for(self, spec, stream, st, fr):
        """Loop with an invariant."""
        spec.enter(self, fr, stream, st)
        names = self.assigned_names(st.body) | self.assigned_names([ast.Assign(targets=[st.target], value=ast.Constant(0))])
        entry = {nm: self.store[fr.fid].get(nm) for nm in names if nm in self.store[fr.fid]}
        spec.check(self, fr, z3.IntVal(0), "holds on entry")
        self.check_entry(fr, names, entry, spec)
        which = self.choose(2)
        outer = self.loopspecs
        k = self.fresh("k", I)
        if which == 0:
            self.assume(k >= 0)
            if stream.n is not None:
                self.assume(k < self.int_(stream.n))
            self.havoc_locals(fr, names, entry, k, spec, st)
            counters = self.havoc_counters(st, spec, k)
            spec.havoc(self, fr, k)
            before = dict(self.store)
            self.ghost["k"] = k
            self.loopspecs = spec.nested
            try:
                v = spec.item(self, stream, k)
                run = True
                if stream.filt is not None and not self.branch(self.truth(stream.filt(v))):
                    run = False
                spec.body_start(self, fr, k, v, run)
                if run:
                    self.assign(st.target, v, fr)
                    try:
                        self.exec_block(st.body, fr)
                    except ContinueSig:
                        pass
                    except BreakSig:
                        self.loopspecs = outer
                        spec.on_break(self, fr, k)
                        return
                if not spec.anytime:
                    spec.frame(self, stream, k)
                spec.body_end(self, fr, k, v, run)
                self.check_locals(fr, names, entry, k, spec, st)
                self.check_frame(fr, names, before, spec, counters, st)
                spec.check(self, fr, k + 1, "is preserved by an iteration")
            finally:
                self.loopspecs = outer
            raise PathEnd()
        if stream.n is None:
            raise PathEnd()
        n = self.int_(stream.n)
        self.assume(n >= 0)
        self.havoc_locals(fr, names, entry, n, spec, st)
        self.havoc_counters(st, spec, n)
        spec.havoc(self, fr, n)
        spec.leave(self, fr, n)
        self.exec_block(st.orelse, fr)

    def traversal_frame(self, stream, k, name):
        """A running traversal reads the current node's child list after the loop body (contract of traverse)."""
        if stream.kind != "traverse":
            return
        g, h = stream.meta["heap"], self.heap
        if all(g.m(f) is h.m(f) for f in ("_children", "$len", "$elt")):
            return
        v = stream.meta["order"].P(stream.meta["root"], k)
        i = self.fresh("i", I)
        self.oblige(f"{name}: the current node's child list is as when the traversal began (length)", h.nk(v) == g.nk(v))
        self.oblige(f"{name}: the current node's child list is as when the traversal began", implies(conj([i >= 0, i < g.nk(v)]), h.kid(v, i) == g.kid(v, i)))

    def spec_while(self, spec, st, fr):
        spec.enter(self, fr, None, st)
        names = self.assigned_names(st.body)
        entry = {nm: self.store[fr.fid].get(nm) for nm in names if nm in self.store[fr.fid]}
        spec.check(self, fr, z3.IntVal(0), "holds on entry")
        self.check_entry(fr, names, entry, spec)
        k = self.fresh("k", I)
        self.assume(k >= 0)
        self.havoc_locals(fr, names, entry, k, spec, st)
        counters = self.havoc_counters(st, spec, k)
        spec.havoc(self, fr, k)
        before = dict(self.store)
        outer = self.loopspecs
        self.loopspecs = spec.nested
        try:
            go = self.test(self.eval(st.test, fr))
        finally:
            self.loopspecs = outer
        if go:
            self.ghost["k"] = k
            self.loopspecs = spec.nested
            try:
                spec.body_start(self, fr, k, None, True)
                try:
                    self.exec_block(st.body, fr)
                except ContinueSig:
                    pass
                except BreakSig:
                    self.loopspecs = outer
                    spec.on_break(self, fr, k)
                    return
                spec.body_end(self, fr, k, None, True)
                self.check_locals(fr, names, entry, k, spec, st)
                self.check_frame(fr, names, before, spec, counters, st)
                spec.check(self, fr, k + 1, "is preserved by an iteration")
            finally:
                self.loopspecs = outer
            raise PathEnd()
        spec.leave(self, fr, k)
        self.exec_block(st.orelse, fr)

    def local_default(self, nm, v0, k, spec, st):
        """(what the loop invariant says of local nm after k iterations, whether it is checked)."""
        if v0 is POISON:
            return POISON
        val = spec.local(self, nm, v0, k)
        if val is not NotImplemented:
            return val
        if (id(st), nm) in self.loop_poison:
            return POISON
        if (id(st), nm, "count") in self.loop_poison:
            if isinstance(v0, bool):
                return POISON
            return k + v0 if isinstance(v0, int) or (isinstance(v0, z3.ExprRef) and v0.sort() == I) else POISON
        return v0

    def havoc_locals(self, fr, names, entry, k, spec, st):
        for nm in names:
            v0 = entry.get(nm, POISON)
            self.set_var(fr, nm, self.local_default(nm, v0, k, spec, st))

    def check_entry(self, fr, names, entry, spec):
        for nm in names:
            v0 = entry.get(nm, POISON)
            if v0 is POISON:
                continue
            want = spec.local(self, nm, v0, z3.IntVal(0))
            if want is NotImplemented:
                continue
            c = self.spec_equal(v0, want)
            self.oblige(f"{spec.name}: loop variable {nm} holds on entry", c if isinstance(c, z3.ExprRef) else z3.BoolVal(bool(c)))

    def check_locals(self, fr, names, entry, k, spec, st):
        """Locals are as the invariant says; everything else local is untouched."""
        for nm in names:
            v0 = entry.get(nm, POISON)
            want = self.local_default(nm, v0, k + 1, spec, st)
            if want is POISON:
                continue
            cur = self.store[fr.fid].get(nm, POISON)
            if cur is v0 and want is v0:
                continue
            given = spec.local(self, nm, v0, k + 1) is not NotImplemented
            if cur is POISON:
                ok = FALSE
            else:
                try:
                    ok = self.spec_equal(cur, want)
                except Unsupported:
                    ok = FALSE
                ok = ok if isinstance(ok, z3.ExprRef) else z3.BoolVal(bool(ok))
            if given:
                if cur is POISON:
                    raise Unsupported(f"loop variable {nm}")
                self.oblige(f"{spec.name}: loop variable {nm} is preserved by an iteration", ok)
            elif not z3.is_true(z3.simplify(ok)):
                # not constant: try "advances by one"; then give its value up
                key = (id(st), nm, "count")
                self.loop_poison.add((id(st), nm) if key in self.loop_poison else key)
                raise Restart()

    def havoc_counters(self, st, spec, k):
        """itertools.count() iterators: advance by one per iteration where the loop was seen to use them."""
        out = {}
        for i, (o, c) in enumerate(sorted((o, c) for o, c in self.store.items() if isinstance(c, tuple) and c and isinstance(c[0], str) and c[0] == "count")):
            out[o] = (i, c)
            if (id(st), i, "iterator") in self.loop_poison and not spec.manages(self, o):
                self.store[o] = ("count", self.int_(c[1]) + self.int_(k) * self.int_(c[2]), c[2])
        return out

    def check_frame(self, fr, names, before, spec, counters, st):
        now = self.store
        for o, c in before.items():
            c2 = now.get(o)
            if o in counters and not spec.manages(self, o):
                i, c0 = counters[o]
                moves = (id(st), i, "iterator") in self.loop_poison
                if c2 is c and not moves:
                    continue
                if not moves:
                    self.loop_poison.add((id(st), i, "iterator"))
                    raise Restart()
                self.oblige(f"{spec.name}: a counter advances by one per iteration", self.int_(c2[1]) == self.int_(c[1]) + self.int_(c[2]))
                continue
            if c2 is c or spec.manages(self, o) or o in self.comp_frames:
                continue
            if o == fr.fid:
                for nm in c:
                    if nm not in names and c2.get(nm) is not c[nm]:
                        raise Unsupported(f"{spec.name} changes {nm}, which its invariant does not mention")
                continue
            if c2 != c:
                raise Unsupported(f"{spec.name} changes local data its invariant does not mention")

    def spec_equal(self, a, b):
        """Identity-style equality used by specifications (nodes compared by identity)."""
        if hasattr(a, "same"):
            return a.same(self, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return FALSE
            return conj([self.spec_equal(x, y) for x, y in zip(a, b)])
        if isinstance(a, (VList, VDict, VObj, VSet)) or isinstance(b, (VList, VDict, VObj, VSet)):
            if type(a) is type(b) and a.oid == b.oid:
                return TRUE
            if isinstance(a, VList) and isinstance(b, (tuple, VList)):
                ca = self.list_content(a)
                cb = self.list_content(b) if isinstance(b, VList) else b
                if isinstance(ca, tuple) and isinstance(cb, tuple):
                    return self.spec_equal(ca, cb)
            return FALSE
        if isinstance(a, (VClass, ClsOf)) or isinstance(b, (VClass, ClsOf)):
            r = self.class_identical(a, b)
            return r if isinstance(r, z3.ExprRef) else z3.BoolVal(bool(r))
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() == b.sort():
            return eq(a, b)
        num = lambda x: (isinstance(x, int) and not isinstance(x, bool)) or (isinstance(x, z3.ExprRef) and x.sort() == I)
        if num(a) and num(b):
            return eq(self.int_(a), self.int_(b))
        bo = lambda x: isinstance(x, bool) or (isinstance(x, z3.ExprRef) and x.sort() == B)
        if bo(a) and bo(b):
            return eq(self.as_bool(a), self.as_bool(b))
        return eq(self.to_U(a), self.to_U(b))

    # ------------------------------------------------------------------ iteration
    def stream(self, v):
        """list of values (concrete) or Stream."""
        import natives
        return natives.stream(self, v)

    # ------------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.get_var(fr, e.id)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        while f.func is None and f.parent is not None and getattr(f, "nonlocals", None) == {"$comp"}:
            f = f.parent
        self.set_var(f, e.target.id, v)
        return v

    def e_Tuple(self, e, fr):
        return self.elements(e.elts, fr)

    def elements(self, elts, fr):
        out = ()
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr)
                s = self.stream(v)
                if isinstance(s, list):
                    out = self.seq_concat(out, tuple(s))
                else:
                    if s.filt is not None or s.n is None:
                        raise Unsupported("starred filtered sequence")
                    out = self.seq_concat(out, VSeq(s.n, s.at, "list"))
            else:
                out = self.seq_concat(out, (self.eval(x, fr),))
        return out

    def e_List(self, e, fr):
        return self.new_list(self.elements(e.elts, fr))

    def e_Set(self, e, fr):
        o = self.new_oid()
        self.store[o] = frozenset(self.eval(x, fr) for x in e.elts)
        return VSet(o)

    def e_Dict(self, e, fr):
        o = self.new_oid()
        self.store[o] = {}
        d = VDict(o)
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, fr)
                for kk, vv in self.store[src.oid].items():
                    self.setitem(d, kk, vv)
            else:
                kk = self.eval(k, fr)
                self.setitem(d, kk, self.eval(v, fr))
        return d

    def e_Attribute(self, e, fr):
        if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "super" and not e.value.args:
            return self.super_attr(e.attr, fr)
        return self.getattr(self.eval(e.value, fr), e.attr)

    def super_attr(self, name, fr):
        f = fr
        while f is not None and (f.func is None or f.func.cls is None):
            f = f.parent
        if f is None:
            raise Unsupported("super() outside a method")
        owner = f.func.cls
        self_ = f.self_
        if isinstance(self_, VObj):
            mro = self_.cls.mro()
        else:
            mro = owner.mro()
        i = mro.index(owner)
        for c in mro[i + 1:]:
            if name in c.members:
                m = c.members[name]
                if isinstance(m, VProp):
                    return self.call(Bound(self_, m.fget), [], {})
                return Bound(self_, m)
        for c in mro[i:]:
            for b in c.bases:
                if isinstance(b, Ext):
                    key = f"{b.name}.{name}"
                    return Native(key, lambda it, a, k, key=key: it.ext_call(key, a, k, self_=self_))
        if name == "__init__":
            return Native("object.__init__", lambda it, a, k: None)
        raise PyExc("AttributeError", (name,), origin=f"super().{name}")

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            raise Unsupported("super() as a value")
        f = self.eval(e.func, fr)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                if hasattr(v, "as_star"):
                    args.append(v.as_star(self))
                    continue
                s = self.stream(v)
                if not isinstance(s, list):
                    raise Unsupported("starred symbolic argument")
                args.extend(s)
            elif isinstance(a, ast.GeneratorExp) or isinstance(a, ast.Lambda):
                args.append(self.eval(a, fr))
            else:
                args.append(self.eval(a, fr))
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value, fr)
                if hasattr(v, "as_kwargs"):
                    kwargs["**"] = v.as_kwargs(self)
                    continue
                if not isinstance(v, VDict) or not isinstance(self.store[v.oid], dict):
                    raise Unsupported("** of an unknown value")
                for kk, vv in self.store[v.oid].items():
                    if kk in kwargs:
                        raise PyExc("TypeError", (kk,), origin="duplicate keyword")
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        self.ghost["line"] = getattr(e, "lineno", 0)
        return self.call(f, args, kwargs)

    def e_Lambda(self, e, fr):
        f = VFunc(e, fr.module, None, fr, name="<lambda>")
        f.defaults = [self.eval(d, fr) for d in e.args.defaults]
        f.kwdefaults = {}
        return f

    def e_IfExp(self, e, fr):
        t = self.eval(e.test, fr)
        h = self.natives.get("ifexp-hook")
        if h is not None:
            r = h(self, t, lambda: self.eval(e.body if self.test(t) else e.orelse, fr))
            if r is not NotImplemented:
                return r
        if self.test(t):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.test(v)
            if isand and not t:
                return False if isinstance(v, z3.ExprRef) and v.sort() == B else v
            if not isand and t:
                return True if isinstance(v, z3.ExprRef) and v.sort() == B else v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else neg(t)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            return -self.int_(v)
        raise Unsupported("unary operator")

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        import natives
        return natives.binop(self, op, a, b)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            out.append(self.compare(op, left, right))
            left = right
        if len(out) == 1:
            return out[0]
        if any(x is False for x in out):
            return False
        out = [x for x in out if x is not True]
        return conj(out) if out else True

    def compare(self, op, a, b):
        import natives
        return natives.compare(self, op, a, b)

    def e_Subscript(self, e, fr):
        return self.getitem(self.eval(e.value, fr), self.eval_index(e.slice, fr))

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.eval(x, fr)
            return slice(g(s.lower), g(s.upper), g(s.step))
        return self.eval(s, fr)

    def e_Slice(self, e, fr):
        return self.eval_index(e, fr)

    def getitem(self, o, k):
        import natives
        return natives.getitem(self, o, k)

    def setitem(self, o, k, v):
        import natives
        return natives.setitem(self, o, k, v)

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, fr)
                if v.conversion == 114:
                    parts.append(Piece("repr", self.piece_terms(x)))
                elif v.format_spec is not None:
                    parts.append(Piece("spec", self.piece_terms(x)))
                else:
                    parts.append(self.to_str(x))
        r = VStr(parts)
        if all(isinstance(p, str) for p in r.parts):
            return "".join(r.parts)
        return r

    def piece_terms(self, x):
        try:
            return (self.to_U(x),)
        except Unsupported:
            return ()

    def to_str(self, x):
        """str(x) as str or VStr."""
        if hasattr(x, "to_str"):
            return x.to_str(self)
        if isinstance(x, (str, VStr)):
            return x
        if x is None or isinstance(x, (bool, int, float)):
            return str(x)
        if isinstance(x, z3.ExprRef):
            if x.sort() == U:
                k = self.kind(x)
                if k == "str":
                    return VStr([x])
                if z3.is_const(x):
                    for lit, c in strs_items():
                        if c.eq(x):
                            return lit
                return VStr([Piece("str", (x,), x)])
            return VStr([Piece("str", (x,), x)])
        if isinstance(x, VClass):
            return f"<class 'rsm.{x.module.name}.{x.name}'>"
        if isinstance(x, ClsOf):
            return VStr([Piece("cls", (x.term,))])
        if isinstance(x, VObj):
            if isinstance(x.cls, VClass):
                f = self.class_member(x.cls, "__str__") or self.class_member(x.cls, "__repr__")
                if f is not None:
                    return self.call(Bound(x, f), [], {})
            return VStr([Piece(f"obj{x.oid}", ())])
        try:
            return VStr([Piece("str", (self.to_U(x),))])
        except Unsupported:
            return VStr([Piece("opaque", ())])

    # comprehensions
    def e_ListComp(self, e, fr):
        r = self.comp(e, fr)
        if hasattr(r, "as_list"):
            return r
        return self.new_list(r) if not isinstance(r, Stream) else self.filtered(r)

    def e_SetComp(self, e, fr):
        r = self.comp(e, fr)
        if not isinstance(r, tuple):
            raise Unsupported("set comprehension over a symbolic sequence")
        o = self.new_oid()
        self.store[o] = frozenset(r)
        return VSet(o)

    def e_DictComp(self, e, fr):
        r = self.comp(e, fr, pair=True)
        if not isinstance(r, tuple):
            raise Unsupported("dict comprehension over a symbolic sequence")
        o = self.new_oid()
        self.store[o] = {}
        for k, v in r:
            self.setitem(VDict(o), k, v)
        return VDict(o)

    def e_GeneratorExp(self, e, fr):
        return VGenExp(self, e, fr)

    def filtered(self, s):
        raise Unsupported("filtered symbolic sequence as a list")

    def comp(self, e, fr, pair=False):
        """tuple (concrete), VSeq, or Stream with a filter."""
        cfr = self.new_frame(fr, None, fr.module)
        cfr.nonlocals = {"$comp"}
        self.comp_frames.add(cfr.fid)
        elt = (lambda: (self.eval(e.key, cfr), self.eval(e.value, cfr))) if pair else (lambda: self.eval(e.elt, cfr))

        def go(gens):
            if not gens:
                return (elt(),)
            g = gens[0]
            s = self.stream(self.eval(g.iter, cfr))
            if not isinstance(s, list) and "comp-hook" in self.natives:
                r = self.natives["comp-hook"](self, s, g, elt, cfr, gens)
                if r is not NotImplemented:
                    return r
            if isinstance(s, list):
                out = ()
                for v in s:
                    self.assign(g.target, v, cfr)
                    if all(self.test(self.eval(c, cfr)) for c in g.ifs):
                        out = self.seq_concat(out, go(gens[1:]))
                return out
            if len(gens) > 1:
                raise Unsupported("nested comprehension over a symbolic sequence")
            if g.ifs or s.filt is not None or s.n is None:
                def filt(v, s=s, g=g):
                    if s.filt is not None and not self.branch(self.truth(s.filt(v))):
                        return False
                    self.assign(g.target, v, cfr)
                    return all(self.test(self.eval(c, cfr)) for c in g.ifs)

                def at(k):
                    return s.at(k)
                st = Stream(s.n, at, s.kind, filt, meta={"map": (g.target, cfr, elt), "base": s})
                return st
            return self.map_seq(s, g.target, elt, cfr)
        return go(e.generators)

    def map_seq(self, s, target, elt, cfr):
        """[elt for target in s] over a symbolic sequence, element expression without effects."""
        k = self.fresh("k", I)
        box = {}

        def one():
            self.assume(k >= 0, k < self.int_(s.n))
            self.assign(target, s.at(k), cfr)
            box["v"] = elt()
            return box["v"]
        nf0 = self.nfresh
        res = self.explore(one, memo=("map", id(elt)))
        bad = [r for r in res if r.kind != "val"]
        heap, ev0 = self.explored_from[0], self.explored_from[3]
        for r in res:
            if r.kind == "val" and (not same_heap_objects(r.snap[0], heap) or r.snap[3] is not ev0):
                raise Unsupported("comprehension with effects")
        if bad:
            exit_ = self.search(s, lambda kk: self._comp_iter(s, kk, target, elt, cfr), "comprehension", cfr,
                                self.assigned_names([ast.Assign(targets=[target], value=ast.Constant(0))]))
            if exit_ is not None:
                raise exit_[1]
        vals = [(conj(list(r.delta)), r.value) for r in res if r.kind == "val"]
        if not vals:
            return ()
        for d, v in vals:
            fr_ = [c for c in consts_of(list([d]) + value_terms(v)) if is_fresh_after(c, nf0) and not c.eq(k)]
            if fr_:
                raise Unsupported("comprehension element depends on internal choices")

        def at(i):
            i = self.int_(i)
            r = subst_value(self, vals[-1][1], k, i)
            for d, v in vals[:-1][::-1]:
                r = self.vite(z3.substitute(d, (k, i)), subst_value(self, v, k, i), r)
            return r
        return VSeq(self.int_(s.n), at, "list")

    def _comp_iter(self, s, k, target, elt, cfr):
        self.assume(k >= 0, k < self.int_(s.n))
        self.assign(target, s.at(k), cfr)
        elt()

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else None
        if self.yield_hook is None:
            raise Unsupported("yield")
        return self.yield_hook(v)

    def e_YieldFrom(self, e, fr):
        v = self.eval(e.value, fr)
        if self.yield_hook is None:
            raise Unsupported("yield from")
        h = getattr(self.yield_hook, "from_", None)
        if h is not None:
            return h(v)
        s = self.stream(v)
        if not isinstance(s, list):
            raise Unsupported("yield from a symbolic sequence")
        for x in s:
            self.yield_hook(x)

    def e_Starred(self, e, fr):
        raise Unsupported("starred")


# ---------------------------------------------------------------------- helpers
def strs_items():
    import logic
    return list(logic._strs.items())


def names_in(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def is_generator(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def consts_of(fs):
    out, seen = [], set()
    todo = list(fs)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
            continue
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(t if t.num_args() == 0 else t)
        todo.extend(t.children())
    return out


def is_fresh_after(t, n):
    nm = t.decl().name()
    if "!" in nm:
        tail = nm.rsplit("!", 1)[1]
        return tail.isdigit() and int(tail) > n
    return False


def same_heap_objects(a, b):
    if a is b:
        return True
    for f in set(a.maps) | set(b.maps):
        if a.m(f) is not b.m(f):
            return False
    return True


def forall_(vs, body, pats=None):
    if z3.is_true(body):
        return TRUE
    try:
        if pats:
            return z3.ForAll(vs, body, patterns=pats)
    except z3.Z3Exception:
        pass
    return z3.ForAll(vs, body)


def stream_triggers(it, stream, j, body=None):
    """Patterns for 'all earlier elements': any application in the body with j as a direct argument."""
    pats, seen = [], set()
    todo = [body] if body is not None else []
    while todo:
        t = todo.pop()
        if t.get_id() in seen or z3.is_quantifier(t):
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() and any(a.eq(j) for a in t.children()):
            pats.append(t)
        todo.extend(t.children())
    return pats


def value_terms(v):
    if isinstance(v, z3.ExprRef):
        return [v]
    if isinstance(v, VId):
        return [v.term]
    if isinstance(v, tuple):
        return [t for x in v for t in value_terms(x)]
    if isinstance(v, VStr):
        return [t for p in v.parts for t in (p.terms if isinstance(p, Piece) else ([p] if isinstance(p, z3.ExprRef) else []))]
    if isinstance(v, ClsOf):
        return [v.term]
    if isinstance(v, HList):
        return [v.addr]
    return []


def subst_value(it, v, k, i):
    if isinstance(v, z3.ExprRef):
        r = z3.substitute(v, (k, i))
        kd = it.kind(v)
        if kd:
            it.setkind(r, kd)
        return r
    if isinstance(v, VId):
        return VId(z3.substitute(v.term, (k, i)))
    if isinstance(v, tuple):
        return tuple(subst_value(it, x, k, i) for x in v)
    if isinstance(v, VStr):
        out = []
        for p in v.parts:
            if isinstance(p, Piece):
                out.append(Piece(p.name, [z3.substitute(t, (k, i)) for t in p.terms], p.val))
            elif isinstance(p, z3.ExprRef):
                out.append(subst_value(it, p, k, i))
            else:
                out.append(p)
        return VStr(out)
    if isinstance(v, ClsOf):
        return ClsOf(z3.substitute(v.term, (k, i)))
    if isinstance(v, HList):
        return HList(z3.substitute(v.addr, (k, i)))
    if v is None or isinstance(v, (bool, int, str, VClass, VFunc)):
        return v
    raise Unsupported(f"element of type {type(v).__name__}")


def diff_fields(a, b):
    return sorted(f for f in set(a.maps) | set(b.maps) if a.m(f) is not b.m(f))
