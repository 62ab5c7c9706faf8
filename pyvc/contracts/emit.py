"""Contracts of the visit and leave methods of rsm/translator.py (C12, C13, C14)."""
import ast
import re

import logic
from contracts.base import *  # noqa: F401,F403
from contracts.base import LoopSpec

TRANSLATORS = ("Translator", "HandrailsTranslator")
NOT_IN_DOCUMENTS = {"Node", "NodeWithChildren", "Heading", "BaseParagraph", "BaseReference", "PendingReference", "PendingPrev", "PendingCite"}
VOID = {"img", "br", "meta", "link", "hr", "input"}
TAG = re.compile(r"<(/?)([a-zA-Z][a-zA-Z0-9-]*)((?:\s[^<>]*?)?)(/?)>")
PLAIN, MARKUP = "\ue000", "\ue001"       # stand-ins for text without markup / for balanced markup


def flatten(v):
    """The text with stand-ins for its symbolic pieces; (text, problem)."""
    out = []
    for p in v.parts if isinstance(v, VStr) else (v,):
        if isinstance(p, str):
            out.append(p)
        elif isinstance(p, Piece) and p.name == "markup":
            out.append(MARKUP)
        elif isinstance(p, Piece) and p.name == "alts":
            t, why = flatten(p.val[0])
            if why:
                return "", why
            out.append(t)
        elif isinstance(p, Piece) and p.name == "many":
            sep, alts = p.val
            marked = False
            for a in alts:
                ev, why = events(a)
                if why is None and ev:
                    why = nest(ev, need_closed=True)[1]
                if why:
                    return "", f"a repeated piece is not balanced: {why}"
                marked = marked or bool(ev) or MARKUP in flatten(a)[0]
            ev, why = events(sep)
            if why or ev:
                return "", "a separator carries tags"
            out.append(MARKUP if marked else PLAIN)
        else:
            if any(tainted(t) for t in ([p] if isinstance(p, z3.ExprRef) else p.terms)):
                return "", "text with markup was transformed"
            out.append(PLAIN)
    return "".join(out), None


def events(v):
    """Tags of the text in order: [(closing?, name)], and the reason why that cannot be told."""
    s, why = flatten(v)
    if why:
        return [], why
    ev = []
    for m in TAG.finditer(s):
        close, tag, attrs, selfc = m.groups()
        if MARKUP in attrs:
            return [], f"markup inside a tag: {m.group(0)!r}"
        if attrs.count('"') % 2:
            return [], f"unbalanced quotes inside a tag: {m.group(0)!r}"
        if tag.lower() in VOID or selfc:
            continue
        ev.append((bool(close), tag))
    left = TAG.sub("", s)
    if "<" in left or ">" in left:
        i = min(j for j in (left.find("<"), left.find(">")) if j >= 0)
        return [], f"a tag is cut in pieces or cannot be told: {left[max(0, i - 20):i + 30]!r}"
    return ev, None


def nest(ev, need_closed=False):
    """Effect on the stack of open tags: ((closed from outside, left open), problem)."""
    outside, open_ = [], []
    for close, tag in ev:
        if not close:
            open_.append(tag)
        elif open_:
            if open_[-1] != tag:
                return ((), ()), f"</{tag}> where </{open_[-1]}> is due"
            open_.pop()
        else:
            outside.append(tag)
    if need_closed and (outside or open_):
        return ((), ()), f"closes {outside} and leaves {open_} open"
    return (tuple(outside), tuple(open_)), None


class Words:
    """A list of strings whose contents do not matter here (style classes, repeated pieces of text)."""

    def __init__(self, it, nonempty=False, alts=None):
        self.some = True if nonempty else it.fresh("nonempty", B)
        self.alts = alts            # texts its elements may be (None: text without markup)

    def truth(self, it):
        return self.some

    def as_list(self, it):
        r = Words(it)
        r.some, r.alts = self.some, self.alts
        return r

    def as_stream(self, it):
        n = it.fresh("n", I)
        it.assume(n >= 0)
        return Stream(n, lambda k: VStr([Piece("word")]), "seq")

    def binop(self, it, op, other, swapped):
        r = Words(it)
        r.alts = self.alts
        if isinstance(other, Words):
            r.some = True if self.some is True or other.some is True else z3.Or(self.some, other.some)
        else:
            c = it.list_content(other) if isinstance(other, VList) else other
            if not isinstance(c, tuple):
                raise Unsupported("style classes added to another value")
            if any(not isinstance(x, (str, VStr, z3.ExprRef)) for x in c):
                raise PyExc("TypeError", (), origin="style class that is no string")
            r.some = True if c else self.some
        return r

    def contains(self, it, x):
        return it.fresh("contained", B)

    def joined(self, it, sep):
        if self.alts is None:
            return VStr([Piece("words")])
        return VStr([Piece("many", (), (sep, self.alts))])

    def getitem(self, it, k):
        if isinstance(k, slice):
            r = Words(it)
            r.alts = self.alts
            return r
        if not it.branch(it.fresh("in_range", B)):
            raise PyExc("IndexError", (), origin="style classes")
        return VStr([Piece("word")])

    def method(self, it, name):
        def add(it, a, k):
            self.some = True

        def remove(it, a, k):
            if it.branch(it.fresh("absent", B)):
                raise PyExc("ValueError", (), origin="remove")
            self.some = it.fresh("nonempty", B)
        if name in ("append", "insert"):
            return Native("list." + name, add)
        if name == "extend":
            return Native("list.extend", lambda it, a, k: None)
        if name == "remove":
            return Native("list.remove", remove)
        if name == "copy":
            return Native("list.copy", lambda it, a, k: self.as_list(it))
        raise Unsupported(f"list.{name} on style classes")


def outcomes(it, thunk):
    """Values of an effect-free computation along its paths, or None if it is not effect-free."""
    heap, ev, store = it.heap, it.events, dict(it.store)
    res = it.explore(thunk)
    vals = []
    for r in res:
        if r.kind == "val":
            h, st, _, e = r.snap[:4]
            if h is not heap or e is not ev or any(o in store and store[o] is not c for o, c in st.items()):
                return None
            v = r.value
            if isinstance(v, VList):
                v = ("list", st.get(v.oid))
            vals.append(v)
        elif r.kind != "raise":
            return None
    bad = [r for r in res if r.kind == "raise"]
    if not vals or bad:
        return None
    return vals


def merge(it, vals):
    """One abstract value standing for all of them (texts with the same tags; lists of words)."""
    if not vals or all(isinstance(v, (str, bool, type(None))) and v is vals[0] for v in vals):
        return vals[0] if vals else NotImplemented
    if all(isinstance(v, (str, VStr)) or isinstance(v, z3.ExprRef) and v.sort() == U and it.kind(v) == "str" for v in vals):
        vals = [VStr([v]) if isinstance(v, z3.ExprRef) else v for v in vals]
        evs = [events(v) for v in vals]
        if any(why or ev != evs[0][0] for ev, why in evs) or len({MARKUP in flatten(v)[0] for v in vals}) > 1:
            return NotImplemented
        if not evs[0][0] and MARKUP not in flatten(vals[0])[0]:
            return VStr([Piece("words")])
        return VStr([Piece("alts", (), vals)])
    if all(isinstance(v, Words) or isinstance(v, tuple) and len(v) == 2 and v[0] == "list" and isinstance(v[1], (tuple, Words)) for v in vals):
        cs = [v[1] if isinstance(v, tuple) else v for v in vals]
        for c in cs:
            if isinstance(c, Words) and c.alts is not None or isinstance(c, tuple) and not all(isinstance(x, (str, VStr)) and events(x) == ([], None) and MARKUP not in flatten(x)[0] for x in c):
                return NotImplemented
        return Words(it, nonempty=all(isinstance(c, tuple) and c or isinstance(c, Words) and c.some is True for c in cs))
    return NotImplemented


def ifexp(it, t, thunk):
    if isinstance(it.truth(t), bool):
        return NotImplemented
    vals = outcomes(it, thunk)
    return NotImplemented if vals is None else merge(it, vals)


def textcall(it, f, a, k):
    """A function that only computes text: its results as one abstract text, where they have the same tags."""
    vals = outcomes(it, lambda: it.run_func(f, a, k))
    r = NotImplemented if vals is None else vals[0] if len(vals) == 1 and isinstance(vals[0], (str, VStr)) else merge(it, vals)
    return it.run_func(f, a, k) if r is NotImplemented else r


class Deferrals:
    """The list of deferred commands: what was there before (out of reach) and the newest ones."""

    def __init__(self, tops=()):
        self.tops = tuple(tops)

    def l_append(self, it, l, v):
        it.store[l.oid] = Deferrals(self.tops + (v,))

    def l_pop(self, it, l, idx):
        if idx != -1 or not self.tops:
            raise Unsupported("an earlier deferral is taken")
        it.store[l.oid] = Deferrals(self.tops[:-1])
        return self.tops[-1]

    def l_extend(self, it, l, v):
        s = it.stream(v)
        if not isinstance(s, list):
            raise Unsupported("deferrals extended by a symbolic sequence")
        it.store[l.oid] = Deferrals(self.tops + tuple(s))

    def truth(self, it):
        if self.tops:
            return True
        raise Unsupported("earlier deferrals are inspected")


class Block:
    """Repeated pieces of text within a list: any number of rounds, each one of the alternatives."""

    def __init__(self, alts):
        self.alts = alts

    def joined(self, it, sep):
        return VStr([Piece("many", (), (sep, [it.call(it.getattr(sep, "join"), [it.new_list(a)], {}) for a in self.alts]))])


def text_loop(it, stream, st, fr):
    """A loop that only appends pieces of text to lists and counts."""
    names = it.assigned_names(st.body) | it.assigned_names([ast.Assign(targets=[st.target], value=ast.Constant(0))])
    frame = it.store[fr.fid]
    for nm in names:
        v = frame.get(nm)
        if isinstance(v, int) and not isinstance(v, bool) or isinstance(v, z3.ExprRef) and v.sort() == I:
            it.set_var(fr, nm, it.fresh(nm, I))
        else:
            it.set_var(fr, nm, POISON)
    lists = {}
    for nm, v in frame.items():
        if isinstance(v, VList) and isinstance(it.store.get(v.oid), tuple) and isinstance(nm, str):
            lists[v.oid] = it.store[v.oid]
            it.store[v.oid] = lists[v.oid] + (Block([]),)
    heap, ev = it.heap, it.events
    before = dict(it.store)
    k = it.fresh("k", I)

    def one():
        it.assume(k >= 0)
        if stream.n is not None:
            it.assume(k < it.int_(stream.n))
        v = stream.at(k)
        if stream.filt is not None and not it.branch(it.truth(stream.filt(v))):
            return "ok"
        it.assign(st.target, v, fr)
        try:
            it.exec_block(st.body, fr)
        except ContinueSig:
            pass
        return "ok"
    res = it.explore(one)
    bad = [r for r in res if r.kind == "raise"]
    if any(r.kind not in ("raise", "val") for r in res):
        raise Unsupported("text loop that is left early")
    if bad:
        i = it.choose(len(bad) + 1, "loop")
        if i:
            it.restore(bad[i - 1].snap)
            raise bad[i - 1].value
    alts = {o: [] for o in lists}
    for r in res:
        if r.kind != "val":
            continue
        h, stt, _, e = r.snap[:4]
        if h is not heap or e is not ev:
            raise Unsupported("text loop with effects")
        for o, c in stt.items():
            if o in lists:
                m = len(before[o])
                if not isinstance(c, tuple) or c[:m] != before[o]:
                    raise Unsupported("text loop that changes earlier pieces")
                if len(c) > m:
                    alts[o].append(c[m:])
            elif o == fr.fid:
                if any(c.get(nm) is not before[o].get(nm) for nm in set(c) | set(before[o]) if nm not in names):
                    raise Unsupported("text loop with effects on variables")
                for nm in names:
                    v = before[o].get(nm)
                    if v is not POISON and not (isinstance(c.get(nm), int) or isinstance(c.get(nm), z3.ExprRef) and c[nm].sort() == I):
                        raise Unsupported("text loop changes the kind of a counter")
            elif o in before and c is not before[o]:
                raise Unsupported("text loop with effects on objects")
    for o, c in lists.items():
        it.store[o] = c + ((Block(alts[o]),) if alts[o] else ())
    return True


def tainted(t):
    """Is the term made from text that carries markup?"""
    todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_app(x):
            nm = x.decl().name()
            if nm.startswith(("fmt!", "str!")) and ("_3c_" in nm or "_3e_" in nm):
                return True
            todo.extend(x.children())
    return False


def slicing(it, v, k):
    if isinstance(k.start, Pos) or isinstance(k.stop, Pos):
        r = slice_text(it, v, k)
        if r is not NotImplemented:
            return r
    if isinstance(v, VStr) and v.parts and isinstance(v.parts[0], str) and isinstance(k.start, int) and 0 <= k.start <= len(v.parts[0]) and k.stop is None and k.step in (None, 1):
        return cut(v, k.start, 10 ** 9)
    return VStr([Piece(f"slice[{k.start}:{k.stop}:{k.step}]", (it.to_U(v),))])


def reach(it, vs):
    """Objects reachable from the values."""
    out, todo = set(), list(vs)
    while todo:
        v = todo.pop()
        if isinstance(v, (tuple, list)):
            todo.extend(v)
        elif hasattr(v, "oid") and v.oid not in out:
            out.add(v.oid)
            c = it.store.get(v.oid)
            todo.extend(c.values() if isinstance(c, dict) else c if isinstance(c, tuple) else ())
    return out


class Emission:
    """visit_ and leave_ methods of one class of nodes, executed on an arbitrary node of that class."""

    def __init__(self, tr, name, prop):
        self.tr, self.name, self.prop = tr, name, prop

    # ---- environment
    def env(self, it):
        self.saved = (dict(it.attr_contracts), dict(it.contracts), dict(it.natives))
        A = it.attr_contracts
        strs = lambda nm: lambda it, t: it.setkind(z3.Function("attr!" + nm, U, U)(t), "str")
        for nm in ("reftext", "long_reftext", "year", "lang"):
            A[nm] = strs(nm)
        A["year"] = lambda it, t: self.year(it, t)
        A["full_number"] = lambda it, t: it.setkind(z3.Function("attr!full_number", U, U)(t), "number")
        A["types"] = lambda it, t: self.types(it, t)
        A["target"] = lambda it, t: self.target(it, t)
        it.natives["comp-hook"] = self.comp
        it.natives["fromkeys-hook"] = lambda it, a: a[0] if isinstance(a[0], Words) else None
        it.natives["dynamic-attributes"] = True
        it.natives["join-hook"] = lambda it, sep, seq, s: VStr([Piece("words")])
        it.natives["ext-call2"] = self.ext
        it.natives["for-hook"] = text_loop
        it.natives["slice-hook"] = slicing
        it.natives["ifexp-hook"] = ifexp
        it.contracts["translator._make_tag"] = textcall
        for q in ("translator.Translator.translate", "translator.HandrailsTranslator.translate"):
            it.contracts[q] = lambda it, f, a, k: VStr([Piece("markup")])
        it.contracts["util.highlight_code"] = lambda it, f, a, k: VStr([Piece("markup")])

    def unenv(self, it):
        it.attr_contracts, c, n = self.saved[0], self.saved[1], self.saved[2]
        it.contracts.clear()
        it.contracts.update(c)
        it.natives.clear()
        it.natives.update(n)
        logic.EXACT.clear()

    def year(self, it, t):
        if it.branch(z3.Function("noyear!", U, B)(t)):
            return -1               # the default of the constructor
        return it.setkind(z3.Function("attr!year", U, U)(t), "str")

    def types(self, it, t):
        k = ("types", t.get_id())
        if k not in it.ghost:
            it.keep.append(t)
            it.ghost[k] = Words(it)
        return it.ghost[k]

    def target(self, it, t):
        r = z3.Function("attr!target", U, U)(t)
        it.keep.append(r)
        if it.branch(it.in_set(t, ["URL"])):
            it.assume(r != EMPTY, cls(r) == CLS_STR)
            return it.setkind(r, "str")
        it.assume(it.isnode(r), it.heap.alloc(r), r != NONE)
        if self.name in ("Contents", "Manuscript"):
            it.assume(disj([cls(r) == it.facts.lo[c] for c in ("Section", "Subsection", "Subsubsection")]))
        return it.setkind(r, "node")

    def comp(self, it, s, g, elt, cfr, gens):
        """Comprehension over a symbolic sequence: texts its elements may be."""
        if len(gens) > 1:
            return NotImplemented
        k = it.fresh("k", I)
        alts = []

        def one():
            it.assume(k >= 0)
            if s.n is not None:
                it.assume(k < it.int_(s.n))
            v = s.at(k)
            it.assign(g.target, v, cfr)
            for c in g.ifs:
                if not it.test(it.eval(c, cfr)):
                    raise PathEnd()
            return elt()
        res = it.explore(one, memo=None)
        bad = [r for r in res if r.kind != "val"]
        if bad:
            i = it.choose(len(bad) + 1, "comprehension")
            if i:
                it.restore(bad[i - 1].snap)
                raise bad[i - 1].value
        for r in res:
            if r.kind == "val":
                v = r.value
                if isinstance(v, z3.ExprRef) and v.sort() == U and it.kind(v) == "str":
                    v = VStr([v])
                if not isinstance(v, (str, VStr)):
                    return NotImplemented
                alts.append(v)
        return Words(it, alts=alts)

    def ext(self, it, name, args, kwargs, self_):
        if name == "re.search" and len(args) == 2:
            return self.regex(it, *args)
        raise Unsupported(f"call of {name}")

    def regex(self, it, pat, v):
        if isinstance(v, VStr) and any(isinstance(p, Piece) and p.name == "alts" for p in v.parts):
            raise Unsupported("search in a text with alternatives")
        if not isinstance(pat, str):
            raise Unsupported("symbolic pattern")
        s, why = flatten(v)
        if why:
            raise Unsupported(why)
        m = re.search(pat, s)
        return None if m is None else Match(v if isinstance(v, VStr) else VStr([v]), m)

    # ---- one execution
    def node(self, it, parent=None):
        f = it.facts
        n = it.fresh("self")
        it.setkind(n, "node")
        logic.EXACT[n.get_id()] = (n, z3.IntVal(f.lo[self.name]))
        it.keep.append(n)
        it.assume(logic._cls(n) == f.lo[self.name], it.heap.alloc(n), n != NONE)
        h = it.heap
        it.assume(h.nk(n) >= 0)
        p = h.par(n)
        if parent is not None:
            logic.EXACT[p.get_id()] = (p, z3.IntVal(f.lo[parent]))
            it.assume(logic._cls(p) == f.lo[parent])
        it.keep.append(p)
        if self.name != "Manuscript":
            it.setkind(p, "node")
            it.assume(h.alloc(p), it.isnode(p), p != NONE, p != n, isnwc(it, p), allowed(it, n, p),
                      h.pos(n) >= 0, h.pos(n) < h.nk(p), h.kid(p, h.pos(n)) == n)
        i = z3.Int("i!t")
        for a in ("targets",):
            l = h.get(a, n)
            e = h.el(l, i)
            it.assume(z3.ForAll([i], conj([it.isnode(e), h.alloc(e), e != NONE]), patterns=[e]))
        return n

    def translator(self, it, n):
        c = it.class_of(self.tr, "translator")
        kw = {"quiet": True}
        if self.tr == "HandrailsTranslator":
            kw["add_source"] = it.fresh("add_source", B)
        tr = it.instantiate(c, [], kw)
        it.setattr(tr, "tree", n if self.name == "Manuscript" else node(it, "root", cid="Manuscript"))
        d = it.store[tr.oid]
        lists = [k for k, v in d.items() if isinstance(v, VList) and it.list_content(v) == ()]
        body = [k for k, v in d.items() if isinstance(v, str) and v == ""]
        it.oblige("a new translator has an empty output and nothing deferred", z3.BoolVal("deferred" in lists and "body" in body))
        if "deferred" not in lists or "body" not in body:
            raise PathEnd()
        self.dl = d["deferred"]
        it.store[self.dl.oid] = Deferrals()
        it.setattr(tr, "body", VStr([Piece("BODY")]))
        return tr

    def phase(self, it, tr, n, action):
        """Run one method and its command; the text that was emitted."""
        base = Piece("BODY")
        it.setattr(tr, "body", VStr([base]))
        before = dict(it.store)
        mine = reach(it, before[self.dl.oid].tops)      # the node's own deferral is its to use up
        get = it.getattr(it.class_of(self.tr, "translator"), "get_action_method")
        m = it.call(get, [n, action], {})
        d0 = it.store[self.dl.oid].tops
        cmd = it.call(m, [tr, n], {})
        d1 = it.store[self.dl.oid].tops
        b = it.getattr(tr, "body")
        it.oblige(f"{action}: choosing the command emits nothing", z3.BoolVal(isinstance(b, VStr) and b.parts == (base,)))
        if action == "visit":
            it.oblige("visit: choosing the command defers nothing", z3.BoolVal(d1 == d0))
        else:
            it.oblige("leave: exactly the node's own deferral is taken", z3.BoolVal(len(d0) == 1 and d1 == ()))
        defers = it.getattr(cmd, "defers")
        it.call(it.getattr(cmd, "execute"), [tr], {})
        d2 = it.store[self.dl.oid].tops if it.getattr(tr, "deferred").oid == self.dl.oid else None
        if action == "visit":
            if not isinstance(defers, bool):
                raise Unsupported("defers is not a plain flag")
            it.oblige("visit: a deferral is left exactly when the command says so", z3.BoolVal(d2 is not None and len(d2) == len(d0) + (1 if defers else 0) and d2[:len(d0)] == d0))
        else:
            it.oblige("leave: nothing new is deferred", z3.BoolVal(d2 == ()))
        drop = lambda d: {k: v for k, v in d.items() if k != "body"}
        kept = all(it.store.get(o) is c or o == self.dl.oid or o in mine or isinstance(o, tuple) or
                   o == tr.oid and drop(c) == drop(it.store[o]) for o, c in before.items())
        it.oblige(f"{action}: the translator remembers nothing but its output", z3.BoolVal(kept))
        b = it.getattr(tr, "body")
        ok = isinstance(b, VStr) and len(b.parts) >= 1 and b.parts[0] is base and not any(p is base for p in b.parts[1:])
        it.oblige(f"{action}: the output only grows", z3.BoolVal(ok))
        if not ok:
            raise PathEnd()
        return defers, VStr(b.parts[1:])

    def frame(self, it, h0, n):
        h1 = it.heap
        x = it.fresh("other")
        l = h0.chl(x)
        old = conj([live(it, h0, x), h0.own(l) == x, h0.alloc(l), logic._cls(l) == CLS_LIST])   # child lists are private to their node
        if h1 is h0:
            return
        i = it.fresh("i", I)
        it.oblige("the document tree stays", implies(old, conj([eq(h1.nk(x), h0.nk(x)), eq(h1.par(x), h0.par(x)),
                                                               implies(conj([i >= 0, i < h0.nk(x)]), eq(h1.kid(x, i), h0.kid(x, i)))])))
        fs = [f for f in sorted(set(h0.maps) | set(h1.maps))
              if not f.startswith(("$", "#")) and f not in ("types", "_children", "_parent") and h0.m(f) is not h1.m(f)]
        it.oblige(f"attributes of the document stay ({', '.join(fs)})", implies(old, conj([eq(h1.get(f, x), h0.get(f, x)) for f in fs])))

    def both(self, it, n, before=None, between=None):
        """Visit, children, leave (flags found on the node before the visit, set on it by its children)."""
        h0 = it.heap
        it.loopspecs = []
        tr = self.translator(it, n)
        for k, v in (before or {}).items():
            it.store[("$dyn", n.get_id(), k)] = v
        d, v = self.phase(it, tr, n, "visit")
        for k, v1 in (between or {}).items():
            it.store[("$dyn", n.get_id(), k)] = v1
        l = VStr([])
        if d:
            d, l = self.phase(it, tr, n, "leave")
        self.frame(it, h0, n)
        it.loopspecs = []
        return v, l

    def effect(self, it, v, l):
        """Stack effect of visit and leave: ((closed, opened) by visit, (closed, opened) by leave)."""
        out = []
        for what, x in (("visit", v), ("leave", l)):
            ev, why = events(x)
            if why is None:
                e, why = nest(ev)
            if why:
                it.oblige(f"{what}: the tags can be told ({why})", FALSE)
                raise PathEnd()
            out.append(e)
        return out


class Match:
    def __init__(self, v, m):
        self.v, self.m = v, m

    def method(self, it, name):
        if name == "span":
            return Native("span", lambda it, a, k: tuple(Pos(x) for x in self.m.span(*a)))
        if name == "start":
            return Native("start", lambda it, a, k: Pos(self.m.start(*a)))
        if name == "end":
            return Native("end", lambda it, a, k: Pos(self.m.end(*a)))
        if name == "group":
            return Native("group", lambda it, a, k: cut(self.v, *self.m.span(*a)))
        raise Unsupported(f"match.{name}")

    def truth(self, it):
        return True


class Pos:
    """A position in a text with stand-ins."""

    def __init__(self, i):
        self.i = i


def cut(v, a, b):
    """The piece of the text between two positions of its flattened form."""
    out, i = [], 0
    for p in v.parts:
        n = len(p) if isinstance(p, str) else 1
        lo, hi = max(a, i), min(b, i + n)
        if lo < hi:
            out.append(p[lo - i:hi - i] if isinstance(p, str) else p)
        i += n
    return VStr(out)


def slice_text(it, v, k):
    a = 0 if k.start is None else k.start.i if isinstance(k.start, Pos) else None
    b = 10 ** 9 if k.stop is None else k.stop.i if isinstance(k.stop, Pos) else None
    if a is None or b is None:
        return NotImplemented
    return cut(v if isinstance(v, VStr) else VStr([v]), a, b)


# ---------------------------------------------------------------- the obligations
def document_classes(it):
    return [n for n in it.facts.order if n not in NOT_IN_DOCUMENTS]


def allowed_class(it, child, parent):
    r = it.facts.attr_of(child, "possible_parents")
    names = [x["class"] for x in r[2]["set"]]
    return (not names or parent in names) and is_container(it, parent)


def is_container(it, name):
    f = it.facts
    return f.lo["NodeWithChildren"] <= f.lo[name] <= f.hi["NodeWithChildren"]


class Nesting:
    """What visiting and leaving a node writes is balanced, where a child that interrupts its parent's
    open tag (a mathblock in a paragraph) is balanced together with that parent."""

    CHILD = "MathBlock"

    def __init__(self, tr, prop):
        self.tr, self.prop = tr, prop
        self.dyn = set()            # attributes set on the parent while translating a child

    def run(self, it, name, thunk):
        def once(merging):
            def body():
                e = Emission(self.tr, name, self.prop)
                e.env(it)
                if not merging:
                    it.natives.pop("ifexp-hook")
                try:
                    thunk(e)
                finally:
                    e.unenv(it)
            it.run_all(f"{self.tr} on {name}", body)
        k = len(it.obls)
        once(True)
        if any(z3.is_false(o[2]) for o in it.obls[k:]):     # the alternatives of an expression matter: one by one
            del it.obls[k:]
            once(False)

    def plain(self, it, name):
        def thunk(e):
            n = e.node(it)
            (vo, vi), (lo, li) = e.effect(it, *e.both(it, n))
            it.oblige("what is opened is closed, last opened first closed", z3.BoolVal(not vo and not li and tuple(reversed(vi)) == lo))
        self.run(it, name, thunk)

    # ---- the child that may interrupt
    def child(self, it, parent, sib):
        """Effects of all paths of the child below that parent: {(closed, opened)}, {attributes of the parent}."""
        seen = []

        def thunk(e):
            n = e.node(it, parent)
            h = it.heap
            p = h.par(n)
            it.assume(h.pos(n) < h.nk(p) - 1 if sib else h.pos(n) == h.nk(p) - 1)
            v, l = e.both(it, n)
            vs, ls = events(v), events(l)
            if vs[1] or ls[1]:
                it.oblige(f"the tags can be told ({vs[1] or ls[1]})", FALSE)
                raise PathEnd()
            eff, why = nest(vs[0] + ls[0])
            vopen = nest(vs[0])
            if why or vopen[1]:
                it.oblige(f"tags are closed in order ({why or vopen[1]})", FALSE)
                raise PathEnd()
            it.oblige("only the visit closes tags opened before the node", z3.BoolVal(vopen[0][0] == eff[0]))
            attrs = {k[2]: it.branch(x) if z3.is_bool(x) else x for k, x in it.store.items() if isinstance(k, tuple) and k[0] == "$dyn" and k[1] == p.get_id()}
            it.oblige("attributes set on the parent are plain flags", z3.BoolVal(all(isinstance(x, bool) for x in attrs.values())))
            seen.append((eff, tuple(sorted(attrs.items()))))
        self.run(it, self.CHILD, thunk)
        return set(seen)

    def parents(self, it):
        f = it.facts
        return [p for p in document_classes(it) if allowed_class(it, self.CHILD, p)]

    def family(self, it):
        """The child class below each class of parent, and the parents it interrupts."""
        done = 0
        for p in self.parents(it):
            it.obls, keep = [], it.obls
            effs = {sib: self.child(it, p, sib) for sib in (True, False)}
            mine, it.obls = it.obls, keep
            for name, hyps, goal in mine:
                it.obls.append((f"{name} [below {p}]", hyps, goal))
            ok = all(len(x) == 1 for x in effs.values())
            it.ctx = f"{self.tr} on {self.CHILD} below {p}"
            it.obls.append((f"{it.ctx}: the effect depends on the following sibling only: {effs if not ok else ''}", [], z3.BoolVal(ok)))
            done += 1
            if not ok:
                continue
            (between, at1), (last, at0) = (next(iter(effs[s])) for s in (True, False))
            if between == last == ((), ()) and not at1 and not at0:
                continue
            it.obls.append((f"{it.ctx}: between siblings, what was closed is opened again {between}", [], z3.BoolVal(tuple(reversed(between[1])) == between[0])))
            self.paragraph(it, p, between, dict(at1), last, dict(at0))
        it.obls.append((f"{self.tr}: {self.CHILD} has possible parents", [], z3.BoolVal(done > 0)))

    def paragraph(self, it, name, between, at1, last, at0):
        """A class of parents that is interrupted."""
        for case in ("no such child", "such a child last", "such a child before the last"):
            none = {k: False for k in set(at0) | set(at1)}
            # found on the node: nothing or what a former leave left; set by its children in order
            for stale, earlier in [(x, y) for x in ({}, none) for y in (({}, at1) if case == "such a child last" else ({},))]:
                def thunk(e, stale=stale, earlier=earlier):
                    n = e.node(it)
                    h = it.heap
                    i, j = z3.Int("i!c"), it.fresh("j", I)
                    C = it.facts.lo[self.CHILD]
                    k = h.kid(n, i)
                    m = h.nk(n)
                    if case == "no such child":
                        it.assume(z3.ForAll([i], z3.Implies(conj([i >= 0, i < m]), logic._cls(k) != C), patterns=pats(k, n, i) or []))
                    else:
                        it.assume(j >= 0, j < m, logic._cls(h.kid(n, j)) == C)
                        l = logic._cls(h.kid(n, m - 1))
                        it.assume(l == C if case.endswith(" last") and "before" not in case else l != C)
                    e.seeds = [h.kid(n, j)]
                    mid = {} if case == "no such child" else at1 if "before" in case else {**earlier, **at0}
                    v, l = e.both(it, n, before=stale, between=mid)
                    (vo, vi), (lo, li) = e.effect(it, v, l)
                    st = list(vi)
                    eff = ((), ()) if case == "no such child" else between if "before" in case else last
                    ok = not vo and not li
                    for t in eff[0]:
                        ok = ok and bool(st) and st.pop() == t
                    st += eff[1]
                    it.oblige(f"{case}: what is open after the children is what the leave closes (open {st}, closed {list(lo)})", z3.BoolVal(ok and tuple(reversed(st)) == lo))
                    after = {x[2]: y for x, y in it.store.items() if isinstance(x, tuple) and x[0] == "$dyn" and x[1] == n.get_id()}
                    it.oblige(f"{case}: no flag stays behind", z3.BoolVal(not any(after.values())))
                self.run(it, name, thunk)

    def interrupted(self, it, name):
        """Is the class one that the child treats specially?  (decided on the first path that differs)"""
        keep, it.obls = it.obls, []
        try:
            for sib in (True, False):
                for eff, at in self.child(it, name, sib):
                    if eff != ((), ()) or at:
                        return True
            return False
        finally:
            it.obls = keep

    def unit(self, it, name):
        if name == self.CHILD:
            self.family(it)
        elif name in self.parents(it) and self.interrupted(it, name):
            it.obls.append((f"{self.tr} on {name}: with its {self.CHILD} children, see there", [], TRUE))
        else:
            self.plain(it, name)

    def units(self, it):
        return [(f"{self.tr} on {n}", lambda n=n: self.unit(it, n)) for n in document_classes(it)]


class Phases(Nesting):
    """What the work loop assumes of visiting and leaving a node of each class."""

    def unit(self, it, name):
        src = ast.parse(open(f"{it.facts.repo}/rsm/translator.py").read())
        flags = {x.attr for x in ast.walk(src) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)
                 and not any(it.facts.attr_of(n, x.attr) for n in it.facts.order)}
        if not (name in self.parents(it) and self.interrupted(it, name)):
            flags = set()           # never set on such a node

        def thunk(e):
            it.natives["dynamic-unknown"] = flags
            e.both(it, e.node(it))
        self.run(it, name, thunk)
