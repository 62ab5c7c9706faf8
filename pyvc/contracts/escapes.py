"""Contracts of rsm/util.py EscapedString (C15, C16)."""
from contracts.base import *  # noqa: F401,F403
from contracts.base import Contract, LoopSpec, Candidates
from symstr import SymStr, SymCharSet, CharArg, Base, CHARSTR, bounds, found
import symstr

BS = S("\\")


class Escaped(Contract):
    wf_on = False

    def escaped(self, it):
        """An escape-aware string over arbitrary text and an arbitrary set of special characters."""
        self.base = Base(it, "text")
        self.chars = SymCharSet(it, "special")
        return it.instantiate(it.class_of("EscapedString", "util"), (SymStr(self.base), CharArg(self.chars)), {})


class Escape(Escaped):
    """Precondition: the backslash is not one of the special characters."""
    qual = "util.EscapedString.escape"

    def setup(self, it):
        e = self.escaped(it)
        it.assume(neg(self.chars.has(BS)))
        return (e,), {}

    def loops(self, it):
        return [Unescape(self)]

    def judge(self, it, out, args, kwargs, h0, h1, ev0, ev1):
        if out[0] == "raise":
            it.oblige(f"unescaping never fails (here: {out[1].name})", FALSE)
            return
        r = out[1]
        if not isinstance(r, SymStr) or r.base is not self.base:
            raise Unsupported("the result is not a selection of the text's characters")
        i = it.fresh("i", I)
        b = self.base
        inside = z3.And(i >= 0, i < b.n)
        pair = z3.And(b.at(i) == BS, i + 1 < b.n, self.chars.has(b.at(i + 1)))
        keep = (r.keep or (lambda i: TRUE))(i)
        it.oblige("a backslash directly before a special character is removed", implies(z3.And(inside, pair), neg(keep)))
        it.oblige("every other character is kept", implies(z3.And(inside, neg(pair)), keep))


class Unescape(LoopSpec):
    """After k special characters: exactly the backslashes before those k characters are gone."""

    def __init__(self, c):
        super().__init__(("set",), "one pass per special character")
        self.c = c

    def start(self, it, fr, stream):
        if stream.meta is not self.c.chars:
            raise Unsupported("the loop runs over another set")

    def keep(self, k):
        b, cs = self.c.base, self.c.chars
        return lambda i: z3.Not(z3.And(b.at(i) == BS, i + 1 < b.n, cs.has(b.at(i + 1)), cs.where(b.at(i + 1)) < k))

    def local(self, it, name, v0, k):
        if isinstance(v0, SymStr):
            return SymStr(self.c.base, self.keep(k))
        return NotImplemented


class Find(Escaped):
    """The first unescaped occurrence (a special character, escape handling on); otherwise the plain operation."""
    qual, name = "util.EscapedString.find", "find"

    def cases(self):
        return ["end given", "end not given", "bounds and mode not given"]

    def setup(self, it):
        e = self.escaped(it)
        self.sub = it.fresh("sub")
        it.setkind(self.sub, "str")
        it.assume(cls(self.sub) == CLS_STR)
        self.lo, self.hi, self.skip = it.fresh("start", I), it.fresh("end", I), it.fresh("skip", B)
        it.natives["len-hook"] = lambda it, v: v.length(it) if isinstance(v, SymStr) else None
        if self.case == "end given":
            return (e, self.sub, self.lo, self.hi), {"skip_escaped": self.skip}
        self.hi = None
        if self.case == "end not given":
            return (e, self.sub, self.lo), {"skip_escaped": self.skip}
        self.lo, self.skip = None, TRUE
        return (e, self.sub), {}

    def loops(self, it):
        b = self.base
        lo, hi = bounds(it, b, self.lo, self.hi)
        sub = self.sub

        def escaped_before(it, x):
            j = z3.Int("j!e")
            return z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < x, j < hi, b.at(j) == sub), z3.And(j >= 1, b.at(j - 1) == BS)), patterns=[b.at(j)])
        facts = [("is not negative", lambda it, x: x >= 0), ("is positive", lambda it, x: x >= 1),
                 ("is at least the lower bound", lambda it, x: x >= lo), ("is below the upper bound", lambda it, x: x < hi),
                 ("is at most the length", lambda it, x: x <= b.n),
                 ("is an occurrence", lambda it, x: b.at(x) == sub), ("is an occurrence or -1", lambda it, x: z3.Or(x == -1, z3.And(x >= lo, x < hi, b.at(x) == sub))),
                 ("has only escaped occurrences before it", escaped_before)]
        facts = facts + [("has no unescaped occurrence before it, or none at all", lambda it, x: z3.And(z3.Implies(x == -1, escaped_before(it, hi)), z3.Implies(x != -1, escaped_before(it, x))))]
        cl = lambda f: (lambda it, x: f(it, z3.If(x < 0, z3.If(x + b.n < 0, 0, x + b.n), x)))
        facts += [("as a bound is at least the lower bound", cl(facts[2][1])), ("as a bound has only escaped occurrences before it", cl(escaped_before))]
        return [Candidates(facts, name="search loop")]

    def judge(self, it, out, args, kwargs, h0, h1, ev0, ev1):
        b, sub = self.base, self.sub
        special = z3.And(self.skip, self.chars.has(sub))
        lo, hi = bounds(it, b, self.lo, self.hi)
        good = lambda j: z3.And(j >= lo, j < hi, b.at(j) == sub, z3.Not(z3.And(j >= 1, b.at(j - 1) == BS)))
        plain = found(it, b, sub, self.lo, self.hi)
        j = it.fresh("j", I)
        if out[0] == "raise":
            if self.name != "index" or out[1].name != "ValueError":
                it.oblige(f"no {out[1].name} is raised", FALSE)
                return
            it.oblige("a value error only when there is no unescaped occurrence", implies(special, neg(good(j))))
            it.oblige("otherwise a value error only when the plain operation finds nothing", implies(neg(special), plain == -1))
            return
        r = it.int_(out[1])
        none = FALSE if self.name == "index" else r == -1
        it.oblige("the result is an unescaped occurrence in the bounds, or -1", implies(special, z3.Or(none, good(r))))
        it.oblige("-1 only when there is no unescaped occurrence", implies(z3.And(special, r == -1), neg(good(j))))
        it.oblige("no earlier unescaped occurrence", implies(z3.And(special, r >= 0, j < r), neg(good(j))))
        it.oblige("otherwise the result is that of the plain operation", implies(neg(special), r == plain))
        if self.name == "index":
            it.oblige("otherwise the index operation reports what was found", implies(neg(special), plain != -1))


class Index(Find):
    qual, name = "util.EscapedString.index", "index"


CONTRACTS = []


def install(it):
    symstr.install(it)
