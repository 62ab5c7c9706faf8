"""Contracts of rsm/linter.py (property C19)."""
from contracts.base import *  # noqa: F401,F403
from contracts.base import Contract, LoopSpec
from contracts.order import tree


def linter(it):
    it.natives["LOGGER:RSM.level"] = it.fresh("level", I)
    t = it.instantiate(it.class_of("Linter", "linter"), (), {})
    root = node(it, "root", nwc=True, cid="Manuscript")
    it.assume(it.heap.par(root) == NONE)
    lvl = it.class_member(it.class_of("Linter", "linter"), "LINT_LVL")
    it.natives["lint-level"] = lvl if isinstance(lvl, int) else 25
    it.events = ()
    return t, root


def truthy(it, t):
    r = it.truth(t)
    return r if isinstance(r, z3.ExprRef) else z3.BoolVal(bool(r))


def wanted_title(it, h, x):
    return h.get("title", x) == EMPTY


def wanted_section(it, h, x):
    return conj([it.in_class(x, it.class_of("Section")), h.get("label", x) == EMPTY])


def wanted_block(it, h, x):
    p = h.par(x)
    return conj([it.in_class(x, it.class_of("MathBlock")), neg(conj([p != NONE, it.in_class(p, it.class_of("Paragraph"))]))])


def reports(it, delta, cond, x, what):
    """The events reported are: one report at x's position iff cond."""
    if not delta:
        it.oblige(f"{what}: a node with the problem is reported", neg(cond))
        return
    if len(delta) > 1 or delta[0][0] != "log" or delta[0][1] != "lint":
        it.oblige(f"{what}: each problem is reported once and nothing else happens", FALSE)
        return
    it.oblige(f"{what}: only nodes with the problem are reported", cond)
    kw = dict(delta[0][3])
    ex = kw.get("extra")
    d = it.store.get(ex.oid) if isinstance(ex, VDict) else None
    if not isinstance(d, dict) or "start_row" not in d or "start_col" not in d:
        it.oblige(f"{what}: the report carries its position", FALSE)
        return
    pt = it.heap.get("start_point", x)
    it.oblige(f"{what}: one-based row of the node", it.int_(d["start_row"]) == PROW(pt) + 1)
    it.oblige(f"{what}: one-based column of the node", it.int_(d["start_col"]) == PCOL(pt) + 1)


class ReportLoop(LoopSpec):
    def __init__(self, c):
        super().__init__(("traverse",), c.what + " loop")
        self.c = c

    def start(self, it, fr, stream):
        self.T = tree(it, self.h0, self.c.root)
        it.oblige(f"{self.name}: the whole document is searched", stream.meta["root"] == self.c.root)

    def events_changed(self, it, k):
        pass

    def body_end(self, it, fr, k, v, run):
        reports(it, it.events[len(self.ev0):], self.c.cond(it, self.h0, self.T.o.P(self.T.root, k)), self.T.o.P(self.T.root, k), self.c.what)
        it.events = self.ev0

    def leave(self, it, fr, k):
        it.events = self.ev0 + (("pass", self.c.what),)


class Pass(Contract):
    """Reports every node of the document with the problem, in document order."""
    what = None

    def setup(self, it):
        t, root = linter(it)
        it.setattr(t, "tree", root)
        self.root = root
        return (t,), {}

    def __call__(self, it, f, args, kwargs):
        root = it.store[args[0].oid].get("tree")
        it.event("pass", self.what, root)

    def spec(self, it, args, kwargs):
        it.events += (("pass", self.what),)

    def judge(self, it, out, args, kwargs, h0, h1, ev0, ev1):
        super().judge(it, out, args, kwargs, h0, h1, ev0, ev1)
        it.oblige("one pass over the document, nothing else reported", z3.BoolVal(ev1 == it.events))

    def loops(self, it):
        return [ReportLoop(self)]


class Sections(Pass):
    qual, what, cond = "linter.Linter.lint_section_label", "section without label", staticmethod(wanted_section)


class Blocks(Pass):
    qual, what, cond = "linter.Linter.lint_mathblock_inside_paragraph", "display math outside a paragraph", staticmethod(wanted_block)


class Title(Pass):
    qual, what, cond = "linter.Linter.lint_manuscript_title", "manuscript without title", staticmethod(wanted_title)

    def loops(self, it):
        return []

    def judge(self, it, out, args, kwargs, h0, h1, ev0, ev1):
        Contract.judge(self, it, out, args, kwargs, h0, h1, ev0, ev1)
        it.events = ev1
        reports(it, ev1[len(ev0):], self.cond(it, h0, self.root), self.root, self.what)


class Lint(Contract):
    qual = "linter.Linter.lint"

    def setup(self, it):
        t, self.root = linter(it)
        return (t, self.root), {}

    def spec(self, it, args, kwargs):
        return args[1] if len(args) > 1 else kwargs["tree"]

    def judge(self, it, out, args, kwargs, h0, h1, ev0, ev1):
        super().judge(it, out, args, kwargs, h0, h1, ev0, ev1)
        d = ev1[len(ev0):]
        ok = all(e[0] == "pass" for e in d)
        it.oblige("nothing is reported besides the three kinds of problem", z3.BoolVal(ok))
        if not ok:
            return
        it.oblige("each kind of problem is looked for exactly once", z3.BoolVal(sorted(e[1] for e in d) == sorted([Sections.what, Blocks.what, Title.what])))
        for e in d:
            it.oblige("the document given is searched", it.to_U(e[2]) == self.root)


class Init(Contract):
    """Reporting goes to the log at the lint level, and that level is enabled."""
    qual = "linter.Linter.__init__"

    def verify(self, it):
        def thunk():
            it.natives["record-logs"] = True
            it.natives.pop("lint-level", None)
            lvl = it.fresh("level", I)
            it.natives["LOGGER:RSM.level"] = lvl
            it.pre = it.pc
            try:
                it.events = ()
                it.instantiate(it.class_of("Linter", "linter"), (), {})
                writes = {(e[1], e[2]): e[3] for e in it.events if e[0] == "ext-write"}
                names = [e for e in it.events if e[0] == "ext" and e[1] == "logging.addLevelName"]
                level = None
                fn = writes.get(("LOGGER:RSM", "lint"))
                it.oblige("the logger gets a lint method", z3.BoolVal(fn is not None))
                if fn is None:
                    return
                it.events = ()
                msg = it.fresh("msg")
                ex = it.fresh("extra")
                it.call(fn, [msg], {"extra": ex})
                ok = len(it.events) == 1 and it.events[0][:2] == ("log", "log") and len(it.events[0][2]) == 2
                it.oblige("the lint method logs exactly one record", z3.BoolVal(ok))
                if not ok:
                    return
                level, m = it.events[0][2]
                kw = dict(it.events[0][3])
                it.oblige("the record carries the message", it.to_U(m) == msg)
                it.oblige("the record carries the position", it.to_U(kw.get("extra")) == ex)
                it.oblige("the level of the records is the class's lint level", it.int_(level) == 25)
                new = writes.get(("LOGGER:RSM", "level"), lvl)
                it.oblige("records of the lint level are let through", it.int_(new) <= it.int_(level))
                it.oblige("other records are let through as before", implies(it.int_(new) != lvl, conj([it.int_(new) == 25, lvl > 25])))
            finally:
                it.natives.pop("record-logs", None)
                it.natives.pop("LOGGER:RSM.level", None)
        it.run_all(self.qual, thunk)


CONTRACTS = [Title(), Sections(), Blocks(), Lint()]
INIT = Init()
