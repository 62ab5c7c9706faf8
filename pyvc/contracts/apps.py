"""Contracts of rsm/app.py and rsm/cli.py (C17)."""
from contracts.base import *  # noqa: F401,F403
from contracts.base import Contract, LoopSpec

KINDS = ("dict", "list", "tuple", "none", "other")
KIND = z3.Function("result_kind", U, I)


class Result:
    """What a stage returned: a value of one of five kinds."""

    def __init__(self, term):
        self.term = term

    def kind(self, *names):
        return disj([KIND(self.term) == KINDS.index(n) for n in names])

    def isinstance(self, it, c):
        if isinstance(c, Native) and c.name in ("dict", "list", "tuple"):
            return self.kind(c.name)
        raise Unsupported("class test of a stage's result")

    def identical(self, it, other):
        if other is None:
            return self.kind("none")
        if isinstance(other, Result):
            return eq(self.term, other.term)
        return FALSE

    def same(self, it, other):
        if isinstance(other, Result):
            return eq(self.term, other.term)
        if other is None:
            return self.kind("none")
        return FALSE

    def as_star(self, it):
        it.oblige("only sequences are spread over positional parameters", self.kind("list", "tuple"))
        return ("*", self)

    def as_kwargs(self, it):
        it.oblige("only dictionaries are spread over keyword parameters", self.kind("dict"))
        return self

    def to_U(self, it):
        return self.term

    def truth(self, it):
        return z3.Function("result_truth", U, B)(self.term)


def result(it, name):
    t = it.fresh(name)
    it.assume(KIND(t) >= 0, KIND(t) < len(KINDS))
    return Result(t)


def stage_error(it, k):
    """A stage may raise the parser's own error or another one."""
    n = it.choose(3, "stage")
    if n:
        it.event("stage-raises", ("", "parse", "other")[n])
    if n == 1:
        raise PyExc(it.class_of("RSMParserError", "tsparser"), (it.fresh("message"),), origin="a stage")
    if n == 2:
        raise PyExc("ValueError", (), origin="a stage")


class Stage:
    """The k-th stage's callable."""

    def __init__(self, c, k):
        self.c, self.k = c, k

    def vite(self, it, c, other):
        return Stage(self.c, z3.If(c, it.int_(self.k), it.int_(other.k)))

    def to_U(self, it):
        return z3.Function("stage", I, U)(it.int_(self.k))

    def __call__(self, it, args, kwargs):
        it.event("stage", self.k, tuple(args), tuple(sorted(kwargs.items())))
        stage_error(it, self.k)
        return self.c.R(it, self.k + 1)


class Run(Contract):
    """Each stage is called once, in order, with the result of the one before it; the last result is returned."""
    qual = "app.Pipeline.run"
    wf_on = False

    def tasks(self, it):
        self.n = it.fresh("stages", I)
        it.assume(self.n >= 0)
        self.res = it.fresh_fn("result", I, U)
        names = it.fresh_fn("stage_name", I, U)
        objs = it.fresh_fn("stage_object", I, U)

        def at(k):
            k = it.int_(k)
            it.setkind(names(k), "str")
            return NTuple([names(k), objs(k), Stage(self, k)], it.class_of("Task", "app"), ["name", "obj", "run"])
        return it.new_list(VSeq(self.n, at, "list"))

    def R(self, it, k):
        t = self.res(it.int_(k))
        it.assume(KIND(t) >= 0, KIND(t) < len(KINDS))
        return Result(t)

    def setup(self, it):
        o = it.new_oid()
        it.store[o] = {"tasks": self.tasks(it)}
        self.app = VObj(o, it.class_of(self.qual.split(".")[1], "app"))
        it.natives["record-logs"] = True
        return (self.app, self.R(it, 0)), {}

    def loops(self, it):
        return [RunLoop(self)]

    def judge(self, it, out, args, kwargs, h0, h1, ev0, ev1):
        logs = [e for e in ev1 if e[0] == "log" and e[1] in ("error", "critical", "exception")]
        broken = [e for e in ev1 if e[0] == "stage"]
        err = it.class_of("RSMParserError", "tsparser")
        failed = bool(broken)        # the last stage on this path did not return
        if out[0] == "raise":
            parse = out[1].cls is err
            it.oblige("only a stage's own error gets out", z3.BoolVal(failed and (parse or out[1].name == "ValueError")))
            it.oblige("a parse error does not get out of an application", z3.BoolVal(self.qual == "app.Pipeline.run" or not parse))
            return
        if failed:
            it.oblige("a failed stage's error is swallowed by applications only", z3.BoolVal(self.qual != "app.Pipeline.run"))
            it.oblige("only parse errors are turned into a result", z3.BoolVal(("stage-raises", "parse") in ev1))
            it.oblige("a parse error yields an empty result", it.spec_equal(out[1], "") if isinstance(out[1], str) else FALSE)
            it.oblige("a parse error is logged", z3.BoolVal(len(logs) >= 1))
            return
        r = out[1]
        it.oblige("all stages ran", z3.BoolVal(("stages", "all") in ev1))
        it.oblige("the last result is returned", self.R(it, self.n).same(it, r) if isinstance(r, (Result, type(None))) else FALSE)


class RunLoop(LoopSpec):
    def __init__(self, c):
        super().__init__(("seq",), "stages")
        self.c = c

    def local(self, it, name, v0, k):
        if isinstance(v0, Result):
            return self.c.R(it, k)
        return NotImplemented

    def body_start(self, it, fr, k, v, run):
        self.n0 = len(it.events)

    def body_end(self, it, fr, k, v, run):
        ev = [e for e in it.events[self.n0:] if e[0] == "stage"]
        if len(ev) != 1:
            it.oblige("each stage is called exactly once", FALSE)
            return
        _, j, args, kw = ev[0]
        R = self.c.R(it, k)
        it.oblige("the stages run in their order", it.int_(j) == k)
        if not args and not kw:
            it.oblige("a stage without arguments follows an empty result", R.kind("none"))
        elif not args and len(kw) == 1 and kw[0][0] == "**":
            it.oblige("keyword parameters come from the previous result", conj([R.kind("dict"), R.same(it, kw[0][1])]))
        elif len(args) == 1 and not kw and isinstance(args[0], tuple):
            it.oblige("positional parameters come from the previous result", conj([R.kind("list", "tuple"), R.same(it, args[0][1])]))
        elif len(args) == 1 and not kw and isinstance(args[0], Result):
            it.oblige("the stage is given the previous result", conj([R.kind("other"), R.same(it, args[0])]))
        else:
            it.oblige("the stage is given the previous result and nothing else", FALSE)
        it.events = it.events[:self.n0]

    def events_changed(self, it, k):
        pass

    def leave(self, it, fr, k):
        it.events = it.events + (("stages", "all"),)


class AppRun(Run):
    qual = "app.RSMApp.run"


class AddTask(Contract):
    """The stage is added after the existing ones."""
    qual = "app.Pipeline.add_task"
    wf_on = False

    def setup(self, it):
        self.r = Run()
        o = it.new_oid()
        self.old = self.r.tasks(it)
        it.store[o] = {"tasks": self.old}
        self.app = VObj(o, it.class_of("Pipeline", "app"))
        self.before = it.list_content(self.old)
        name = it.fresh("name")
        it.setkind(name, "str")
        self.task = NTuple([name, it.fresh("object"), Stage(self.r, it.fresh("which", I))], it.class_of("Task", "app"), ["name", "obj", "run"])
        it.natives["setattr-symbolic"] = lambda it, a: it.event("setattr", a[0].oid)
        return (self.app, self.task), {}

    def judge(self, it, out, args, kwargs, h0, h1, ev0, ev1):
        if out[0] == "raise":
            it.oblige("adding a stage succeeds", FALSE)
            return
        l = it.store[self.app.oid].get("tasks")
        if not isinstance(l, VList):
            it.oblige("the stages are kept in a list", FALSE)
            return
        n, at = it.seq_parts(l)
        it.oblige("one more stage", it.int_(n) == self.r.n + 1)
        i = it.fresh("i", I)
        it.assume(i >= 0, i < self.r.n)
        for j, want, what in ((i, self.before.at(i), "the earlier stages stay in order"), (self.r.n, self.task, "the new stage comes last")):
            t = at(j)
            if not isinstance(t, tuple) or len(t) != 3 or not isinstance(t[2], Stage):
                it.oblige(what, FALSE)
                continue
            it.oblige(what, conj([eq(t[0], want[0]), eq(t[1], want[1]), it.int_(t[2].k) == it.int_(want[2].k)]))


class Build(Contract):
    """The given stages, in the given order, one add_task each (the application's constructor)."""
    qual = "app.Pipeline.__init__"
    wf_on = False

    def setup(self, it):
        self.r = Run()
        o = it.new_oid()
        it.store[o] = {}
        self.app = VObj(o, it.class_of("Pipeline", "app"))
        self.given = self.r.tasks(it)
        it.contracts["app.Pipeline.add_task"] = lambda it, f, a, k: it.event("add", a[0].oid, a[1])
        return (self.app, self.given), {}

    def loops(self, it):
        return [AddLoop(self)]

    def judge(self, it, out, args, kwargs, h0, h1, ev0, ev1):
        it.contracts.pop("app.Pipeline.add_task", None)
        it.oblige("the constructor succeeds", z3.BoolVal(out[0] == "return"))
        it.oblige("every given stage is added", z3.BoolVal(ev1 == (("added", "all"),)))
        l = it.store[self.app.oid].get("tasks")
        it.oblige("the application starts without stages", z3.BoolVal(isinstance(l, VList) and it.list_content(l) == () and l.oid != self.given.oid))


class AddLoop(LoopSpec):
    def __init__(self, c):
        super().__init__(("seq",), "adding")
        self.c = c

    def body_end(self, it, fr, k, v, run):
        ev = it.events[len(self.ev0):]
        ok = len(ev) == 1 and ev[0][0] == "add" and ev[0][1] == self.c.app.oid and isinstance(ev[0][2], tuple) and len(ev[0][2]) == 3
        it.oblige("one stage is added per given stage", z3.BoolVal(ok))
        if ok:
            it.oblige("the stages are added in the given order", it.int_(ev[0][2][2].k) == k)
        it.events = self.ev0

    def leave(self, it, fr, k):
        it.events = self.ev0 + (("added", "all"),)


# ---------------------------------------------------------------- the entry points
STAGES = {"reader.Reader.read": "read", "tsparser.TSParser.parse": "parse", "transformer.Transformer.transform": "transform",
          "linter.Linter.lint": "lint", "translator.Translator.translate": "translate", "translator.HandrailsTranslator.translate": "translate",
          "builder.FullBuilder.build": "build", "builder.BaseBuilder.build": "build", "writer.Writer.write": "write"}
OPTS = ("loglevel", "log_format", "log_time", "log_lineno")


class Entry:
    """One entry point, executed with all options symbolic and the components under recording contracts."""

    def __init__(self, name):
        self.name = name

    def stubs(self, it):
        self.calls = []

        def stage(qual, what):
            def call(it, f, args, kwargs):
                obj = args[0]
                attrs = dict(it.store[obj.oid])
                r = result(it, what + "_result")
                it.assume(r.kind("none") if what == "write" else r.kind("other"))
                it.event("call", what, obj.cls.name, attrs, tuple(args[1:]), dict(kwargs), r)
                if what == "parse":
                    stage_error(it, 0)
                return None if what == "write" else r
            return call
        self.saved = dict(it.contracts)
        it.contracts.update({q: stage(q, w) for q, w in STAGES.items()})
        names = ("level", "fmt", "log_time", "log_lineno")

        def config(it, f, args, kwargs):
            fr = it.new_frame(f.frame, f, f.module)
            it.bind(f, f.node.args, list(args), kwargs, fr)
            it.event("config", tuple(it.get_var(fr, n) for n in names))
        it.contracts["rsmlogger.config_rsm_logger"] = config
        it.natives["LOGGER:RSM.level"] = it.fresh("level", I)
        it.natives["ext-call2"] = lambda it, name, args, kwargs, self_: it.fresh(name)
        it.contracts["tsparser.TSParser.__init__"] = lambda it, f, a, k: None
        it.natives["record-logs"] = True

    def unstub(self, it):
        it.contracts.clear()
        it.contracts.update(self.saved)

    def verify(self, it):
        def thunk():
            self.stubs(it)
            try:
                self.one(it)
            finally:
                self.unstub(it)
        it.run_all(f"app.{self.name}", thunk)

    def one(self, it):
        f = it.func(f"app.{self.name}")
        o = {"source": it.fresh("source"), "path": it.fresh("path"), "loglevel": it.fresh("loglevel", I), "log_format": it.fresh("log_format"),
             "log_time": it.fresh("log_time", B), "log_lineno": it.fresh("log_lineno", B), "handrails": it.fresh("handrails", B)}
        for s in ("source", "path", "log_format"):
            it.setkind(o[s], "str")
            it.assume(cls(o[s]) == CLS_STR)
        if self.name == "render":
            o["add_source"] = it.fresh("add_source", B)
        if self.name == "make":
            o["lint"] = it.fresh("lint", B)
        it.events = ()
        it.pre = it.pc
        it.loopspecs = []
        try:
            out = ("return", it.call_func(f, [], o))
        except PyExc as e:
            out = ("raise", e)
        self.judge(it, o, out, it.events)

    def judge(self, it, o, out, events):
        given = lambda s: o[s] != EMPTY
        main = [e for e in events if e[0] in ("call", "config")]
        err = out[1] if out[0] == "raise" else None
        parse = it.class_of("RSMParserError", "tsparser")
        if err is not None and err.origin != "a stage":
            it.oblige("refused only when not exactly one of source and path is given", given("source") == given("path"))
            it.oblige(f"the application's own error (here: {err.name} from {err.origin})", z3.BoolVal(err.name == "RSMApplicationError"))
            it.oblige("nothing runs", z3.BoolVal(not [e for e in main if e[0] == "call"]))
            return
        it.oblige("exactly one of source and path is needed", given("source") != given("path"))
        if not main or main[0][0] != "config" or [e[0] for e in main].count("config") != 1:
            it.oblige("logging is configured once, before the stages", FALSE)
            return
        cfg = main[0][1]
        want = [o[x] for x in OPTS]
        if self.name == "lint":
            want[0] = it.class_member(it.class_of("Linter", "linter"), "LINT_LVL")
            want[0] = it.getattr(it.class_of("Linter", "linter"), "LINT_LVL")
        for w, c, n in zip(want, cfg, OPTS):
            it.oblige(f"option {n} reaches the log configuration", it.spec_equal(c, w))
        calls = main[1:]
        bypath = bool(calls) and calls[0][1] == "read"
        it.oblige("the source is read from a file exactly when a path was given", given("path") if bypath else given("source"))
        stages = (["read"] if bypath else []) + ["parse", "transform"]
        seq = [c[1] for c in calls]
        failed = seq[-1:] == ["parse"]
        if failed:
            it.oblige("stages run in order up to the failing one", z3.BoolVal(seq == stages[:len(seq)]))
            if err is not None:
                it.oblige("a parse error does not get out", z3.BoolVal(err.cls is not parse))
            else:
                it.oblige("only parse errors are turned into a result", z3.BoolVal(("stage-raises", "parse") in events))
                it.oblige("a parse error yields an empty result", z3.BoolVal(out[1] == ""))
                it.oblige("a parse error is logged", z3.BoolVal(any(e[0] == "log" and e[1] in ("error", "critical", "exception") for e in events)))
            self.data(it, o, calls, bypath)
            return
        if err is not None:
            it.oblige(f"no {err.name} is raised", FALSE)
            return
        linted = "lint" in seq
        if self.name == "lint":
            stages.append("lint")
        else:
            if linted:
                stages.append("lint")
            if self.name == "make":
                it.oblige("the linter runs exactly when asked for", o["lint"] if linted else neg(o["lint"]))
            else:
                it.oblige("rendering does not lint", z3.BoolVal(not linted))
            stages.append("translate")
        if self.name == "make":
            stages += ["build", "write"]
        if seq != stages:
            it.oblige(f"the stages are {' '.join(stages)} (here: {' '.join(seq)})", FALSE)
            return
        self.data(it, o, calls, bypath)
        last = calls[-1]
        it.oblige("the last result is returned", it.spec_equal(out[1], last[6]) if last[1] != "write" else z3.BoolVal(out[1] is None))
        for c in calls:
            if c[1] == "translate":
                hr = c[2] == "HandrailsTranslator"
                it.oblige("handrails exactly when asked for", o["handrails"] if hr else conj([neg(o["handrails"]), z3.BoolVal(c[2] == "Translator")]))
                if hr:
                    want = o.get("add_source", z3.BoolVal(True))
                    got = c[3].get("add_source")
                    it.oblige("the embedded-source option reaches the translator", it.spec_equal(got, want) if got is not None else FALSE)

    def data(self, it, o, calls, bypath):
        prev = None
        for c in calls:
            _, what, cname, attrs, args, kw, r = c
            if kw or len(args) != 1:
                it.oblige(f"{what} is given one argument", FALSE)
                return
            if what == "read":
                it.oblige("the given path is read", it.spec_equal(args[0], o["path"]))
            elif prev is None:
                it.oblige("the given source is parsed", it.spec_equal(args[0], o["source"]))
            else:
                it.oblige(f"{what} is given the result of the stage before it", it.spec_equal(prev, args[0]))
            prev = r


# ---------------------------------------------------------------- the command line
class Cli:
    """rsm-render, rsm-lint, rsm-make: what the entry point is called with, for every command line."""
    FLAGS = ("--string", "--handrails", "--silent", "--log-no-timestamps", "--log-no-lineno", "--serve")

    def __init__(self, name):
        self.name = name

    def verify(self, it):
        def thunk():
            saved = dict(it.contracts)
            try:
                self.one(it)
            finally:
                it.contracts.clear()
                it.contracts.update(saved)
        it.run_all(f"cli.{self.name}", thunk)

    def one(self, it):
        self.opts, self.defaults = {}, {}
        self.given = {f: it.fresh("given" + f, B) for f in self.FLAGS}
        self.src, self.verbose, self.fmt = it.fresh("src"), it.fresh("verbose", I), it.fresh("log_format")
        self.fmtgiven = it.fresh("given--log-format", B)
        it.assume(self.verbose >= 0, cls(self.src) == CLS_STR, cls(self.fmt) == CLS_STR)
        for t in (self.src, self.fmt):
            it.setkind(t, "str")
        out = it.fresh("output")
        it.setkind(out, "str")

        def ext(it, name, args, kwargs, self_):
            if name in ("argparse.ArgumentParser", "livereload.Server"):
                return VObj(it.new_oid(), Ext(name))
            if name.startswith("importlib.metadata.version"):
                return "0"
            if name.startswith("livereload"):
                return it.fresh("callable")
            raise Unsupported(f"external call {name}")
        it.natives["ext-call2"] = ext
        it.natives["sys.argv"] = ("rsm", self.src)
        it.natives["getattr-ext-object"] = lambda it, v, name: Native(f"{v.cls.name}.{name}", lambda it, a, k: self.method(it, v, name, a, k))
        calls = []
        for n in ("render", "lint", "make"):
            def call(it, f, a, k, n=n):
                fr = it.new_frame(f.frame, f, f.module)
                it.bind(f, f.node.args, list(a), k, fr)
                calls.append((n, {x: it.get_var(fr, x) for x in ("source", "path", "handrails", "loglevel", "log_format", "log_time", "log_lineno")}))
                return out
            it.contracts[f"app.{n}"] = call
        it.events = ()
        it.pre = it.pc
        it.loopspecs = []
        try:
            r = it.call_func(it.func(f"cli.{self.name}"), [], {})
        except PyExc as e:
            it.oblige(f"no {e.name} on any accepted command line", FALSE)
            return
        it.oblige("exit status 0", z3.BoolVal(isinstance(r, int) and r == 0))
        if len(calls) != 1 or calls[0][0] != self.name:
            it.oblige(f"the {self.name} entry point runs once", FALSE)
            return
        kw = calls[0][1]
        g = self.given
        want = {"handrails": TRUE if self.name == "make" else g["--handrails"],
                "loglevel": 30 - 10 * self.verbose,
                "log_time": neg(g["--log-no-timestamps"]), "log_lineno": neg(g["--log-no-lineno"]),
                "log_format": z3.If(self.fmtgiven, self.fmt, S("lint" if self.name == "lint" else "rsm")),
                "source": z3.If(g["--string"], self.src, EMPTY), "path": z3.If(g["--string"], EMPTY, self.src)}
        for k, w in want.items():
            it.oblige(f"command line: {k}", it.spec_equal(kw[k], w))
        printed = [e for e in it.events if e[0] == "print"]
        silent = TRUE if self.name == "lint" else g["--silent"]
        if printed:
            it.oblige("the output is printed once, unless silent", conj([neg(silent), out != EMPTY, z3.BoolVal(len(printed) == 1)]))
            it.oblige("the output itself is printed", it.spec_equal(printed[0][1][0], out) if len(printed[0][1]) == 1 else FALSE)
        else:
            it.oblige("nothing printed only when silent or empty", z3.Or(silent, out == EMPTY))

    def method(self, it, v, name, a, k):
        if v.cls.name.startswith("livereload"):
            return None
        if name == "add_argument_group":
            return v
        if name == "add_argument":
            long = next((x for x in a if x.startswith("--")), a[0])
            dest = k.get("dest", long.lstrip("-").replace("-", "_"))
            it.oblige(f"option {long} is declared once", z3.BoolVal(dest not in self.opts))
            self.opts[dest] = (tuple(a), long, k.get("action", "store"), k.get("default"))
            return None
        if name == "set_defaults":
            self.defaults.update(k)
            return None
        if name == "parse_args":
            o = it.new_oid()
            it.store[o] = {d: self.value(it, d, *x) for d, x in self.opts.items()}
            return VObj(o, Ext("argparse.Namespace"))
        raise Unsupported(f"argparse {name}")

    def value(self, it, dest, flags, long, action, default):
        """argparse: what the attribute holds for an arbitrary accepted command line."""
        default = self.defaults.get(dest, default)
        if action in ("store_true", "store_false"):
            on = action == "store_true"
            if default is None:
                default = not on
            g = self.given.get(long)
            if g is None:
                return it.fresh(dest, B)
            return z3.If(g, z3.BoolVal(on), z3.BoolVal(default)) if isinstance(default, bool) else default
        if action == "count":
            return self.verbose if default == 0 and long == "--verbose" and "-v" in flags else it.fresh(dest)
        if action == "version":
            return None
        if action != "store":
            raise Unsupported(f"argparse action {action}")
        if not long.startswith("-"):
            return self.src if dest == "src" else it.fresh(dest)
        if long == "--log-format":
            r = z3.If(self.fmtgiven, self.fmt, it.to_U(default))
            return it.setkind(r, "str")
        return it.fresh(dest)


class Read(Contract):
    """The text of the file at the given path."""
    qual = "reader.Reader.read"
    wf_on = False

    def setup(self, it):
        r = it.instantiate(it.class_of("Reader", "reader"), (), {})
        self.path = it.fresh("path")
        it.setkind(self.path, "str")
        it.assume(cls(self.path) == CLS_STR, self.path != EMPTY)
        return (r, self.path), {}

    def verify(self, it):
        saved = dict(it.natives)
        content = z3.Function("file_content", U, U)

        def opened(it, a, k):
            if len(a) != 1 and (len(a) != 2 or a[1] not in ("r", "rt")) or k.get("mode", "r") not in ("r", "rt"):
                raise Unsupported("open mode")
            o = it.new_oid()
            it.store[o] = {"path": it.to_U(a[0])}
            return VObj(o, Ext("file"))

        def method(it, v, name):
            if v.cls.name == "file" and name == "read":
                return Native("file.read", lambda it, a, k: it.setkind(content(it.store[v.oid]["path"]), "str"))
            if name == "read_text":
                return Native("Path.read_text", lambda it, a, k: it.setkind(content(it.store[v.oid]["path"]), "str"))
            raise Unsupported(f"attribute {name} of {v.cls.name}")

        def mkpath(it, a, k):
            o = it.new_oid()
            it.store[o] = {"path": it.to_U(a[0]) if a else S(".")}
            return VObj(o, Ext("path"))
        it.natives.update({"open": Native("open", opened), "getattr-ext-object": method, "pathlib.Path": Native("Path", mkpath)})
        self.content = content
        try:
            super().verify(it)
        finally:
            it.natives.clear()
            it.natives.update(saved)

    def judge(self, it, out, args, kwargs, h0, h1, ev0, ev1):
        if out[0] == "raise":
            it.oblige(f"reading a given path does not fail by itself ({out[1].name})", FALSE)
            return
        it.oblige("the file's text is returned", it.spec_equal(out[1], self.content(self.path)))


def units(it):
    cs = [Run(), AppRun(), AddTask(), Build(), Read()]
    out = [(c.qual, (lambda c=c: c.verify(it))) for c in cs]
    out += [(f"app.{n}", (lambda n=n: Entry(n).verify(it))) for n in ("render", "lint", "make")]
    out += [(f"cli.{n}", (lambda n=n: Cli(n).verify(it))) for n in ("render", "lint", "make")]
    return out
