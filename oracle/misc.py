"""C15-C23: executable statements of the text, application, logging, lint,
build, metadata, isolation and normalisation properties."""
import contextlib
import inspect
import io
import itertools
import json
import logging
import os
import random
import re
import shutil
import sys
import tempfile
import types

from . import gen
from .common import *
from .common import Bad, Skip, need, kids, walk, name, LOG, Gather, quiet
from .trees import load, gen_doc, transform

from rsm import app, builder, cli, linter, reader, rsmlogger, util, writer

ESC = util.EscapedString


# ---------------------------------------------------------------- C15 / C16
def fixed_c15():
    return [{"kind": "exhaustive", "alphabet": "\\:%a", "chars": ":%", "n": 6},
            {"kind": "exhaustive", "alphabet": "\\$\n\t", "chars": tsparser.DELIMS, "n": 5},
            {"kind": "exhaustive", "alphabet": "\\.(*", "chars": ".(*", "n": 5},
            {"kind": "exhaustive", "alphabet": "\\:", "chars": "", "n": 7}]


def rand_text(rng, extra=""):
    al = "\\\\\\\\:%$`*{#ab \n\u00e9" + extra
    return "".join(rng.choice(al) for _ in range(rng.randint(0, 30)))


def gen_c15(rng):
    return {"kind": "text", "text": rand_text(rng), "chars": rng.choice([tsparser.DELIMS, ":", "", "a%", ":%$`*{#ab", ".^$[("])}


def unescape(text, chars):
    out, i = [], 0
    while i < len(text):
        if text[i] == "\\" and i + 1 < len(text) and text[i + 1] in chars:
            i += 1
            out.append(text[i])
            i += 1
        else:
            out.append(text[i])
            i += 1
    return "".join(out)


def run_c15(spec):
    texts = [spec["text"]] if "text" in spec else ("".join(t) for k in range(spec["n"] + 1) for t in itertools.product(spec["alphabet"], repeat=k))
    for t in texts:
        got = str(ESC(t, spec["chars"]).escape())
        e = unescape(t, spec["chars"])
        need(got == e, f"unescaping {t!r} (special characters {spec['chars']!r}) gives {got!r}, expected {e!r}")


def fixed_c16():
    return [{"kind": "exhaustive", "alphabet": "\\:a", "chars": ":", "sub": ":", "n": 4},
            {"kind": "exhaustive", "alphabet": "\\:%", "chars": ":%", "sub": "%", "n": 4},
            {"kind": "exhaustive", "alphabet": "\\:a", "chars": ":", "sub": "a", "n": 3},
            {"kind": "exhaustive", "alphabet": "\\:", "chars": ":", "sub": "\\:", "n": 4}]


def gen_c16(rng):
    t = rand_text(rng)
    return {"kind": "text", "text": t, "chars": rng.choice([tsparser.DELIMS, ":", "a%"]), "sub": rng.choice([":", ":", "%", "a", "ab", "\\"])}


def run_c16(spec):
    texts = [spec["text"]] if "text" in spec else ("".join(t) for k in range(spec["n"] + 1) for t in itertools.product(spec["alphabet"], repeat=k))
    sub, chars = spec["sub"], spec["chars"]
    for t in texts:
        es = ESC(t, chars)
        n = len(t)
        bounds = [None] + list(range(-1, n + 2)) if n <= 6 else [None, 0, 1, n // 2, n - 1, n]
        for start in bounds:
            for end in bounds:
                for skip in (True, False):
                    args = [sub] + ([start] if start is not None else [0]) + ([end] if end is not None else [])
                    s, e, _ = slice(0 if start is None else start, end).indices(n)
                    if start is not None and start > n:
                        s = start
                    if skip and sub in set(chars):
                        hits = [i for i in range(s, e) if t[i] == sub and not (i > 0 and t[i - 1] == "\\")]
                        want = hits[0] if hits else -1
                    else:
                        want = t.find(*args)
                    got = es.find(*args, skip_escaped=skip)
                    where = f"in {t!r} of {sub!r} from {start} to {end}, special {chars!r}, skip_escaped={skip}"
                    need(got == want, f"find gives {got}, expected {want}: {where}")
                    try:
                        got = es.index(*args, skip_escaped=skip)
                    except ValueError:
                        got = -1
                    else:
                        need(got >= 0, f"index returns {got} instead of an error: {where}")
                    need(got == want, f"index gives {got}, expected {want}: {where}")


# ---------------------------------------------------------------- C17
@contextlib.contextmanager
def scratch():
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="rsmcheck")
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def gen_c17(rng):
    k = rng.random()
    opts = {"handrails": rng.random() < 0.5, "add_source": rng.random() < 0.5, "lint": rng.random() < 0.5,
            "loglevel": rng.choice([10, 20, 25, 30, 40]), "log_format": rng.choice(["plain", "rsm", "json", "lint"]),
            "log_time": rng.random() < 0.5, "log_lineno": rng.random() < 0.5}
    if k < 0.25:
        return {"kind": "pipeline", "values": [rng.choice([["str", "a"], ["none"], ["dict", rng.randint(0, 3)], ["tuple", rng.randint(0, 3)], ["list", rng.randint(0, 3)], ["obj"], ["str", ""], ["int", 0]]) for _ in range(rng.randint(0, 5))],
                "init": rng.choice([["none"], ["str", "x"], ["tuple", 2], ["dict", 2]]), "pops": rng.randint(0, 2)}
    if k < 0.6:
        return {"kind": "entry", "func": rng.choice(["render", "lint", "make"]), "opts": opts, "how": rng.choice(["source", "path"]),
                "src": gen.Doc(rng, size=rng.randint(0, 3)).source()}
    if k < 0.7:
        return {"kind": "args", "source": rng.choice(["", ":rsm: ::"]), "path": rng.choice(["", "x.rsm"]), "cls": rng.choice(["ParserApp", "LinterApp", "ProcessorApp", "FullBuildApp"])}
    if k < 0.78:
        return {"kind": "error", "func": rng.choice(["render", "make"])}
    return {"kind": "cli", "cmd": rng.choice(["render", "lint", "make"]),
            "flags": [f for f in ["-c", "-r", "-s", "--log-no-timestamps", "--log-no-lineno"] if rng.random() < 0.5],
            "verbose": rng.randint(0, 3), "format": rng.choice([None, "plain", "rsm", "json", "lint"]), "src": rng.choice(["foo.rsm", ":rsm: ::"]), "out": rng.choice(["text", "", None])}


def mkval(v):
    if v[0] == "str":
        return v[1]
    if v[0] == "none":
        return None
    if v[0] == "dict":
        return {f"k{i}": i for i in range(v[1])}
    if v[0] == "tuple":
        return tuple(range(v[1]))
    if v[0] == "list":
        return list(range(v[1]))
    if v[0] == "int":
        return v[1]
    return object()


def fmt_probe(fmt, log_time, log_lineno):
    """What one record looks like with the formatter the logger has now."""
    h = LOG.handlers[0]
    rec = logging.LogRecord("RSM.t", logging.WARNING, "/d/file.py", 77, "probe %s", ("m",), None)
    out = h.format(rec)
    if fmt == "plain":
        need(out == "probe m", f"plain format gives {out!r}")
    elif fmt == "lint":
        need(out == "src:1:1: WRN: probe m", f"lint format gives {out!r}")
    elif fmt == "json":
        d = json.loads(out)
        need(d["msg"] == "probe m" and d["level"] == "WRN", f"json format gives {out!r}")
        need(("time" in d) == log_time, f"json: time is {'in' if 'time' in d else 'missing from'} {out!r} with log_time={log_time}")
        need(("lineno" in d) == log_lineno, f"json: lineno is {'in' if 'lineno' in d else 'missing from'} {out!r} with log_lineno={log_lineno}")
        if log_lineno:
            need(d["lineno"] == 77, "json: wrong line number")
    else:
        need("probe m" in out and "WRN" in out, f"rsm format gives {out!r}")
        need(bool(re.search(r"\d\d:\d\d:\d\d", out)) == log_time, f"rsm: time stamp wrong in {out!r} with log_time={log_time}")
        need(("file.py:77" in out) == log_lineno, f"rsm: source location wrong in {out!r} with log_lineno={log_lineno}")


def direct(src, handrails, add_source, lint=False):
    quiet()
    tree = tsparser.TSParser().parse(src)
    transformer.Transformer().transform(tree)
    tr = translator.HandrailsTranslator(add_source=add_source) if handrails else translator.Translator()
    return tr.translate(tree)


def run_c17(spec):
    k = spec["kind"]
    if k == "pipeline":
        seen, log = [], []
        vals = [mkval(v) for v in spec["values"]]
        tasks, objs = [], []
        for i, v in enumerate(vals):
            def call(*a, _i=i, _v=v, **kw):
                log.append((_i, a, kw))
                return _v
            objs.append(object())
            tasks.append(app.Task(f"t{i}", objs[-1], call))
        p = app.Pipeline(tasks[:len(tasks) // 2])
        for t in tasks[len(tasks) // 2:]:
            p.add_task(t)
        for i, o in enumerate(objs):
            need(getattr(p, f"t{i}") is o, "a stage's component is not reachable by its name")
        pops = min(spec["pops"], len(tasks))
        for j in range(pops):
            t = p.pop_task()
            need(t is tasks[-1 - j] or t == tasks[-1 - j], "pop_task returns another task")
            need(not hasattr(p, t.name), "a popped component is still reachable")
        vals = vals[:len(vals) - pops]
        init = mkval(spec["init"])
        res = p.run(init)
        chain = [init, *vals]
        need([i for i, _, _ in log] == list(range(len(vals))), f"stages ran in the order {[i for i, _, _ in log]}")
        for (i, a, kw), inp in zip(log, chain):
            e = ((), inp) if isinstance(inp, dict) else (tuple(inp), {}) if isinstance(inp, (list, tuple)) else ((), {}) if inp is None else ((inp,), {})
            need((len(a) == len(e[0])) and all(x is y or x == y for x, y in zip(a, e[0])) and kw == e[1], f"stage {i} got {a} {kw} for the result {inp!r}")
        need(res is chain[-1] or res == chain[-1], f"the result is {res!r}, the last stage gave {chain[-1]!r}")
        return
    if k == "args":
        both = bool(spec["source"]) and bool(spec["path"])
        none = not spec["source"] and not spec["path"]
        try:
            getattr(app, spec["cls"])(srcpath=spec["path"], plain=spec["source"])
            ok = True
        except app.RSMApplicationError:
            ok = False
        need(ok == (not both and not none), f"{spec['cls']} with source {spec['source']!r} and path {spec['path']!r} was {'accepted' if ok else 'refused'}")
        for f in (app.render, app.lint):
            if both or none:
                try:
                    f(source=spec["source"], path=spec["path"])
                except app.RSMApplicationError:
                    continue
                raise Bad(f"{f.__name__} accepts source {spec['source']!r} and path {spec['path']!r}")
        return
    if k == "error":
        with scratch():
            old = tsparser.TSParser.parse

            def broken(self, *a, **kw):
                raise tsparser.RSMParserError(msg="made up")
            tsparser.TSParser.parse = broken
            g = Gather()
            cfg = rsmlogger.config_rsm_logger

            try:
                err = io.StringIO()
                with contextlib.redirect_stderr(err):
                    res = getattr(app, spec["func"])(source=":rsm: ::")
            finally:
                tsparser.TSParser.parse = old
            need(res == "", f"a parse error gives {res!r}")
            need("made up" in err.getvalue(), f"a parse error is not logged: {err.getvalue()!r}")
        return
    if k == "entry":
        o = spec["opts"]
        try:
            exp_plain = direct(spec["src"], o["handrails"], o["add_source"])
        except Exception:
            raise Skip("document is not processable")
        with scratch():
            if "assets/" in spec["src"]:
                os.mkdir("assets")
                for i in range(4):
                    open(f"assets/e{i}.png", "w").close()
            with open("doc.rsm", "w") as f:
                f.write(spec["src"])
            log = {x: o[x] for x in ("loglevel", "log_format", "log_time", "log_lineno")}
            inp = {"source": spec["src"]} if spec["how"] == "source" else {"path": "doc.rsm"}
            err = io.StringIO()
            calls = []
            orig = linter.Linter.lint

            def spy(self, tree):
                calls.append(tree)
                return orig(self, tree)
            linter.Linter.lint = spy
            try:
                with contextlib.redirect_stderr(err):
                    if spec["func"] == "render":
                        out = app.render(handrails=o["handrails"], add_source=o["add_source"], **inp, **log)
                    elif spec["func"] == "lint":
                        out = app.lint(handrails=o["handrails"], **inp, **log)
                    else:
                        out = app.make(handrails=o["handrails"], lint=o["lint"], **inp, **log)
            finally:
                linter.Linter.lint = orig
            need(len(LOG.handlers) == 1, f"{len(LOG.handlers)} handlers")
            fmt_probe(o["log_format"], o["log_time"], o["log_lineno"])
            lvl = max(10, o["loglevel"])
            if spec["func"] == "render":
                need(LOG.level == lvl, f"log level {LOG.level} instead of {lvl}")
                need(out == exp_plain, "render does not give the translation of the document with these options")
                need(not calls, "render runs the linter")
            elif spec["func"] == "lint":
                need(len(calls) == 1, f"lint runs the linter {len(calls)} times")
                need(out is calls[0], "lint does not return the linter's result")
            else:
                need(LOG.level == (min(lvl, 25) if o["lint"] else lvl), f"log level {LOG.level} instead of {lvl}")
                need(len(calls) == (1 if o["lint"] else 0), f"make(lint={o['lint']}) runs the linter {len(calls)} times")
                exp = direct(spec["src"], o["handrails"], True)
                need(os.path.exists("index.html"), "make writes no index.html")
                with open("index.html") as f:
                    html = f.read()
                need(exp.strip() in html, "make does not write the translation of the document with these options")
        return
    if k == "cli":
        rec = []

        def fake(**kw):
            rec.append(kw)
            return spec["out"]
        old = (app.render, app.lint, app.make, sys.argv)
        argv = ["rsm", spec["src"], *spec["flags"], *(["-" + "v" * spec["verbose"]] if spec["verbose"] else [])]
        if spec["format"]:
            argv += ["--log-format", spec["format"]]
        out = io.StringIO()
        try:
            app.render = app.lint = app.make = fake
            sys.argv = argv
            with contextlib.redirect_stdout(out):
                getattr(cli, spec["cmd"])()
        finally:
            app.render, app.lint, app.make, sys.argv = old
        need(len(rec) == 1, f"the entry point ran {len(rec)} times")
        want = {"handrails": ("-r" in spec["flags"]) or spec["cmd"] == "make",
                "loglevel": 30 - 10 * spec["verbose"],
                "log_format": spec["format"] or ("lint" if spec["cmd"] == "lint" else "rsm"),
                "log_time": "--log-no-timestamps" not in spec["flags"],
                "log_lineno": "--log-no-lineno" not in spec["flags"],
                ("source" if "-c" in spec["flags"] else "path"): spec["src"]}
        need(rec[0] == want, f"rsm-{spec['cmd']} {argv[1:]} calls the entry point with {rec[0]}, expected {want}")
        silent = "-s" in spec["flags"] or spec["cmd"] == "lint"
        exp = "" if silent or not spec["out"] else spec["out"] + "\n"
        need(out.getvalue() == exp, f"rsm-{spec['cmd']} prints {out.getvalue()!r}, expected {exp!r}")


# ---------------------------------------------------------------- C18
def gen_c18(rng):
    return {"kind": "log", "level": rng.choice([0, 5, 10, 15, 20, 25, 30, 35, 40, 50, 60]), "fmt": rng.choice(["plain", "rsm", "json", "lint"]),
            "time": rng.random() < 0.5, "lineno": rng.random() < 0.5, "before": rng.randint(0, 3),
            "point": rng.choice([None, "start", "both"]), "row": rng.randint(0, 99), "col": rng.randint(0, 99),
            "msg": rng.choice(["hello", "100% sure", "a {b}", "x\ny", "\u00e9"]), "lvl": rng.choice([10, 20, 25, 30, 40, 50]), "line": rng.randint(1, 999)}


def run_c18(s):
    for _ in range(s["before"]):
        LOG.addHandler(logging.StreamHandler(io.StringIO()))
    old = list(LOG.handlers)
    rsmlogger.config_rsm_logger(s["level"], s["fmt"], s["time"], s["lineno"])
    need(len(LOG.handlers) == 1, f"{len(LOG.handlers)} handlers after configuring")
    h = LOG.handlers[0]
    need(all(h is not o for o in old), "an earlier handler survived")
    eff = max(10, s["level"])
    for lvl in [10, 15, 20, 25, 30, 35, 40, 50, 60]:
        if lvl >= eff:
            need(LOG.isEnabledFor(lvl) and h.level <= lvl, f"a level-{lvl} record is dropped when level {s['level']} is requested")
        elif lvl < s["level"]:
            need(not (LOG.isEnabledFor(lvl) and h.level <= lvl), f"a level-{lvl} record passes when level {s['level']} is requested")
    rec = logging.LogRecord("RSM.x", s["lvl"], "/d/src.py", s["line"], "%s", (s["msg"],), None)
    if s["point"]:
        rec.start_row, rec.start_col = s["row"], s["col"]
    if s["point"] == "both":
        rec.end_row, rec.end_col = s["row"] + 1, s["col"] + 7
    try:
        out = h.format(rec)
    except Exception as ex:
        raise Bad(f"formatting fails: {ex!r}")
    lv = logging.getLevelName(s["lvl"])
    if s["fmt"] == "plain":
        need(out == s["msg"], f"plain: {out!r}")
    elif s["fmt"] == "lint":
        r, c = (s["row"], s["col"]) if s["point"] else (1, 1)
        need(out == f"src:{r}:{c}: {lv}: {s['msg']}", f"lint: {out!r}")
    elif s["fmt"] == "json":
        d = json.loads(out)
        need(d.get("msg") == s["msg"] and d.get("level") == lv, f"json: {out!r}")
        need(("time" in d) == s["time"] and ("lineno" in d) == s["lineno"], f"json: {out!r} with time {s['time']}, lineno {s['lineno']}")
        if s["lineno"]:
            need(d["lineno"] == s["line"], "json: wrong line")
    else:
        need(s["msg"] in out and lv in out, f"rsm: {out!r}")
        head = out.split("RSM.x")[0]
        need(bool(re.search(r"\d\d:\d\d:\d\d", head)) == s["time"], f"rsm: time stamp in {out!r} with log_time={s['time']}")
        need((f"src.py:{s['line']}" in out) == s["lineno"], f"rsm: location in {out!r} with log_lineno={s['lineno']}")
        if s["point"]:
            need(f"({s['row']}, {s['col']})" in out, f"rsm: no start point in {out!r}")
        need((f"({s['row'] + 1}, {s['col'] + 7})" in out) == (s["point"] == "both"), f"rsm: end point in {out!r}")


# ---------------------------------------------------------------- C19
def gen_c19(rng):
    return {"kind": "doc", "tree": tree_spec(rng, rng.randint(3, 30)), "transform": rng.random() < 0.3, "seed": rng.randrange(10**6)}


def dump(tree):
    return [(id(n), id(n.parent), sorted((k, repr(v) if not isinstance(v, nodes.Node) else id(v)) for k, v in vars(n).items() if k not in ("_children", "_parent"))) for n in walk(tree)]


def run_c19(spec):
    tree = load(spec)
    if spec["transform"]:
        try:
            transform(tree)
        except Bad:
            raise Skip("transform")
    order = walk(tree)
    rng = random.Random(spec["seed"])
    rows = list(range(len(order)))
    rng.shuffle(rows)
    for n, r in zip(order, rows):
        n.start_point = (r, r % 7)
    before = dump(tree)
    LOG.setLevel(logging.WARNING)
    l = linter.Linter()
    g = Gather()
    LOG.addHandler(g)
    out = l.lint(tree)
    recs = [r for r in g.records if r.levelno >= 25]
    need(out is tree, "linting returns another tree")
    need(dump(tree) == before, "linting modified the tree")
    got = [(r.start_row - 1, r.start_col - 1) for r in recs]
    pos = {n.start_point: n for n in order}
    title = [tree] if not tree.title else []
    secs = [n for n in order if isinstance(n, nodes.Section) and not n.label]
    maths = [n for n in order if isinstance(n, nodes.MathBlock) and not isinstance(n.parent, nodes.Paragraph)]
    for want, what in [(title, "missing title"), (secs, "sections without label"), (maths, "math outside of a paragraph")]:
        w = [n.start_point for n in want]
        mine = [p for p in got if p in set(w)]
        need(mine == w, f"{what}: reported at {mine}, expected {w}")
    allw = {n.start_point for n in title + secs + maths}
    extra = [p for p in got if p not in allw]
    need(not extra, f"reported at {extra} where nothing is wrong: {[name(pos[p]) if p in pos else None for p in extra]}")
    need(all(r.levelno == 25 for r in recs), "a report has another level")


# ---------------------------------------------------------------- C20
def gen_c20(rng):
    parts, srcs, title = [], [], ""
    for _ in range(rng.randint(0, 6)):
        k = rng.random()
        if k < 0.3:
            s = f"assets/{rng.choice('abc')}{rng.choice(['1', '2 x', '3-4'])}.png"
            if os.path.basename(s) in [os.path.basename(x) for x in srcs] and s not in srcs:
                continue
            srcs.append(s)
            parts.append(f'<img src="{s}" alt="Figure.">' if rng.random() < 0.5 else f'<figure><img id="f" src="{s}"></figure>')
        elif k < 0.5:
            t = rng.choice(["Title", "A \\1 b", "X & Y", "", "$x$", "A <em>b</em>"])
            parts.append(f"<h1>{t}</h1>")
        elif k < 0.6:
            parts.append("<h2>sub</h2>")
        else:
            parts.append(rng.choice(["<p>foo\n</p>", "  text  ", "<p>__x__</p>", "</html>", "<h2>z</h2>", "\n\n", "<p>%s {0}</p>"]))
    return {"kind": "body", "parts": parts, "srcs": srcs, "pad": rng.choice(["", "\n\n", "  "]), "sep": rng.choice(["\n", "\n", "", " "])}


def run_c20(s):
    body = s["pad"] + s.get("sep", "\n").join(["<body>", *s["parts"], "</body>"]) + s["pad"]
    first = re.search(r"<h1>(.*?)</h1>", body)
    title = first.group(1) if first else ""
    with scratch():
        os.mkdir("assets")
        for x in s["srcs"]:
            with open(x, "w") as f:
                f.write("content of " + x)
        b = builder.FullBuilder()
        web = b.build(body)
        html = web.readtext("index.html")
        need(html.count(body.strip()) == 1 or body.strip() == "", "the page does not contain the translated body")
        head, tail = html.split(body.strip(), 1) if body.strip() else (html, "")
        need(tail.split() == ["</html>"], f"after the body comes {tail!r}")
        m = re.search(r"<title>(.*?)</title>", head, re.S)
        need(m is not None and m.group(1) == title, f"the page title is {m and m.group(1)!r}, expected {title!r}")
        need(head.strip().startswith("<html>") and "<head>" in head and "</head>" in head, "the head is not in place")
        need(head.count("<title>") == 1, "several titles")
        need([str(a) for a in b.required_assets] == s["srcs"], f"required assets are {[str(a) for a in b.required_assets]}, the body references {s['srcs']}")
        static = os.path.join(os.path.dirname(builder.__file__), "static")
        want = {f for f in os.listdir(static) if f.endswith((".js", ".css"))}
        have = set(web.listdir("static"))
        need(want <= have, f"missing from static: {sorted(want - have)}")
        need(have == want | {os.path.basename(x) for x in s["srcs"]}, f"static holds {sorted(have)}")
        for f in list(want)[:3]:
            with open(os.path.join(static, f), "rb") as fh:
                need(web.readbytes("static/" + f) == fh.read(), f"static/{f} differs from the packaged file")
        for x in s["srcs"]:
            need(web.readtext("static/" + os.path.basename(x)) == "content of " + x, f"asset {x} was not copied")
        need(web.body == body and web.html == html, "the page object does not hold the body and the html")


# ---------------------------------------------------------------- C21
CLASSES = [c for c in vars(nodes).values() if isinstance(c, type) and issubclass(c, nodes.Node)]

META = {
    "Node": {"label", "types", "nonum", "reftext"}, "Span": {"strong", "emphas", "little", "insert", "delete"},
    "Heading": {"title"}, "Manuscript": {"date"}, "Author": {"name", "affiliation", "email"}, "Abstract": {"keywords", "msc"},
    "MathBlock": {"isclaim"}, "Code": {"lang"}, "CodeBlock": {"lang"}, "Theorem": {"title", "goals", "stars", "clocks"},
    "Bibitem": {"kind", "author", "title", "year", "journal", "volume", "number", "publisher", "doi"}, "Figure": {"path", "scale"}}


def gen_c21(rng):
    c = rng.choice(CLASSES)
    keys = sorted(set().union(*(META.get(b.__name__, set()) for b in c.__mro__)))
    pick = [k for k in keys if rng.random() < 0.4]
    return {"kind": "meta", "c": c.__name__, "other": rng.choice(CLASSES).__name__, "meta": {k: rng.choice(["v", True, ["a", "b"], "", 3]) for k in pick}}


def run_c21(s):
    c = getattr(nodes, s["c"])
    for k in CLASSES:
        want = set().union(*(META.get(b.__name__, set()) for b in k.__mro__))
        need(set(k.metakeys()) == want, f"metadata keys of {k.__name__} are {sorted(k.metakeys())}, expected {sorted(want)}")
    n, sib, oth = c(), c(), getattr(nodes, s["other"])()
    par = nodes.Paragraph()
    if s["c"] not in ALLOWED and s["c"] != "Paragraph":
        par.append([n, nodes.Text("x")])

    def snap(x):
        def val(v):
            if isinstance(v, nodes.Node):
                return ("node", id(v))
            if isinstance(v, (list, tuple, set)):
                return (type(v).__name__, [val(w) for w in v])
            return repr(v)
        return {k: (val(v), id(v)) for k, v in vars(x).items()}
    before = {id(x): snap(x) for x in (n, sib, oth, par)}
    clsb = {k: dict(vars(k)) for k in CLASSES}
    meta = {k: (list(v) if isinstance(v, list) else v) for k, v in s["meta"].items()}
    vals = dict(meta)
    n.ingest_dict_as_meta(meta)
    for x in (sib, oth, par):
        need(snap(x) == before[id(x)], f"metadata for a {s['c']} changed another node ({name(x)})")
    want = {("reftext_template" if k == "reftext" else k): v for k, v in vals.items()}
    for k, v in want.items():
        need(k in vars(n) and vars(n)[k] is v or vars(n).get(k) == v, f"metadata {k!r} was not stored: {vars(n).get(k)!r} instead of {v!r}")
    for k, v in snap(n).items():
        if k not in want:
            need(k in before[id(n)] and before[id(n)][k] == v, f"metadata {sorted(vals)} changed {k!r} to {v[0]}")
    need(set(snap(n)) == set(before[id(n)]) | set(want), "attributes appeared or vanished")
    for k in CLASSES:
        need(dict(vars(k)) == clsb[k], f"metadata changed class {k.__name__}")


# ---------------------------------------------------------------- C22
def freeze(v, depth=0):
    if isinstance(v, dict):
        return ("dict", tuple((repr(k), freeze(x, depth + 1)) for k, x in v.items()))
    if isinstance(v, (list, tuple, set, frozenset)):
        items = [freeze(x, depth + 1) for x in v]
        return (type(v).__name__, tuple(sorted(map(repr, items)) if isinstance(v, (set, frozenset)) else items))
    if isinstance(v, (str, int, float, bytes, bool, type(None))):
        return repr(v)
    return ("id", id(v))


def package_state():
    out = {}
    for mname in sorted(m for m in sys.modules if m == "rsm" or m.startswith("rsm.")):
        mod = sys.modules[mname]
        for k, v in list(vars(mod).items()):
            if k.startswith("__"):
                continue
            out[mname, k] = freeze(v)
            if inspect.isfunction(v) and v.__module__ == mname:
                out[mname, k, "defaults"] = freeze((v.__defaults__, v.__kwdefaults__))
            if isinstance(v, type) and v.__module__ == mname:
                for a, x in list(vars(v).items()):
                    if a in ("__dict__", "__weakref__", "__doc__", "_abc_impl"):
                        continue
                    f = x.__func__ if isinstance(x, (staticmethod, classmethod)) else x
                    if inspect.isfunction(f):
                        out[mname, k, a] = ("func", id(f), freeze((f.__defaults__, f.__kwdefaults__)))
                    else:
                        out[mname, k, a] = freeze(x)
    return out


def gen_c22(rng):
    return {"kind": "two", "one": gen.Doc(rng, size=rng.randint(1, 6)).source(), "two": gen.Doc(rng, size=rng.randint(1, 6)).source(), "hr": rng.random() < 0.5}


def process(src, comps=None, hr=False):
    p, t, l, tr = comps or components(hr)
    try:
        tree = p.parse(src)
    except PARSE_ERRORS as ex:
        return ("noparse", type(ex).__name__)
    try:
        tree = t.transform(tree)
    except Exception as ex:
        return ("error", type(ex).__name__, str(ex))
    g = Gather()
    LOG.addHandler(g)
    LOG.setLevel(logging.WARNING)
    if LOG.level > 25:
        LOG.level = 25
    l.lint(tree)
    LOG.removeHandler(g)
    html = tr.translate(tree)
    return (html, tree.sexp(meta=True), [(r.getMessage(), r.start_row, r.start_col) for r in g.records if hasattr(r, "start_row")])


def components(hr):
    return (tsparser.TSParser(), transformer.Transformer(), linter.Linter(),
            translator.HandrailsTranslator(quiet=True) if hr else translator.Translator(quiet=True))


def run_c22(s):
    linter.Linter()
    state = package_state()
    comps = components(s["hr"])
    b = process(s["two"], None, s["hr"])
    process(s["one"], comps, s["hr"])
    again = process(s["two"], comps, s["hr"]) if s["one"] else b
    bad_first = process(s["one"], None, s["hr"])
    fresh2 = process(s["two"], None, s["hr"])
    need(fresh2 == b, "processing a document again after another one gives another result")
    if bad_first[0] not in ("error", "noparse"):
        need(again == b, "the components that processed another document give another result")
        need(process(s["two"], comps, s["hr"]) == b, "processing the same document again with the same components gives another result")
    now = package_state()
    if now != state:
        diff = [k for k in set(now) | set(state) if now.get(k) != state.get(k)]
        raise Bad(f"processing changed package data: {sorted(map(str, diff))[:5]}")
    for c in CLASSES + [transformer.Transformer, translator.Translator, translator.HandrailsTranslator, tsparser.TSParser, linter.Linter]:
        x, y = c(), c()
        for k, v in vars(x).items():
            if isinstance(v, (list, dict, set)):
                need(vars(y).get(k) is not v, f"two {c.__name__} instances share {k!r}")
                need(not any(v is w for kk in c.__mro__ for w in vars(kk).values()), f"{c.__name__}.{k} is shared with the class")


# ---------------------------------------------------------------- C23
WS = [" ", "\n", "  ", "\t", "\u00a0", "\u2003", ""]


def rtext(rng):
    out = ""
    for _ in range(rng.randint(0, 4)):
        out += rng.choice(WS) + rng.choice(["a", "b.", "\\:", "\\", ":", "\\\\:", "\\n", "$", "x\\%", "", ",", "\n\nq"])
    return out + rng.choice(WS)


def norm_spec(rng):
    left = [rng.randint(3, 25)]

    def node(depth):
        left[0] -= 1
        k = rng.random()
        if k < 0.5 or depth > 4 or left[0] < 0:
            return {"c": "Text", "kw": {"text": rtext(rng)}}
        if k < 0.56:
            return {"c": rng.choice(["Math", "MathBlock", "Algorithm"]), "ch": [{"c": "Text", "kw": {"text": rtext(rng), "asis": True}}]}
        if k < 0.6:
            return {"c": rng.choice(["Code", "CodeBlock"]), "ch": [{"c": "SourceCode", "kw": {"text": rtext(rng)}}]}
        if k < 0.62:
            return {"c": "URL", "kw": {"target": "x"}}
        kw, c = {}, rng.choice(["Paragraph", "Paragraph", "Span", "Span", "Construct", "Construct", "Section", "Note", "Theorem", "ClaimBlock"])
        if c == "Construct":
            kw["kind"] = rng.choice(CONSTRUCTS)
        if c == "Section":
            kw["title"] = rtext(rng)
        return {"c": c, "kw": kw, "ch": [node(depth + 1) for _ in range(rng.randint(0, 5))]}
    return {"c": "Manuscript", "kw": {"title": rtext(rng)}, "ch": [node(1) for _ in range(rng.randint(1, 5))]}


def gen_c23(rng):
    if hasattr(tsparser, "_normalize_text") and rng.random() < 0.7:
        return {"kind": "normal", "tree": norm_spec(rng)}
    return {"kind": "source", "src": gen.Doc(rng, size=rng.randint(1, 6)).source()}


def squash(t):
    return "".join(t.split())


def flat(n, titles=True):
    """The author's text with every non-text node as a bracket, nothing dropped."""
    out = []
    if isinstance(n, (nodes.Section, nodes.Manuscript)):
        out.append(("title", squash(unescape(n.title, tsparser.DELIMS)) if not titles else squash(n.title)))
    run = ""
    for c in kids(n):
        if isinstance(c, nodes.Text):
            run += squash(c.text) if titles or c.asis else squash(unescape(c.text, tsparser.DELIMS))
        else:
            if run:
                out.append(run)
                run = ""
            out.append((id(c), flat(c, titles)))
    if run:
        out.append(run)
    return out


def expect(n):
    out = flat(n, False)

    def add(n, fl):
        bykid = {id(c): c for c in kids(n)}
        fl = [(x[0], add(bykid[x[0]], x[1])) if isinstance(x, tuple) and x[0] in bykid else x for x in fl]
        if isinstance(n, nodes.Construct):
            fl = [("keyword", squash(n.keyword)), *fl]
        return fl
    return add(n, out)


def actual(n, known):
    out = []
    if isinstance(n, (nodes.Section, nodes.Manuscript)):
        out.append(("title", squash(n.title)))
    run = ""
    for k, c in enumerate(kids(n)):
        if isinstance(n, nodes.Construct) and k == 0:
            need(isinstance(c, nodes.Keyword) and id(c) not in known and all(isinstance(x, nodes.Text) for x in kids(c)),
                 f"a construct does not start with its keyword: {[name(x) for x in kids(n)]}")
            out.append(("keyword", squash("".join(x.text for x in kids(c)))))
        elif isinstance(c, nodes.Text):
            run += squash(c.text)
        else:
            need(id(c) in known, f"a {name(c)} appeared")
            if run:
                out.append(run)
                run = ""
            out.append((id(c), actual(c, known)))
    if run:
        out.append(run)
    return out


def verbatim(tree):
    return {id(n): n.text for n in walk(tree) if isinstance(n, nodes.Text) and n.asis}


def check_norm(run, tree):
    for n in walk(tree):
        if isinstance(n, nodes.Construct) and not n.kind:
            raise Skip("construct without a kind")
        prev = None
        for c in kids(n):
            if isinstance(prev, nodes.Text) and isinstance(c, nodes.Text) and prev.asis != c.asis:
                raise Skip("verbatim text beside other text")
            prev = c
    want = expect(tree)
    known = {id(n): n for n in walk(tree)}
    run(tree)
    got = actual(tree, known)
    if got != want:
        raise Bad(f"text changed: {show(got, known)} instead of {show(want, known)}")
    check_links([n for n in walk(tree)])


def show(x, known):
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int):
        return f"({name(known.get(x[0]))} {show(x[1], known)})"
    if isinstance(x, list):
        return " ".join(show(y, known) for y in x)
    return repr(x)


def run_c23(spec):
    norm = getattr(tsparser, "_normalize_text", None)
    if spec["kind"] == "normal":
        if norm is None:
            raise Skip("no such stage")
        check_norm(norm, build(spec["tree"]))
        return
    if norm is None:
        tree = parse(spec["src"])
        plain_source(spec["src"], tree)
        return
    fail = []

    def spy(tree):
        if tree is None:
            return norm(tree)
        out = []
        try:
            check_norm(lambda t: out.append(norm(t)), tree)
        except Bad as b:
            fail.append(b)
        except Skip:
            if not out:
                return norm(tree)
        return out[0] if out else None
    tsparser._normalize_text = spy
    try:
        tree = parse(spec["src"])
    finally:
        tsparser._normalize_text = norm
    if fail:
        raise fail[0]


def plain_source(src, tree):
    words = re.findall(r"\b(?:foo|bar|baz|lorem|ipsum|dolor|Alpha)\b", src)
    text = " ".join(n.text for n in walk(tree) if isinstance(n, nodes.Text))
    have = re.findall(r"\b(?:foo|bar|baz|lorem|ipsum|dolor|Alpha)\b", text)
    for w in set(have):
        need(have.count(w) <= words.count(w), f"the word {w!r} was duplicated")


PROPS = {
    "C15": (gen_c15, run_c15, fixed_c15),
    "C16": (gen_c16, run_c16, fixed_c16),
    "C17": (gen_c17, run_c17),
    "C18": (gen_c18, run_c18),
    "C19": (gen_c19, run_c19),
    "C20": (gen_c20, run_c20),
    "C21": (gen_c21, run_c21),
    "C22": (gen_c22, run_c22),
    "C23": (gen_c23, run_c23),
}
