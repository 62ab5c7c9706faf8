"""C12-C14: executable statements of the translation properties."""
import random
import re

from . import gen
from .common import *
from .common import Bad, Skip, need, kids, walk, name
from .trees import gen_doc, load, transform

VOID = {"img", "br", "meta", "link", "hr", "input"}
TAG = re.compile(r"<(/?)([a-zA-Z][a-zA-Z0-9-]*)((?:\s[^<>]*?)?)(/?)>")


def nesting(html):
    """Check that tags match; return events ("open"/"close", tag, attrs, pos)."""
    stack, events = [], []
    for m in TAG.finditer(html):
        close, tag, attrs, selfc = m.groups()
        if tag.lower() in VOID or selfc:
            continue
        if not close:
            stack.append((tag, m.start()))
            events.append(("open", tag, attrs, m.start()))
        else:
            ctx = html[max(0, m.start() - 60):m.end()]
            need(stack, f"</{tag}> closes nothing: ...{ctx!r}")
            need(stack[-1][0] == tag, f"</{tag}> found where </{stack[-1][0]}> is due: ...{ctx!r}")
            stack.pop()
            events.append(("close", tag, "", m.start()))
    need(not stack, f"never closed: {[t for t, _ in stack]}")
    left = TAG.sub("", html)
    need(left.count("<") == left.count(">"), "a tag is cut in pieces")
    return events


def make(which):
    return translator.Translator(quiet=True) if which == "plain" else translator.HandrailsTranslator(quiet=True, add_source=False)


def run_nesting(which):
    def run(spec):
        tree = load(spec)
        try:
            transform(tree)
        except Bad:
            raise Skip("transform")
        try:
            html = make(which).translate(tree)
        except Exception as ex:
            raise Bad(f"translation failed: {ex!r}")
        nesting(html)
    return run


def gen14(rng):
    return {"kind": "pair", "one": gen_doc(rng), "two": gen_doc(rng), "which": rng.choice(["plain", "hr"])}


NOID = {"Text", "Reference", "URL", "Cite", "Note", "Algorithm", "Caption", "Appendix", "SourceCode", "PendingReference"}


def tokenise(tree):
    k = 0
    for n in walk(tree):
        if type(n) is nodes.Text:
            n.text = (n.text[:1] if n.text[:1] == "." else "") + f"tok{k}x" + ("." if n.text.endswith(".") else "")
            k += 1


def ready(spec):
    tree = load(spec)
    if isinstance(tree, nodes.Manuscript):
        tree.src = ""
    try:
        transform(tree)
    except Bad:
        raise Skip("transform")
    return tree


def run_c14(spec):
    which = spec["which"]
    one, two, again = ready(spec["one"]), ready(spec["two"]), ready(spec["two"])
    third = ready(spec["one"])
    try:
        fresh = make(which).translate(two)
        used = make(which)
        first = used.translate(one)
        second = used.translate(again)
        fresh1 = make(which).translate(third)
    except Exception as ex:
        raise Bad(f"translation failed: {ex!r}")
    need(first == fresh1, "two fresh translators disagree on the same document")
    if second != fresh:
        k = next((i for i, (a, b) in enumerate(zip(second, fresh)) if a != b), min(len(second), len(fresh)))
        raise Bad(f"a used translator differs from a fresh one: ...{second[max(0, k - 40):k + 40]!r} instead of ...{fresh[max(0, k - 40):k + 40]!r}")
    tree = ready(spec["two"])
    tokenise(tree)
    try:
        html = make(which).translate(tree)
    except Exception as ex:
        raise Bad(f"translation failed: {ex!r}")
    events = [(m.start(), "o" if not m.group(1) else "c", m) for m in TAG.finditer(html)
              if m.group(2).lower() not in VOID and not m.group(4)]
    toks = [(m.start(), "t", m) for m in re.finditer(r"tok\d+x", html)]
    stack = []
    seen = []
    for pos, kind, m in sorted(events + toks, key=lambda e: e[0]):
        if kind == "o":
            mm = re.search(r'data-nodeid="(\d+)"', m.group(3))
            if mm:
                inner = next((s for s in reversed(stack) if s is not None), None)
                seen.append((int(mm.group(1)), inner))
            stack.append(int(mm.group(1)) if mm else None)
        elif kind == "c":
            if not stack:
                raise Skip("nesting is the concern of C12 and C13")
            stack.pop()
        else:
            inner = next((s for s in reversed(stack) if s is not None), None)
            seen.append((m.group(0), inner))
    want = []
    for n in walk(tree):
        a = n.parent
        while a is not None and name(a) in NOID:
            a = a.parent
        inner = a.nodeid if a is not None else None
        if type(n) is nodes.Text:
            want.append((re.search(r"tok\d+x", n.text).group(0), inner))
        elif name(n) not in NOID:
            want.append((n.nodeid, inner))
    if seen != want:
        k = next((i for i, (a, b) in enumerate(zip(seen, want)) if a != b), min(len(seen), len(want)))
        raise Bad(f"rendered (node, enclosing node) number {k} is {seen[k:k + 3]}, expected {want[k:k + 3]}")


PROPS = {
    "C12": (gen_doc, run_nesting("plain")),
    "C13": (gen_doc, run_nesting("hr")),
    "C14": (gen14, run_c14),
}
