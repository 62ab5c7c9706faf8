"""Shared helpers for the bounded counterexample search.

Everything here observes the package through its public surface only (children,
parent, documented attributes, public entry points)."""
import contextlib
import io
import logging
import random
import sys
import warnings

warnings.simplefilter("ignore")

import rsm  # noqa: E402
from rsm import nodes, transformer, translator, tsparser  # noqa: E402

LOG = logging.getLogger("RSM")


class Skip(Exception):
    """This input is outside the property's precondition."""


class Bad(Exception):
    """The property fails on this input."""


def quiet():
    LOG.handlers.clear()
    LOG.addHandler(logging.NullHandler())
    LOG.propagate = False
    LOG.setLevel(logging.WARNING)


quiet()


class Gather(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.records = []

    def emit(self, record):
        self.records.append(record)


def need(cond, msg):
    if not cond:
        raise Bad(msg)


def kids(n):
    return list(n.children)


def walk(root):
    """Document order, independent of Node.traverse."""
    out = []
    stack = [root]
    while stack:
        n = stack.pop()
        out.append(n)
        stack.extend(reversed(kids(n)))
        if len(out) > 200000:
            raise Bad("the tree is cyclic or shared")
    return out


def name(n):
    return type(n).__name__ if n is not None else "None"


def path_of(n):
    out = []
    while n.parent is not None:
        ch = kids(n.parent)
        idx = [i for i, c in enumerate(ch) if c is n]
        out.append(f"{name(n)}[{idx[0] if idx else '?'}]")
        n = n.parent
    return "/".join(reversed([*out, name(n)]))


def check_links(pool):
    """The parent/child agreement of C01 over every node of the pool."""
    listed = {}
    for p in pool:
        for c in kids(p):
            if id(c) in listed:
                raise Bad(f"{name(c)} is listed twice (under {name(listed[id(c)])} and {name(p)})")
            listed[id(c)] = p
            need(c.parent is p, f"{name(c)} is listed under {name(p)} but names {name(c.parent)} as its parent")
    for n in pool:
        p = n.parent
        if p is not None:
            need(any(c is n for c in kids(p)), f"{name(n)} names {name(p)} as its parent but is not among its children")
            allowed = ALLOWED.get(name(n))
            if allowed is not None:
                need(name(p) in allowed, f"{name(n)} sits under {name(p)}")


ALLOWED = {
    "Step": {"Proof", "Subproof", "Step"},
    "Item": {"Itemize", "Enumerate", "Contents"},
    "Caption": {"Figure", "Table"},
}

PARSE_ERRORS = (tsparser.RSMParserError, nodes.RSMNodeError)


def parse(src):
    try:
        return tsparser.TSParser().parse(src)
    except PARSE_ERRORS:
        raise Skip("does not parse")


# ---------------------------------------------------------------- tree specs
def build(spec, pool=None):
    """Build a node tree from a JSON spec {"c": class, "kw": {...}, "ch": [...]}."""
    cls = getattr(nodes, spec["c"])
    n = cls(**spec.get("kw", {}))
    if pool is not None:
        pool.append(n)
    for k, v in spec.get("at", {}).items():
        setattr(n, k, v)
    for ch in spec.get("ch", ()):
        n.append(build(ch, pool))
    return n


LABELS = ["lA", "lB", "lC", "lD", "lE", "lF", "lG"]
THEOREMS = ["Theorem", "Lemma", "Corollary", "Example", "Exercise", "Proposition", "Problem", "Porism", "Remark", "Definition"]
CONSTRUCTS = ["let", "define", "write", "case", "then", "new", "assume", "prove", "pick", "suffices", "claim", "qed", "st"]


def tree_spec(rng, size=25, prevs=True, refs=True, toc=True):
    """A random document tree: every class, irregular nesting included."""
    left = [size]

    def base(lab=0.3):
        kw = {}
        if rng.random() < lab:
            kw["label"] = rng.choice(LABELS)
        if rng.random() < 0.15:
            kw["nonum"] = True
        return kw

    def leaf():
        k = rng.random()
        if refs and k < 0.12:
            return {"c": "PendingReference", "kw": {"target": rng.choice(LABELS + ["none"]), "overwrite_reftext": rng.choice(["", "", "txt"])}}
        if refs and k < 0.2:
            return {"c": "PendingCite", "kw": {"targetlabels": [rng.choice(["b1", "b2", "b3", "nob", "lA"]) for _ in range(rng.randint(0, 3))]}}
        if k < 0.23:
            return {"c": "URL", "kw": {"target": "http://x"}}
        if k < 0.27:
            return {"c": "Author", "kw": {"name": rng.choice(["", "N"])}}
        if k < 0.3:
            return {"c": "Error", "kw": {"text": "[err]"}}
        if k < 0.34:
            return {"c": "Appendix"}
        return {"c": "Text", "kw": {"text": rng.choice(["foo", ".", ". bar", "", "x y"])}}

    def steps(depth):
        out = []
        for i in range(rng.randint(0, 4)):
            ch = []
            for _ in range(rng.randint(0, 3)):
                ch.append(node(depth + 2))
            if prevs and i and rng.random() < 0.4:
                k = rng.randint(0, i) if rng.random() < 0.9 else i + 1
                ch.append({"c": "PendingPrev", "kw": {"target": str(k), "overwrite_reftext": rng.choice(["", "back"])}})
            mode = rng.random()
            if depth < 6:
                if mode < 0.3:
                    ch += steps(depth + 2)
                    if rng.random() < 0.5:
                        ch.append(node(depth + 2))
                    if rng.random() < 0.3:
                        ch += steps(depth + 2)
                elif mode < 0.5:
                    ch.append({"c": "Subproof", "kw": base(0.1), "ch": steps(depth + 2) + [node(depth + 2)]})
                    if rng.random() < 0.4:
                        ch.append(node(depth + 2))
                    if rng.random() < 0.2:
                        ch.append({"c": "Subproof", "ch": steps(depth + 3)})
            out.append({"c": "Step", "kw": base(), "ch": ch})
        return out

    def node(depth):
        left[0] -= 1
        if depth > 7 or left[0] < 0:
            return leaf()
        k = rng.random()
        if k < 0.25:
            return leaf()
        n = rng.randint(0, 3)
        if k < 0.33:
            c = rng.choice(["Section", "Section", "Subsection", "Subsubsection"])
            return {"c": c, "kw": {**base(), "title": rng.choice(["T1", "T2", "", "T3"])}, "ch": [node(depth + 1) for _ in range(n)]}
        if k < 0.48:
            return {"c": rng.choice(THEOREMS), "kw": {**base(), "title": rng.choice(["", "Th"])}, "ch": [node(depth + 1) for _ in range(n)]}
        if k < 0.6:
            ch = steps(depth + 1)
            if rng.random() < 0.4:
                ch.insert(rng.randint(0, len(ch)), node(depth + 1))
            return {"c": "Proof", "kw": base(), "ch": ch}
        if k < 0.64:
            return {"c": "Subproof", "kw": base(), "ch": steps(depth + 1) + [node(depth + 1)]}
        if k < 0.7:
            return {"c": "Sketch", "kw": base(), "ch": [node(depth + 1) for _ in range(n)]}
        if k < 0.74:
            return {"c": rng.choice(["Itemize", "Enumerate"]), "kw": base(), "ch": [{"c": "Item", "kw": base(), "ch": [node(depth + 2) for _ in range(rng.randint(0, 2))]} for _ in range(n)]}
        if k < 0.78:
            c = rng.choice(["Figure", "Table"])
            ch = [{"c": "Caption", "kw": base(), "ch": [leaf()]}] if rng.random() < 0.6 else []
            return {"c": c, "kw": base(), "ch": ch}
        if k < 0.83:
            return {"c": "Construct", "kw": {**base(0.2), "kind": rng.choice(CONSTRUCTS)}, "ch": [node(depth + 1) for _ in range(n)]}
        if k < 0.86:
            return {"c": "MathBlock", "kw": base(), "ch": [{"c": "Text", "kw": {"text": "x", "asis": True}}]}
        if k < 0.88:
            return {"c": "ClaimBlock", "kw": base(0.1), "ch": [{"c": "MathBlock", "kw": base(), "ch": [{"c": "Text", "kw": {"text": "x", "asis": True}}]}]}
        if k < 0.9:
            return {"c": "Algorithm", "kw": base(), "ch": [{"c": "Text", "kw": {"text": "x", "asis": True}}]}
        if toc and k < 0.92:
            return {"c": "Contents", "kw": base(0.1)}
        c = rng.choice(["Paragraph", "Paragraph", "Span", "Note", "Draft", "Abstract", "Math", "TableBody", "TableRow", "TableDatum", "Statement"])
        kw = base()
        if c == "Span":
            kw[rng.choice(["strong", "emphas"])] = True
        return {"c": c, "kw": kw, "ch": [node(depth + 1) for _ in range(n)]}

    ch = []
    if toc and rng.random() < 0.6:
        ch.append({"c": "Contents", "kw": {}})
    while left[0] > 0:
        ch.append(node(1))
    bibs = []
    for b in ["b1", "b2", "b3"]:
        if rng.random() < 0.6:
            bibs.append({"c": "Bibitem", "kw": {"label": b, "author": "A", "title": "T", "kind": "book"}, "at": {"year": "2000"} if rng.random() < 0.9 else {}})
    if bibs:
        ch.insert(rng.choice([len(ch), 0]), {"c": "Bibliography", "ch": bibs})
    return {"c": "Manuscript", "kw": {"title": rng.choice(["", "M"]), "label": rng.choice(["", "", "lA"])}, "ch": ch}
