"""C01-C11: executable statements of the tree and transform properties."""
import logging
import random

from . import gen
from .common import *
from .common import Bad, Skip, need, kids, walk, name, LOG

# ---------------------------------------------------------------- C01 / C02
POOL_CLASSES = ["Paragraph", "Section", "Text", "Step", "Proof", "Subproof", "Step", "Item", "Itemize",
                "Caption", "Figure", "Span", "Math", "Text", "Theorem", "Enumerate", "Note", "Step"]


def gen_ops(rng):
    n = rng.randint(4, 9)
    classes = [rng.choice(POOL_CLASSES) for _ in range(n)]
    ops = []
    for _ in range(rng.randint(3, 14)):
        i = rng.randrange(n)
        js = [rng.randrange(n) for _ in range(rng.randint(0, 4))]
        ops.append(rng.choice([
            ["append", i, rng.randrange(n)], ["append", i, rng.randrange(n)], ["append", i, js, rng.choice("ltg")],
            ["prepend", i, rng.randrange(n)], ["prepend", i, js, rng.choice("ltg")],
            ["remove", i, rng.randrange(n)], ["remove_self", i],
            ["replace", i, rng.randrange(n)], ["replace", i, js, rng.choice("ltg")], ["clear", i]]))
    attrs = []
    for _ in range(n):
        a = {}
        if rng.random() < 0.5:
            a["start_point"] = [rng.randint(0, 9), rng.randint(0, 9)]
        if rng.random() < 0.3:
            a["label"] = rng.choice("ab")
        if rng.random() < 0.3:
            a["nodeid"] = rng.randint(0, 9)
        if rng.random() < 0.2:
            a["number"] = rng.randint(1, 9)
        if rng.random() < 0.2:
            a["nonum"] = True
        if rng.random() < 0.2:
            a["types"] = [rng.choice("xy")]
        attrs.append(a)
    return {"kind": "ops", "classes": classes, "attrs": attrs, "ops": ops}


def make_pool(spec):
    pool = [getattr(nodes, c)() for c in spec["classes"]]
    for n, a in zip(pool, spec.get("attrs", [])):
        for k, v in a.items():
            setattr(n, k, tuple(v) if k == "start_point" else list(v) if isinstance(v, list) else v)
    return pool


def _below(a, b):
    """b is a or an ancestor of a."""
    while a is not None:
        if a is b:
            return True
        a = a.parent
    return False


def _iter(objs, how):
    return list(objs) if how == "l" else tuple(objs) if how == "t" else (o for o in objs)


def _snapshot(pool):
    return {id(n): (kids(n), n.parent) for n in pool}


def _fmt(cs):
    return "[" + ", ".join(name(c) for c in cs) + "]"


def _same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def run_ops(spec, exact):
    pool = make_pool(spec)
    for step, op in enumerate(spec["ops"]):
        what, i = op[0], op[1]
        target = pool[i]
        arg = op[2] if len(op) > 2 else None
        objs = [pool[j] for j in arg] if isinstance(arg, list) else [pool[arg]] if arg is not None else []
        single = not isinstance(arg, list)
        container = isinstance(target, nodes.NodeWithChildren)
        dest = target if what in ("append", "prepend") else target.parent
        if what in ("append", "prepend", "replace") and dest is not None and any(_below(dest, o) for o in objs if o is not target or what != "replace"):
            continue  # would place a node beneath itself
        if what == "replace" and any(_below(target, o) and o is not target for o in objs):
            continue
        if what in ("append", "prepend", "remove", "clear") and not container:
            continue
        before = _snapshot(pool)
        cur = kids(target)
        old_parent = target.parent
        err = None
        try:
            if what == "append":
                target.append(objs[0] if single else _iter(objs, op[3]))
            elif what == "prepend":
                target.prepend(objs[0] if single else _iter(objs, op[3]))
            elif what == "remove":
                target.remove(objs[0])
            elif what == "remove_self":
                target.remove_self()
            elif what == "clear":
                target.clear()
            elif what == "replace":
                target.replace_self(objs[0] if single else _iter(objs, op[3]))
        except Exception as ex:
            err = ex
        where = f"after operation {step} {op}" + (f" (refused: {err!r})" if err else "")
        if not exact:
            try:
                check_links(pool)
            except Bad as b:
                raise Bad(f"{b} {where}")
            continue
        # C02: exact effect
        par = {id(n): before[id(n)][1] for n in pool}

        def allowed(o, p):
            return name(o) not in ALLOWED or name(p) in ALLOWED[name(o)]

        want = {id(n): before[id(n)][0] for n in pool}
        refuse = False
        unspecified = False
        distinct = len({id(o) for o in objs}) == len(objs)
        if what == "append":
            for k, o in enumerate(objs):
                if par[id(o)] is not None or not allowed(o, target) or any(o is q for q in objs[:k]):
                    refuse = True
            if not refuse:
                want[id(target)] = cur + objs
        elif what == "prepend":
            if not distinct or (not single and any(par[id(o)] is target for o in objs)):
                unspecified = True
            for o in objs:
                if (par[id(o)] is not None and par[id(o)] is not target) or not allowed(o, target):
                    refuse = True
            if not refuse:
                want[id(target)] = objs + [c for c in cur if all(c is not o for o in objs)]
        elif what == "remove":
            if not any(c is objs[0] for c in cur):
                refuse = True
            else:
                want[id(target)] = [c for c in cur if c is not objs[0]]
        elif what == "remove_self":
            if old_parent is not None:
                want[id(old_parent)] = [c for c in want[id(old_parent)] if c is not target]
        elif what == "clear":
            want[id(target)] = []
        elif what == "replace":
            if old_parent is None:
                refuse = True
            else:
                for k, o in enumerate(objs):
                    if (par[id(o)] is not None and o is not target) or not allowed(o, old_parent) or any(o is q for q in objs[:k]):
                        refuse = True
                if not refuse:
                    sibs = want[id(old_parent)]
                    idx = [k for k, c in enumerate(sibs) if c is target][0]
                    want[id(old_parent)] = sibs[:idx] + objs + sibs[idx + 1:]
        if unspecified:
            continue
        if refuse:
            need(err is not None, f"an edit that must be refused was accepted {where}")
            if single:
                for n in pool:
                    need(_same(kids(n), before[id(n)][0]) and n.parent is before[id(n)][1],
                         f"the refused edit changed {name(n)}: children {_fmt(before[id(n)][0])} -> {_fmt(kids(n))} {where}")
            continue
        need(err is None, f"a legal edit was refused {where}")
        for n in pool:
            need(_same(kids(n), want[id(n)]), f"children of {name(n)} are {_fmt(kids(n))}, expected {_fmt(want[id(n)])} {where}")
        parent_of = {id(c): n for n in pool for c in want[id(n)]}
        for n in pool:
            need(n.parent is parent_of.get(id(n)), f"parent of {name(n)} is {name(n.parent)}, expected {name(parent_of.get(id(n)))} {where}")


# ---------------------------------------------------------------- C03 / C04
def gen_tree(rng):
    return {"kind": "tree", "tree": tree_spec(rng, rng.randint(3, 30)), "seed": rng.randrange(10**6)}


NODE_CLASSES = [c for c in vars(nodes).values() if isinstance(c, type) and issubclass(c, nodes.Node)]


def _links(order):
    return [(id(n), id(n.parent) if n.parent is not None else None, [id(c) for c in kids(n)]) for n in order]


def run_c03(spec):
    rng = random.Random(spec["seed"])
    root = build(spec["tree"])
    order = walk(root)
    before = _links(order)
    for i, n in enumerate(order):
        n.nodeid = rng.choice([i, rng.randrange(5)])
    starts = [root] + [rng.choice(order) for _ in range(3)]
    for s in starts:
        exp = walk(s)
        got = list(s.traverse())
        need(_same(got, exp), f"traverse() of {path_of(s)} gives {_fmt(got)}, expected {_fmt(exp)}")
        for cls in [nodes.Node, nodes.Text, nodes.Step, nodes.Section, nodes.Paragraph, nodes.NodeWithChildren, rng.choice(NODE_CLASSES)]:
            got = list(s.traverse(nodeclass=cls))
            e = [n for n in exp if isinstance(n, cls)]
            need(_same(got, e), f"traverse(nodeclass={cls.__name__}) of {path_of(s)} gives {_fmt(got)}, expected {_fmt(e)}")
        for cond in [lambda n: bool(n.label), lambda n: len(kids(n)) == 1, lambda n: n.nodeid % 2 == 0, lambda n: False, lambda n: n.parent is None]:
            got = list(s.traverse(condition=cond))
            e = [n for n in exp if cond(n)]
            need(_same(got, e), f"traverse(condition) of {path_of(s)} gives {_fmt(got)}, expected {_fmt(e)}")
        for nid in [0, 1, 2, len(order) - 1, 3, 10**6]:
            got = s.get_child_by_id(nid)
            e = next((n for n in exp if n.nodeid == nid), None)
            need(got is e, f"get_child_by_id({nid}) from {path_of(s)} gives {name(got)}, expected {name(e)}")
    need(_links(walk(root)) == before, "traversal modified the tree")


def run_c04(spec):
    rng = random.Random(spec["seed"])
    root = build(spec["tree"])
    order = walk(root)
    before = _links(order)
    picks = order if len(order) <= 12 else rng.sample(order, 12)
    for n in picks:
        ch = kids(n)
        classes = [nodes.Node, nodes.Text, nodes.Step, nodes.Paragraph, nodes.Section, (nodes.Step, nodes.Subproof), (nodes.Text, nodes.Theorem), rng.choice(NODE_CLASSES)]
        for cls in classes:
            hits = [(c, k) for k, c in enumerate(ch) if isinstance(c, cls)]
            f, l = (hits[0], hits[-1]) if hits else ((None, None), (None, None))
            where = f"{name(n)} with children {_fmt(ch)}, class {cls}"
            need(n.first_of_type(cls) is f[0], f"first_of_type wrong for {where}")
            r = n.first_of_type(cls, return_idx=True)
            need(r[0] is f[0] and r[1] == f[1], f"first_of_type(return_idx) gives {r[1]}, expected {f[1]} for {where}")
            need(n.last_of_type(cls) is l[0], f"last_of_type wrong for {where}")
            r = n.last_of_type(cls, return_idx=True)
            need(r[0] is l[0] and r[1] == l[1], f"last_of_type(return_idx) gives {r[1]}, expected {l[1]} for {where}")
        sibs = kids(n.parent) if n.parent is not None else [n]
        i = [k for k, c in enumerate(sibs) if c is n][0]
        for cls in [None, "self", nodes.Node, nodes.Text, nodes.Step, nodes.Paragraph, rng.choice(NODE_CLASSES)]:
            c2 = nodes.Node if cls is None else type(n) if cls == "self" else cls
            p = next((c for c in reversed(sibs[:i]) if isinstance(c, c2)), None)
            q = next((c for c in sibs[i + 1:] if isinstance(c, c2)), None)
            where = f"{name(n)} at index {i} of {_fmt(sibs)}, class {cls}"
            need(n.prev_sibling(cls) is p, f"prev_sibling gives {name(n.prev_sibling(cls))}, expected {name(p)}: {where}")
            need(n.next_sibling(cls) is q, f"next_sibling gives {name(n.next_sibling(cls))}, expected {name(q)}: {where}")
        for cls in [nodes.Manuscript, nodes.Section, nodes.Step, nodes.Node, (nodes.Proof, nodes.Step), (nodes.Section, nodes.Subsection), rng.choice(NODE_CLASSES)]:
            t = cls if isinstance(cls, tuple) else (cls,)
            a = n.parent
            while a is not None and type(a) not in t:
                a = a.parent
            need(n.first_ancestor_of_type(cls) is a, f"first_ancestor_of_type({cls}) of {path_of(n)} gives {name(n.first_ancestor_of_type(cls))}, expected {name(a)}")
    need(_links(walk(root)) == before, "a query modified the tree")


# ---------------------------------------------------------------- transform
def gen_doc(rng, **kw):
    if rng.random() < 0.4:
        return {"kind": "source", "src": gen.Doc(rng, size=rng.randint(1, 9)).source()}
    return {"kind": "doc", "tree": tree_spec(rng, rng.randint(4, 40), **kw)}


def load(spec):
    if spec["kind"] == "source":
        return parse(spec["src"])
    return build(spec["tree"])


PENDING = (nodes.PendingReference, nodes.PendingCite, nodes.PendingPrev)


def prev_target(p):
    """(ok, target) for a PendingPrev, by the text of C06."""
    a = p.parent
    while a is not None and type(a) is not nodes.Step:
        a = a.parent
    if a is None:
        return False, None
    k = int(str(p.target))
    if k < 0:
        raise Skip("negative")
    if k == 0:
        return True, a
    sibs = kids(a.parent) if a.parent is not None else [a]
    i = [j for j, c in enumerate(sibs) if c is a][0]
    prevs = [c for c in sibs[:i] if isinstance(c, nodes.Step)]
    return (True, prevs[-k]) if len(prevs) >= k else (False, None)


def transform(tree, tform=None):
    """Run the transform; an error that C06 prescribes makes the input void for others."""
    bad_prev = False
    for n in walk(tree):
        if isinstance(n, nodes.PendingPrev):
            try:
                int(str(n.target))
            except ValueError:
                raise Skip("not a number")
            ok, _ = prev_target(n)
            bad_prev = bad_prev or not ok
    if bad_prev:
        raise Skip("has a dangling previous reference")
    try:
        (tform or transformer.Transformer()).transform(tree)
    except Exception as ex:
        raise Bad(f"the transform failed: {ex!r}")
    return tree


def in_toc(n):
    while n is not None:
        if isinstance(n, nodes.Contents):
            return True
        n = n.parent
    return False


def run_c05(spec):
    tree = load(spec)
    order = walk(tree)
    owner = {}
    had = []
    for n in order:
        if n.label:
            had.append((n, n.label))
            owner.setdefault(n.label, n)
    if any(isinstance(n, PENDING + (nodes.Error,)) for n in owner.values()):
        raise Skip("a label on a pending node or marker")
    want = []
    for n in order:
        if isinstance(n, nodes.Reference) and in_toc(n):
            continue
        if isinstance(n, nodes.PendingReference):
            t = owner.get(n.target)
            want.append(("ref", t, n.overwrite_reftext) if t is not None else ("unknown", n.target, None))
        elif isinstance(n, nodes.PendingPrev):
            ok, t = prev_target(n)
            want.append(("ref", t, n.overwrite_reftext))
        elif isinstance(n, nodes.PendingCite):
            want.append(("cite", [owner.get(l) if isinstance(owner.get(l), nodes.Bibitem) else None for l in n.targetlabels], list(n.targetlabels)))
        elif isinstance(n, nodes.Error):
            want.append(("error", n, None))
    transform(tree)
    after = walk(tree)
    for n in after:
        need(not isinstance(n, PENDING), f"{name(n)} is still pending")
    got = [n for n in after if (isinstance(n, (nodes.Reference, nodes.Cite, nodes.Error))) and not in_toc(n)]
    need(len(got) == len(want), f"{len(want)} references, citations and markers expected, {len(got)} found: {_fmt(got)}")
    labels = {id(n): l for n, l in had if owner[l] is n}
    for n in after:
        if isinstance(n, nodes.Cite):
            continue
        need(n.label == labels.get(id(n), ""), f"{path_of(n)} ends with label {n.label!r}, expected {labels.get(id(n), '')!r}")
    naming = {}
    for n, w in zip(got, want):
        kind, t, extra = w
        if kind == "ref":
            need(isinstance(n, nodes.Reference), f"a reference became {name(n)}")
            need(n.target is t, f"a reference points at {name(n.target)} {getattr(n.target, 'label', '')!r}, expected {name(t)} {t.label!r}")
            need(n.overwrite_reftext == extra, f"a reference lost its own text {extra!r}: {n.overwrite_reftext!r}")
        elif kind == "unknown":
            need(isinstance(n, nodes.Error) and "unknown label" in n.text and str(t) in n.text, f"no marker for the unknown label {t!r}: {n!r}")
        elif kind == "cite":
            need(isinstance(n, nodes.Cite), f"a citation became {name(n)}")
            need(len(n.targets) == len(t), f"a citation of {extra} has {len(n.targets)} targets")
            for tgt, e, lab in zip(n.targets, t, extra):
                if e is None:
                    need(isinstance(tgt, nodes.UnknownBibitem), f"citation of unknown {lab!r} points at {tgt!r}")
                else:
                    need(tgt is e, f"citation of {lab!r} points at {tgt!r}")
                    naming.setdefault(id(e), []).append(n.label)
            need(bool(n.label), "a citation has no label")
        elif kind == "error":
            need(n is t, "an error marker was replaced")
    cl = [n.label for n in after if n.label]
    need(len(set(cl)) == len(cl), f"labels are not unique: {sorted(l for l in cl if cl.count(l) > 1)}")
    for n in after:
        if isinstance(n, nodes.Bibitem):
            exp = naming.get(id(n), [])
            need(set(n.backlinks) == set(exp) and len(n.backlinks) <= len(exp),
                 f"back-links of {n.label!r} are {n.backlinks}, expected {exp}")


def gen_c06(rng):
    if rng.random() < 0.25:
        return {"kind": "source", "src": gen.Doc(rng, size=rng.randint(1, 5)).source()}
    t = tree_spec(rng, rng.randint(6, 25), refs=False, toc=False)
    st = [t]
    while st:  # some dangling ones
        n = st.pop()
        if rng.random() < 0.03 and n["c"] in ("Paragraph", "Section", "Span", "Step", "Theorem"):
            n.setdefault("ch", []).append({"c": "PendingPrev", "kw": {"target": str(rng.randint(0, 3))}})
        st += n.get("ch", [])
    return {"kind": "doc", "tree": t}


def run_c06(spec):
    tree = load(spec)
    want, ok_all = [], True
    for n in walk(tree):
        if isinstance(n, nodes.PendingPrev):
            try:
                int(str(n.target))
            except ValueError:
                raise Skip("not a number")
            ok, t = prev_target(n)
            ok_all = ok_all and ok
            want.append((t, n.overwrite_reftext, path_of(n)))
    if not want:
        raise Skip("no previous reference")
    others = len([n for n in walk(tree) if isinstance(n, nodes.PendingReference)])
    mine = [n for n in walk(tree) if isinstance(n, (nodes.PendingPrev, nodes.PendingReference))]
    owner = {}
    for n in walk(tree):
        if n.label:
            owner.setdefault(n.label, n)
    isprev = [isinstance(n, nodes.PendingPrev) for n in mine if isinstance(n, nodes.PendingPrev) or n.target in owner]
    try:
        transformer.Transformer().transform(tree)
    except transformer.RSMTransformerError as ex:
        need(not ok_all, f"every previous reference has its step, but the transform stopped: {ex}")
        return
    except Exception as ex:
        raise Bad(f"the transform failed with {ex!r} instead of resolving or its own error")
    need(ok_all, "a previous reference without enough previous steps (or outside of a step) was accepted")
    refs = [n for n in walk(tree) if isinstance(n, nodes.Reference) and not in_toc(n)]
    need(len(refs) == len(isprev), f"{len(isprev)} references expected, {len(refs)} found")
    refs = [r for r, p in zip(refs, isprev) if p]
    for r, (t, txt, where) in zip(refs, want):
        need(r.target is t, f"the previous reference at {where} points at {path_of(r.target) if isinstance(r.target, nodes.Node) else r.target}, expected {path_of(t)}")
        need(r.overwrite_reftext == txt, f"the previous reference at {where} lost its own text")


# The documented counters: class -> (scope class, counter).
THEOREM_KIND = set(THEOREMS)
WITHIN = {"Section": "Manuscript", "Subsection": "Section", "Subsubsection": "Subsection", "MathBlock": "Section",
          "Figure": "Section", "Algorithm": "Manuscript", "Table": "Manuscript", "Bibitem": "Manuscript",
          "UnknownBibitem": "Manuscript", **{k: "Section" for k in THEOREMS}}


def letters(k):
    s = ""
    k += 1
    while k:
        k, r = divmod(k - 1, 26)
        s = chr(ord("A") + r) + s
    return s


def run_c07(spec):
    tree = load(spec)
    before_num = {id(n): n.number for n in walk(tree)}
    template = {id(n): n.reftext_template for n in walk(tree)}
    transform(tree)
    order = [n for n in walk(tree)]
    count = {}
    appendix = False
    scoped = {}
    alive = []
    for n in order:
        k = name(n)
        if in_toc(n):
            alive.append(n)
            continue
        if isinstance(n, nodes.Appendix):
            count["Section in Manuscript"] = 0
            appendix = True
            continue
        if isinstance(n, (nodes.Proof, nodes.Subproof)):
            steps = [c for c in kids(n) if isinstance(c, nodes.Step)]
            i = 0
            for s in steps:
                if s.nonum:
                    scoped[id(s)] = before_num.get(id(s))
                else:
                    i += 1
                    scoped[id(s)] = i
            continue
        if isinstance(n, nodes.Step):
            continue
        if k in WITHIN and not n.nonum:
            fam = "Theorem" if k in THEOREM_KIND else k
            key = f"{fam} in {WITHIN[k]}"
            count[key] = count.get(key, 0) + 1
            if appendix and k == "Section":
                scoped[id(n)] = letters(count[key] - 1)
            else:
                scoped[id(n)] = count[key]
            for other in list(count):
                if other.endswith(" in " + k):
                    count[other] = 0
        elif not isinstance(n, nodes.UnknownBibitem):
            scoped[id(n)] = before_num.get(id(n))
    for n in order:
        if id(n) in scoped:
            need(n.number == scoped[id(n)], f"{path_of(n)} has number {n.number!r}, expected {scoped[id(n)]!r}")

    def anc(n, kinds):
        a = n.parent
        while a is not None and name(a) not in kinds:
            a = a.parent
        return a

    def full(n):
        if isinstance(n, nodes.Manuscript):
            return ""
        if n.nonum:
            return None
        if name(n) == "Step":
            a = anc(n, ("Proof", "Step"))
        else:
            a = anc(n, (WITHIN.get(name(n), "Manuscript"),))
        if a is None:
            a = anc(n, ("Manuscript",))
        if a is not None and full(a):
            return f"{full(a)}.{n.number}"
        return f"{n.number}" if n.number else ""

    logging.disable(logging.CRITICAL)
    try:
        seen_appendix = False
        for n in order:
            if isinstance(n, nodes.Appendix):
                seen_appendix = True
            if isinstance(n, (nodes.BaseReference, nodes.Cite)) or id(n) not in template:
                continue
            need(n.full_number == full(n), f"{path_of(n)} has full number {n.full_number!r}, expected {full(n)!r}")
            tpl = template[id(n)]
            if seen_appendix and isinstance(n, nodes.Section) and not n.nonum and not in_toc(n):
                tpl = tpl.replace("{nodeclass}", "Appendix")
            exp = tpl.format(nodeclass=name(n), number=full(n)).strip()
            need(n.reftext == exp, f"{path_of(n)} has reference text {n.reftext!r}, expected {exp!r}")
    finally:
        logging.disable(logging.NOTSET)


def gen_c08(rng):
    spec = gen_doc(rng)
    spec["again"] = rng.choice([None, None, "append", "prepend", "middle"])
    spec["preset"] = rng.random() < 0.3
    return spec


def run_c08(spec):
    tree = load(spec)
    if spec.get("preset"):
        for i, n in enumerate(walk(tree)):
            n.nodeid = (i * 7) % 5
    tree = transform(tree)
    if spec.get("again"):
        # an edited tree is transformed once more
        extra = nodes.Paragraph()
        extra.append([nodes.Text("new"), nodes.Span()])
        ks = kids(tree)
        if spec["again"] == "append" or not ks:
            tree.append(extra)
        elif spec["again"] == "prepend":
            tree.prepend(extra)
        else:
            x = ks[len(ks) // 2]
            x.replace_self([extra, x])
        tree = transform(tree)
    order = walk(tree)
    for i, n in enumerate(order):
        need(n.nodeid == i, f"{path_of(n)} is number {i} in document order but has id {n.nodeid!r}")
    for i in {0, 1, len(order) - 1, len(order) // 2}:
        if i < len(order):
            need(tree.get_child_by_id(i) is order[i], f"looking up id {i} does not find its node")


def run_c09(spec):
    tree = load(spec)
    order = walk(tree)
    keep = {id(n): n for n in order}
    pend = (nodes.PendingReference, nodes.PendingCite, nodes.PendingPrev)
    before = {id(n): kids(n) for n in order}
    after_order = None
    first_toc = next((n for n in order if isinstance(n, nodes.Contents)), None)
    dropped = [n for n in order if isinstance(n, nodes.Contents) and n is not first_toc]
    transform(tree)

    def resolved(old, new):
        return (new is old) if not isinstance(old, pend) else isinstance(new, (nodes.Reference, nodes.Cite, nodes.Error)) and id(new) not in keep

    def match(old, new, where):
        old = [o for o in old if not any(o is d for d in dropped)]
        need(len(old) == len(new) and all(resolved(o, n) for o, n in zip(old, new)), f"{where}: had {_fmt(old)}, now {_fmt(new)}")

    extra_of = {}
    for n in order:
        if isinstance(n, nodes.Step) and before[id(n)]:
            old = before[id(n)]
            idx = next((i for i, c in enumerate(old) if isinstance(c, (nodes.Step, nodes.Subproof))), None)
            if idx is not None and isinstance(old[idx], nodes.Subproof):
                extra_of[id(old[idx])] = old[idx + 1:]
    for n in order:
        if any(_below_old(n, d, before, order) for d in dropped) or isinstance(n, pend):
            continue
        old, new = before[id(n)], kids(n)
        where = path_of(n)
        if isinstance(n, nodes.Step) and old:
            idx = next((i for i, c in enumerate(old) if isinstance(c, (nodes.Step, nodes.Subproof))), None)
            need(len(new) == (1 if idx is None else 2), f"{where} has children {_fmt(new)}")
            need(type(new[0]) is nodes.Statement and id(new[0]) not in keep, f"{where} does not start with a new statement: {_fmt(new)}")
            match(old if idx is None else old[:idx], kids(new[0]), f"statement of {where}")
            if idx is not None:
                need(type(new[1]) is nodes.Subproof, f"{where} does not end with a subproof: {_fmt(new)}")
                if isinstance(old[idx], nodes.Subproof):
                    need(new[1] is old[idx], f"{where} lost its subproof")
                else:
                    need(id(new[1]) not in keep, f"subproof of {where} is not new")
                    match(old[idx:], kids(new[1]), f"subproof of {where}")
        elif n is first_toc:
            need(len(new) >= len(old), f"{where} lost entries")
        else:
            match(old + extra_of.get(id(n), []), new, where)
    check_links([x for x in walk(tree)])


def _below_old(n, d, before, order):
    stack = [d]
    while stack:
        x = stack.pop()
        if x is n:
            return True
        stack += before[id(x)]
    return False


HANDRAIL = set(THEOREMS) | {"Proof", "Sketch", "Step"}


def run_c10(spec):
    tree = load(spec)
    known = {id(n): n for n in walk(tree)}
    transform(tree)
    for n in walk(tree):
        want = 0
        a = n.parent
        while a is not None:
            want += name(a) in HANDRAIL
            a = a.parent
        if type(n) is nodes.Statement and id(n) not in known and isinstance(n.parent, nodes.Step):
            want += 1
        need(n.handrail_depth == want, f"{path_of(n)} has handrail depth {n.handrail_depth}, expected {want}")
        need(bool(n.has_handrail) == (name(n) in HANDRAIL), f"{name(n)} has_handrail is {n.has_handrail}")


def run_c11(spec):
    tree = load(spec)
    old_tocs = [n for n in walk(tree) if isinstance(n, nodes.Contents)]
    if any(kids(t) for t in old_tocs):
        raise Skip("a table of contents with contents")
    secs_in_toc = any(isinstance(n, nodes.Section) and in_toc(n) for n in walk(tree))
    if secs_in_toc:
        raise Skip("a section in the table of contents")
    transform(tree)
    tocs = [n for n in walk(tree) if isinstance(n, nodes.Contents)]
    if not old_tocs:
        need(not tocs, "a table of contents appeared")
        return
    need(len(tocs) == 1 and tocs[0] is old_tocs[0], f"{len(tocs)} tables of contents are left")
    toc = tocs[0]
    secs = [n for n in walk(tree) if isinstance(n, nodes.Section)]
    refs = [n for n in walk(toc) if isinstance(n, nodes.Reference)]
    need([id(r.target) for r in refs] == [id(s) for s in secs],
         f"the table of contents lists {[getattr(r.target, 'title', r.target) for r in refs]}, the document has {[s.title for s in secs]}")
    items = [n for n in walk(toc) if isinstance(n, nodes.Item)]
    need(len(items) == len(secs), f"{len(items)} entries for {len(secs)} sections")
    item_of = {}
    for r, s in zip(refs, secs):
        exp = f"{s.title}" if s.nonum else f"{s.full_number}. {s.title}"
        need(r.overwrite_reftext == exp, f"the entry of {path_of(s)} reads {r.overwrite_reftext!r}, expected {exp!r}")
        need(isinstance(r.parent, nodes.Item) and kids(r.parent)[0] is r, f"the entry of {path_of(s)} is not an item")
        item_of[id(s)] = r.parent
    for s in secs:
        enc = s.parent
        while enc is not None and not isinstance(enc, nodes.Section):
            enc = enc.parent
        holder = item_of[id(s)].parent
        if enc is None:
            need(holder is toc, f"the entry of {path_of(s)} is not at the top level")
        else:
            need(isinstance(holder, nodes.Itemize) and holder.parent is item_of[id(enc)],
                 f"the entry of {path_of(s)} is not one level below the entry of {path_of(enc)}")


PROPS = {
    "C01": (gen_ops, lambda s: run_ops(s, False)),
    "C02": (gen_ops, lambda s: run_ops(s, True)),
    "C03": (gen_tree, run_c03),
    "C04": (gen_tree, run_c04),
    "C05": (gen_doc, run_c05),
    "C06": (gen_c06, run_c06),
    "C07": (gen_doc, run_c07),
    "C08": (gen_c08, run_c08),
    "C09": (gen_doc, run_c09),
    "C10": (gen_doc, run_c10),
    "C11": (gen_doc, run_c11),
}
