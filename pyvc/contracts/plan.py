"""Which contracts decide which property."""
from contracts import nodes_edit, nodes_query, order, tform, lint, compose, numbering, escapes, apps, emit, workloop, refs, split, growth, toc, wholes, meta as metadata

PY = "Python 3.12 semantics of the constructs used, as implemented by the interpreter in pyvc (integers are mathematical integers)"
TREES = "documents are finite and acyclic (edits that would place a node beneath itself are outside the guarantee); preorder functions exist for finite trees"
TYPES = "attributes hold values of their declared types; node classes and class attributes are as the imported package reports them"


def install(it):
    for m in (nodes_edit, nodes_query, tform, lint, numbering, escapes):
        for c in m.CONTRACTS:
            it.contracts[c.qual] = c
        if hasattr(m, "install"):
            m.install(it)


def contracts(it, cs):
    return [(c.qual, (lambda c=c: c.verify(it))) for c in cs]


def by(*names):
    return [c for c in tform.CONTRACTS if type(c).__name__ in names]


def LEMMAS(it):
    return [("document order", lambda: order.verify_lemmas(it))]


def units(prop, it):
    meta = {"functions": [], "trusted": [PY, TYPES], "bounded": []}
    E, Q = nodes_edit.CONTRACTS, nodes_query.CONTRACTS
    if prop in ("C01", "C02"):
        u = contracts(it, E)
    elif prop == "C03":
        meta["trusted"].append(TREES)
        u = contracts(it, [c for c in Q if isinstance(c, (nodes_query.Traverse, nodes_query.ChildById))])
    elif prop == "C04":
        meta["trusted"].append(TREES)
        u = contracts(it, [c for c in Q if not isinstance(c, (nodes_query.Traverse, nodes_query.ChildById))])
    elif prop in ("C05", "C06"):
        meta["trusted"] += [TREES, "back-links start out empty, each in a list of its own; the labels of a citation are in a list of their own", "the distance of a :previous: reference is a numeral; pending nodes and errors carry no label", "decimal numerals of different numbers differ", "lists of labels keep their contents in phases that do not mention them"]
        r = refs.Resolve()
        u = LEMMAS(it) + contracts(it, by("Labels")) + [("resolving", lambda: r.verify(it)), ("transform", lambda: refs.References(prop).verify(it))]
    elif prop == "C09":
        meta["trusted"] += [TREES, "lists of types are no node's list of children"]
        u = LEMMAS(it) + split.units(it) + wholes.units(it, prop)
    elif prop == "C11":
        meta["trusted"] += [TREES, "lists of types are no node's list of children", "full_number is a function of the node (its contract is decided under C07)"]
        u = LEMMAS(it) + [("growing", lambda: growth.TraverseGrowing().verify(it)), ("table of contents", lambda: toc.Toc().verify(it))] + wholes.units(it, prop)
    elif prop == "C07":
        meta["bounded"].append("Transformer._appendix_letters: first 20000 values of the real generator compared with the bijective base-26 names")
        st, au = numbering.Steps(), numbering.Autonumber()
        u = LEMMAS(it) + contracts(it, [st, au]) + contracts(it, [numbering.FullNumber(), numbering.FullNumberRoot(), numbering.Reftext()]) + [
            ("letters", lambda: numbering.letters_bounded(it)), ("consecutive numbers", lambda: au.lemma(it)), ("transform", lambda: numbering.Numbers(prop).verify(it))]
    elif prop in ("C15", "C16"):
        meta["trusted"].append("built-in str: find of one character (first position in the clamped bounds or -1), replace of backslash+character by the character (occurrences cannot overlap), indexing, len; other str operations uninterpreted; sets enumerate their elements once in any order")
        u = contracts(it, [escapes.Escape()] if prop == "C15" else [escapes.Find(), escapes.Index()])
    elif prop == "C17":
        meta["trusted"].append("argparse: an accepted command line gives each option's destination the value of its action or its default; open/read return the file's text; constructors of the components (TSParser, FullBuilder, Writer, ...) outside the option plumbing; stage names differ from the application's own attributes")
        u = apps.units(it)
    elif prop in ("C12", "C13"):
        u = emit.Nesting(emit.TRANSLATORS[prop == "C13"], prop).units(it)
    elif prop == "C14":
        u = [(f"work loop of {t}", lambda t=t: workloop.WorkLoop(t).verify(it)) for t in emit.TRANSLATORS]
        for t in emit.TRANSLATORS:
            u += emit.Phases(t, prop).units(it)
    elif prop == "C21":
        meta["trusted"].append("setattr with a run-time name stores a plain attribute (checked: no accepted key is a property or method); the given dictionary does not itself name reftext_template; metakeys is decided for every class of the package, not for classes users may add")
        u = metadata.units(it)
    elif prop == "C19":
        u = LEMMAS(it)[:0] + contracts(it, lint.CONTRACTS + [lint.INIT])
    elif prop == "C08":
        u = LEMMAS(it) + contracts(it, by("NodeIds")) + [("transform", lambda: compose.Ids(prop).verify(it))]
    elif prop == "C10":
        hd = by("HandrailDepth")[0]
        u = LEMMAS(it) + contracts(it, [hd]) + [("counting lemma", lambda: hd.lemma(it))]
        st, cp = compose.Statements(), compose.Depth(prop)
        u += [("any-edit traversal", lambda: nodes_query.TraverseAny().verify(it)), ("splitting", lambda: st.verify(it)),
              ("constructors", lambda: cp.constructors(it)), ("transform", lambda: cp.verify(it))] + contracts(it, by("NodeIds"))
    else:
        raise SystemExit(f"no contracts for {prop}")
    return u, meta
