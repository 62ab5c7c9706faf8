#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays well-formed)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=observe, hook_needed=None)))

p("C01", "Parent and child links of the document tree always agree",
  "After any sequence of edits to a document tree (append, prepend, remove, replace, clear, detach), including edits that are refused with an error, every node listed among a node's children is listed there exactly once, under no other node, and names that node as its parent; and every node that names a parent is listed among that parent's children. A node never ends up under a parent whose type its class does not allow. (Edits that would place a node beneath itself are outside the guarantee.)",
  ["histories", "inputs"], "every tree, every node class, every finite sequence of edits, accepted or refused",
  "the tests exercise a handful of two- or three-node trees and never inspect the tree after a refused edit; the guarantee ranges over all histories of edits",
  ["rsm/nodes.py"],
  [("parent setter, allowed parent types", "rsm/nodes.py Node.parent"), ("append/prepend/remove/clear", "rsm/nodes.py NodeWithChildren"), ("replace_self/remove_self", "rsm/nodes.py Node")],
  ["node.parent and node.children after each edit"],
  [("parent link / child list", "the two halves of every tree edge", "rsm/nodes.py Node._parent, NodeWithChildren._children")])

p("C02", "Every tree edit changes exactly what it says, in order",
  "Appending adds the given nodes, in the given order, after the existing children; prepending adds them, in the given order, before the existing children; removing takes out exactly the given node; replacing a node puts the replacement node or nodes, in order, exactly where that node was; clearing detaches all children. The remaining children keep their order, no other node anywhere is affected, and an edit of a single node that is refused leaves the tree as it was.",
  ["histories", "inputs"], "every tree, every edit operation and every argument (single node or sequence of nodes)",
  "the tests check a few fixed trees; position and frame conditions have to hold for every tree shape, position and replacement length",
  ["rsm/nodes.py"],
  [("append/prepend/remove/clear", "rsm/nodes.py NodeWithChildren"), ("replace_self/remove_self", "rsm/nodes.py Node")],
  ["children of the edited parent and of every other node, before and after"])

p("C03", "Traversal visits every descendant exactly once, in document order",
  "Traversing from any node of a tree yields that node and each of its descendants exactly once, parents before children and siblings in order; with a class filter it yields exactly the visited nodes that are instances of that class, and with a condition exactly those that satisfy it, in the same order. Looking a node up by its id from some ancestor returns the first node in that order carrying the id, or nothing.",
  ["inputs"], "every tree of every depth and width, every starting node, class filter and condition",
  "tests compare the traversal of two fixed trees; order, completeness and the absence of duplicates are claims about all trees",
  ["rsm/nodes.py"], [("traverse", "rsm/nodes.py Node.traverse"), ("get_child_by_id", "rsm/nodes.py Node.get_child_by_id")],
  ["sequence of yielded nodes"])

p("C04", "Sibling, child and ancestor queries return the right node",
  "Asking a node for its first or last child of a type, its previous or next sibling (of a type, of its own type, or of any type), or its closest ancestor of an exact type returns precisely the node the question describes, or nothing when there is none, and the reported child index is that child's position. The queries never modify the tree.",
  ["inputs"], "every tree, every node in it, every class or tuple of classes asked for",
  "tests ask a few questions of a few trees, mostly where the answer is an adjacent node; 'closest' and 'none in between' are universally quantified",
  ["rsm/nodes.py"], [("first_of_type/last_of_type", "rsm/nodes.py Node"), ("prev_sibling/next_sibling", "rsm/nodes.py Node"), ("first_ancestor_of_type", "rsm/nodes.py Node")],
  ["return value compared with the definition over children/parent links"])

p("C05", "Labels are unique and every reference and citation is resolved",
  "After the transform step each label belongs to the first node (in document order) that claimed it and later claimants have lost theirs; every cross-reference points at the node carrying its label, or is replaced by a visible 'unknown label' marker when there is none; every citation points, label by label and in order, at the bibliography items it names or at an unknown-item placeholder, and each bibliography item's back-links list exactly the citations naming it. No pending reference or citation remains, and neither duplicate nor dangling labels crash the transform.",
  ["inputs"], "every document tree, every assignment of labels, every set of references and citations",
  "tests use documents with one or two references; uniqueness, first-wins and completeness quantify over all documents",
  ["rsm/transformer.py"], [("collect_labels", "rsm/transformer.py Transformer.collect_labels"), ("resolve_pending_references", "rsm/transformer.py Transformer.resolve_pending_references")],
  ["transformed tree"], [("label map", "label to owning node", "rsm/transformer.py Transformer.labels_to_nodes")])

p("C06", "A 'previous step' reference points exactly that many steps back",
  "Every 'previous step' reference inside a proof step resolves to the step that stands exactly the requested number of steps before the enclosing step among its siblings. If there are not that many previous steps, or the reference is not inside a step, the transform stops with its own error instead of producing a wrong link.",
  ["inputs"], "every proof structure, nesting and requested distance",
  "tests cover distances 1 to 3 in a flat proof",
  ["rsm/transformer.py", "rsm/nodes.py"], [("PendingPrev branch", "rsm/transformer.py Transformer.resolve_pending_references"), ("prev_sibling/first_ancestor_of_type", "rsm/nodes.py Node")],
  ["reference target in the transformed tree"])

p("C07", "Automatic numbering is consecutive within its scope",
  "Within each scope (from one numbered node of the kind's scope class to the next in document order: section, subsection, proof, step, or whole manuscript, as the kind prescribes) automatically numbered nodes of a kind that share a counter are numbered 1, 2, 3, ... in document order, unnumbered nodes neither receive nor consume a number, and after an appendix marker sections are lettered A, B, C, ... . A node's full number is its enclosing scope's full number, a dot, and its own number (just its own number when the scope has none), and its reference text is its template filled with its kind and full number.",
  ["inputs"], "every document tree with any nesting and interleaving of numbered kinds, unnumbered nodes and an appendix marker",
  "tests number a few small documents; consecutive, gap-free, per-scope numbering is a statement about all interleavings",
  ["rsm/transformer.py", "rsm/nodes.py"], [("autonumber_nodes", "rsm/transformer.py Transformer.autonumber_nodes"), ("full_number/reftext", "rsm/nodes.py Node")],
  ["node.number, node.full_number and node.reftext after transform"])

p("C08", "Node ids are 0, 1, 2, ... in document order",
  "After the transform step the nodes of the document carry the ids 0, 1, 2, ... in document order, so ids are unique, gap-free and every node has one, and looking up an id finds its node.",
  ["inputs"], "every document tree",
  "no test looks at the ids of a whole tree",
  ["rsm/transformer.py", "rsm/nodes.py"], [("assign_node_ids", "rsm/transformer.py Transformer.assign_node_ids")], ["node.nodeid after transform"])

p("C09", "Proof steps are split into a statement and at most one subproof",
  "After the transform step every non-empty proof step has exactly a statement, followed by a subproof if the step had sub-steps or an explicit subproof. The statement holds what preceded the first sub-step or subproof and the subproof holds the rest, in the original order, so that nothing in a step is lost, duplicated or reordered; everything outside steps is left alone.",
  ["inputs"], "every nesting of steps, sub-steps, subproofs and other content (an explicit subproof being last in its step)",
  "tests cover three shapes of step",
  ["rsm/transformer.py"], [("add_necessary_subproofs", "rsm/transformer.py Transformer.add_necessary_subproofs")], ["children of each step before and after"])

p("C10", "Handrail depth counts the enclosing nodes that have a handrail",
  "After the transform step the handrail depth of every node equals the number of its proper ancestors that are rendered with a handrail (plus one for the statement part of a proof step), for every nesting of theorems, proofs, sketches and steps.",
  ["inputs"], "every document tree",
  "tests look at the generated HTML of a few documents only",
  ["rsm/transformer.py"], [("add_handrail_depth", "rsm/transformer.py Transformer.add_handrail_depth")], ["node.handrail_depth after transform"])

p("C11", "The table of contents lists every section once, in order",
  "If a document asks for a table of contents, the transform leaves exactly one, holding one entry per section, subsection and subsubsection in document order, each entry linking to its section and showing its title, preceded by its full number when it is numbered. Each entry sits one level below the entry of the closest section that encloses it.",
  ["inputs"], "every document with any number, nesting and numbering of sections and any number of requests for a table of contents",
  "tests build tables of contents for two documents",
  ["rsm/transformer.py"], [("make_toc", "rsm/transformer.py Transformer.make_toc")], ["subtree of the table of contents"])

p("C12", "Plain HTML output is well nested for every document",
  "For every transformed document the plain HTML output has properly nested, matching opening and closing tags, whatever classes of nodes it contains and however they are combined in a document the parser can produce. Translating never fails with an internal error on such a document.",
  ["inputs"], "every document tree the parser and transformer can produce; every combination of optional titles, labels, numbers, types and metadata; text, math and code taken as opaque",
  "tests compare the output of fixed documents; well-nestedness depends on every visit/leave pair and on combinations such as display math at the start, middle or end of a paragraph",
  ["rsm/translator.py"], [("visit_*/leave_* pairs", "rsm/translator.py Translator"), ("deferred commands", "rsm/translator.py Translator.translate")], ["returned HTML"])

p("C13", "HTML output with handrails is well nested for every document",
  "For every transformed document the HTML output with handrails has properly nested, matching opening and closing tags, whatever classes of nodes it contains and however they are combined in a document the parser can produce. Translating never fails with an internal error on such a document.",
  ["inputs"], "as for C12, for the handrails output and every combination of its options",
  "as for C12; the handrail wrappers additionally splice closing pieces at fixed positions of deferred batches",
  ["rsm/translator.py"], [("visit_*/leave_* overrides", "rsm/translator.py HandrailsTranslator")], ["returned HTML"])

p("C14", "Translation renders each node once, in order, and closes it last-in-first-out",
  "Translating a document renders every node of the tree exactly once, in document order, with everything a node defers to its closing emitted after all of its descendants and before its next sibling. Nothing deferred is left over, and a translator that has already translated other documents produces the same output as a fresh one.",
  ["inputs", "histories"], "every tree and every history of earlier successful translations with the same translator",
  "tests translate one document per translator and compare fixed outputs",
  ["rsm/translator.py"], [("translate work stack", "rsm/translator.py Translator.translate"), ("method lookup by class", "rsm/translator.py Translator.get_action_method"), ("command execution", "rsm/translator.py AppendBatchAndDefer.execute")], ["body and deferred commands"])

p("C15", "Unescaping removes exactly the backslashes before special characters",
  "Unescaping a text removes a backslash exactly where it stands directly before one of the designated special characters, and changes nothing else: every other character, including every other backslash, is kept in order. Text containing no such pair is returned unchanged.",
  ["inputs"], "every string and every set of special characters that does not contain the backslash",
  "tests unescape a few short strings",
  ["rsm/util.py"], [("EscapedString.escape", "rsm/util.py EscapedString")], ["returned string"])

p("C16", "Escape-aware search finds the first unescaped occurrence",
  "Searching an escaped text for one of its special characters returns the position of the first occurrence, within the requested bounds, that is not directly preceded by a backslash; when there is none, the search operation reports -1 and the index operation raises a value error. With the escape handling switched off, or for any other search string, the result is that of the ordinary string operation.",
  ["inputs"], "every string, special-character set, search string and non-negative bounds",
  "tests try a handful of short strings",
  ["rsm/util.py"], [("EscapedString.find/index", "rsm/util.py EscapedString")], ["returned index or exception"])

p("C17", "Applications run their stages in order with the options given",
  "Running an application feeds each stage the result of the stage before it, in the order the stages were added, and returns the last result; a parse error is logged and yields an empty result. Exactly one of a source string and a source path must be given, both ways of giving the same text lead to the same stages, and every option given to the render, lint and make entry points and to the command line (handrails, embedded source, linting, log level and log format options) reaches the component it configures, except that linting fixes its own log level.",
  ["inputs", "configurations"], "every list of stages and stage results; every combination of options",
  "tests run a few option combinations and look at the output of fixed documents",
  ["rsm/app.py", "rsm/cli.py", "rsm/reader.py"], [("Pipeline.run/add_task/pop_task", "rsm/app.py Pipeline"), ("option plumbing", "rsm/app.py RSMApp, ParserApp, LinterApp, ProcessorApp, FullBuildApp, render, lint, make"), ("command line", "rsm/cli.py main")], ["calls made to stages and components"])

p("C18", "Logging is configured as asked and log records are rendered faithfully",
  "Configuring logging leaves exactly one handler on the package logger, with the formatter named by the requested format and at a level that lets through every record at or above the requested level (a level below DEBUG counts as DEBUG); no earlier handler survives. Formatted records carry the record's message and level, carry a time stamp and a source location only when those are enabled, and the lint format reports the record's own row and column (1:1 when it has none).",
  ["configurations", "histories", "inputs"], "every level, format and option combination, repeated any number of times; every log record",
  "tests check two formats at one level",
  ["rsm/rsmlogger.py"], [("config_rsm_logger", "rsm/rsmlogger.py"), ("formatters", "rsm/rsmlogger.py RSMFormatter, JSONFormatter, LintFormatter"), ("GatherHandler", "rsm/rsmlogger.py GatherHandler")], ["handlers, levels, formatted output"])

p("C19", "The linter reports exactly the documented problems and changes nothing",
  "Linting a document reports a missing manuscript title, every section without a label and every display-math block whose direct parent is not a paragraph, once each, in document order within each kind, at the node's own (one-based) position, and reports nothing else. It returns the very tree it was given, unmodified.",
  ["inputs"], "every document tree",
  "tests lint a few fixed sources",
  ["rsm/linter.py"], [("lint_* checks", "rsm/linter.py Linter")], ["emitted lint records and returned tree"])

p("C20", "The built page wraps the translated body unchanged, with its title and assets",
  "Building a page produces a single HTML document that contains the translated body unchanged (up to surrounding white space), a head whose title is the text of the body's first top-level heading (empty when there is none) and nothing after the body but the closing of the document. The required assets are exactly the sources referenced from the body, and every packaged script and style sheet and every required asset is copied into the static folder under its own name.",
  ["inputs"], "every translated body and every set of asset files",
  "tests build one page",
  ["rsm/builder.py", "rsm/manuscript.py", "rsm/writer.py"], [("make_main_file/_extract_title/find_required_assets", "rsm/builder.py"), ("mount_static/mount_required_assets", "rsm/builder.py FullBuilder")], ["files written to the web manuscript"])

p("C21", "Metadata given for a node is stored on that node and nothing else changes",
  "Giving a node a dictionary of metadata sets exactly the named attributes to the given values, with the reference text stored as the node's reference template, and changes no other attribute of that node or of any other node. The metadata keys a class accepts are its own plus those of all its ancestors.",
  ["inputs"], "every node class, every metadata dictionary",
  "tests ingest two dictionaries",
  ["rsm/nodes.py"], [("ingest_dict_as_meta", "rsm/nodes.py Node.ingest_dict_as_meta"), ("metakeys", "rsm/nodes.py Node.metakeys")], ["attributes of the node before and after"])

p("C22", "Processing one document never influences the processing of another",
  "Processing a document (parse, transform, lint, translate) leaves no trace in the package: any later document is processed exactly as in a fresh interpreter, and processing the same document again, with new or with the same components, gives the same result. Newly created instances never share mutable attributes, and class-level and module-level data are never modified by processing.",
  ["histories", "inputs"], "every history of earlier documents and every document processed afterwards",
  "tests process one document per test and never compare with a fresh interpreter",
  ["rsm/nodes.py", "rsm/transformer.py", "rsm/translator.py", "rsm/tsparser.py", "rsm/util.py", "rsm/linter.py", "rsm/app.py"],
  [("per-run state in instances", "rsm/transformer.py Transformer.transform, rsm/translator.py Translator.translate, rsm/tsparser.py TSParser.parse"), ("fresh mutable attributes", "rsm/nodes.py constructors")], ["class- and module-level data, outputs of repeated runs"])

p("C23", "Text normalisation never loses, duplicates or reorders an author's text",
  "Normalising a parsed tree merges adjacent text and adjusts white space and escapes, but keeps every non-space character of the author's text exactly once and in document order: the only differences are white space, removed escape backslashes, and the keyword inserted at the front of each proof construct. Verbatim text (math, code, algorithms) is not unescaped, and every non-text node keeps its place.",
  ["inputs"], "every parsed tree: any runs of text, nested inline markup, constructs and verbatim nodes",
  "tests compare a few sources with fixed outputs",
  ["rsm/tsparser.py", "rsm/util.py", "rsm/nodes.py"], [("_normalize_text", "rsm/tsparser.py _normalize_text")], ["concatenated text of the tree before and after"])

p("C24", "Parsing any source text yields a document or the parser's own error",
  "For every input text, parsing terminates and either returns a document tree or raises the parser's own error; malformed regions show up as error markers and never as an internal crash.",
  ["inputs"], "every source text",
  "tests parse a fixed set of sources",
  ["rsm/tsparser.py"], [("TSParser.parse/_abstractify", "rsm/tsparser.py")], ["result or exception of parsing"])

p("C25", "Interactive page behaviour matches the document structure",
  "In the browser, collapsing, keyboard navigation, tooltips and the mini-map act on exactly the elements that correspond to the document structure.",
  ["inputs", "schedules"], "every rendered document and every sequence of user events",
  "there are no automated tests of the browser scripts",
  ["rsm/static/onload.js"], [("browser scripts", "rsm/static/*.js")], ["DOM after user events"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P))
