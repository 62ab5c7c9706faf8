N, T, X, U = "rsm/nodes.py", "rsm/transformer.py", "rsm/translator.py", "rsm/util.py"
s("lookup-id-falsy", "C03", N, """        for node in self.traverse(condition=lambda n: n.nodeid == nodeid):
            return node
        else:
            return None
""", """        if not nodeid:
            return None
        for node in self.traverse(condition=lambda n: n.nodeid == nodeid):
            return node
        return None
""", "looking up the id 0, i.e. the root of a transformed document", "the node with id 0 is never found", """
r = nodes.Manuscript(); r.append(nodes.Paragraph())
for i, n in enumerate(r.traverse()): n.nodeid = i
check(r.get_child_by_id(0) is r, "root not found by its id")
""")
s("ancestor-tuple-isinstance", "C04", N, """            all(type(ancestor) is not c for c in cls)
            if isinstance(cls, tuple)
""", """            not isinstance(ancestor, cls)
            if isinstance(cls, tuple)
""", "an ancestor query with a tuple of classes and a nearer ancestor that is a proper subclass of one of them",
 "the closest ancestor of an exact type is confused with an instance of a subclass", """
s, ss, t = nodes.Section(), nodes.Subsection(), nodes.Theorem()
s.append(ss); ss.append(t)
check(t.first_ancestor_of_type((nodes.Section, nodes.Proof)) is s, "wrong ancestor")
""")
s("unknown-label-cached", "C05", T, """            return default(f'[unknown label "{label}"]')
""", """            self.labels_to_nodes[label] = default(f'[unknown label "{label}"]')
            return self.labels_to_nodes[label]
""", "two references to the same unknown label in one document", "the second reference cannot be replaced by the marker that is already in the tree, so the transform crashes", """
r = nodes.Manuscript(); p = nodes.Paragraph(); r.append(p)
p.append([nodes.PendingReference("zz"), nodes.Text(" and "), nodes.PendingReference("zz")])
try:
    Transformer().transform(r)
except Exception as e:
    check(False, repr(e))
check([type(c) for c in p.children] == [nodes.Error, nodes.Text, nodes.Error])
check(all(c.parent is p for c in p.children))
""")
s("backlinks-once", "C05", T, """                for tgt in targets:
                    tgt.backlinks.append(cite.label)
""", """                for tgt in targets:
                    if not tgt.backlinks:
                        tgt.backlinks = [cite.label]
                    elif tgt.backlinks[-1][:-1] != cite.label[:-1]:
                        tgt.backlinks.append(cite.label)
""", "the same bibliography item cited by two citations whose generated labels differ in the last digit only", "back-links of a bibliography item are incomplete", """
r = nodes.Manuscript(); p = nodes.Paragraph(); bib = nodes.Bibliography(); it = nodes.Bibitem(label="k")
bib.append(it); r.append([p, bib])
p.append([nodes.PendingCite(["k"]), nodes.Text("x"), nodes.PendingCite(["k"])])
Transformer().transform(r)
labs = [n.label for n in r.traverse(nodeclass=nodes.Cite)]
check(it.backlinks == labs, f"{it.backlinks} {labs}")
""")
s("prev-check-after-loop", "C06", T, """                    target = target.prev_sibling(nodes.Step)
                    if target is None:
                        raise RSMTransformerError(
                            f"Did not find previous {pending.target} step(s)"
                        )
""", """                    earlier = target.prev_sibling(nodes.Step)
                    if earlier is None and target is step:
                        raise RSMTransformerError(
                            f"Did not find previous {pending.target} step(s)"
                        )
                    target = earlier or target
""", "a 'previous step' reference that reaches back further than the steps there are, from a step that is not the first", "the reference silently points at the first step instead of stopping with the transformer's error", """
from rsm.transformer import RSMTransformerError
r = nodes.Manuscript(); pf = nodes.Proof(); r.append(pf)
a, b = nodes.Step(label="a"), nodes.Step(label="b"); pf.append([a, b])
a.append(nodes.Text("one")); b.append(nodes.PendingPrev("3"))
try:
    Transformer().transform(r)
    check(False, "no error")
except RSMTransformerError:
    pass
""")
s("nonum-section-resets", "C07", T, """            if node.autonumber and not node.nonum:
                counts[type(node)] = defaultdict(lambda: count(start=1))
                num""", """            if node.autonumber:
                counts[type(node)] = defaultdict(lambda: count(start=1))
            if node.autonumber and not node.nonum:
                num""", "an unnumbered section between two numbered theorems of the same numbered section", "an unnumbered node resets the counters of its scope, so two theorems get the same number", """
r = nodes.Manuscript(); s1 = nodes.Section(); s2 = nodes.Section(nonum=True); t1, t2 = nodes.Theorem(), nodes.Theorem()
s1.append(t1); s2.append(t2); r.append([s1, s2]); Transformer().transform(r)
check((t1.number, t2.number) == (1, 2), f"{t1.number} {t2.number}")
""")
s("full-number-type", "C07", N, """        ancestor = self.first_ancestor_of_type(self.number_within)
        if not ancestor:
""", """        ancestor = self.first_ancestor_of_type(self.number_within)
        if ancestor and ancestor.nonum:
            ancestor = ancestor.first_ancestor_of_type(ancestor.number_within)
        if not ancestor:
""", "a theorem in an unnumbered subsection-like scope whose outer scope is numbered", "the full number of a node in an unnumbered scope borrows the number of a scope it is not counted in", """
r = nodes.Manuscript(); s1 = nodes.Section(); sub = nodes.Subsection(nonum=True); q = nodes.Subsubsection()
s1.append(sub); sub.append(q); r.append(s1); Transformer().transform(r)
check(q.full_number == f"{q.number}", q.full_number)
""")
s("subproof-only-steps", "C09", T, """                subproof.append(children[split_at_idx:])
""", """                subproof.append(
                    [c for c in children[split_at_idx:] if isinstance(c, nodes.Step)]
                )
""", "a step with a sub-step followed by something that is not a step", "content after the first sub-step is lost", """
r = nodes.Manuscript(); pf = nodes.Proof(); st = nodes.Step(); sub = nodes.Step(); par = nodes.Paragraph()
sub.append(nodes.Text("s")); par.append(nodes.Text("x")); st.append([nodes.Text("a"), sub, par]); pf.append(st); r.append(pf)
Transformer().transform(r)
check(par in list(r.traverse()) and any(n is par for n in r.traverse()), "content lost")
""")
s("handrail-depth-assigned", "C10", T, """                desc.handrail_depth += 1
""", """                desc.handrail_depth = node.handrail_depth + 1
""", "the statement part of a proof step", "the extra level of a statement is lost", """
r = nodes.Manuscript(); pf = nodes.Proof(); st = nodes.Step(); st.append(nodes.Text("x")); pf.append(st); r.append(pf)
Transformer().transform(r)
check(st.children[0].handrail_depth == 3, st.children[0].handrail_depth)
""")
s("toc-last-kept", "C11", T, """                if toc is None:
                    toc = node
                else:
""".replace("                if", "            if").replace("                    toc", "                toc").replace("                else", "            else"), """            if toc is None or toc.parent is not node.parent:
                toc = node
            else:
""", "two requests for a table of contents under different parents", "more than one table of contents remains", """
r = nodes.Manuscript(); s1 = nodes.Section(title="A"); s1.append(nodes.Contents()); r.append([nodes.Contents(), s1])
Transformer().transform(r)
check(len(list(r.traverse(nodeclass=nodes.Contents))) == 1, "several tables of contents")
""")
s("span-merged-tags", "C12", X, """        commands = [
            AppendOpenTag(tag, newline_inner=False, newline_outer=False)
            for attr, tag in nodes.Span.attr_to_tag.items()
            if getattr(node, attr)
        ]
""", """        tags = [tag for attr, tag in nodes.Span.attr_to_tag.items() if getattr(node, attr)]
        commands = [
            AppendTextAndDefer(
                "".join(f"<{t}>" for t in tags), "".join(f"</{t}>" for t in tags)
            )
        ] if tags else []
""", "a span that is both strong and emphasised", "inline tags are closed in the wrong order", """
r = nodes.Manuscript(); p = nodes.Paragraph(); sp = nodes.Span(strong=True, emphas=True); sp.append(nodes.Text("q"))
p.append(sp); r.append(p); Transformer().transform(r)
h = Translator().translate(r)
check("<strong><em>q</em></strong>" in h, h)
""")
s("unescape-until-stable", "C15", U, """            ret = ret.replace(f"\\\\{char}", char)
""", """            while f"\\\\{char}" in ret:
                ret = ret.replace(f"\\\\{char}", char)
""", "two or more backslashes in front of a special character", "backslashes that do not stand directly before a special character are removed too", """
from rsm.util import EscapedString
check(EscapedString("a\\\\\\\\:b", ":").escape() == "a\\\\:b", "too many backslashes removed")
""")
s("find-drops-end", "C16", U, """            index = self._src.find(sub, index + 1, end)
            if index < 0:
                return index
""", """            index = self._src.find(sub, index + 1)
            if index < 0:
                return index
""", "an escaped occurrence inside the bounds followed by an unescaped one outside of them", "the end bound is ignored after an escaped occurrence", """
from rsm.util import EscapedString
check(EscapedString("\\\\: b : c", ":").find(":", 0, 4) == -1, "found beyond the end")
""")
s("pipeline-falsy-result", "C17", "rsm/app.py", """            elif res is None:
                res = call()
""", """            elif not res:
                res = call()
""", "a stage that returns an empty string, zero or another falsy value that is not None", "the result of a stage is not handed to the next stage", """
from rsm.app import Pipeline, Task
got = []
Pipeline([Task("a", None, lambda: ""), Task("b", None, lambda *x: got.append(x) or "r")]).run()
check(got == [("",)], got)
""")
s("log-level-clamped", "C18", "rsm/rsmlogger.py", """    for h in logger.handlers:
        if h.level > level:
            h.setLevel(level)
""", """    for h in logger.handlers:
        if h.level > level and level >= logging.INFO:
            h.setLevel(level)
""", "the debug level is requested", "records at the requested level are not let through", """
from rsm.rsmlogger import config_rsm_logger
L = logging.getLogger("RSM"); config_rsm_logger(logging.DEBUG)
check(len(L.handlers) == 1 and L.handlers[0].level <= logging.DEBUG, "handler drops debug records")
""")
s("lint-nearest-paragraph", "C19", "rsm/linter.py", """            if not isinstance(block.parent, nodes.Paragraph):
""", """            if not isinstance(block.parent, (nodes.Paragraph, nodes.Statement)):
""", "display math directly inside the statement of a proof step", "a display-math block whose direct parent is not a paragraph goes unreported", """
from rsm.linter import Linter
class H(logging.Handler):
    def __init__(s): super().__init__(); s.r = []
    def emit(s, r): s.r.append(r)
h = H(); L = logging.getLogger("RSM"); L.addHandler(h); L.setLevel(10)
r = nodes.Manuscript(title="t"); pf = nodes.Proof(); st = nodes.Step(); st.append([nodes.Text("x"), nodes.MathBlock()]); pf.append(st); r.append(pf)
Transformer().transform(r); Linter().lint(r)
check(len([x for x in h.r if x.levelno == 25]) == 1, "not reported")
""")
s("title-last-heading", "C20", "rsm/builder.py", """        mobj = re.search(r"<h1>(.*?)</h1>", self.body)
""", """        mobj = re.search(r"<h1>(.*)</h1>", self.body)
""", "a body with two top-level headings on one line", "the page title runs on to the last heading", """
from rsm.builder import SingleFileBuilder
b = SingleFileBuilder(); w = b.build("<h1>One</h1> x <h1>Two</h1>")
check("<title>One</title>" in w.html, "wrong title")
""")
s("meta-skips-falsy", "C21", N, """            setattr(self, str(key), value)
""", """            if value or not hasattr(self, str(key)):
                setattr(self, str(key), value)
""", "metadata that sets an attribute to an empty or false value over a non-empty one", "the given value is not stored", """
p = nodes.Paragraph(label="a", nonum=True); p.ingest_dict_as_meta({"label": "", "nonum": False})
check(p.label == "" and p.nonum is False, "values not stored")
""")
s("shared-targets", "C22", N, """    def __init__(self, targetlabels: Optional[list[str]] = None, **kwargs: Any) -> None:
        super().__init__(**kwargs)
        self.targetlabels = targetlabels or []
""", """    def __init__(self, targetlabels: list[str] = [], **kwargs: Any) -> None:
        super().__init__(**kwargs)
        self.targetlabels = targetlabels
""", "two citations created without labels, one of which is given labels in place", "instances share a mutable attribute", """
a, b = nodes.PendingCite(), nodes.PendingCite(); a.targetlabels.append("x")
check(b.targetlabels == [], "shared list")
""")

s("remove-unlinks-first", "C01", N, """        ids = [id(c) for c in self._children]
        index = ids.index(id(child))
        del self._children[index]
        child.parent = None
""", """        child.parent = None
        ids = [id(c) for c in self._children]
        del self._children[ids.index(id(child))]
""", "a refused remove: the node is a child of some other node", "the refused removal still clears the parent link of the node, which its real parent keeps listing", """
p, q, c = nodes.Paragraph(), nodes.Paragraph(), nodes.Text("x")
q.append(c)
try:
    p.remove(c)
except ValueError:
    pass
check(c.parent is q and q.children[0] is c, "links disagree")
""")
s("append-sorted", "C02", N, """            for c in child:
                self.append(c)
        elif""", """            for c in sorted(child, key=lambda c: c.start_point):
                self.append(c)
        elif""", "appending several nodes whose source positions are not ascending", "the nodes are appended in another order than the one given", """
p = nodes.Paragraph(); a, b = nodes.Text("a", start_point=(4, 0)), nodes.Text("b", start_point=(1, 0))
p.append([a, b])
check([id(x) for x in p.children] == [id(a), id(b)], "order changed")
""")
s("ids-kept", "C08", T, """            node.nodeid = nodeid
            nodeid += 1
""", """            if node.nodeid is None:
                node.nodeid = nodeid
            nodeid += 1
""", "a tree that was transformed, edited, and transformed again", "nodes keep ids of an earlier run, so ids are neither unique nor in document order", """
r = nodes.Manuscript(); r.append([nodes.Paragraph(), nodes.Paragraph()]); Transformer().transform(r)
r.prepend(nodes.Section()); Transformer().transform(r)
check([n.nodeid for n in r.traverse()] == list(range(4)), [n.nodeid for n in r.traverse()])
""")
s("minimap-unlabelled", "C13", X, """            if with_ids:
                circles.append(
                    f'<a href""", """            if with_ids and (ref.target.label or not ref.target.nonum):
                circles.append(
                    f'<a href""", "a table of contents listing an unnumbered section without a label, with handrails", "the mini-map closes a link that was never opened", """
r = nodes.Manuscript(); r.append([nodes.Contents(), nodes.Section(title="A", nonum=True)]); Transformer().transform(r)
h = HandrailsTranslator(add_source=False).translate(r)
import re
check(len(re.findall(r"<a[ >]", h)) == h.count("</a>"), "unbalanced links")
""")
s("quiet-keeps-body", "C14", X, """        if new:
            self.body = ""
""", """        if new and not self.quiet:
            self.body = ""
""", "a quiet translator translates a second document", "the second output starts with the first", """
def doc(t):
    r = nodes.Manuscript(); p = nodes.Paragraph(); p.append(nodes.Text(t)); r.append(p); Transformer().transform(r); return r
t = Translator(quiet=True); t.translate(doc("one")); two = t.translate(doc("two"))
check(two == Translator(quiet=True).translate(doc("two")), "outputs differ")
""")
s("unescape-code", "C23", "rsm/tsparser.py", """        if isinstance(node, nodes.Text) and not node.asis:
""", """        if isinstance(node, nodes.Text) and not (node.asis and type(node) is nodes.Text):
""", "source code that contains a backslash before a special character", "verbatim code loses backslashes", """
from rsm.tsparser import TSParser
B = chr(92)
t = TSParser().parse(chr(10).join([":rsm:", "", "`a " + B + ": b`", "", "::", ""]))
code = [n.text for n in t.traverse(nodeclass=nodes.SourceCode)]
check(code == ["a " + B + ": b"], code)
""")
