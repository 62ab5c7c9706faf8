From 40e4cb57e085c123c2bf16ab73ac33a20cf79f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:06 +0000
Subject: [PATCH 01/20] fix: a refused append leaves the child in the parent's
 list

The allowed-parent check ran after the child was already inserted, so a
refused append left a child whose parent is None.
---
 rsm/nodes.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index 669f1ae..4f4405e 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -389,17 +389,15 @@ class Node:
 
     @parent.setter
     def parent(self, node: Optional["NodeWithChildren"]) -> None:
-        if node is None:
-            self._parent = None
-        elif not self.__class__.possible_parents:
-            self._parent = node
-        else:
-            possible_parents = self.__class__.possible_parents
-            if possible_parents and type(node) not in possible_parents:
-                raise RSMNodeError(
-                    f"Node of type {type(self)} cannot have parent of type {type(node)}"
-                )
-            self._parent = node
+        self._check_parent_type(node)
+        self._parent = node
+
+    def _check_parent_type(self, node: Optional["NodeWithChildren"]) -> None:
+        possible_parents = self.__class__.possible_parents
+        if node is not None and possible_parents and type(node) not in possible_parents:
+            raise RSMNodeError(
+                f"Node of type {type(self)} cannot have parent of type {type(node)}"
+            )
 
     @property
     def children(self) -> tuple:
@@ -940,8 +938,8 @@ class NodeWithChildren(Node):
         elif isinstance(child, Node):
             if child.parent:
                 raise RSMNodeError("Attempting to append child to a new parent")
-            self._children.append(child)
             child.parent = self
+            self._children.append(child)
         else:
             raise TypeError("Can only append a Node or iterable of Nodes as children")
         return self
-- 
2.43.0


From e76a987e70c874d2fa6583e458474b14a18f2dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:06 +0000
Subject: [PATCH 02/20] fix: prepend duplicates a child that is already there

Prepending a node whose parent is this node listed it twice; a refused
prepend left the child in the list; and iterables other than list were
refused although documented.
---
 rsm/nodes.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index 4f4405e..e36e6c2 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -954,14 +954,16 @@ class NodeWithChildren(Node):
         :meth:`append`
 
         """
-        if isinstance(child, list):
-            for c in reversed(child):
+        if isinstance(child, Iterable):
+            for c in reversed(list(child)):
                 self.prepend(c)
         elif isinstance(child, Node):
             if child.parent and child.parent is not self:
                 raise RSMNodeError("Attempting to prepend child to a different parent")
-            self._children.insert(0, child)
+            if child.parent is self:
+                self.remove(child)
             child.parent = self
+            self._children.insert(0, child)
         else:
             raise TypeError("Can only prepend a Node or iterable of Nodes as children")
         return self
-- 
2.43.0


From cb3fc744e1960434b79eb63710c36b7cda9801ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:06 +0000
Subject: [PATCH 03/20] fix: replace_self can leave a node under two parents or
 in no valid place

A replacement that already has a parent was listed under both parents, and
a replacement that may not have this parent was inserted before the error,
with the replaced node already gone.
---
 rsm/nodes.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index e36e6c2..72557c3 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -806,17 +806,22 @@ class Node:
         """
         if not self.parent:
             raise RSMNodeError("Can only call replace_self on a node with parent")
-        ids = [id(c) for c in self.parent.children]
-        index = ids.index(id(self))
         parent = self.parent
-        self.parent.remove(self)
-        if not isinstance(replacement, Node):
-            for idx, rep in enumerate(replacement):
-                parent._children.insert(index + idx, rep)
-                rep.parent = parent
-        else:
-            parent._children.insert(index, replacement)
-            replacement.parent = parent
+        if isinstance(replacement, Node):
+            replacement = [replacement]
+        replacement = list(replacement)
+        for rep in replacement:
+            if rep.parent and rep is not self:
+                raise RSMNodeError("Attempting to replace with a node that has a parent")
+            rep._check_parent_type(parent)
+        ids = [id(c) for c in parent.children]
+        index = ids.index(id(self))
+        parent.remove(self)
+        for idx, rep in enumerate(replacement):
+            if rep.parent:
+                raise RSMNodeError("Attempting to replace with the same node twice")
+            rep.parent = parent
+            parent._children.insert(index + idx, rep)
 
     def remove_self(self) -> None:
         """Remove this Node from its parent's children.
-- 
2.43.0


From 7177ff637a0f33aa96ceb5ece866b902b7c35a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:33 +0000
Subject: [PATCH 04/20] fix: a reused Transformer resolves labels against the
 previous tree

---
 rsm/transformer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index eee8528..51f861d 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -135,6 +135,7 @@ class Transformer:
         """
         logger.info("Transforming...")
         self.tree = tree
+        self.labels_to_nodes = {}
 
         self.collect_labels()
         self.resolve_pending_references()
-- 
2.43.0


From 22969120dafb9ab923dd10a27b2d09d8404f47d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 05/20] fix: citing the label of something other than a
 bibliography item crashes

---
 rsm/transformer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index 51f861d..4c2ad3b 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -179,6 +179,13 @@ class Transformer:
             logger.warning(f'Reference to nonexistent label "{label}"')
             return default(f'[unknown label "{label}"]')
 
+    def _label_to_bibitem(self, label: str) -> nodes.Bibitem:
+        target = self._label_to_node(label, nodes.UnknownBibitem)
+        if not isinstance(target, nodes.Bibitem):
+            logger.warning(f'Citation of "{label}", which is not a bibliography item')
+            target = nodes.UnknownBibitem(f'[not a bibliography item "{label}"]')
+        return target
+
     def resolve_pending_references(self) -> None:
         classes = [
             nodes.PendingReference,
@@ -201,8 +208,7 @@ class Transformer:
                     )
             elif isinstance(pending, nodes.PendingCite):
                 targets = [
-                    self._label_to_node(label, nodes.UnknownBibitem)
-                    for label in pending.targetlabels
+                    self._label_to_bibitem(label) for label in pending.targetlabels
                 ]
                 cite = nodes.Cite(targets=targets)
                 cite.label = f"cite-{next(counter)}"
-- 
2.43.0


From 2bd532a908f85da7059beca3f400c9f916d40740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:51 +0000
Subject: [PATCH 06/20] fix: the appendix letters tables and bibliography items
 and runs out at Z

Only sections are lettered after the appendix marker; every other kind
numbered within the manuscript keeps counting.  The 27th section is AA
instead of a crash.
---
 rsm/transformer.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index 4c2ad3b..c13e0fb 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -26,7 +26,7 @@ place is of utmost importance.
 
 import logging
 from collections import defaultdict
-from itertools import count
+from itertools import count, product
 from string import ascii_uppercase
 from typing import Generator, Optional, Type
 
@@ -283,7 +283,7 @@ class Transformer:
         within_appendix = False
         for node in self.tree.traverse():
             if isinstance(node, nodes.Appendix):
-                counts[nodes.Manuscript] = defaultdict(lambda: iter(ascii_uppercase))
+                counts[nodes.Manuscript][nodes.Section] = self._appendix_letters()
                 within_appendix = True
                 continue
             if isinstance(node, (nodes.Proof, nodes.Subproof)):
@@ -301,6 +301,13 @@ class Transformer:
                         "{nodeclass}", "Appendix"
                     )
 
+    @staticmethod
+    def _appendix_letters() -> Generator[str, None, None]:
+        """Generate A, B, ..., Z, AA, AB, ..."""
+        for length in count(start=1):
+            for letters in product(ascii_uppercase, repeat=length):
+                yield "".join(letters)
+
     def _autonumber_steps(self, proof: nodes.Proof) -> None:
         step_gen = (s for s in proof.children if isinstance(s, nodes.Step))
         for idx, step in enumerate(step_gen, start=1):
-- 
2.43.0


From 4c846e12c73f987f6c5ef8988deb33cc9459127c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:59 +0000
Subject: [PATCH 07/20] fix: unnumbered proof steps are numbered

---
 rsm/transformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index c13e0fb..8dd691f 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -309,7 +309,9 @@ class Transformer:
                 yield "".join(letters)
 
     def _autonumber_steps(self, proof: nodes.Proof) -> None:
-        step_gen = (s for s in proof.children if isinstance(s, nodes.Step))
+        step_gen = (
+            s for s in proof.children if isinstance(s, nodes.Step) and not s.nonum
+        )
         for idx, step in enumerate(step_gen, start=1):
             step.number = idx
 
-- 
2.43.0


From a6f7c622dd30a1417e893c166b158ffcab039902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:25 +0000
Subject: [PATCH 08/20] fix: handrail depth counts theorem-like ancestors once
 per superclass

Descendants of a Lemma were counted for Lemma and again for Theorem; the
depth is documented as the number of ancestors that have a handrail.
---
 rsm/transformer.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index 8dd691f..9a39e96 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -366,14 +366,9 @@ class Transformer:
                 construct.types.append("assumption")
 
     def add_handrail_depth(self) -> None:
-        for nc in nodes.all_node_subtypes():
-            if nc.has_handrail:
-                self._add_handrail_depth_for_class(nc)
-
-    def _add_handrail_depth_for_class(self, nodeclass) -> None:
-        for node in self.tree.traverse(nodeclass=nodeclass):
+        for node in self.tree.traverse(condition=lambda n: n.has_handrail):
             for desc in node.traverse():
-                if desc == node:
+                if desc is node:
                     continue
                 desc.handrail_depth += 1
 
-- 
2.43.0


From 08f0be0857839dd03440af393527d586689833b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:47 +0000
Subject: [PATCH 09/20] fix: content after an explicit subproof crashes the
 transform

It now goes to the end of the subproof, where the steps following the
first sub-step go as well.
---
 rsm/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index 9a39e96..fa375cb 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -270,8 +270,8 @@ class Transformer:
                 subproof = nodes.Subproof()
                 subproof.append(children[split_at_idx:])
             elif isinstance(children[split_at_idx], nodes.Subproof):
-                assert split_at_idx == len(children) - 1
                 subproof = children[split_at_idx]
+                subproof.append(children[split_at_idx + 1 :])
             else:
                 raise RSMTransformerError("How did we get here?")
             step.append([statement, subproof])
-- 
2.43.0


From cd33bb3e2b641577c9cda051d8ecd0e13b5a4593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:19 +0000
Subject: [PATCH 10/20] fix: the table of contents crashes or misplaces entries
 of irregularly nested sections

A subsubsection directly within a section, a subsection outside of any
section, or an unexpected last subsection made the transform crash or hang
entries on the wrong parent.  Each entry now goes within the entry of the
section that encloses its section, which is the same in regular documents.
---
 rsm/transformer.py | 38 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index fa375cb..fc031dd 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -326,36 +326,26 @@ class Transformer:
         if toc is None:
             return
 
-        current_parent = toc
+        # Maps (the id of) each section to the Item that represents it in the toc.
+        items: dict[int, nodes.Item] = {}
+        levels = (nodes.Section, nodes.Subsection, nodes.Subsubsection)
         for sec in self.tree.traverse(nodeclass=nodes.Section):
             item = nodes.Item()
             reftext = f"{sec.title}" if sec.nonum else f"{sec.full_number}. {sec.title}"
             item.append(nodes.Reference(target=sec, overwrite_reftext=reftext))
+            items[id(sec)] = item
 
-            # The order of the `if isinstance(...)` statements here matters because all
-            # Subsections are also Sections so isinstance(sec, nodes.Section) evaluates
-            # to True even when sec is a Subsection.  Thus, we have to go from smallest
-            # (Subsubsection) to largest (Section).
-            if isinstance(sec, nodes.Subsubsection):
-                current_parent.append(item)
-                if sec.parent.last_of_type(nodes.Subsubsection) is sec:
-                    current_parent = current_parent.parent.parent
-            elif isinstance(sec, nodes.Subsection):
-                current_parent.append(item)
-                if sec.first_of_type(nodes.Subsubsection):
-                    itemize = nodes.Itemize()
-                    item.append(itemize)
-                    current_parent = itemize
-                elif sec.parent.last_of_type(nodes.Subsection) is sec:
-                    current_parent = current_parent.parent.parent
-            elif isinstance(sec, nodes.Section):
+            # Each section goes within the item of the section that encloses it.
+            enclosing = sec.first_ancestor_of_type(levels)
+            if enclosing is None:
                 toc.append(item)
-                if sec.first_of_type(nodes.Subsection):
-                    itemize = nodes.Itemize()
-                    item.append(itemize)
-                    current_parent = itemize
-            else:
-                raise RSMTransformerError("How did we get here?")
+                continue
+            parent_item = items[id(enclosing)]
+            itemize = parent_item.first_of_type(nodes.Itemize)
+            if itemize is None:
+                itemize = nodes.Itemize()
+                parent_item.append(itemize)
+            itemize.append(item)
 
     def add_keywords_to_constructs(self) -> None:
         for construct in self.tree.traverse(nodeclass=nodes.Construct):
-- 
2.43.0


From 05d9d660243dc544222c43dafec22fb1fc911a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 11/20] fix: display math outside of or at the end of a
 paragraph breaks the output

The plain translator crashed on display math that is not directly within a
paragraph and the handrails translator closed a <p> tag that was never
opened; items and notes got a <p> that was never closed; and a second
display math at the end of a paragraph got one </p> too many.
---
 rsm/translator.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index e487f5d..3d0344c 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -768,13 +768,8 @@ class Translator:
         )
 
     def visit_mathblock(self, node: nodes.MathBlock) -> EditCommand:
-        assert isinstance(node.parent, nodes.Paragraph)
-        return AppendBatchAndDefer(
+        batch = AppendBatchAndDefer(
             [
-                # A paragraph that contains a mathblock cannot _start_ with a mathblock,
-                # so this mathblock must always contain some previous siblings that must
-                # be enclosed in <p> tags.  (See comment in visit_paragraph().)
-                AppendText("</p>"),
                 # This is the actual tag corresponding to the mathblock.
                 AppendNodeTag(node, "div"),
                 # The contents of a mathblock must be enclosed in '$$' and '$$' due to
@@ -782,19 +777,34 @@ class Translator:
                 AppendTextAndDefer("$$\n", "\n$$"),
             ]
         )
+        if self._interrupts_p_tag(node):
+            # Whatever comes before this mathblock in the paragraph is enclosed in <p>
+            # tags.  (See comment in visit_paragraph().)
+            batch.items.insert(0, AppendText("</p>"))
+        return batch
+
+    @staticmethod
+    def _interrupts_p_tag(node: nodes.MathBlock) -> bool:
+        # Only visit_paragraph() opens a <p> tag around its children.  Steps and Captions
+        # are Paragraphs but have their own visit_* methods.
+        parent = node.parent
+        return isinstance(parent, nodes.Paragraph) and not isinstance(
+            parent, (nodes.Step, nodes.Caption)
+        )
 
     def leave_mathblock(self, node: nodes.MathBlock) -> EditCommand:
         # See also the comment in visit_paragraph().
         batch = self.leave_node(node)
 
-        # The paragraph-specific logic only applies when the parent is a BaseParagraph
+        # The paragraph-specific logic only applies when the parent opened a <p> tag
         # With grammar changes, MathBlocks can now have other types of parents
-        if not isinstance(node.parent, nodes.BaseParagraph):
+        if not self._interrupts_p_tag(node):
             return batch
 
         # In case this mathblock is the last child of the paragraph, there is nothing
         # special to do since visit_mathblock() already handled the remaining </p> tag.
         if not node.next_sibling():
+            node.parent._must_close_p_tag = False
             return batch
 
         # If there are more children, we need to close this mathblock, start a new <p>
@@ -1822,9 +1832,10 @@ class HandrailsTranslator(Translator):
             collapse_in_hr=False,
             menu_label="Equation" if node.nonum else node.long_reftext,
         )
-        batch.items.insert(0, AppendText("</p>"))
+        batch.items[0].classes += ["hr-hidden", "hr-offset"]
         batch.items.append(AppendTextAndDefer("$$\n", "\n$$"))
-        batch.items[1].classes += ["hr-hidden", "hr-offset"]
+        if self._interrupts_p_tag(node):
+            batch.items.insert(0, AppendText("</p>"))
         return batch
 
     def leave_mathblock(self, node: nodes.MathBlock) -> EditCommand:
-- 
2.43.0


From 119c764819e4026d702de74244a9ad23846efce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:20 +0000
Subject: [PATCH 12/20] fix: translating the same tree again loses dots after
 math and unbalances tags

The handrails translator removed the dot from the tree's text and remembered
it on the node, so a second translation closed a span it had not opened.
---
 rsm/translator.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 3d0344c..2b2a6f6 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1796,18 +1796,14 @@ class HandrailsTranslator(Translator):
 
     def visit_math(self, node: nodes.Math) -> EditCommand:
         batch = super().visit_math(node)
-        sib = node.next_sibling()
-        if not isinstance(sib, nodes.Text):
-            return batch
-        if not sib.text.startswith("."):
+        if not self._is_followed_by_dot(node):
             return batch
 
         # We reach this branch only if the Math node is immediately followed by Text
         # that starts with a dot "."; in this case, the math and the dot may be
         # separated if the browser's viewport is too narrow, which looks ugly.  The only
         # way to fix it is to wrap the math and the dot in a span, and remove the dot
-        # from the subsequent text.  The span is then dealt with using CSS.
-        node._followed_by_dot = True
+        # from the subsequent text, see visit_text().  The span is then dealt with using CSS.
         batch.items.insert(
             0,
             AppendOpenTagManualClose(
@@ -1816,12 +1812,22 @@ class HandrailsTranslator(Translator):
                 newline_outer=False,
             ),
         )
-        sib.text = sib.text[1:]
         return batch
 
+    @staticmethod
+    def _is_followed_by_dot(node: nodes.Math) -> bool:
+        sib = node.next_sibling()
+        return type(sib) is nodes.Text and sib.text.startswith(".")
+
+    def visit_text(self, node: nodes.Text) -> EditCommand:
+        prev = node.prev_sibling()
+        if isinstance(prev, nodes.Math) and self._is_followed_by_dot(prev):
+            return AppendText(node.text[1:])
+        return super().visit_text(node)
+
     def leave_math(self, node: nodes.Math) -> EditCommand:
         batch = self.leave_node(node)
-        if not getattr(node, "_followed_by_dot", False):
+        if not self._is_followed_by_dot(node):
             return batch
         batch.items.extend([AppendText("<span>.</span>"), AppendText("</span>")])
         return batch
-- 
2.43.0


From 79ba3ad3a99b4f6010fcb403135324b597994d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:29 +0000
Subject: [PATCH 13/20] fix: EscapedString.index() loops forever or returns -1
 when every occurrence is escaped

---
 rsm/util.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/rsm/util.py b/rsm/util.py
index 61523cb..8d9ebc7 100644
--- a/rsm/util.py
+++ b/rsm/util.py
@@ -133,14 +133,9 @@ class EscapedString:
             end = len(self._src)
         if not skip_escaped or sub not in self.escape_chars:
             return self._src.index(sub, start, end)
-        index = self._src.index(sub, start, end)
-        if index == 0:
-            # If sub was found at index 0, it cannot have been escaped since there is
-            # nothing behind it!  Unlike find(), index() never returns -1 (it raises an
-            # exception instead), so no need to check for that.
-            return index
-        while self._src[index - 1] == "\\":
-            index = self._src.find(sub, index + 1, end)
+        index = self.find(sub, start, end)
+        if index < 0:
+            raise ValueError("substring not found")
         return index
 
     def rindex(
-- 
2.43.0


From 8a4f96a716cedf052b768898fbf1a2ba097956d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:51 +0000
Subject: [PATCH 14/20] fix: make ignores its handrails and lint options

FullBuildApp passed handrails as log_lineno and run_linter as handrails, so
the linter never ran, and make() dropped handrails.
---
 rsm/app.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rsm/app.py b/rsm/app.py
index 19c3bee..2d99ec3 100644
--- a/rsm/app.py
+++ b/rsm/app.py
@@ -242,7 +242,14 @@ class FullBuildApp(ProcessorApp):
         run_linter: bool = False,
     ):
         super().__init__(
-            srcpath, plain, loglevel, log_format, log_time, handrails, run_linter
+            srcpath,
+            plain,
+            loglevel,
+            log_format,
+            log_time,
+            log_lineno,
+            handrails=handrails,
+            run_linter=run_linter,
         )
         self.add_task(Task("builder", b := builder.FullBuilder(), b.build))
         self.add_task(Task("writer", w := writer.Writer(), w.write))
@@ -302,6 +309,7 @@ def make(
     return FullBuildApp(
         srcpath=path,
         plain=source,
+        handrails=handrails,
         run_linter=lint,
         loglevel=loglevel,
         log_format=log_format,
-- 
2.43.0


From 26e3e072c345e3d7219294fe70c7a79c12629976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:23 +0000
Subject: [PATCH 15/20] fix: the rsm log format ignores log_lineno and fails on
 records without an end point

---
 rsm/rsmlogger.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rsm/rsmlogger.py b/rsm/rsmlogger.py
index a7a613c..3b2005b 100644
--- a/rsm/rsmlogger.py
+++ b/rsm/rsmlogger.py
@@ -49,6 +49,7 @@ class RSMFormatter(logging.Formatter):
     name = blue + "%(name)s " + reset
     msgformat = "%(levelname)-3s | %(message)s" + reset
     point = " | (%(start_row)d, %(start_col)d) - (%(end_row)d, %(end_col)d) | " + reset
+    startpoint = " | (%(start_row)d, %(start_col)d) | " + reset
     suffix = grey + " (%(filename)s:%(lineno)d)" + reset
 
     COLORS = {
@@ -64,14 +65,19 @@ class RSMFormatter(logging.Formatter):
         self.log_time = log_time
         self.log_lineno = log_lineno
 
+    def _point(self, record: logging.LogRecord) -> str:
+        if not hasattr(record, "start_row"):
+            return ""
+        return self.point if hasattr(record, "end_row") else self.startpoint
+
     def format(self, record: logging.LogRecord) -> str:
         fmt = (
             (self.time if self.log_time else "")
             + self.name
             + self.COLORS.get(record.levelno, self.grey)
             + self.msgformat
-            + (self.point if hasattr(record, "start_row") else "")
-            + self.suffix
+            + self._point(record)
+            + (self.suffix if self.log_lineno else "")
         )
         formatter = logging.Formatter(fmt, datefmt="%H:%M:%S")
         return formatter.format(record)
-- 
2.43.0


From fab8de6fa6e0a27049a8bd0fb824d16f076df40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:32 +0000
Subject: [PATCH 16/20] fix: generated citation labels can collide with an
 author's label

---
 rsm/transformer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index fc031dd..fc7362b 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -211,7 +211,11 @@ class Transformer:
                     self._label_to_bibitem(label) for label in pending.targetlabels
                 ]
                 cite = nodes.Cite(targets=targets)
-                cite.label = f"cite-{next(counter)}"
+                cite.label = next(
+                    label
+                    for label in (f"cite-{idx}" for idx in counter)
+                    if label not in self.labels_to_nodes
+                )
                 pending.replace_self(cite)
                 for tgt in targets:
                     tgt.backlinks.append(cite.label)
-- 
2.43.0


From 1647e1fd23c16521a4b67333a8faccbad57c9c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:07 +0000
Subject: [PATCH 17/20] fix: an author without information crashes the
 handrails translation

---
 rsm/translator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 2b2a6f6..919183e 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1654,7 +1654,8 @@ class HandrailsTranslator(Translator):
         hr = self._replace_node_with_handrails(
             node, additional_classes=["hr-hidden"], collapse_in_hr=False
         )
-        hr.items += batch.items[2:-1]
+        if isinstance(batch, EditCommandBatch):  # not so if the author has no information
+            hr.items += batch.items[2:-1]
         return hr
 
     def leave_author(self, node: nodes.Author) -> EditCommand:
-- 
2.43.0


From 2d32bbc5270b970af183878a7d3a226e549d9be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:00 +0000
Subject: [PATCH 18/20] fix: code in a language without a lexer crashes the
 translation

---
 rsm/util.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rsm/util.py b/rsm/util.py
index 8d9ebc7..535647c 100644
--- a/rsm/util.py
+++ b/rsm/util.py
@@ -11,7 +11,8 @@ from typing import Any, Generator, Optional, Union
 
 from pygments import highlight
 from pygments.formatters import HtmlFormatter  # pylint: disable=no-name-in-module
-from pygments.lexers import get_lexer_by_name
+from pygments.lexers import TextLexer, get_lexer_by_name
+from pygments.util import ClassNotFound
 
 
 # pylint: disable-next=too-few-public-methods
@@ -27,9 +28,13 @@ class RSMPygmentsFormatter(HtmlFormatter):
 
 
 def highlight_code(source: str, lang: str) -> str:
+    try:
+        lexer = get_lexer_by_name(lang)
+    except ClassNotFound:
+        lexer = TextLexer()
     highlighted = highlight(
         source,
-        get_lexer_by_name(lang),
+        lexer,
         RSMPygmentsFormatter(),
     )
     return highlighted  # type: ignore[no-any-return]
-- 
2.43.0


From e6aef4cfa11c32837a98ce43effe3928ec28d2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:18 +0000
Subject: [PATCH 19/20] fix: a bibliography item without a year crashes the
 translation

---
 rsm/translator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 919183e..0e6e000 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1052,8 +1052,8 @@ class Translator:
                 items.append(node.publisher)
             else:
                 logger.warning(f"Bibitem {node.label} has no publisher")
-        if node.year:
-            items.append(node.year)
+        if node.year and node.year != -1:
+            items.append(str(node.year))
         else:
             logger.warning(f"Bibitem {node.label} has no year")
         text = ". ".join([i.strip(".") for i in items]) + "."
-- 
2.43.0


From 682086d9adc0d90d045894ced374a552aefd12e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:27 +0000
Subject: [PATCH 20/20] fix: a paragraph whose mathblock was removed gets
 unbalanced tags when translated again

---
 rsm/translator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsm/translator.py b/rsm/translator.py
index 0e6e000..1c3f96d 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -820,6 +820,7 @@ class Translator:
         batch = self.leave_node(node)
         if getattr(node, "_must_close_p_tag", False):
             batch.items.insert(0, AppendText("</p>"))
+            node._must_close_p_tag = False
         return batch
 
     def visit_sourcecode(self, node: nodes.SourceCode) -> EditCommand:
-- 
2.43.0

