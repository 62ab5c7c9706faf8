N = "nodes.py"
# C01 / C02
bug("C01", N, ("ids = [id(c) for c in self._children]\n        index = ids.index(id(child))", "index = self._children.index(child)"))
bug("C01", N, ("            if child.parent is self:\n                self.remove(child)", "            pass"))
bug("C01", N, ("parent._children.insert(index + idx, rep)", "parent._children.insert(index, rep)"))
bug("C01", N, ("        for c in self._children:\n            c.parent = None\n        self._children = []", "        self._children = []"))
bug("C01", N, ("        for c in self._children:\n            c.parent = None\n", "        for c in self._children[1:]:\n            c.parent = None\n"))
bug("C01", N, ("            for c in reversed(list(child)):\n                self.prepend(c)", "            for c in list(child):\n                self.prepend(c)"))
bug("C01", N, ("        del self._children[index]\n        child.parent = None", "        del self._children[index]"))
bug("C02", N, ("            rep._check_parent_type(parent)", "            pass"))
bug("C02", N, ("            if child.parent:\n                raise RSMNodeError(\"Attempting to append", "            if child.parent is self:\n                raise RSMNodeError(\"Attempting to append"))
# C03
bug("C03", N, ("stack += node.children[::-1]", "stack += node.children"))
bug("C03", N, ("            node = stack.pop()\n", "            node = stack.pop(0)\n"))
bug("C03", N, ("            if condition(node):\n                yield cast(NodeSubType, node)\n            stack += node.children[::-1]", "            if condition(node):\n                yield cast(NodeSubType, node)\n                stack += node.children[::-1]"))
bug("C03", N, ("            if issubclass(nodeclass, Node):\n", "            if True:\n"))
bug("C03", N, ("condition = lambda n: isinstance(n, nodeclass)", "condition = lambda n: type(n) is nodeclass"))
bug("C03", N, ("        for node in self.traverse(condition=lambda n: n.nodeid == nodeid):", "        for node in self.traverse(condition=lambda n: n.nodeid is not None and n.nodeid >= nodeid):"))
bug("C03", N, ("        while stack:\n            node = stack.pop()", "        while len(stack) > 0 and stack[-1] is not None:\n            node = stack.pop() if len(stack) < 200 else stack.pop(0)"))
same("C03", N, ("            stack += node.children[::-1]", "            stack.extend(reversed(node.children))"))
same("C03", N, ("            node = stack.pop()\n", "            node = stack[-1]\n            del stack[-1]\n"))
same("C03", N, ("        stack = [self]\n        while stack:", "        pending = [self]\n        stack = pending\n        while len(stack) > 0:"))
same("C03", N, ("            stack += node.children[::-1]", "            kids = list(node.children)\n            kids.reverse()\n            stack.extend(kids)"))
same("C03", N, ("            if condition(node):\n                yield cast(NodeSubType, node)\n            stack += node.children[::-1]", "            if not condition(node):\n                stack += node.children[::-1]\n                continue\n            yield cast(NodeSubType, node)\n            stack += node.children[::-1]"))
same("C03", N, ("        for node in self.traverse(condition=lambda n: n.nodeid == nodeid):\n            return node\n        else:\n            return None", "        return next(self.traverse(condition=lambda n: n.nodeid == nodeid), None)"))
same("C03", N, ("        for node in self.traverse(condition=lambda n: n.nodeid == nodeid):\n            return node\n        else:\n            return None", "        for node in self.traverse():\n            if node.nodeid == nodeid:\n                return node\n        return None"))
# C04
bug("C04", N, ("return self.parent.children[index + 1]", "return self.parent.children[index]"))
bug("C04", N, ("        if cls is None and index:", "        if cls is None:"))
bug("C04", N, ("        ids = [id(c) for c in self.parent.children]\n        index = ids.index(id(self))\n\n        if cls is None and index < ", "        index = self.parent.children.index(self)\n\n        if cls is None and index < "))
bug("C04", N, ("(type(ancestor) is not cls)", "(not isinstance(ancestor, cls))"))
bug("C04", N, ("        ancestor = self.parent\n", "        ancestor = self\n"))
bug("C04", N, ("for node in reversed(prev_sibs):", "for node in prev_sibs:"))
same("C04", N, ("        prev_sibs = self.parent.children[:index]\n        for node in reversed(prev_sibs):", "        prev_sibs = self.parent.children[:index][::-1]\n        for node in prev_sibs:"))
same("C04", N, ("        if cls is None and index < len(self.parent.children) - 1:", "        siblings = self.parent.children\n        if cls is None and index + 1 < len(siblings):"))
same("C04", N, ("        for idx, child in enumerate(self.children):\n            if isinstance(child, cls):\n                return (child, idx) if return_idx else child\n        return (None, None) if return_idx else None", "        found, where = None, None\n        for idx, child in enumerate(self.children):\n            if isinstance(child, cls):\n                found, where = child, idx\n                break\n        return (found, where) if return_idx else found"))
same("C04", N, ("            ancestor = ancestor.parent\n        return ancestor", "            up = ancestor.parent\n            ancestor = up\n        return ancestor"))
F, L = "transformer.py", "linter.py"
# C08
bug("C08", F, ("            node.nodeid = nodeid\n            nodeid += 1", "            nodeid += 1\n            node.nodeid = nodeid"))
bug("C08", F, ("            node.nodeid = nodeid\n            nodeid += 1", "            if node.nodeid is None:\n                node.nodeid = nodeid\n            nodeid += 1"))
bug("C08", F, ("        for node in self.tree.traverse():\n            node.nodeid", "        for node in self.tree.traverse(condition=lambda n: not n.nonum):\n            node.nodeid"))
same("C08", F, ("        nodeid = 0\n        for node in self.tree.traverse():\n            node.nodeid = nodeid\n            nodeid += 1", "        for nodeid, node in enumerate(self.tree.traverse()):\n            node.nodeid = nodeid"))
same("C08", F, ("        nodeid = 0\n        for node in self.tree.traverse():\n            node.nodeid = nodeid\n            nodeid += 1", "        ids = count()\n        for node in self.tree.traverse():\n            node.nodeid = next(ids)"))
same("C08", F, ("        nodeid = 0\n        for node in self.tree.traverse():\n            node.nodeid = nodeid\n            nodeid += 1", "        next_id = 0\n        for node in self.tree.traverse():\n            pass\n            node.nodeid, next_id = next_id, next_id + 1"))
# C10
bug("C10", F, ("                if desc is node:\n                    continue\n", ""))
bug("C10", F, ("                desc.handrail_depth += 1", "                desc.handrail_depth = node.handrail_depth + 1"))
bug("C10", F, ("condition=lambda n: n.has_handrail)", "condition=lambda n: n.has_handrail and n.handrail_depth < 5)"))
bug("C10", F, ("                desc.handrail_depth += 1", "                desc.handrail_depth += 1 if desc.parent is not None else 2\n                if desc.has_handrail and desc.handrail_depth > 3:\n                    break"))
same("C10", F, ("                if desc is node:\n                    continue\n                desc.handrail_depth += 1", "                if desc is not node:\n                    desc.handrail_depth = desc.handrail_depth + 1"))
# C05
bug("C05", F, ("            self.labels_to_nodes[node.label] = node", "            self.labels_to_nodes.setdefault(node.label.strip(), node)"))
bug("C05", F, ('                node.label = ""\n                continue\n', '                continue\n'))
bug("C05", F, ("                node.label = \"\"\n                continue\n            self.labels_to_nodes", "                self.labels_to_nodes[node.label].label = \"\"\n            self.labels_to_nodes"))
same("C05", F, ("                node.label = \"\"\n                continue\n            self.labels_to_nodes[node.label] = node", "                node.label = \"\"\n            else:\n                self.labels_to_nodes[node.label] = node"))
# C19
bug("C19", L, ("isinstance(block.parent, nodes.Paragraph)", "isinstance(block.parent, (nodes.Paragraph, nodes.Proof))"))
bug("C19", L, ('"start_col": node.start_point[1] + 1', '"start_col": node.start_point[1]'))
bug("C19", L, ("            if not section.label:", "            if not section.label and not section.nonum:"))
bug("C19", L, ("        self.lint_section_label()\n", ""))
bug("C19", L, ("            self.LINT_LVL, msg, *args, **kwargs", "            logging.DEBUG, msg, *args, **kwargs"))
bug("C19", L, ("        if not self.tree.title:", "        if not self.tree.title.strip():"))
same("C19", L, ("        for section in self.tree.traverse(nodeclass=nodes.Section):\n            if not section.label:\n                logger.lint", "        missing = lambda n: isinstance(n, nodes.Section) and not n.label\n        for section in self.tree.traverse(condition=missing):\n                logger.lint"))
same("C19", L, ("        for block in self.tree.traverse(nodeclass=nodes.MathBlock):\n            if not isinstance(block.parent, nodes.Paragraph):\n", "        for block in self.tree.traverse(nodeclass=nodes.MathBlock):\n            holder = block.parent\n            if isinstance(holder, nodes.Paragraph):\n                continue\n            else:\n"))

bug("C08", "transformer.py", ("        self.add_handrail_depth()\n        self.assign_node_ids()", "        self.assign_node_ids()\n        self.add_handrail_depth()\n        self.add_keywords_to_constructs()"))
bug("C08", "transformer.py", ("        self.make_toc()\n", ""), ("        self.assign_node_ids()\n        return tree", "        self.assign_node_ids()\n        self.make_toc()\n        return tree"))
bug("C10", "transformer.py", ("        self.add_handrail_depth()\n", ""), ("        self.add_necessary_subproofs()\n", "        self.add_handrail_depth()\n        self.add_necessary_subproofs()\n"))
bug("C10", "transformer.py", ("statement.handrail_depth += 1", "pass"))
bug("C10", "nodes.py", ("self.handrail_depth = 0", "self.handrail_depth = 1"))
bug("C10", "transformer.py", ("                step.append(statement)\n                continue", "                step.append(statement)\n                step.handrail_depth += 1\n                continue"))
same("C10", "transformer.py", ("        self.add_handrail_depth()\n", "        self._deepen()\n"), ("    def assign_node_ids(self)", "    def _deepen(self):\n        self.add_handrail_depth()\n\n    def assign_node_ids(self)"))
# C07
bug("C07", F, ("for idx, step in enumerate(step_gen, start=1)", "for idx, step in enumerate(step_gen, start=0)"))
bug("C07", F, ("isinstance(s, nodes.Step) and not s.nonum", "isinstance(s, nodes.Step)"))
bug("C07", F, ("                step.number = idx" if False else "            step.number = idx", "            step.number = idx if step.children else 0"))
bug("C07", F, ("                within_appendix = True\n                continue", "                continue"))
bug("C07", F, ("                counts[type(node)] = defaultdict(lambda: count(start=1))\n                num = next(counts[node.number_within][node.number_as])", "                num = next(counts[node.number_within][node.number_as])\n                counts[type(node)] = defaultdict(lambda: count(start=1))"),
    ("if isinstance(node, nodes.Appendix)", "if isinstance(node, nodes.Appendix) and not within_appendix"))
bug("C07", F, ("if node.autonumber and not node.nonum:", "if node.autonumber:"))
bug("C07", F, ("counts[type(node)] = defaultdict(lambda: count(start=1))", "counts[type(node)] = defaultdict(lambda: count(start=2))"))
bug("C07", F, ("num = next(counts[node.number_within][node.number_as])", "num = next(counts[node.number_within][type(node)])"))
bug("C07", F, ("counts[nodes.Manuscript][nodes.Section] = self._appendix_letters()", "counts[nodes.Manuscript] = defaultdict(self._appendix_letters)"))
bug("C07", "nodes.py", ('return f"{ancestor.full_number}.{self.number}"', 'return f"{ancestor.number}.{self.number}"'))
bug("C07", "nodes.py", ('        if self.nonum:\n            return None\n        ancestor', '        ancestor'))
bug("C07", F, ("        self.autonumber_nodes()\n", ""), ("        self.add_necessary_subproofs()\n", "        self.autonumber_nodes()\n        self.add_necessary_subproofs()\n"))
bug("C07", F, ("                if within_appendix and isinstance(node, nodes.Section):", "                if within_appendix and type(node) is nodes.Section:"))
same("C07", F, ("        step_gen = (\n            s for s in proof.children if isinstance(s, nodes.Step) and not s.nonum\n        )\n        for idx, step in enumerate(step_gen, start=1):\n            step.number = idx",
               "        idx = 0\n        for step in proof.children:\n            if isinstance(step, nodes.Step) and not step.nonum:\n                idx += 1\n                step.number = idx"))
same("C07", F, ("            if isinstance(node, nodes.Step):\n                continue\n\n            if node.autonumber and not node.nonum:\n                counts[type(node)] = defaultdict(lambda: count(start=1))\n                num = next(counts[node.number_within][node.number_as])\n                node.number = num\n",
               "            if isinstance(node, nodes.Step) or node.nonum:\n                continue\n            if node.autonumber:\n                counts[type(node)] = defaultdict(lambda: count(start=1))\n                scope = counts[node.number_within]\n                node.number = next(scope[node.number_as])\n"))
# C15, C16
Y = "util.py"
bug("C15", Y, ('ret = ret.replace(f"\\\\{char}", char)', 'ret = self._src.replace(f"\\\\{char}", char)'))
bug("C15", Y, ("        for char in self.escape_chars:\n            ret", "        for char in self.escape_chars:\n            if char in ret[:1]:\n                continue\n            ret"))
bug("C15", Y, ('        ret = self._src\n        for', '        ret = self._src\n        if ret.startswith("\\\\"):\n            return ret\n        for'))
bug("C15", Y, ("        self._src = str(src)", "        self._src = str(src).strip()"))
same("C15", Y, ("        ret = self._src\n        for char in self.escape_chars:\n            ret = ret.replace(f\"\\\\{char}\", char)\n        return ret", "        text = str(self)\n        for c in self.escape_chars:\n            pair = \"\\\\\" + c\n            text = text.replace(pair, c)\n        return text"))
bug("C16", Y, ("        if index < 1:", "        if index <= 1:"))
bug("C16", Y, ("        if index < 1:", "        if index < 0:"))
bug("C16", Y, ('find(sub, index + 1, end)', 'find(sub, index + 2, end)'))
bug("C16", Y, ('find(sub, index + 1, end)', 'find(sub, index + 1)'))
bug("C16", Y, ('        while self._src[index - 1] == "\\\\":', '        if self._src[index - 1] == "\\\\":'))
bug("C16", Y, ('        if not skip_escaped or sub not in self.escape_chars:\n            return self._src.find', '        if not skip_escaped and sub not in self.escape_chars:\n            return self._src.find'))
bug("C16", Y, ("index = self.find(sub, start, end)\n        if index < 0:", "index = self.find(sub, start, end)\n        if index < 1:"))
same("C16", Y, ('''        index = self._src.find(sub, start, end)
        if index < 1:''', '''        index = self._src.find(sub, start, end)
        while index > 0 and self._src[index - 1] == "\\\\":
            index = self._src.find(sub, index + 1, end)
        return index
        if index < 1:'''))
same("C16", Y, ('''        index = self._src.find(sub, start, end)
        if index < 1:''', '''        while True:
            index = self._src.find(sub, start, end)
            if index < 1 or self._src[index - 1] != "\\\\":
                return index
            start = index + 1
        if index < 1:'''))
# C17
A = "app.py"
bug("C17", A, ("        for _, _, call in self.tasks:", "        for _, _, call in sorted(self.tasks, key=lambda t: t.name):"))
bug("C17", A, ("            elif res is None:\n                res = call()\n", "            elif not res:\n                res = call()\n"))
bug("C17", A, ("        self.tasks.append(task)", "        self.tasks.insert(0, task)"))
bug("C17", A, ("add_source=add_source,\n            )", "add_source=True,\n            )"))
bug("C17", A, ("            handrails=handrails,\n            run_linter=run_linter,", "            handrails=handrails,\n            add_source=False,\n            run_linter=run_linter,"))
bug("C17", A, ("super().__init__(srcpath, plain, loglevel, log_format, log_time, log_lineno)\n        if run_linter", "super().__init__(srcpath, plain, loglevel, log_format, log_lineno, log_time)\n        if run_linter"))
bug("C17", A, ("if (not srcpath and not plain) or (srcpath and plain):", "if not srcpath and not plain:"))
bug("C17", A, ("        except RSMParserError as e:\n            logger.error(f\"There was an error: {e}\")", "        except RSMParserError as e:\n            logger.debug(f\"There was an error: {e}\")"))
bug("C17", A, ("        except RSMParserError as e:", "        except (RSMParserError, ValueError) as e:"))
bug("C17", "cli.py", ("log_lineno=args.log_lineno,", "log_lineno=args.log_time,"))
bug("C17", "cli.py", ("parser.set_defaults(log_format=\"lint\")", "pass"))
bug("C17", "cli.py", ("- args.verbose * 10", "- min(args.verbose, 2) * 10"))
bug("C17", "cli.py", ("    parser.set_defaults(handrails=True)\n", ""))
bug("C17", "reader.py", ("self.src = file.read()", "self.src = file.read().strip()"))
same("C17", A, ("        for _, _, call in self.tasks:\n            if isinstance(res, dict):", "        for task in self.tasks:\n            call = task.run\n            if isinstance(res, dict):"))
same("C17", A, ("        if not handrails:\n            tr = translator.Translator()\n        else:\n            tr = translator.HandrailsTranslator(\n                add_source=add_source,\n            )", "        if handrails:\n            tr = translator.HandrailsTranslator(add_source=add_source)\n        else:\n            tr = translator.Translator()"))
same("C17", A, ("        for t in tasks:\n            self.add_task(t)", "        for i in range(len(tasks)):\n            self.add_task(tasks[i])"))
same("C17", "cli.py", ("    if args.string:\n        kwargs[\"source\"] = args.src\n    else:\n        kwargs[\"path\"] = args.src\n", "    kwargs[\"source\" if args.string else \"path\"] = args.src\n"))
# C21
bug("C21", N, ('            meta["reftext_template"] = meta["reftext"]\n            del meta["reftext"]', '            meta["reftext_template"] = meta["reftext"]'))
bug("C21", N, ('            setattr(self, str(key), value)', '            if value:\n                setattr(self, str(key), value)'))
bug("C21", N, ('            setattr(self, str(key), value)', '            setattr(self, str(key), value)\n            if key == "nonum":\n                self.number = None'))
bug("C21", N, ("        return cls.newmetakeys.union(\n            *[b.metakeys() for b in cls.__bases__ if hasattr(b, \"metakeys\")]\n        )", "        return cls.newmetakeys.union(cls.__base__.metakeys() if hasattr(cls.__base__, 'metakeys') else set())"))
bug("C21", N, ("        return cls.newmetakeys.union(\n            *[b.metakeys() for b in cls.__bases__ if hasattr(b, \"metakeys\")]\n        )", "        for b in cls.__bases__:\n            if hasattr(b, \"metakeys\"):\n                cls.newmetakeys |= b.metakeys()\n        return cls.newmetakeys"))
same("C21", N, ('        for key, value in meta.items():\n            setattr(self, str(key), value)', '        for key in meta:\n            setattr(self, str(key), meta[key])'))
same("C21", N, ('            meta["reftext_template"] = meta["reftext"]\n            del meta["reftext"]', '            meta = dict(meta)\n            self.reftext_template = meta.pop("reftext")'))
# C12
T = "translator.py"
bug("C12", T, ("        if not node.next_sibling():\n            node.parent._must_close_p_tag = False\n            return batch", "        if not node.next_sibling():\n            return batch"))
bug("C12", T, ("            parent, (nodes.Step, nodes.Caption)\n        )", "            parent, nodes.Step\n        )"))
bug("C12", T, ("            batch.items.insert(0, AppendText(\"</p>\"))\n            node._must_close_p_tag = False\n", "            batch.items.insert(0, AppendText(\"</p>\"))\n"))
bug("C12", T, ("        batch = AppendBatch(reversed(deferred))", "        batch = AppendBatch(deferred)"))
bug("C12", T, ("        if node.doi:\n            a_tag", "        if node.doi and not node.backlinks:\n            a_tag"), ("            text = f\"{text} {a_tag}[link]</a>\"", "            text = f\"{text} {a_tag}[link]\" + (\"</a>\" if node.year else \"\")"))
bug("C12", T, ("        if node.year and node.year != -1:\n            items.append(str(node.year))", "        if node.year:\n            items.append(node.year)"))
bug("C12", T, ("        if node.first_of_type(nodes.MathBlock):\n            items.append(AppendOpenTagManualClose", "        if node.last_of_type((nodes.MathBlock, nodes.Math)):\n            items.append(AppendOpenTagManualClose"))
same("C12", T, ("        items: list[EditCommand] = [AppendNodeTag(node, \"div\")]  #\n        if node.first_of_type(nodes.MathBlock):\n            items.append(AppendOpenTagManualClose(tag=\"p\", newline_inner=False))\n        else:\n            items.append(AppendOpenTag(tag=\"p\", newline_inner=False))\n", "        has_math = node.last_of_type(nodes.MathBlock) is not None\n        opening = AppendOpenTagManualClose if has_math else AppendOpenTag\n        items: list[EditCommand] = [AppendNodeTag(node, \"div\"), opening(tag=\"p\", newline_inner=False)]\n"))
same("C12", T, ("        for item in self.items:\n            if isinstance(item, AppendTextAndDefer):\n                deferred.append(AppendText(item.make_deferred_text()))\n            AppendText(item.make_text()).execute(translator)\n\n        batch = AppendBatch(reversed(deferred))", "        for item in self.items:\n            if isinstance(item, AppendTextAndDefer):\n                deferred.insert(0, AppendText(item.make_deferred_text()))\n            AppendText(item.make_text()).execute(translator)\n\n        batch = AppendBatch(deferred)"))
same("C12", T, ("    text = f\"<{tag}\"\n    if id_:\n        text += f' id=\"{id_}\"'\n", "    text = \"<\" + tag + (f' id=\"{id_}\"' if id_ else \"\")\n"))
same("C12", T, ("        if not node.next_sibling():\n            node.parent._must_close_p_tag = False\n            return batch", "        last = node.next_sibling() is None\n        node.parent._must_close_p_tag = not last\n        if last:\n            return batch"), ("            node.parent._must_close_p_tag = True\n", ""))
# C13
same("C13", T, ("        hr.items.insert(9, AppendText(\"</p>\"))", "        hr.items.insert(8, AppendText(\"</p>\"))"))
same("C13", T, ("        batch.items.insert(2, self._hr_info_zone_number", "        batch.items.insert(0, self._hr_info_zone_number"))
bug("C13", T, ("                + [AppendText(\"</div>\")]\n                + batch.items[3:]", "                + batch.items[3:]\n                + [AppendText(\"</div>\")]"))
bug("C13", T, ("        if isinstance(batch, EditCommandBatch):  # not so if the author has no information\n            hr.items += batch.items[2:-1]", "        if isinstance(batch, EditCommandBatch):  # not so if the author has no information\n            hr.items += batch.items[2:]"))
bug("C13", T, ("            circles.append(circle + \"</a>\")", "            circles.append(circle + (\"</a>\" if ref.target.label else \"\"))") )
bug("C13", T, ("        batch.items.insert(1, self._hr_info_zone_icon(getattr(node, \"icon\", None)))\n        batch = AppendBatch(batch.items)\n        return batch\n\n    def visit_sketch", "        batch.items.insert(1, self._hr_info_zone_icon(getattr(node, \"icon\", None)))\n        batch = AppendBatchAndDefer(batch.items)\n        return batch\n\n    def visit_sketch"))
bug("C13", T, ("        if not self._is_followed_by_dot(node):\n            return batch\n        batch.items.extend", "        if not node.next_sibling():\n            return batch\n        batch.items.extend"))
same("C13", T, ("        hr.items += batch.items[1:]\n        return hr\n\n    def leave_theorem", "        for item in batch.items[1:]:\n            hr.items.append(item)\n        return hr\n\n    def leave_theorem"))
same("C13", T, ("        if middle.startswith(\"\\n\"):\n            middle = middle[1:]\n", "        middle = middle[1:] if middle.startswith(\"\\n\") else middle\n"))
# C14
bug("C14", T, ("                for child in reversed(node.children):", "                for child in node.children:"))
bug("C14", T, ("                if command.defers:\n                    self.push_leave(stack, node)\n                for child in reversed(node.children):\n                    self.push_visit(stack, child)\n", "                for child in reversed(node.children):\n                    self.push_visit(stack, child)\n                if command.defers:\n                    self.push_leave(stack, node)\n"))
bug("C14", T, ("        if new:\n            self.body = \"\"", "        if new and not self.body:\n            self.body = \"\""))
bug("C14", T, ("                for child in reversed(node.children):", "                for child in reversed(node.children[:200]):"))
bug("C14", T, ("            node, action, method = stack.pop()", "            node, action, method = stack.pop(0)"))
bug("C14", T, ("        commands = [\n            AppendOpenTag(tag, newline_inner=False, newline_outer=False)", "        self.deferred = []\n        commands = [\n            AppendOpenTag(tag, newline_inner=False, newline_outer=False)"))
bug("C14", T, ("    def visit_note(self, node: nodes.Note) -> EditCommand:\n", "    def visit_note(self, node: nodes.Note) -> EditCommand:\n        self.notes = getattr(self, \"notes\", 0) + 1\n"))
same("C14", T, ("            node, action, method = stack.pop()\n            command = method(self, node)\n", "            act = stack.pop()\n            node, action = act[0], act[1]\n            command = act[2](self, node)\n"))
same("C14", T, ("                for child in reversed(node.children):\n                    self.push_visit(stack, child)\n", "                for child in node.children[::-1]:\n                    self.push_visit(stack, child)\n"))
same("C14", T, ("        stack = []\n        self.push_visit(stack, tree)\n", "        stack = [self.Action(tree, \"visit\", self.get_action_method(tree, \"visit\"))]\n"))
same("C14", T, ("                if command.defers:\n                    self.push_leave(stack, node)\n                for child in reversed(node.children):\n                    self.push_visit(stack, child)\n            command.execute(self)\n", "                command.execute(self)\n                if command.defers:\n                    self.push_leave(stack, node)\n                for child in reversed(node.children):\n                    self.push_visit(stack, child)\n            else:\n                command.execute(self)\n"))
# C05, C06
F = "transformer.py"
bug("C05", F, ("                            overwrite_reftext=pending.overwrite_reftext,\n                        )\n                    )\n            elif isinstance(pending, nodes.PendingCite)", "                        )\n                    )\n            elif isinstance(pending, nodes.PendingCite)"))
bug("C05", F, ("                    for label in (f\"cite-{idx}\" for idx in counter)\n                    if label not in self.labels_to_nodes\n", "                    for label in (f\"cite-{idx}\" for idx in counter)\n"))
bug("C05", F, ("                for tgt in targets:", "                for tgt in targets[1:]:"))
bug("C05", F, ("            target = nodes.UnknownBibitem(f'[not a", "            nodes.UnknownBibitem(f'[not a"))
bug("C05", F, ("                if isinstance(target, nodes.Error):\n                    pending.replace_self(target)", "                if isinstance(target, nodes.Error):\n                    pending.remove_self()"))
bug("C05", F, ("                    self._label_to_bibitem(label) for label in pending.targetlabels\n", "                    self._label_to_bibitem(label) for label in pending.targetlabels if label\n"))
bug("C05", F, ("                    tgt.backlinks.append(cite.label)", "                    if cite.label not in tgt.backlinks:\n                        tgt.backlinks.append(cite.label)"))
bug("C05", F, ("        classes = [\n            nodes.PendingReference,\n            nodes.PendingCite,", "        classes = [\n            nodes.PendingReference,"))
bug("C06", F, ("target = target.prev_sibling(nodes.Step)", "target = target.prev_sibling()"))
bug("C06", F, ("                    if target is None:\n                        raise RSMTransformerError(\n                            f\"Did not find previous {pending.target} step(s)\"\n                        )", "                    if target is None:\n                        target = step\n                        break"))
bug("C06", F, ("for _ in range(int(str(pending.target))):", "for _ in range(int(str(pending.target)) - 1):"))
bug("C06", F, ("                step = None\n                if step", "                step = None\n                if step") if False else ("                if step is None:\n                    raise RSMTransformerError(\"Found :prev: tag outside proof step\")", "                if step is None:\n                    continue"))
same("C05", F, ("                pending.replace_self(cite)\n                for tgt in targets:\n                    tgt.backlinks.append(cite.label)\n", "                for tgt in targets:\n                    tgt.backlinks.append(cite.label)\n                pending.replace_self(cite)\n"))
same("C06", F, ("                for _ in range(int(str(pending.target))):\n                    target = target.prev_sibling(nodes.Step)", "                howmany = int(str(pending.target))\n                for _ in range(howmany):\n                    target = target.prev_sibling(nodes.Step)"))
same("C05", F, ("                cite = nodes.Cite(targets=targets)\n                cite.label = next(\n                    label\n                    for label in (f\"cite-{idx}\" for idx in counter)\n                    if label not in self.labels_to_nodes\n                )\n", "                label = next(lb for lb in (f\"cite-{i}\" for i in counter) if lb not in self.labels_to_nodes)\n                cite = nodes.Cite(targets=targets, label=label)\n"))
same("C05", F, ("            if isinstance(pending, nodes.PendingReference):\n                target = self._label_to_node(pending.target)\n                if isinstance(target, nodes.Error):\n                    pending.replace_self(target)\n                else:\n                    pending.replace_self(\n                        nodes.Reference(\n                            target=target,\n                            overwrite_reftext=pending.overwrite_reftext,\n                        )\n                    )\n", "            if isinstance(pending, nodes.PendingReference):\n                found = self._label_to_node(pending.target)\n                if not isinstance(found, nodes.Error):\n                    found = nodes.Reference(target=found, overwrite_reftext=pending.overwrite_reftext)\n                pending.replace_self(found)\n"))
# C09, C11
bug("C09", F, ("statement.append(children[:split_at_idx])", "statement.append(children[: split_at_idx + 1])"))
bug("C09", F, ("(nodes.Step, nodes.Subproof), return_idx=True", "nodes.Step, return_idx=True"))
bug("C09", F, ("                subproof.append(children[split_at_idx + 1 :])\n", ""))
bug("C09", F, ("step.append([statement, subproof])", "step.append([subproof, statement])"))
bug("C09", F, ("            step.clear()\n\n            statement", "            statement"))
bug("C09", F, ("                step.append(statement)\n                continue", "                step.append(children)\n                continue"))
bug("C09", F, ("                subproof.append(children[split_at_idx:])", "                subproof.append(children[split_at_idx])"))
bug("C09", F, ("            if not step.children:\n                continue", "            if len(step.children) < 2:\n                continue"))
same("C09", F, ("            children = step.children[::]\n            step.clear()\n\n            statement = nodes.Statement()\n", "            children = list(step.children)\n            step.clear()\n            statement = nodes.Statement()\n"))
same("C09", F, ("            step.append([statement, subproof])", "            step.append(statement)\n            step.append(subproof)"))
bug("C11", F, ("                node.remove_self()\n        if toc", "                toc = node\n        if toc"))
bug("C11", F, ("levels = (nodes.Section, nodes.Subsection, nodes.Subsubsection)", "levels = (nodes.Section, nodes.Subsection)"))
bug("C11", F, ("if sec.nonum else", "if not sec.nonum else"))
bug("C11", F, ("                toc.append(item)\n", "                toc.prepend(item)\n"))
bug("C11", F, ("                parent_item.append(itemize)\n            itemize.append(item)", "                parent_item.append(itemize)\n                itemize.append(item)"))
bug("C11", F, ("                parent_item.append(itemize)\n", "                parent_item.prepend(itemize)\n"))
bug("C11", F, ("traverse(nodeclass=nodes.Section)", "traverse(nodeclass=nodes.Subsection)"))
bug("C11", F, ("                node.remove_self()\n", "                pass\n"))
bug("C11", F, ("            if itemize is None:\n                itemize = nodes.Itemize()\n                parent_item.append(itemize)", "            if True:\n                itemize = nodes.Itemize()\n                parent_item.append(itemize)"))
bug("C11", F, ("nodes.Reference(target=sec, over", "nodes.Reference(target=toc, over"))
bug("C11", F, ("            items[id(sec)] = item\n", "            items[id(sec)] = item\n            if sec.nonum:\n                continue\n"))
same("C11", F, ("            item.append(nodes.Reference(target=sec, overwrite_reftext=reftext))\n            items[id(sec)] = item\n", "            items[id(sec)] = item\n            item.append(nodes.Reference(target=sec, overwrite_reftext=reftext))\n"))
same("C11", F, ("            if enclosing is None:\n                toc.append(item)\n                continue\n            parent_item = items[id(enclosing)]\n            itemize = parent_item.first_of_type(nodes.Itemize)\n            if itemize is None:\n                itemize = nodes.Itemize()\n                parent_item.append(itemize)\n            itemize.append(item)", "            if enclosing is None:\n                toc.append(item)\n            else:\n                parent_item = items[id(enclosing)]\n                itemize = parent_item.first_of_type(nodes.Itemize)\n                if itemize is None:\n                    itemize = nodes.Itemize()\n                    parent_item.append(itemize)\n                itemize.append(item)"))
bug("C11", F, ("        self.autonumber_nodes()\n        self.make_toc()\n", "        self.make_toc()\n        self.autonumber_nodes()\n"))
bug("C11", F, ("        self.make_toc()\n        self.add_keywords", "        self.make_toc()\n        self.make_toc()\n        self.add_keywords"))
bug("C09", F, ("        self.autonumber_nodes()\n        self.make_toc()\n", "        self.autonumber_nodes()\n        self.make_toc()\n        self.add_necessary_subproofs()\n"))
bug("C09", F, ("                construct.types.append(\"assumption\")", "                construct.remove_self()"))
same("C09", F, ("            construct.types.append(kind)\n", "            kinds = construct.types\n            kinds.append(kind)\n"))
