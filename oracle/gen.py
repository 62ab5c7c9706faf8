"""Random inputs for the bounded counterexample search (never counted as proof)."""
import random

WORDS = ["foo", "bar", "baz", "lorem", "ipsum", "dolor", "Alpha", "Beta.", "x,", "y;", "end.", "(z)", "§4"]
LABELS = ["lblA", "lblB", "lblC", "lblD", "lblE", "lblF"]
BIBS = ["bibA", "bibB", "bibC"]


class Doc:
    """A grammar-driven generator of RSM source text."""

    def __init__(self, rng, size=12, errors=False):
        self.r = rng
        self.left = size
        self.errors = errors

    def words(self, lo=1, hi=4):
        r = self.r
        out = []
        for _ in range(r.randint(lo, hi)):
            w = r.choice(WORDS)
            if r.random() < 0.08:
                w = r.choice(["a\\:b", "\\%", "\\$5", "c\\*d", "\\#1", "\\`q", "\\{x", "\\n", "\\alpha"])
            out.append(w)
        sep = " " if r.random() < 0.85 else r.choice(["  ", "\n"])
        return sep.join(out)

    def meta(self, extra=()):
        """Inline meta region, or nothing."""
        r = self.r
        items = []
        if r.random() < 0.35:
            items.append(":label: " + r.choice(LABELS))
        if r.random() < 0.12:
            items.append(":nonum:")
        if r.random() < 0.12:
            items.append(":types: t1")
        items += [e for e in extra if r.random() < 0.5]
        return items

    def inline_meta(self, extra=()):
        items = [m for m in self.meta(extra) if m != ":nonum:"]
        return "{" + ", ".join(items) + "}" if items else ""

    def block_meta(self, extra=()):
        items = self.meta(extra)
        return "".join("\n" + m for m in items) + "\n"

    def inline(self, depth=0):
        r = self.r
        k = r.random()
        if k < 0.4 or depth > 2:
            return self.words()
        c = r.choice(
            ["math", "strong", "emph", "span", "ref", "ref2", "cite", "code", "url", "url2", "note",
             "draft", "claim", "construct", "mathdot", "coded", "math2", "newline", "construct0", "constructm"])
        if c == "math":
            return "$x_{%d}$" % r.randint(0, 9)
        if c == "math2":
            return "$x$ $y$"
        if c == "mathdot":
            return "$x$."
        if c == "strong":
            return "*" + self.words(1, 2) + "*"
        if c == "emph":
            return "/" + r.choice(["foo", "bar baz"]) + "/"
        if c == "span":
            attrs = self.r.choice([":strong:", ":emphas:", ":strong:, :emphas:"])
            lab = ", :label: " + r.choice(LABELS) if r.random() < 0.3 else ""
            return ":span: {" + attrs + lab + "} " + self.inline(depth + 1) + " ::"
        if c == "ref":
            return ":ref:" + r.choice(LABELS + ["nolabel"]) + "::"
        if c == "ref2":
            return ":ref:" + r.choice(LABELS) + ", some text::"
        if c == "cite":
            return ":cite:" + ",".join(r.choice(BIBS + ["nobib", "lblA"]) for _ in range(r.randint(1, 3))) + "::"
        if c == "code":
            return "`a[0] = 1`"
        if c == "coded":
            return ":code: {:lang: %s} x = 1 ::" % r.choice(["python", "python", "nosuchlang"])
        if c == "url":
            return ":url:https://e.org::"
        if c == "url2":
            return ":url:https://e.org, Site::"
        if c == "note":
            return ":note: " + self.inline(depth + 1) + " ::"
        if c == "draft":
            return ":draft: " + self.inline(depth + 1) + " ::"
        if c == "claim":
            return ":⊢: " + self.inline(depth + 1) + " ::"
        if c == "construct":
            tag = r.choice(["let", "define", "write", "case", "then", "new", "assume", "prove", "pick", "suffices", "claim", "st"])
            return ":" + tag + ": " + self.inlines(depth + 1, 2) + " ::"
        if c == "constructm":
            return ":" + r.choice(["let", "assume", "prove"]) + ": $z$ ::"
        if c == "construct0":
            return ":qed:"
        if c == "newline":
            return self.words(1, 2) + "\n" + self.words(1, 2)
        return self.words()

    def inlines(self, depth=0, hi=5):
        r = self.r
        sep = [" ", " ", " ", "\n", ""]
        out = self.inline(depth)
        for _ in range(r.randint(0, hi - 1)):
            out += r.choice(sep) + self.inline(depth)
        return out

    def mathblock(self):
        r = self.r
        k = r.random()
        if k < 0.4:
            return "$$\nx = y\n$$"
        m = self.meta([":isclaim:"])
        if k < 0.8:
            return "$$" + "".join("\n" + x for x in m) + "\nx = y\n$$" if m else "$$ z $$"
        return ":mathblock:" + "".join("\n" + x for x in m) + "\nx = y\n::"

    def para(self, depth=0):
        r = self.r
        s = ""
        if r.random() < 0.15:
            m = self.inline_meta()
            s = ":paragraph: " + m + " " if m else ""
        s += self.inlines(depth)
        if r.random() < 0.2:
            s += "\n" + self.mathblock()
            if r.random() < 0.6:
                s += "\n" + self.inlines(depth, 2)
                if r.random() < 0.3:
                    s += "\n" + self.mathblock()
        return s + "\n\n"

    def prev(self):
        r = self.r
        return r.choice([":prev:", ":prev2:", ":prev3:", ":previous:1::", ":previous:2, two back::", ":previous:0::"])

    def step(self, idx, depth):
        r = self.r
        s = ":step:" + (" " if r.random() < 0.5 else self.block_meta() + "\n")
        body = self.inlines(1, 3)
        if idx >= 1 and r.random() < 0.4:
            body += " see :prev:" + " "
        elif idx >= 2 and r.random() < 0.3:
            body += " see " + r.choice([":previous:2::", ":prev2:", ":previous:1, back::"]) + " "
        elif r.random() < 0.03:
            body += " see " + self.prev() + " "
        s += body + "\n\n"
        if r.random() < 0.2:
            s += self.mathblock() + "\n\n"
        k = r.random()
        if depth < 2:
            if k < 0.25:
                s += ":p:\n\n" + self.inlines(1, 2) + "\n\n"
                for i in range(r.randint(0, 2)):
                    s += self.step(i, depth + 1)
                s += "::\n\n"
                if r.random() < 0.3:
                    s += self.inlines(1, 2) + "\n\n"
            elif k < 0.5:
                for i in range(r.randint(1, 3)):
                    s += self.step(i, depth + 1)
        return s + "::\n\n"

    def proof(self):
        r = self.r
        s = ":proof:" + self.block_meta() + "\n"
        if r.random() < 0.2:
            s += ":sketch:\n\n" + self.para(1) + "::\n\n"
        if r.random() < 0.2:
            s += self.para(1)
        for i in range(r.randint(0, 4)):
            s += self.step(i, 0)
        return s + "::\n\n"

    def theorem(self):
        r = self.r
        kind = r.choice(["theorem", "lemma", "corollary", "proposition", "remark", "definition", "example", "theorem"])
        s = ":" + kind + ":" + self.block_meta([":title: Big"]) + "\n"
        for _ in range(r.randint(0, 2)):
            s += self.para(1)
        if r.random() < 0.2:
            s += self.list_()
        return s + "::\n\n"

    def list_(self):
        r = self.r
        s = r.choice([":itemize:", ":enumerate:"]) + self.block_meta() + "\n"
        for _ in range(r.randint(1, 3)):
            m = self.inline_meta()
            s += ":item: " + m + (" " if m else "") + self.inlines(1, 3) + "\n\n"
        return s + "::\n\n"

    def table(self):
        r = self.r
        s = ":table:" + self.block_meta() + "\n"
        if r.random() < 0.5:
            s += ":thead:\n\n:tr: a : b ::\n\n::\n\n"
        s += ":tbody:\n\n"
        for _ in range(r.randint(1, 2)):
            if r.random() < 0.5:
                s += ":tr: foo : *bar* ::\n\n"
            else:
                s += ":tr: :td: foo :: :td: $x$ :: ::\n\n"
        s += "::\n\n"
        if r.random() < 0.4:
            s += ":caption: " + self.inlines(2, 2) + "\n\n"
        return s + "::\n\n"

    def figure(self):
        r = self.r
        s = ":figure:" + self.block_meta() .rstrip("\n") + "\n:path: assets/e%d.png\n\n" % r.randint(0, 3)
        if r.random() < 0.6:
            s += ":caption: " + self.inlines(2, 2) + "\n\n"
        return s + "::\n\n"

    def block(self):
        r = self.r
        c = r.choice(
            ["para"] * 4 + ["theorem"] * 2 + ["proof"] * 2
            + ["list", "table", "figure", "codeblock", "algorithm", "mathblock", "sketch", "codelang", "claimblock"])
        if c == "para":
            return self.para()
        if c == "theorem":
            return self.theorem()
        if c == "proof":
            return self.proof()
        if c == "list":
            return self.list_()
        if c == "table":
            return self.table()
        if c == "figure":
            return self.figure()
        if c == "codeblock":
            return "```\nimport sys  # a\\:b\n```\n\n"
        if c == "codelang":
            return "```\n:lang: %s\n\nx = 1\n```\n\n" % r.choice(["python", "c", "nosuchlang"])
        if c == "algorithm":
            return ":algorithm:\n\\begin{algorithm}\n\\caption{Q}\n\\end{algorithm}\n::\n\n"
        if c == "mathblock":
            return self.mathblock() + "\n\n"
        if c == "claimblock":
            return "$$\n:isclaim:\nx = y\n$$\n\n"
        if c == "sketch":
            return ":sketch:\n\n" + self.para(1) + "::\n\n"
        return ""

    def section(self, level):
        r = self.r
        marks = "#" * (level + 1)
        s = marks + " " + r.choice(["Intro", "Results", "On \\: and", "A B", "Zeta"]) + "\n"
        m = self.meta()
        s += "".join(x + "\n" for x in m)
        return s + "\n"

    def source(self):
        r = self.r
        s = ":rsm:\n"
        k = r.random()
        if k < 0.4:
            s += ":title: " + r.choice(["My Title", "Ttl \\: x", "T"]) + "\n"
        elif k < 0.6:
            s += "# " + r.choice(["My Title", "Ttl \\: x", "T"]) + "\n"
        if r.random() < 0.1:
            s += ":label: msl\n"
        s += "\n"
        if r.random() < 0.3:
            s += ":author:\n:name: Ann\n" + (":email: a@b.org\n" if r.random() < 0.5 else "") + "::\n\n"
        if r.random() < 0.1:
            s += ":author:\n::\n\n"
        if r.random() < 0.3:
            s += ":abstract:\n" + (":keywords: {k1, k2}\n" if r.random() < 0.5 else "") + "\n" + self.para(1) + "::\n\n"
        ntoc = r.choice([0, 0, 1, 1, 2]) if r.random() < 0.6 else 0
        if ntoc:
            s += ":toc: ::\n\n"
        if r.random() < 0.5:
            s += self.para()
        levels = [1, 2, 3] if r.random() < 0.5 else [1, 1, 2]
        last = 0
        appendix = r.random() < 0.25
        while self.left > 0:
            self.left -= 1
            k = r.random()
            if k < 0.3:
                lvl = min(r.choice(levels), last + 1)
                last = lvl
                s += self.section(lvl)
            elif appendix and k < 0.36:
                s += ":appendix:\n\n"
            else:
                s += self.block()
        if ntoc > 1:
            s += ":toc: ::\n\n"
        bib = r.random() < 0.6
        if bib:
            s += ":bibliography: ::\n\n"
        s += "::\n\n"
        if bib:
            s += ":bibtex:\n\n"
            for b in r.sample(BIBS, r.randint(1, 3)):
                kind = r.choice(["book", "article", "misc"])
                s += "@%s{%s,\n  title={Some title},\n  author={Doe, J}%s,\n  journal={J},\n  publisher={P}%s\n}\n\n" % (
                    kind, b, "" if r.random() < 0.1 else ",\n  year={2014}", ",\n  doi={10.1/x}" if r.random() < 0.4 else "")
            s += "::\n"
        return s


def source(seed):
    rng = random.Random(seed)
    return Doc(rng, size=rng.randint(1, 10)).source()
