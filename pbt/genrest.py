"""Generator of reStructuredText documents."""

from docutils.utils import column_width

from pbt import texts

ADORN = "=-~`'\"^_*+#:.<>!$%&(),/;?@[]{|}\\"
WORDS = ["alpha", "beta", "Gamma", "delta", "foo", "bar", "text", "item", "end", "a < b", "x & y", "\"q\"", "it's", "naïve", "привет", "日本語", "😀", "1.5",
         "e.g.", "(x)", "C++", "50%", "&amp;", "<b>", "</div>", "class=\"x\"", "<div>", "id=\"y\""]
LANGS = ["python", "html", "c", ""]


class Rest:
    """What occurs in the document; markers let a caller find the parts again"""

    def __init__(self, src, features=None):
        self.src = src
        self.n = 0
        self.links = []
        self.after = []
        self.depth = 0
        self.malformed = False
        self.names = set()

    def word(self):
        return self.src.choice(WORDS) if self.src.p(0.8) else texts.plain_word(self.src)

    def words(self, mean=2.0, hi=12):
        return " ".join(self.word() for _ in range(self.src.rep(1, hi, mean)))

    def uri(self):
        src = self.src
        return src.choice(["http://example.com/", "https://x.org/a_b?c=1&d=2", "/rel/path", "ftp://a.b/c", "mailto:me@example.com", "page.html", "#frag",
                           "http://example.com/%20x", "irc://x.y/z", "../up"]) if src.p(0.8) else "http://x.org/" + texts.random_word(src)

    def label(self):
        self.n += 1
        return f"label {self.n}"

    def inline(self):
        src = self.src
        k = src.weighted([(6, "text"), (3, "em"), (3, "strong"), (3, "lit"), (3, "link"), (1, "role"), (1, "named"), (1, "anon"), (1, "sub"), (1, "foot"),
                          (1, "auto"), (1, "image"), (1, "cite"), (1, "bad"), (1, "target"), (1, "math")])
        if k == "em":
            return f"*{texts.random_word(src)} {self.plain()}*"
        if k == "strong":
            return f"**{self.plain()}**"
        if k == "lit":
            return f"``{self.words(1.5)}``"
        if k == "link":
            return f"`{self.label()} <{self.uri()}>`__"
        if k == "role":
            role = src.choice(["sub", "sup", "title", "emphasis", "strong", "literal", "code", "pep-reference", "rfc-reference", "ac"])
            return f":{role}:`{src.choice(['8', '20', '2822']) if 'reference' in role else self.plain()}`"
        if k == "named":
            name = self.label()
            self.after.append(f".. _{name}: {self.uri()}")
            return f"`{name}`_"
        if k == "anon":
            self.after.append(f"__ {self.uri()}")
            return f"`{self.label()}`__"
        if k == "sub":
            self.n += 1
            name = f"sub{self.n}"
            self.after.append(src.choice([f".. |{name}| replace:: {self.plain()} *x*", f".. |{name}| image:: {self.uri()}\n   :alt: {self.plain()}",
                                          f".. |{name}| unicode:: 0xA9", f".. |{name}| date:: 2020"]))
            return f"|{name}|"
        if k == "foot":
            self.n += 1
            self.after.append(f".. [#f{self.n}] {self.plain()}")
            return f"[#f{self.n}]_"
        if k == "cite":
            self.n += 1
            self.after.append(f".. [C{self.n}] {self.plain()}")
            return f"[C{self.n}]_"
        if k == "auto":
            return src.choice(["http://example.com/x", "me@example.com", "https://x.org", "ftp://a.b"])
        if k == "image":
            self.n += 1
            self.after.append(f".. |img{self.n}| image:: /i{self.n}.png" + src.choice(["", f"\n   :alt: {self.plain()}", f"\n   :target: {self.uri()}",
                                                                                      "\n   :width: 10\n   :height: 20", "\n   :align: top"]))
            return f"|img{self.n}|"
        if k == "target":
            return f"_`{self.label()}`"
        if k == "math":
            return ":math:`x^2 < y`"
        if k == "bad":
            if not src.p(0.4):
                return self.plain()
            self.malformed = True
            return src.choice(["*x", "**x", "``x", "`x", "|x", "x_", "`y`_", "[9]_", "[zz]_", ":unknown:`x`", "|nosub|", "`a`__ b", "*x\\*"])
        return self.words()

    def plain(self):
        return " ".join(texts.plain_word(self.src)[:20] for _ in range(self.src.rep(1, 4, 1.5)))

    def short(self):
        """The text of a heading, a term, ..."""
        if self.src.p(0.7):
            return self.plain()
        return " ".join([self.plain()] + [self.inline() for _ in range(self.src.rep(1, 3, 1.3))])

    def line(self, mean=2.0):
        return " ".join(self.inline() for _ in range(self.src.rep(1, 8, mean)))

    def safe_start(self, line):
        """Must not start like a list, a table, ..."""
        return "T " + line

    def para(self):
        lines = [self.safe_start(self.line())]
        for _ in range(self.src.rep(0, 3, 0.4)):
            lines.append(self.safe_start(self.line()))
        return lines

    # blocks -> list of lines

    def blocks(self, n=None, sections=False):
        out = []
        self.depth += 1
        last = None
        for _ in range(n or self.src.rep(1, 8, 1.8)):
            kind, lines = self.block(last)
            if out:
                if kind == last and kind in ("bullet", "enum", "def", "field", "option", "lineblock", "quote", "doctest"):
                    out += ["", "..", ""]
                else:
                    out.append("")
            out += lines
            last = kind
        self.depth -= 1
        return out

    def simple(self):
        return self.para()

    def body(self):
        """Content of an item"""
        if self.depth >= 4 or self.src.p(0.6):
            return self.para()
        return self.para() + [""] + self.blocks()

    def block(self, last):
        src = self.src
        options = [(10, "para"), (2, "literal"), (2, "lineblock"), (1, "doctest"), (2, "image"), (1, "comment"), (1, "grid"), (1, "simpletable")]
        if self.depth < 4:
            options += [(4, "bullet"), (3, "enum"), (2, "def"), (2, "field"), (1, "option"), (2, "quote"), (3, "admonition"), (2, "directive"), (2, "table"),
                        (1, "figure"), (1, "badblock")]
        kind = src.weighted(options)
        return kind, getattr(self, "b_" + kind)()

    def indent(self, lines, first, rest=None):
        rest = " " * len(first) if rest is None else rest
        return [(first if k == 0 else rest) + line if line or k == 0 else "" for k, line in enumerate(lines)]

    def b_para(self):
        return self.para()

    def b_literal(self):
        src = self.src
        body = [src.choice(["x = 1", "  if a < b:", "", "<div class=\"x\">", "</div>", "*no* markup", ".. raw:: html", "&amp;"]) for _ in range(src.between(1, 5))]
        body = self.indent(["code"] + body, "    ", "    ")
        return src.choice([["T text::", ""], ["::", ""], [".. code:: " + src.choice(LANGS), ""], [".. parsed-literal::", ""]]) + body

    def b_lineblock(self):
        out = []
        for _ in range(self.src.between(1, 5)):
            out.append("| " + ("    " if self.src.p(0.3) and out else "") + self.safe_start(self.line(1.3)))
        return out

    def b_doctest(self):
        return [">>> print(1 < 2)", "True"]

    def b_image(self):
        src = self.src
        out = [f".. image:: {src.choice(['/a.png', 'http://x.org/b.jpg', 'c.gif', 'd.svg', 'http://x.org/a?b=1&c=2'])}"]
        alt = self.plain() if ".svg" in out[0] else self.words()      # docutils does not escape it
        for o in src.subset([":alt: " + alt, ":width: 100", ":height: 50px", ":target: " + self.uri(), ":align: " + src.choice(["left", "right", "center"])], 0.3):
            out.append("   " + o)
        return out

    def b_comment(self):
        return [".. comment <b>", "   more *x"]

    def b_bullet(self):
        out = []
        mark = self.src.choice("*-+")
        for k in range(self.src.between(1, 4)):
            if k and self.src.p(0.5):
                out.append("")
            item = self.body()
            if out and out[-1] and "" in out:
                out.append("")
            out += self.indent(item, mark + " ")
            if "" in item:
                out.append("")
        while out and not out[-1]:
            out.pop()
        return out

    def b_enum(self):
        src = self.src
        fmt = src.choice(["1.", "#.", "a.", "(1)", "i.", "A)", "3."])
        out = []
        for k in range(src.between(1, 4)):
            if fmt == "#.":
                m = "#."
            elif "1" in fmt:
                m = fmt.replace("1", str(k + 1))
            elif "3" in fmt:
                m = fmt.replace("3", str(k + 3))
            elif "i" in fmt:
                m = ["i.", "ii.", "iii.", "iv."][k]
            else:
                m = fmt.replace("a", "abcd"[k]).replace("A", "ABCD"[k])
            if out:
                out.append("")
            out += self.indent(self.body(), m + " ")
        return out

    def b_def(self):
        out = []
        for _ in range(self.src.between(1, 3)):
            if out:
                out.append("")
            term = self.short() + (" : " + self.plain() if self.src.p(0.2) else "")
            out.append("T " + term)
            out += self.indent(self.body(), "    ", "    ")
        return out

    def b_field(self):
        out = []
        for _ in range(self.src.between(1, 3)):
            out += self.indent(self.body() if self.src.p(0.3) else [self.safe_start(self.words())], f":{self.src.choice(['name', 'A long field name here', 'x'])}: ", "    ")
            out.append("")
        return out[:-1]

    def b_option(self):
        out = []
        for _ in range(self.src.between(1, 3)):
            out.append(self.src.choice(["-a", "-b FILE", "--long", "--long=X", "-x, --xx", "/V", "--a-very-long-option-name=VALUE"]) + "  " + self.words())
        return out

    def b_quote(self):
        out = self.indent(self.blocks(), "    ", "    ")
        if self.src.p(0.3):
            out += ["", "    -- " + self.short()]
        return out

    def b_admonition(self):
        src = self.src
        name = src.choice(["note", "warning", "tip", "danger", "attention", "caution", "error", "hint", "important", "admonition"])
        if name == "admonition":
            return [f".. admonition:: {self.short()}", ""] + self.indent(self.body(), "   ", "   ")
        if src.p(0.3):
            return [f".. {name}:: " + self.safe_start(self.words())]
        return [f".. {name}::", ""] + self.indent(self.body(), "   ", "   ")

    def b_directive(self):
        src = self.src
        k = src.choice(["topic", "sidebar", "container", "compound", "rubric", "epigraph", "pull-quote", "class", "math", "contents", "sectnum", "meta", "header", "footer",
                        "unknown", "role", "target", "highlights", "default-role"])
        top = self.depth == 1
        if k in ("topic", "sidebar") and top:
            return [f".. {k}:: {self.short()}", ""] + self.indent(self.para(), "   ", "   ")
        if k == "container":
            return [f".. container:: {src.choice(['x', 'a b', ''])}", ""] + self.indent(self.body(), "   ", "   ")
        if k in ("compound", "epigraph", "pull-quote", "highlights"):
            return [f".. {k}::", ""] + self.indent(self.body(), "   ", "   ")
        if k == "rubric":
            return [f".. rubric:: {self.short()}"]
        if k == "class":
            return [".. class:: special", "", *self.para()]
        if k == "math":
            return [".. math:: x^2 < y"]
        if k == "contents" and top and "contents" not in self.names:
            self.names.add("contents")
            return [".. contents::" + src.choice(["", " Inhalt", "\n   :local:", "\n   :depth: 1", "\n   :backlinks: none"])]
        if k == "sectnum" and top and "sectnum" not in self.names:
            self.names.add("sectnum")
            return [".. sectnum::"]
        if k == "meta" and top:
            return [".. meta::", "   :keywords: a, b"]
        if k in ("header", "footer") and top:
            return [f".. {k}:: " + self.short()]
        if k == "unknown" and src.p(0.3):
            self.malformed = True
            return [".. unknown:: x", "", "   text"]
        if k == "role":
            self.n += 1
            return [f".. role:: custom{self.n}", "", f"T :custom{self.n}:`{self.plain()}`"]
        if k == "target":
            name = self.label()
            return [f".. _{name}:", "", f"T see `{name}`_"]
        return self.para()

    def b_badblock(self):
        if not self.src.p(0.3):
            return self.para()
        self.malformed = True
        return self.src.choice([["* a", "b"], ["Title", "==="], ["+--+", "| a", "+--+"], [".. image::"], [".. figure:: x", "   :bad: y"], ["=== ===", "a b c d e", "=== ==="],
                                ["1. a", "3. b"], ["::", "no"], [".. |x| image:: y"], [".. _a: x", ".. _a: y"], ["x", "  y", " z"], ["===="], [".. [1]"], ["|"]])

    def b_figure(self):
        return [".. figure:: /fig.png"] + (["   :alt: " + self.plain()] if self.src.p(0.5) else []) + (
            ["   :align: " + self.src.choice(["right", "left", "center"])] if self.src.p(0.4) else []) + (
            ["   :target: " + self.uri()] if self.src.p(0.2) else []) + ["", *self.indent(self.para()[:1], "   "), "", *self.indent(self.para(), "   ", "   ")]

    # tables

    def b_grid(self):
        src = self.src
        rows = [[self.plain() if not src.p(0.1) else "" for _ in range(src.i(3) + 1)]]
        for _ in range(src.i(3)):
            rows.append([self.plain() if not src.p(0.1) else "" for _ in rows[0]])
        rows = [[c.replace("日本語", "x").replace("中文", "x").replace("한국어", "x").replace("ไทย", "x") for c in r] for r in rows]
        rows[0][0] = rows[0][0] or "xx"
        widths = [max(3, *(len(r[k]) for r in rows)) + 2 for k in range(len(rows[0]))]
        sep = "+" + "+".join("-" * w for w in widths) + "+"
        head = src.p(0.5) and len(rows) > 1
        out = [sep]
        for k, r in enumerate(rows):
            out.append("|" + "|".join((" " + c).ljust(w) for c, w in zip(r, widths)) + "|")
            out.append(sep.replace("-", "=") if head and k == 0 else sep)
        return out

    def b_simpletable(self):
        rows = [[texts.random_word(self.src), texts.random_word(self.src)] for _ in range(self.src.between(2, 4))]
        sep = "========== =========="
        return [sep, " ".join(c.ljust(10) for c in rows[0]), sep] + [" ".join(c.ljust(10) for c in r).rstrip() for r in rows[1:]] + [sep]

    def b_table(self):
        src = self.src
        if src.p(0.5):
            cols = src.between(1, 3)
            out = [".. list-table::" + src.choice(["", " " + self.short()])] + src.choice([[], ["   :header-rows: 1"], ["   :stub-columns: 1"] if cols > 1 else []]) + [""]
            for _ in range(src.between(2, 3)):
                for c in range(cols):
                    out += self.indent(self.body(), "   * - " if c == 0 else "     - ", "       ")
                    out.append("")
            return out[:-1]
        return [".. csv-table:: " + self.plain(), "   :header: a, b", "", "   1, \"x, y\"", "   2, *z*"]

    def section(self, style, title):
        char, both = style
        width = max(4, column_width(title), sum(2 if ord(c) > 0x1100 else 1 for c in title)) + self.src.i(3)
        line = char * width
        return ([line] if both else []) + [title, line]

    def document(self):
        src = self.src
        styles = []
        chars = src.shuffled("=-~`'\"^*+#:.")
        for c in chars[:6]:
            styles.append((c, src.p(0.3)))
        out = []
        levels = []
        level = 0
        if not src.p(0.3):
            out += self.blocks()
        for _ in range(src.rep(0, 8, 1.5)):
            level = src.between(1, min(6, level + 1))
            if out:
                out.append("")
            self.n += 1
            name = f"Title {self.n}"
            title = f"{name} " + src.choice(["x", self.plain(), self.short(), self.line(1.3), "*em* x", "``lit``", "<b>"])
            out += self.section(styles[level - 1], title)
            levels.append([level, name])
            out.append("")
            if not src.p(0.2):
                out += self.blocks()
                if src.p(0.3):
                    out += self.definitions()
        out += self.definitions()
        self.levels = levels
        return "\n".join(out) + "\n"

    def definitions(self):
        out = []
        for a in self.after:
            out += ["", *a.split("\n")]
        self.after = []
        return out
