"""Generator of creole documents with their expected HTML tree.

A document is a JSON list of blocks; ``source()`` writes it as creole text,
``expected()`` builds - from the same structure, never from the code under
test - the HTML tree it denotes.

Inline nodes
    ["t", text]              literal text
    ["f", kind, [inline]]    typeface
    ["c", text]              inline code
    ["br"]                   forced line break
    ["nl", indent]           line end inside a paragraph
    ["a", target, label]     link; label is null or a list of t / img / br
    ["u", url] / ["ue", url] bare URL / escaped bare URL
    ["img", src, label, size]  label null or text, size null or [w, h, spelling]
    ["e", chars]             every character escaped with a tilde
Blocks
    ["p", [inline], indent]
    ["h", level, text, gap, trail]
    ["hr", indent, trail]
    ["pre", text]
    ["list", [[marker, indent, gap, [inline], trail], ...]]
    ["table", [[[ [is_head, padl, [inline], padr], ...], closed, indent], ...]]
    ["blank", n, fill]       n blank lines
"""

import re

from pbt import texts
from pbt.texts import BARE_URL, DOUBLED

FACES = {
    "strong": ("**", "strong"),
    "emphasis": ("//", "i"),
    "monospace": ("##", "tt"),
    "underline": ("__", "u"),
    "superscript": ("^^", "sup"),
    "subscript": (",,", "sub"),
    "small": ("--", "small"),
    "delete": ("~~", "del"),
}
PROTOS = ["http", "https", "ftp", "nntp", "news", "mailto", "telnet", "file", "irc"]
MARK = set("*/_#-,^=|~[]{}<>\\:")
BLANKS = [" ", " ", " ", " ", " ", " ", "  ", "\t", "   "]


class Ctx:
    def __init__(self, faces=(), cell=False, feats=None, kinds=None, simple_space=False):
        self.faces = faces              # markers of the enclosing typefaces
        self.cell = cell
        self.feats = feats
        self.kinds = kinds if kinds is not None else list(FACES)
        self.simple_space = simple_space

    def inner(self, marker):
        return Ctx(self.faces + (marker,), self.cell, self.feats, self.kinds, self.simple_space)

    def has(self, feature):
        return self.feats is None or feature in self.feats

    def text_ok(self, w):
        if DOUBLED.search(w) or w.endswith("\\") or BARE_URL.search(w):
            return False
        if self.cell and "|" in w:
            return False
        return True

    def raw_ok(self, text):
        """May this verbatim source fragment stand inside the enclosing typefaces?"""
        for m in self.faces:
            if m == "//":
                if re.search(r"(?<!:)//", text):
                    return False
            elif m in text:
                return False
        return True


def edge_ok(c):
    return c not in MARK and not c.isspace()


def sentence(src, ctx, lo=1, mean=3.0, start=True, end=True):
    """Text; start/end: must be safe next to any markup or line edge"""
    n = src.rep(lo, 40, mean)
    words = []
    for k in range(n):
        def ok(w, k=k):
            if not ctx.text_ok(w):
                return False
            if start and k == 0 and not edge_ok(w[0]):
                return False
            if end and k == n - 1 and not edge_ok(w[-1]):
                return False
            return True
        words.append(texts.word(src, ok))
    out = words[0]
    for w in words[1:]:
        out += (" " if ctx.simple_space else src.choice(BLANKS)) + w
    return out


URLCH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def url_tail(src):
    host = src.choice(["example.com", "www.x-y.de", "localhost:8080", "a.b", "127.0.0.1", "user@host.tld", "user:pw@h.org",
                       "[::1]", "ex\u00e4mple.de", "sub.dom.example.org", "x"])
    out = host
    for _ in range(src.rep(0, 6, 1.2)):
        out += src.choice(["/", "/", "/", "?", "&", "=", "#", ";", ".", "-", "_", "+", ":", "@", "!", "*", "'", "(", ")", ",", "~",
                           "%20", "&amp;", "\"", "<", ">", "`",
                          "|", "^", "{", "}", "[", "]", "\\", "=|"])
        out += texts.random_word(src, 0, 6) if src.p(0.8) else src.choice(texts.UNI[:14])
    return out


def target(src, ctx, bad):
    """A link target or image source; bad: regex that must not occur"""
    for _ in range(4):
        kind = src.weighted([(5, "page"), (5, "url"), (2, "path"), (2, "words"), (1, "anchor"), (1, "mailto"), (1, "mined")])
        if kind == "page":
            t = texts.random_word(src, 1, 12)
            if src.p(0.15):
                t = src.choice(["Foo_Bar", "foo-bar", "Foo bar", "Main Page", "a_b", "index.html", "foo_bar_", t + "_" + texts.random_word(src), t + " " + t])
        elif kind == "url":
            t = src.choice(PROTOS + ["HTTP", "foo", "javascript", "svn+ssh", "tel"]) + "://" + url_tail(src)
        elif kind == "path":
            t = "/" + "/".join(texts.random_word(src, 1, 5) for _ in range(src.between(1, 3))) + src.choice(["", "/", ".html", ".png", "?a=1&b=2", "#x"])
        elif kind == "words":
            t = " ".join(texts.raw_word(src) for _ in range(src.between(1, 3)))
        elif kind == "anchor":
            t = "#" + texts.random_word(src)
        elif kind == "mined":
            t = texts.word(src)
        else:
            t = "mailto:" + texts.random_word(src) + "@example.com"
        t = t.strip()
        if t and not bad.search(t) and ctx.raw_ok(t) and t[0] not in "[{|" and t[-1] not in "]}|\\" and "data:" not in t:
            return t
    return texts.random_word(src)


BAD_LINK = re.compile(r"\||\]\]|\[\[|\n|\\\\|\$\$never")
BAD_IMG = re.compile(r"\||\}\}|\{\{|\n")


def label_text(src, ctx, image=False, target=None):
    """Literal label text (typefaces are not interpreted in labels)"""
    if target and src.p(0.12):
        t = re.sub(r"\s+", " ", texts.near(src, target)).strip()
        if t and not re.search(r"\]\]|\[\[|\{\{|\}\}|\\\\|\||[\u2028\x0b\x0c\x1c-\x1f\x85]", t) and ctx.raw_ok(t) and t[0] not in "[{" and t[-1] not in "]}\\":
            return t
    bad = re.compile(r"\}\}|\{\{|\n|\]\]" if image else r"\]\]|\[\[|\{\{|\}\}|\\\\|\n")
    n = src.rep(1, 8, 1.8)
    words = []
    for _ in range(n):
        def ok(w):
            return not bad.search(w) and w[-1] not in "]}\\" and w[0] not in "[{" and not (image and "|" in w)
        words.append(texts.word(src, ok))
    if not image and src.p(0.06):
        words.append(src.choice(["**x**", "//y//", "a|b", "##", "~*", "__u__"]))
    t = " ".join(words)
    if not ctx.raw_ok(t) or bad.search(t) or (image and "|" in t):
        t = " ".join(texts.random_word(src) for _ in range(min(n, 2)))
    if t[0] == "|":
        t = "x" + t
    if t[-1] in "]}|\\":
        t += "x"
    return t


def image(src, ctx, sizes=True, label_prob=0.7):
    s = target(src, ctx, BAD_IMG)
    label = label_text(src, ctx, image=True, target=s) if src.p(label_prob) else None
    size = None
    if sizes and src.p(0.25):
        w, h = src.i(2000), src.i(2000)
        size = [w, h, src.choice([f"{w}x{h}", f"{w}x{h}", f" {w} x {h} ", f"{w:03d}x{h:02d}", f"{w}x {h}"])]
        if not ctx.raw_ok(size[2]):
            size[2] = f"{w}x{h}"
    return ["img", s, label, size]


def link(src, ctx, sizes=True):
    t = target(src, ctx, BAD_LINK)
    kind = src.weighted([(3, 0), (6, 1), (1, 2)])
    if kind == 0:
        return ["a", t, None]
    if kind == 1:
        return ["a", t, [["t", label_text(src, ctx, target=t)]]]
    label = []
    for _ in range(src.between(1, 3)):
        k = src.i(3)
        if k == 0:
            label.append(["t", texts.random_word(src) + " "])
        elif k == 1 and ctx.has("img"):
            img = image(src, ctx, sizes)
            if "[[" in img[1] or "]]" in img[1]:
                img[1] = "i.png"
            label.append(img)
        elif ctx.has("br"):
            label.append(["br"])
    if not any(x[0] != "br" for x in label) or label[0][0] == "br" or label[-1][0] == "br":
        label = [["t", "l "]] + label + [["t", texts.random_word(src)]]
    if label[-1][0] == "t":      # blanks around a label have no meaning
        label[-1] = ["t", label[-1][1].strip() or "z"]
    return ["a", t, label]


def bare_url(src, ctx):
    for _ in range(3):
        u = src.choice(PROTOS) + "://" + url_tail(src)
        if not edge_ok(u[-1]):
            u += texts.random_word(src)
        if "$" not in u and "<<" not in u and not any(c.isspace() for c in u) and ctx.raw_ok(u) and not (ctx.cell and re.search(r"\||\{\{|\[\[", u)):
            return u
    return "http://example.com/x"


def code_text(src, ctx):
    for _ in range(3):
        kind = src.weighted([(5, 0), (3, 1), (2, 2)])
        if kind == 0:
            t = " ".join(texts.raw_word(src) for _ in range(src.between(1, 4)))
        elif kind == 1:
            t = src.choice(["**bold**", "//i//", "[[a|b]]", "{{x|y}}", "<<m>>", "<<q9 x=1>>t<</q9>>", "= h =", "* x", "|a|b|", "a\\\\b", "~*x",
                            "<b>&amp;</b>", "http://a.b", "{{{", "x = {y: {z: 1}} ;", "  lead", "trail  ", "a  b", "~~d~~", "----", "{", "#!x"])
        else:
            t = "".join(src.choice("*/#_^,-~=|[]{}<>\\!'\"& abc") for _ in range(src.between(1, 12)))
        if "}}}" in t or t.endswith("}") or not t.strip() or t.startswith("{") or not ctx.raw_ok(t):
            continue
        return t
    return "code"


ESCAPABLE = list("*/_#-,^=|[{<\\]}>!.")


def inlines(src, ctx, depth=0, mean=2.2, nl=False, line_start=True):
    """A list of inline nodes, sound next to any neighbour."""
    out = []
    n = src.rep(1, 14, mean)
    prev_space = True      # whitespace or container edge before
    last_kind = None
    for k in range(n):
        choices = [(10, "t")]
        if len(ctx.faces) < 8 and ctx.has("f") and depth < 9:
            choices.append((7, "f"))
        if ctx.has("c"):
            choices.append((2, "c"))
        if ctx.has("a"):
            choices.append((2, "a"))
        if ctx.has("img"):
            choices.append((1, "img"))
        if ctx.has("u") and prev_space:
            choices.append((1, "u"))
        if ctx.has("e"):
            choices.append((1, "e"))
        if ctx.has("br") and 0 < k < n - 1 and last_kind not in ("br", "nl"):
            choices.append((1, "br"))
        if nl and 0 < k < n - 1 and last_kind not in ("br", "nl"):
            choices.append((4, "nl"))
        kind = src.weighted(choices)
        if last_kind == "t" and kind == "t":
            kind = "f" if ctx.has("f") and len(ctx.faces) < 8 else "t"
        last = k == n - 1
        if kind in ("br", "nl"):
            if kind == "br":
                if last_kind in ("u", "ue"):
                    out.append(["t", " "])
                node = ["br"]
            else:
                node = ["nl", src.choice(["", "", "", " ", "  ", "\t"])]
                line_start = True
            out.append(node)
            prev_space = True
            last_kind = kind
            continue
        if kind == "f":
            kinds = [x for x in ctx.kinds if FACES[x][0] not in ctx.faces]
            # no tilde escapes around "~~"
            if not kinds:
                kind = "t"
        if kind == "t":
            node = ["t", sentence(src, ctx)]
        elif kind == "f":
            face = src.choice(kinds)
            inner = ctx.inner(FACES[face][0])
            sub = inlines(src, inner, depth + 1, mean=min(max(1.2, mean - 0.5), 3.0 if depth else 6.0) if depth < 3 else 1.3)
            if not ctx.simple_space and src.p(0.04):    # blanks inside of the markers
                if src.p(0.6):
                    sub.insert(0, ["t", src.choice([" ", "  ", "\t"])])
                else:
                    sub.append(["t", " "])
            elif not ctx.simple_space and ctx.has("br") and sub and src.p(0.05):    # a break beside the marker
                if src.p(0.7):
                    if sub[-1][0] in ("u", "ue"):
                        sub.append(["t", " "])
                    sub.append(["br"])
                elif sub[0][0] not in ("u", "ue"):
                    sub.insert(0, ["br"])
            node = ["f", face, sub]
        elif kind == "c":
            node = ["c", code_text(src, ctx)]
        elif kind == "a":
            node = link(src, ctx)
        elif kind == "img":
            node = image(src, ctx)
        elif kind == "u":
            node = ["ue" if src.p(0.2) and ctx.has("e") and "~~" not in ctx.faces else "u", bare_url(src, ctx)]
        else:
            chars = "".join(src.choice(ESCAPABLE) for _ in range(src.rep(1, 4, 1.5)))
            if ctx.cell:
                chars = chars.replace("|", "*")
            if "~~" in ctx.faces:
                node = ["t", sentence(src, ctx)]
            else:
                node = ["e", chars]
        if out and ((last_kind == "br" and node[0] in ("u", "ue"))):
            out.append(["t", " "])     # a bare URL starts after a blank
        # what stands between this node and the one before
        if out and last_kind not in ("br", "nl"):
            glue = src.choice(["", " "]) if last_kind != node[0] or node[0] not in ("t",) else " "
            need = (node[0] in ("u", "ue") or last_kind in ("u", "ue", "e") or
                    (node[0] == "e" and last_kind == "f" and out[-1][1] == "delete"))
            if need:
                glue = " "
            if glue:
                out.append(["t", glue])
        out.append(node)
        last_kind = node[0]
        prev_space = False
        if not last:
            prev_space = src.p(0.5)
            if prev_space:
                out.append(["t", " "])
                last_kind = "sp"
    if out and out[-1][0] in ("br", "nl"):
        out.append(["t", "end"])
    if out and out[-1][0] == "e":
        out.append(["t", " z"])
    if out and out[-1] == ["t", " "]:
        out.pop()
    return out


# ---------------------------------------------------------------------------
# blocks
# ---------------------------------------------------------------------------

def heading_text(src):
    n = src.rep(1, 10, 2.2)
    words = [texts.word(src) for _ in range(n)]
    if src.p(0.1):
        words.insert(src.i(n + 1), src.choice(["**b**", "//i//", "[[l]]", "~*", "{{{c}}}", "<<m>>", "\\\\", "http://a.b", "a == b", "|x|"]))
    t = " ".join(words).replace("\u2028", "")
    t = t.strip().lstrip("=").rstrip("= \t").strip()
    return t or "Title"


PRE_LINES = ["", "", " ", "  indented", "\ttab", "**bold**", "* item", "= head", "|a|b|", "----", "<b>html</b> &amp; \"q\"",
             "{{{", " }}}", "x }}}", "~tilde", "[[link]]", "<<macro>>", "<<q9>>b<</q9>>", "line \\\\ break", "text  with   blanks  ",
             "#!python", "if (x) { {y} }", "{{{ inline }}}", "~~", "end"]


def pre_text(src):
    n = src.rep(1, 12, 2.5)
    lines = []
    for _ in range(n):
        k = src.weighted([(5, 0), (4, 1), (1, 2)])
        if k == 0:
            line = src.choice(PRE_LINES)
        elif k == 1:
            line = src.choice(["", "", "  ", "    "]) + " ".join(texts.raw_word(src) for _ in range(src.between(1, 5)))
        else:
            line = "".join(src.choice("*/#_^,-~=|[]{}<>\\!'\"& abc") for _ in range(src.between(1, 20)))
        if line.startswith("}}}") or re.match(r"\s*~\}\}\}\s*$", line):
            line = "x" + line
        lines.append(line)
    return "\n".join(lines)


def list_block(src, ctx, max_items=14, item_mean=1.5, indents=True, max_depth=6):
    empty = src.p(0.2)
    n = src.rep(1, max_items, 4.0) if not src.p(0.04) else src.between(10, 60)
    items = []
    level = 0
    markers = src.subset("*#", 0.7) or ["*"]
    base = ""
    for k in range(n):
        if k == 0:
            level = 1
        else:
            step = src.weighted([(4, 0), (3, 1), (2, -1), (1, -99)])
            level = max(1, min(max_depth, level + step if step > -99 else src.between(1, level)))
        if level <= len(base):
            # the marker of an outer list mostly stays, as authors write it
            marker = base[:level - 1] + (base[level - 1] if src.p(0.75) else src.choice(markers))
        else:
            marker = base + "".join(src.choice(markers) for _ in range(level - len(base)))
        if src.p(0.1):
            marker = "".join(src.choice(markers) for _ in range(level - 1)) + marker[-1]
        base = marker
        text = inlines(src, ctx, mean=item_mean)
        indent = src.choice(["", "", "", " ", "  ", "\t", "    "]) if indents else ""
        if indents and src.p(0.03):
            indent = src.choice([" " * src.between(5, 40), "\t" * src.between(2, 6), "\t  ", "  \t"])
        gap = src.choice([" ", " ", " ", "  ", "\t"]) if indents else " "
        if indents and text and text[0][0] == "t" and edge_ok(text[0][1][0]) and src.p(0.15):
            gap = ""
        trail = src.choice(["", "", "", " ", "  "]) if indents else ""
        if empty and src.p(0.1):
            text = []
        items.append([marker, indent, gap, text, trail])
    return ["list", items]


def table_block(src, ctx, max_rows=8, max_cols=8, pad=True):
    rows = []
    cell_ctx = Ctx((), True, ctx.feats, ctx.kinds, ctx.simple_space)
    ncols = src.between(1, max_cols) if not src.p(0.03) else src.between(5, 40)
    nrows = src.rep(1, max_rows, 2.5) if not src.p(0.03) else src.between(8, 40)
    ragged = src.p(0.3)
    for r in range(nrows):
        cols = src.between(1, max_cols) if ragged else ncols
        head_row = src.p(0.5) if r == 0 else src.p(0.05)
        cells = []
        for c in range(cols):
            is_head = head_row if src.p(0.9) else not head_row
            padl = src.choice(["", " ", "  "]) if pad else ""
            padr = src.choice(["", " ", "  "]) if pad else ""
            if is_head:
                content = inlines(src, cell_ctx, mean=1.3)
            elif src.p(0.15):
                content = []
                if not padl and not padr and src.p(0.5):
                    padl = " "
            else:
                content = inlines(src, cell_ctx, mean=1.5)
            cells.append([is_head, padl, content, padr])
        closed = src.p(0.8)
        if not closed and cells and not cells[-1][2]:
            closed = True       # "|a|" has no second, empty cell
        indent = src.choice(["", "", "", " ", "  "]) if pad else ""
        rows.append([cells, closed, indent])
    return ["table", rows]


def paragraph(src, ctx, mean=3.0, nl=True):
    return ["p", inlines(src, ctx, mean=mean, nl=nl), src.choice(["", "", "", "", " ", "  "])]


ALL_FEATS = ["f", "c", "a", "img", "u", "e", "br"]
ALL_BLOCKS = ["p", "h", "hr", "pre", "list", "table"]


def document(src, mode, blocks=None, feats=None, mean=3.0, kinds=None, nl=True, big=0.02):
    """A document in the given line-break mode ("blog" or "wiki")."""
    blocks = blocks or ALL_BLOCKS
    if feats is None:
        feats = src.subset(ALL_FEATS, 0.6)
    if kinds is None:
        kinds = src.subset(list(FACES), 0.6) or ["strong"]
    ctx = Ctx(feats=feats, kinds=kinds)
    out = []
    n = src.rep(1, 12, mean) if not src.p(big) else src.between(8, 40)
    weights = {"p": 6, "h": 2, "hr": 1, "pre": 2, "list": 4, "table": 3}
    pairs = [(weights[b], b) for b in blocks]
    for _ in range(n):
        kind = src.weighted(pairs)
        block = make_block(src, kind, ctx, nl)
        add_block(src, out, block, mode)
    return out


def make_block(src, kind, ctx, nl=True):
    if kind == "p":
        return paragraph(src, ctx, nl=nl)
    if kind == "h":
        text, gap = heading_text(src), src.choice([" ", " ", "", "  ", "\t"])
        if gap and src.p(0.06):
            text = src.choice(["= ", "== ", "=", "=x "]) + text
        return ["h", src.between(1, 6), text, gap,
                src.choice(["", "", " =", "=", " ==", " ====== ", "  ", "= = "])]
    if kind == "hr":
        return ["hr", src.choice(["", "", " ", "  "]), src.choice(["", "", " ", "\t"])]
    if kind == "pre":
        return ["pre", pre_text(src)]
    if kind == "list":
        return list_block(src, ctx)
    return table_block(src, ctx)


def add_block(src, out, block, mode):
    """Append with the blank lines the syntax needs."""
    prev = None
    for b in reversed(out):
        if b[0] != "blank":
            prev = b[0]
            break
    if prev is not None:
        kind = block[0]
        need = 0
        if prev == kind and kind in ("p", "list", "table"):
            need = 1
        if prev == "list" and kind == "p":
            need = 1
        n = max(need, src.weighted([(3, 1), (2, 0), (1, 2), (1, 3)]))
        if n:
            out.append(["blank", n, src.choice(["", "", "", " ", "  ", "\t"])])
    elif src.p(0.1):
        out.append(["blank", src.between(1, 2), ""])
    out.append(block)


# ---------------------------------------------------------------------------
# source text
# ---------------------------------------------------------------------------

def inline_source(nodes):
    out = []
    for n in nodes:
        kind = n[0]
        if kind == "t":
            out.append(n[1])
        elif kind == "f":
            m = FACES[n[1]][0]
            out.append(m + inline_source(n[2]) + m)
        elif kind == "c":
            out.append("{{{" + n[1] + "}}}")
        elif kind == "br":
            out.append("\\\\")
        elif kind == "nl":
            out.append("\n" + n[1])
        elif kind == "a":
            if n[2] is None:
                out.append(f"[[{n[1]}]]")
            else:
                out.append(f"[[{n[1]}|{inline_source(n[2])}]]")
        elif kind == "u":
            out.append(n[1])
        elif kind == "ue":
            out.append("~" + n[1])
        elif kind == "img":
            parts = [n[1]]
            if n[2] is not None or n[3] is not None:
                parts.append(n[2] or "")
            if n[3] is not None:
                parts.append(n[3][2])
            out.append("{{" + "|".join(parts) + "}}")
        elif kind == "e":
            out.append("".join("~" + c for c in n[1]))
        elif kind == "m":
            out.append(n[1])
        else:
            raise ValueError(n)
    return "".join(out)


def block_source(b):
    kind = b[0]
    if kind == "p":
        return b[2] + inline_source(b[1])
    if kind == "h":
        return "=" * b[1] + b[3] + b[2] + b[4]
    if kind == "hr":
        return b[1] + "----" + b[2]
    if kind == "pre":
        lines = []
        for line in b[1].split("\n"):
            lines.append(line)
        return "{{{\n" + "\n".join(lines) + "\n}}}"
    if kind == "list":
        return "\n".join(indent + marker + gap + inline_source(text) + trail for marker, indent, gap, text, trail in b[1])
    if kind == "table":
        rows = []
        for cells, closed, indent in b[1]:
            row = indent
            for is_head, padl, content, padr in cells:
                row += "|" + ("=" if is_head else "") + padl + inline_source(content) + padr
            rows.append(row + ("|" if closed else ""))
        return "\n".join(rows)
    if kind == "blank":
        return "\n".join([b[2]] * b[1])
    if kind == "raw":
        return b[1]
    raise ValueError(b)


def source(doc):
    return "\n".join(block_source(b) for b in doc)


# ---------------------------------------------------------------------------
# expected tree
# ---------------------------------------------------------------------------

def image_tree(n, strict=False):
    _, src, label, size = n
    text = label if label is not None else src
    attrs = {"src": src}
    if size is not None:
        if strict:
            text = f"{label or ''}|{size[2]}".strip()
        else:
            text = label or src
            attrs["width"] = str(size[0])
            attrs["height"] = str(size[1])
    attrs["title"] = attrs["alt"] = text
    return ["img", attrs, []]


def inline_tree(nodes, mode, strict=False):
    out = []
    for n in nodes:
        kind = n[0]
        if kind == "t":
            out.append(n[1])
        elif kind == "f":
            out.append([FACES[n[1]][1], {}, inline_tree(n[2], mode, strict)])
        elif kind == "c":
            out.append(["code", {}, [n[1]]])
        elif kind == "br":
            out.append(["br", {}, []])
        elif kind == "nl":
            if mode == "blog":
                out.append(["br", {}, []])
            else:
                out.append(" ")
        elif kind == "a":
            label = [n[1]] if n[2] is None else inline_tree(n[2], mode, strict)
            out.append(["a", {"href": n[1]}, label])
        elif kind == "u":
            out.append(["a", {"href": n[1]}, [n[1]]])
        elif kind == "ue":
            out.append(n[1])
        elif kind == "img":
            out.append(image_tree(n, strict))
        elif kind == "e":
            out.append(n[1])
        else:
            raise ValueError(n)
    return out


def list_tree(items, mode, strict=False):
    """Independent model: a stack of open lists, one per level.

    An item of level L belongs to the open list of that level if it has the
    same kind; otherwise a new list starts at that level, inside the item that
    is open one level above (or at the top)."""
    top = []
    stack = []     # [list node] for level 1, 2, ...
    for marker, _indent, _gap, text, _trail in items:
        level = len(marker)
        tag = "ol" if marker[-1] == "#" else "ul"
        del stack[level:]
        if len(stack) == level and stack[-1][0] != tag:
            stack.pop()
        if len(stack) < level:
            assert len(stack) == level - 1, "item more than one level deeper"
            node = [tag, {}, []]
            if stack:
                stack[-1][2][-1][2].append(node)
            else:
                top.append(node)
            stack.append(node)
        stack[-1][2].append(["li", {}, inline_tree(text, mode, strict)])
    return top


def expected(doc, mode, strict=False):
    out = []
    for b in doc:
        kind = b[0]
        if kind == "p":
            out.append(["p", {}, inline_tree(b[1], mode, strict)])
        elif kind == "h":
            out.append([f"h{b[1]}", {}, [b[2]]])
        elif kind == "hr":
            out.append(["hr", {}, []])
        elif kind == "pre":
            out.append(["pre", {}, ["\n" + b[1] + "\n"]])
        elif kind == "list":
            out.extend(list_tree(b[1], mode, strict))
        elif kind == "table":
            rows = []
            for cells, _closed, _indent in b[1]:
                rows.append(["tr", {}, [["th" if c[0] else "td", {}, inline_tree(c[2], mode, strict)] for c in cells]])
            out.append(["table", {}, rows])
    return out


def first_difference(exp, act, path="document"):
    """Human readable first difference of two canonical trees."""
    for k in range(max(len(exp), len(act))):
        if k >= len(exp):
            return f"{path}: unexpected {act[k]!r}"
        if k >= len(act):
            return f"{path}: missing {exp[k]!r}"
        a, b = exp[k], act[k]
        if a == b:
            continue
        if isinstance(a, list) and isinstance(b, list) and a[0] == b[0] and a[1] == b[1]:
            return first_difference(a[2], b[2], f"{path}/{a[0]}[{k}]")
        return f"{path}[{k}]: expected {a!r}, got {b!r}"
    return "equal"
