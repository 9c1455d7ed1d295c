"""Generator of HTML documents as element trees, and their serialisation.

A tree is a list of children, a child is a str or ``[tag, {attr: value}, [children]]``
(the form htmltree uses, too).  What text and elements may occur is decided by
a profile per target format, so that the tree itself is the expected result.
"""

import html as _html
import re

from pbt import gencreole as g
from pbt import texts

BLOCK = {"p", "h1", "h2", "h3", "h4", "h5", "h6", "ul", "ol", "li", "table", "tr", "th", "td", "hr", "br", "div", "thead", "tbody",
         "tfoot", "blockquote", "form", "fieldset", "address", "center", "pre"}
VOID = {"br", "hr", "img"}


# ---------------------------------------------------------------------------
# profiles
# ---------------------------------------------------------------------------

class Profile:
    """What a target format can express"""

    name = ""
    faces = ()              # inline element names
    code = None             # element of inline code
    br = True
    br_in_item = True
    br_in_cell = True
    near_label = None       # may this text be the label of a link?
    adjacent = False        # may elements touch text
    nest = True
    links = True
    images = True
    link_images = False
    max_heading = 6
    blocks = (("p", 8), ("h", 2), ("list", 3), ("table", 3))
    max_list_depth = 12
    header = "any"          # any / first: header cells only in the first row / no
    ragged = True
    empty_cells = True
    empty_items = False
    inline_in_heading = False
    space_edge = r""
    sizes = False           # images with width and height

    def ok(self, w, start, end):
        """May the word stand in a text (start / end: at the edge of a text node)?"""
        return True

    def word(self, src, start, end):
        return texts.word(src, lambda w: self.ok(w, start, end))

    def text(self, src, mean=2.5, start=True, end=True, hi=30):
        n = src.rep(1, hi, mean)
        return " ".join(self.word(src, start and k == 0, end and k == n - 1) for k in range(n))

    def same(self, tag):
        return tag

    def href(self, src):
        return g.target(src, g.Ctx(), re.compile(r"\s"))

    def label(self, src):
        return self.text(src, 1.6, hi=8)

    def src_(self, src):
        for _ in range(4):
            t = self.href(src)
            if not t.startswith("data:"):
                return t
        return "x.png"


def _has_same(prof, tag, faces):
    return prof.same(tag) in [prof.same(f) for f in faces]


def link_node(src, prof, faces=(), br=True):
    href = prof.href(src)
    kind = src.weighted([(6, "text"), (1, "same"), (1, "img")])
    if kind == "img" and prof.link_images:
        children = [image_node(src, prof)]
    elif kind == "same" and prof.same_label:
        children = [href]
    else:
        children = [prof.label(src)]
        if prof.near_label and src.p(0.12):
            near = texts.near(src, href)
            if near.strip() and prof.near_label(near):
                children = [near]
        if br and prof.br_in_label and src.p(0.05):
            children += [["br", {}, []], prof.label(src)]
    return ["a", {"href": href}, children]


def image_node(src, prof):
    attrs = {"src": prof.src_(src)}
    if src.p(0.8):
        attrs["alt"] = prof.alt(src)
    if src.p(0.4):
        attrs["title"] = prof.alt(src)
    if prof.sizes and src.p(0.2) and not any("|" in v for v in attrs.values()):
        attrs["width"], attrs["height"] = (str(src.choice([1, 9, 10, 90, 160, 1000, src.between(1, 3000)])) for _ in "wh")
        if src.p(0.3):
            attrs["height"] = attrs["width"]
    return ["img", attrs, []]


def inlines(src, prof, depth=0, faces=(), mean=2.5, br=True, top=True, links=True):
    """Inline children; no blank at the edges."""
    n = src.rep(1, 20, mean)
    out = []
    last = None
    for k in range(n):
        options = [(8, "t")]
        if prof.faces and depth < prof.max_face_depth and (prof.nest or depth == 0):
            options.append((5 if depth < 3 else 2, "f"))
        if prof.code and (prof.nest and prof.nest_code or depth == 0):
            options.append((2, "code"))
        if links and prof.links and (prof.nest and prof.nest_links or depth == 0):
            options.append((2, "a"))
        if prof.images and (prof.nest and prof.nest_images or depth == 0) and not (prof.cell and not prof.images_in_cells):
            options.append((1, "img"))
        if br and prof.br and (prof.nest or depth == 0) and 0 < k < n - 1 and last != "br":
            options.append((2, "br"))
        kind = src.weighted(options)
        if kind == "f":
            choices = [f for f in prof.faces if not _has_same(prof, f, faces) and not (depth and f in prof.outer_only)]
            if not choices:
                kind = "t"
            elif last and last[0] == "f" and not prof.adjacent:
                pass
        if last and last != "br" and kind != "br":
            sep = " "
            if prof.adjacent and not (last == "t" and kind == "t") and src.p(0.3):
                sep = ""
            elif not prof.adjacent and kind == "t" and last not in ("t", "img") and prof.punct and src.p(0.2):
                sep = src.choice(prof.punct) + " "
            if sep:
                out.append(sep)
        first = not out or out[-1:] == [["br", {}, []]]
        if kind == "t":
            out.append(prof.text(src, 2.2, hi=12) if not (top and src.p(0.02)) else prof.text(src, 40, hi=120))
        elif kind == "f":
            tag = src.choice(choices)
            prof.stack = faces + (tag,)
            inner = inlines(src, prof, depth + 1, faces + (tag,), 1.5, br and prof.br_in_face, False, links)
            prof.stack = faces
            out.append([tag, {}, inner])
        elif kind == "code":
            out.append([prof.code, {}, [prof.code_text(src)]])
        elif kind == "a":
            out.append(link_node(src, prof, faces, br))
        elif kind == "img":
            out.append(image_node(src, prof))
        else:
            out.append(["br", {}, []])
        last = kind
    return merge(out)


Profile.nest_code = True
Profile.nest_images = True
Profile.outer_only = ()
Profile.max_face_depth = 6
Profile.one_kind = False
Profile.nest_links = True
Profile.images_in_cells = True
Profile.same_label = False
Profile.stack = ()
Profile.cell = False
Profile.punct = (",", ".", ";", "!", "?")
Profile.br_in_face = False
Profile.br_in_label = False


def _alt(self, src):
    return self.text(src, 1.5, hi=6)


def _code_text(self, src):
    return self.text(src, 1.5, hi=6)


Profile.alt = _alt
Profile.code_text = _code_text


def merge(children):
    out = []
    for c in children:
        if isinstance(c, str):
            if not c:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += c
            else:
                out.append(c)
        else:
            out.append(c)
    return out


# ---------------------------------------------------------------------------
# blocks
# ---------------------------------------------------------------------------

def heading(src, prof, level=None):
    level = level or src.between(1, prof.max_heading)
    if prof.inline_in_heading and src.p(0.3):
        return [f"h{level}", {}, inlines(src, prof, br=False, mean=1.8)]
    return [f"h{level}", {}, [prof.text(src, 2.5, hi=12)]]


def break_headings(src, tree, p=0.15, safe=lambda w: True):
    """A copy of the tree with line breaks between some words of the headings"""
    out = []
    for node in tree:
        if re.match(r"h\d$", node[0]) and src.p(p):
            children = []
            for c in node[2]:
                words = c.split(" ") if isinstance(c, str) else []
                k = src.between(1, len(words) - 1) if len(words) > 1 else 0
                if k and words[k - 1] and words[k] and safe(words[k]):
                    children += [" ".join(words[:k]), ["br", {}, []], " ".join(words[k:])]
                else:
                    children.append(c)
            node = [node[0], node[1], children]
        out.append(node)
    return out


def list_node(src, prof, depth=0, budget=None, kind=None):
    top = budget is None
    if top:
        budget = [src.between(1, 4) if not src.p(0.1) else src.between(5, 25)]
        prof.steep = src.p(0.06)
        if prof.steep:
            budget = [src.between(6, 18)]
    tag = src.choice(["ul", "ol"])
    if kind and prof.one_kind:
        tag = kind
    items = []
    while True:
        budget[0] -= 1
        children = inlines(src, prof, mean=1.5, br=prof.br_in_item)
        while depth + 1 < prof.max_list_depth and budget[0] > 0 and src.p(0.9 if prof.steep else 0.35):
            if isinstance(children[-1], list) and children[-1][0] in ("ul", "ol") and not prof.sibling_lists:
                break
            sub = list_node(src, prof, depth + 1, budget, tag)
            if isinstance(children[-1], list) and children[-1][0] == sub[0]:
                children[-1][2].extend(sub[2])   # adjacent lists of one kind are one list in most formats
            else:
                children.append(sub)
        items.append(["li", {}, children])
        if budget[0] <= 0 or (depth and src.p(0.4)):
            break
    return [tag, {}, items]


Profile.sibling_lists = False
Profile.steep = False


def table_node(src, prof, max_rows=6, max_cols=6):
    prof.cell = True
    node = _table_node(src, prof, max_rows, max_cols)
    prof.cell = False
    return node


def _table_node(src, prof, max_rows, max_cols):
    rows = src.between(1, 3) if not src.p(0.15) else src.between(1, max_rows)
    cols = src.between(1, 3) if not src.p(0.15) else src.between(1, max_cols)
    if prof.header == "first":
        rows = max(rows, 2)
    has_head = prof.header == "first" or (prof.header == "maybe" and src.p(0.6) and rows > 1)
    out = []
    for r in range(rows):
        n = src.between(1, cols) if prof.ragged and src.p(0.3) else cols
        cells = []
        for _ in range(n):
            if prof.header == "any":
                tag = "th" if src.p(0.3) else "td"
            else:
                tag = "th" if has_head and r == 0 else "td"
            if prof.empty_cells and src.p(0.12):
                children = []
            elif tag == "th" and not prof.inline_in_th:
                children = [prof.text(src, 1.5, hi=6)]
            else:
                children = inlines(src, prof, mean=1.5, br=prof.br_in_cell)
            cells.append([tag, {}, children])
        out.append(["tr", {}, cells])
    return ["table", {}, out]


Profile.inline_in_th = True


def paragraph(src, prof):
    return ["p", {}, inlines(src, prof, mean=3.0)]


def document(src, prof, mean=3.0):
    n = src.rep(1, 30, mean)
    out = []
    kinds = list(prof.blocks)
    base = level = None
    for _ in range(n):
        options = [(w, k) for k, w in kinds]
        kind = src.weighted(options)
        prev = out[-1][0] if out else None
        if kind == "list" and prev in ("ul", "ol"):
            kind = "p"
        if kind == "table" and prev == "table" and not prof.adjacent_tables:
            kind = "p"
        if kind == "hr" and prof.hr_inside and prev != "p":
            kind = "p"
        if kind == "h":
            if prof.sections:
                if base is None:
                    base = level = src.between(1, prof.max_heading)
                else:
                    level = src.between(base, min(prof.max_heading, level + 1))
                out.append(heading(src, prof, level))
            else:
                out.append(heading(src, prof))
        elif kind == "p":
            out.append(paragraph(src, prof))
        elif kind == "list":
            out.append(list_node(src, prof))
        elif kind == "table":
            out.append(table_node(src, prof))
        elif kind == "hr":
            out.append(["hr", {}, []])
            if prof.hr_inside:
                out.append(paragraph(src, prof))
        elif kind == "pre":
            out.append(["pre", {}, [prof.pre_text(src)]])
        else:
            raise AssertionError(kind)
    return out


Profile.adjacent_tables = True
Profile.hr_inside = False
Profile.sections = False


# ---------------------------------------------------------------------------
# serialisation
# ---------------------------------------------------------------------------

NAMED = {"&": "amp", "<": "lt", ">": "gt", '"': "quot", "ä": "auml", "ö": "ouml", "ü": "uuml", "Ä": "Auml", "Ö": "Ouml", "Ü": "Uuml",
         "ß": "szlig", "é": "eacute", "ï": "iuml", "Ω": "Omega", "€": "euro", "–": "ndash", "—": "mdash", "…": "hellip", "→": "rarr",
         "„": "bdquo", "“": "ldquo", "«": "laquo", "»": "raquo", "½": "frac12", "²": "sup2", "'": "apos", "*": "ast", "[": "lsqb", "{": "lcub",
         "_": "lowbar", "|": "vert", "#": "num", "\u00ad": "shy", "Å": "Aring", "№": "numero", "(": "lpar", ",": "comma", ".": "period"}


class Style:
    """How a tree is written; every flag allows random variation there."""

    def __init__(self, src=None, **flags):
        self.src = src
        self.flags = {k for k, v in flags.items() if v}

    def on(self, flag, prob=0.5):
        return flag in self.flags and self.src is not None and self.src.p(prob)


WS = [" ", "\n", "  ", "\n\n", "\t", "\r\n", " \n ", "\n    ", "\n\t\t", "        ", "\n\n\n", "\f", "\r"]


def ref(src, c, name=True):
    kinds = ["dec", "hex", "HEX", "zero", "xzero"]
    if name and c in NAMED:
        kinds += ["named", "named", "named"]
    kind = src.choice(kinds)
    n = ord(c)
    if kind == "named":
        return f"&{NAMED[c]};"
    if kind == "dec":
        return f"&#{n};"
    if kind == "hex":
        return f"&#x{n:x};"
    if kind == "HEX":
        return f"&#X{n:X};"
    if kind == "zero":
        return f"&#{n:06d};" if n < 100000 else f"&#0{n};"
    return f"&#x{n:06x};"


def write_text(text, style, pre=False):
    out = []
    for c in text:
        if c in "&<>" and not (c == ">" and style.on("rawgt", 0.5)):
            out.append(ref(style.src, c) if style.on("refs", 0.5) else _html.escape(c))
        elif c == " " and not pre and style.on("ws", 0.3):
            out.append("".join(style.src.choice(WS) for _ in range(style.src.between(1, 3))))
        elif not c.isspace() and ord(c) > 32 and style.on("refs", 0.2):
            out.append(ref(style.src, c))
        else:
            out.append(c)
    return "".join(out)


def swap_case(src, name):
    kind = src.i(3)
    if kind == 0:
        return name.upper()
    if kind == 1:
        return name.title()
    return "".join(c.upper() if src.p(0.5) else c for c in name)


EXTRA = [("data-x", "1"), ("lang", "de"), ("style", "color: red; a > b"), ("onclick", "x('y')"), ("data-y", ""), ("dir", "ltr"), ("tabindex", "0"),
         ("aria-label", "a b"), ("class", "c1 c2"), ("id", "i1"), ("hidden", None), ("data-z", "<b>\"q\"</b>"), ("data-w", "x=y"), ("data-v", "it's")]


def write_attr(name, value, style):
    if style.on("case", 0.3):
        name = swap_case(style.src, name)
    if value is None:
        return name
    quotes = ['"']
    if style.on("quote", 0.6):
        quotes = ["'", "'"]
        if value and not re.search(r"""[\s"'=<>`&/]|^$""", value):
            quotes.append("")
    q = quotes[0] if len(quotes) == 1 else style.src.choice(quotes)
    eq = "="
    if style.on("quote", 0.15):
        eq = style.src.choice([" = ", "= ", " ="])
    v = value.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
    if q == '"' or q == "":
        v = v.replace('"', "&quot;")
    elif q == "'":
        v = v.replace("'", "&#39;")
    if style.on("refs", 0.2) and v:
        k = style.src.i(len(value))
        c = value[k]
        if c not in "&<>\"'" and not c.isspace() and "&" not in v:
            v = v[:k] + ref(style.src, c) + v[k + 1:]
    return f"{name}{eq}{q}{v}{q}"


def write_attrs(attrs, style, extra_ok=True):
    items = list(attrs.items())
    if extra_ok and style.on("attrs", 0.3):
        names = {k for k, _ in items}
        extra = [e for e in style.src.subset(EXTRA, 0.15) if e[0] not in names]
        items += extra
    if style.on("attrs", 0.4):
        items = style.src.shuffled(items)
    gap = "  " if style.on("ws", 0.05) else ("\n" if style.on("ws", 0.05) else " ")
    return "".join(gap + write_attr(k, v, style) for k, v in items)


COMMENTS = ["<!-- c -->", "<!---->", "<!-- <b>x</b> -->", "<!--\n x > y \n-->", "<!-- a & b; 'q' \" -->", "<!-- -- x -->"]


def gap(style, prob=0.4):
    """Blanks (and comments) where block tags touch"""
    out = ""
    if style.on("ws", prob):
        out += "".join(style.src.choice(WS) for _ in range(style.src.between(1, 3)))
    if style.on("comments", 0.15):
        out += style.src.choice(COMMENTS)
        if style.on("ws", prob):
            out += style.src.choice(WS)
    return out


def is_block(c):
    return isinstance(c, list) and c[0] in BLOCK


SYNONYMS = {"strong": ["b", "big", "strong"], "b": ["b", "big", "strong"], "big": ["b", "big", "strong"], "em": ["em", "i"], "i": ["em", "i"],
            "del": ["del", "strike"], "strike": ["del", "strike"]}


def write_node(node, style):
    tag, attrs, children = node
    name = tag
    if style.on("synonyms", 0.5) and tag in SYNONYMS:
        name = style.src.choice(SYNONYMS[tag])
    if style.on("case", 0.4):
        written = swap_case(style.src, name)
    else:
        written = name
    a = write_attrs(attrs, style, tag != "pre" or "preattrs" in style.flags)
    if tag in VOID:
        forms = [f"<{written}{a} />"]
        if style.on("void", 0.7):
            unquoted_end = a and a[-1] not in "\"'"
            forms = [f"<{written}{a}>", f"<{written}{a} />"]
            if not unquoted_end:
                forms.append(f"<{written}{a}/>")
            if tag != "br":
                forms.append(f"<{written}{a}></{written}>")
        return forms[0] if len(forms) == 1 else style.src.choice(forms)
    end = f"</{written}>"
    if style.on("ws", 0.05):
        end = f"</{written} >"
    if tag == "pre":
        text = children[0] if children else ""
        return f"<{written}{a}>{write_text(text, style, pre=True)}{end}"
    if tag == "table" and style.on("tbody", 0.6):
        rows = list(children)
        inner = ""
        if rows and style.on("tbody", 0.5):
            inner += gap(style) + "<thead>" + gap(style) + write_node(rows.pop(0), style) + gap(style) + "</thead>"
        foot = ""
        if len(rows) > 1 and style.on("tbody", 0.3):
            foot = "<tfoot>" + gap(style) + write_node(rows.pop(), style) + gap(style) + "</tfoot>" + gap(style)
        if rows or style.on("tbody", 0.5):
            inner += gap(style) + "<tbody>" + gap(style) + "".join(write_node(r, style) + gap(style) for r in rows) + "</tbody>"
        return f"<{written}{a}>{inner}{gap(style)}{foot}{end}"
    return f"<{written}{a}>{write(children, style, is_block(node))}{end}"


def write(children, style=None, block=True):
    """The HTML of a list of children; block: inside a block element (blanks at the edges do not count)"""
    style = style or Style()
    out = []
    n = len(children)
    for k, c in enumerate(children):
        prev = children[k - 1] if k else None
        touches = (k == 0 and block) or is_block(c) or (prev is not None and is_block(prev))
        if isinstance(c, list) and c[0] == "pre" and block:
            out.append("\n")
        elif touches:
            out.append(gap(style))
        if isinstance(c, str):
            out.append(write_text(c, style))
        else:
            out.append(write_node(c, style))
            if c[0] == "pre" and block:
                out.append("\n")
    if n and block:
        out.append(gap(style))
    return "".join(out)


def pretty(children, indent=0):
    """Usual hand-written layout: one block per line, indented"""
    out = []
    pad = "\n" + "  " * indent
    for c in children:
        if isinstance(c, list) and c[0] in ("ul", "ol", "table", "tr", "tbody"):
            out.append(f"{pad}<{c[0]}>{pretty(c[2], indent + 1)}{pad}</{c[0]}>")
        elif isinstance(c, list) and c[0] in ("p", "li", "td", "th", "h1", "h2", "h3", "h4", "h5", "h6"):
            out.append(f"{pad}<{c[0]}>{pretty(c[2], indent + 1)}</{c[0]}>")
        elif isinstance(c, str):
            out.append(write_text(c, Style()))
        elif c[0] == "pre":
            out.append("\n" + write_node(c, Style()) + "\n")
        else:
            out.append(write_node(c, Style()))
    return "".join(out)


def any_layout(src, tree):
    """The tree in one of several layouts that mean the same"""
    kind = src.i(4)
    if kind == 0:
        return write(tree)
    if kind == 1:
        return pretty(tree)
    if kind == 2:
        return write(tree, Style(src, ws=True))
    return write(tree, Style(src, ws=True, quote=True, attrs=True, void=True, tbody=True, case=True))


def bare_text(src, tree, prob=0.12):
    """Write some paragraphs as text outside of any element"""
    out = []
    bare = False
    for node in tree:
        if isinstance(node, list) and node[0] in WRAPPERS:
            out.append([node[0], node[1], bare_text(src, node[2], prob)])
            bare = False
        elif isinstance(node, list) and node[0] == "p" and not bare and src.p(prob):
            out.extend(node[2])
            bare = True
        else:
            out.append(node)
            bare = False
    return out


PRE_EDGES = [("\n", "\n"), ("\n", "\n"), ("", ""), ("\n", ""), ("", "\n")]


def loose(src, tree, wrap=0.15, bare=0.12, edges=True):
    """The same blocks in container elements, without <p>, and <pre> with and without line ends at its edges"""
    edges = edges and len(tree) > 1
    tree = [["pre", {}, [_edges(src, n[2][0].strip("\n"), edges)]] if n[0] == "pre" else n for n in tree]
    tree = wrap_blocks(src, tree, wrap)
    return bare_text(src, tree, bare)


def _edges(src, text, edges):
    """A single line beside text is a inline element in creole: it keeps its own lines here"""
    lines = text.split("\n")
    edges = edges and len(lines) > 1 and lines[0].strip() and lines[-1].strip()
    a, b = src.choice(PRE_EDGES) if edges else ("\n", "\n")
    return a + text + b


WRAPPERS = ["div", "section", "article", "blockquote", "center", "main", "form", "body"]


def wrap_blocks(src, tree, prob=0.15):
    """Put some neighbouring blocks into container elements: the blocks stay the same"""
    if not src.p(prob) or not tree:
        return tree
    a = src.i(len(tree))
    b = src.between(a + 1, len(tree))
    attrs = {} if src.p(0.5) else {"class": "x y"}
    inner = wrap_blocks(src, tree[a:b], 0.3)
    return tree[:a] + [[src.choice(WRAPPERS), attrs, inner]] + wrap_blocks(src, tree[b:], 0.3)


BLOCK.update(WRAPPERS)
