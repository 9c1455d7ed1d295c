"""H01, H02: creole -> HTML -> creole and HTML -> creole -> HTML."""

import posixpath
import re

from pbt import gencreole as g
from pbt import genhtml as gh
from pbt import htmltree as ht
from pbt import texts
from pbt.engine import Sub
from pbt.sut import c2h, convert, fail, short

MARK = {"strong": "**", "b": "**", "big": "**", "em": "//", "i": "//", "tt": "##", "sup": "^^", "sub": ",,", "u": "__", "small": "--",
        "del": "~~", "strike": "~~"}
RENAME = {"b": "strong", "big": "strong", "em": "i", "strike": "del"}


class Creole(gh.Profile):
    name = "creole"
    faces = tuple(MARK)
    adjacent = True
    same_label = True
    link_images = True
    blocks = (("p", 8), ("h", 2), ("list", 3), ("table", 3), ("hr", 1), ("pre", 1))
    sibling_lists = True
    max_list_depth = 6
    br_in_face = False     # pinned by a test: they cross lines
    br_in_label = True
    sizes = True

    def same(self, tag):
        return MARK[tag]

    def ctx(self):
        return g.Ctx(tuple(MARK[t] for t in self.stack), self.cell)

    def ok(self, w, start, end):
        if start and not g.edge_ok(w[0]) or end and not g.edge_ok(w[-1]):
            return False
        return self.ctx().text_ok(w) and "\u2028" not in w

    def href(self, src):
        return g.target(src, self.ctx(), re.compile(r"\]\]|\[\[|\||\{\{|\}\}|[\t\n\u2028]|  "))

    def src_(self, src):
        t = g.target(src, self.ctx(), re.compile(r"\]\]|\[\[|\||\{\{|\}\}|[\t\n\u2028]|  "))
        return re.sub(r"/\s+", "/", t)     # the label made of the file name has no blank at its edge

    def label(self, src):
        for _ in range(3):
            t = g.label_text(src, self.ctx())
            if "|" not in t and "\u2028" not in t and not re.search(r"\*\*|//|##|__|\t", t):
                return t
        return texts.random_word(src)

    def near_label(self, t):
        return (t == t.strip() and t[0] not in "[{" and t[-1] not in "]}|\\" and self.ctx().raw_ok(t)
                and not re.search(r"\s\s|\]\]|\[\[|\{\{|\}\}|\\\\|[\n\u2028|]|\*\*|//|##|__|\t", t))

    def alt(self, src):
        for _ in range(3):
            t = g.label_text(src, self.ctx(), image=True)
            if "\u2028" not in t and "[[" not in t:
                return t
        return texts.random_word(src)

    def pre_text(self, src):
        return g.pre_text(src)


def heading(src):
    """Heading text is literal in creole"""
    t = g.heading_text(src)
    if src.p(0.04):
        t = src.choice(["= ", "== ", "="]) + t
    return re.sub(r"\s+", " ", t)


def image_text(attrs):
    title, alt = attrs.get("title", ""), attrs.get("alt", "")
    return (alt if len(alt) > len(title) else title) or posixpath.basename(attrs["src"])


def fix_images(children):
    """The label of an image in creole must not be empty"""
    for node in ht.walk(children):
        if node[0] == "img" and not image_text(node[1]):
            node[1]["alt"] = "label"


def document(src, prof):
    doc = gh.document(src, prof)
    for node in doc:
        if re.match(r"h\d", node[0]):
            node[2] = [heading(src)]
        elif node[0] == "pre":
            # <pre> and </pre> on their own lines: that is a block
            text = node[2][0].strip("\n")
            node[2] = ["\n%s\n" % (text if text.strip() else "code")]
    fix_images(doc)
    return doc


# ---------------------------------------------------------------------------
# H02: HTML -> creole -> HTML
# ---------------------------------------------------------------------------

def want(children):
    """Canonical expected tree"""
    def images(nodes):
        out = []
        for c in nodes:
            if isinstance(c, str):
                out.append(c)
            elif c[0] == "img":
                text = image_text(c[1])
                size = {k: c[1][k] for k in ("width", "height") if k in c[1]}
                out.append(["img", {"src": c[1]["src"], "alt": text, "title": text, **size}, []])
            elif c[0] == "a":
                out.append(["a", {"href": c[1]["href"]}, images(c[2])])
            else:
                out.append([c[0], {}, images(c[2])])
        return out
    return ht.canon(images(children), RENAME)


def normal_pre(children):
    """Outer blank lines of a preformatted text have no meaning"""
    for node in ht.walk(children):
        if node[0] == "pre" and node[2]:
            node[2] = [node[2][0].strip("\n")]
    return children


def unordered_sizes(children):
    """html2creole exchanges width and height (known finding, pinned by a test)"""
    for node in ht.walk(children):
        if node[0] == "img" and "width" in node[1] and "height" in node[1]:
            node[1]["width"], node[1]["height"] = sorted([node[1]["width"], node[1]["height"]])
    return children


def gen_h02(src):
    tree = document(src, Creole())
    return {"tree": tree, "html": gh.any_layout(src, gh.loose(src, gh.break_headings(src, tree)))}    # a break in a heading is a blank in creole


def labels_of(tree):
    labels = set()
    for node in ht.walk(tree):
        tag = RENAME.get(node[0], node[0])
        labels.add(f"has:{tag}")
        if node[0] in MARK and any(c[0] in MARK for c in ht.walk(node[2])):
            labels.add("nested")
        if node[0] == "li" and any(c[0] in ("ul", "ol") for c in ht.walk(node[2])):
            labels.add("nestedlist")
    if len(tree) > 1 or any(x in labels for x in ("nested", "nestedlist", "has:table", "has:a")):
        labels.add("nt")
    return labels


def check_h02(case):
    html = case["html"]
    creole = convert("creole", html)
    back = c2h(creole)
    try:
        tree = ht.parse(back)
    except ht.HtmlError as err:
        fail(f"html2creole({short(html)}) = {short(creole)}, back to HTML is malformed: {err}")
    exp = normal_pre(want(case["tree"]))
    act = normal_pre(ht.canon(tree, RENAME))
    if not case.get("sizes"):
        exp, act = unordered_sizes(exp), unordered_sizes(act)
    if exp != act:
        fail(f"html2creole({short(html, 1500)})\n = {short(creole, 1500)}\n as HTML: {g.first_difference(exp, act)}")
    return labels_of(case["tree"])


# ---------------------------------------------------------------------------
# H01: creole -> HTML -> creole
# ---------------------------------------------------------------------------

def inline_creole(children, sep="\n"):
    out = ""
    for c in children:
        if isinstance(c, str):
            out += c
        elif c[0] == "br":
            out += sep
        elif c[0] == "a":
            label = inline_creole(c[2], "\\\\")
            out += f"[[{c[1]['href']}]]" if label == c[1]["href"] else f"[[{c[1]['href']}|{label}]]"
        elif c[0] == "img":
            size = "|%sx%s" % (c[1]["width"], c[1]["height"]) if "width" in c[1] else ""
            out += "{{%s|%s%s}}" % (c[1]["src"], image_text(c[1]), size)
        else:
            out += MARK[c[0]] + inline_creole(c[2], sep) + MARK[c[0]]
    return out


def list_creole(node, prefix, lines):
    prefix += "*" if node[0] == "ul" else "#"
    for li in node[2]:
        text = [c for c in li[2] if isinstance(c, str) or c[0] not in ("ul", "ol")]
        lines.append(prefix + " " + inline_creole(text, "\\\\"))
        for c in li[2]:
            if isinstance(c, list) and c[0] in ("ul", "ol"):
                list_creole(c, prefix, lines)


def block_creole(node):
    tag = node[0]
    if tag == "p":
        return inline_creole(node[2])
    if tag[0] == "h" and tag[1:].isdigit():
        return "=" * int(tag[1:]) + " " + inline_creole(node[2])
    if tag == "hr":
        return "----"
    if tag == "pre":
        return "{{{%s}}}" % node[2][0]
    if tag in ("ul", "ol"):
        lines = []
        list_creole(node, "", lines)
        return "\n".join(lines)
    lines = []
    for tr in node[2]:
        line = ""
        for cell in tr[2]:
            line += "|= " if cell[0] == "th" else "| "
            line += inline_creole(cell[2], "\\\\") + " "
        lines.append(line + "|")
    return "\n".join(lines)


def gen_h01(src):
    prof = Creole()
    prof.sibling_lists = False
    tree = document(src, prof)
    return {"creole": "\n\n".join(block_creole(b) for b in tree), "tags": sorted({n[0] for n in ht.walk(tree)}), "n": len(tree)}


def meaning(creole):
    """Blanks that carry no meaning: padding of cells, blanks at line ends, blank lines between blocks"""
    out = []
    pre = False
    for line in creole.strip().split("\n"):
        if line == "{{{":
            pre = True
        elif line == "}}}":
            pre = False
        elif pre:
            out.append(line)
            continue
        if line.startswith("|"):
            line = re.sub(r"[ ]*\|(=?)[ ]*", r"|\1", line)
        line = line.rstrip()
        if line or (out and out[-1]):
            out.append(line)
    # a table or a preformatted block ends without a blank line, too
    return "\n".join(
        line for k, line in enumerate(out)
        if line or not (out[k - 1] == "}}}" or out[k - 1].startswith("|") and not out[k + 1].startswith("|")))


SIZE = re.compile(r"(\{\{(?:(?!\}\}|\{\{)[^|])+\|(?:(?!\}\}|\{\{)[^|])+)\|(\d+)x(\d+)\}\}")


def exchange_sizes(creole):
    return SIZE.sub(r"\1|\3x\2}}", creole)


def check_h01(case):
    text = case["creole"]
    html = c2h(text)
    back = convert("creole", html)
    if not case.get("sizes"):
        back = exchange_sizes(back)     # html2creole exchanges width and height (known finding, pinned by a test)
    if meaning(back) != meaning(text):
        a, b = meaning(text).split("\n"), meaning(back).split("\n")
        diff = next((x, y) for x, y in zip(a + [None], b + [None]) if x != y)
        fail(f"{short(text, 1500)}\n HTML {short(html, 1500)}\n came back as {short(back, 1500)}: line {diff[0]!r} became {diff[1]!r}")
    again = convert("creole", c2h(back))
    if not case.get("sizes"):
        again = exchange_sizes(again)
    if again != back:
        fail(f"{short(text)} came back as {short(back)}, the next cycle gives {short(again)}")
    labels = {f"has:{t}" for t in case["tags"]}
    if case["n"] > 1 or len(case["tags"]) > 2:
        labels.add("nt")
    return labels


PROPS = {
    "H01": {
        "rule": "more than one block or more than two kinds of elements",
        "subs": [Sub("cycle", gen_h01, check_h01, quick=6000, rule="more than one block or more than two kinds of elements")],
        "assumptions": ["the documents are written in the form html2creole itself writes (canonical form)"],
    },
    "H02": {
        "rule": "more than one block, nested typefaces or lists, a table or a link",
        "subs": [Sub("tree", gen_h02, check_h02, quick=6000, rule="more than one block, nested typefaces or lists, a table or a link")],
        "assumptions": ["text free of creole markup (html2creole writes text as it is)"],
    },
}
