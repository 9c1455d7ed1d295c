"""H03-H05: what an independent processor of the target format makes of the output."""

import posixpath
import re
from urllib.parse import unquote

from pbt import gencreole as g
from pbt import genhtml as gh
from pbt import htmltree as ht
from pbt import renderers as rd
from pbt import texts
from pbt.engine import Sub
from pbt.sut import convert, fail, rest_or_none, short

SAFE_UNI = ["äöü", "ÄÖÜß", "été", "naïve", "Ωmega", "привет", "мир", "日本語", "中文", "한국어", "עברית", "العربية", "ไทย", "😀", "ﬁ", "Å", "İstanbul",
            "½", "№", "€5", "„q“", "«g»", "→"]


class Safe(gh.Profile):
    """Text without any character that is markup in the target format"""
    inner = "'.,;?/"
    lone = ("&", "–", "+", "=", "/", "(", ")")
    images = True
    uni = SAFE_UNI
    digits = True

    def ok(self, w, start, end):
        return True

    def word(self, src, start, end):
        kind = src.weighted([(14, "ascii"), (4, "rnd"), (3, "uni"), (2, "punct"), (2, "inner"), (1, "lone"), (1, "long"), (2, "num")])
        if kind == "ascii":
            w = src.choice(self.words)
        elif kind == "rnd":
            w = texts.random_word(src).lower()
            if not self.digits:
                w = "".join(c for c in w if c.isalpha())
            if not w or not w[0].isalpha():
                w = "a" + w
        elif kind == "uni":
            w = src.choice(self.uni)
        elif kind == "punct" and not start:
            w = src.choice(self.words) + src.choice(self.after)
        elif kind == "inner":
            w = src.choice(self.words) + src.choice(self.inner) + src.choice(self.words)
        elif kind == "lone" and not (start or end):
            w = src.choice(self.lone)
        elif kind == "num" and not (start or end):
            w = str(src.i(3000))
        elif kind == "long":
            w = src.choice("abxä中") * src.choice(texts.LENGTHS)
        else:
            w = src.choice(self.words)
        if start and len(w) < 2:
            w += "word"
        return w

    words = ["alpha", "beta", "gamma", "delta", "on", "the", "foo", "bar", "foobar", "text", "code", "item", "end", "class", "div", "span",
             "table", "data", "image", "link", "python", "creole", "wiki", "word", "depth", "Gamma", "Item", "Text"]
    after = (",", ".", ";", "?")

    def href(self, src):
        kind = src.weighted([(5, "url"), (3, "path"), (2, "page"), (1, "mail"), (1, "anchor")])
        if kind == "url":
            t = src.choice(["http", "https", "ftp"]) + "://" + src.choice(["example.com", "www.x-y.de", "localhost:8080", "a.b"])
            for _ in range(src.rep(0, 4, 1.0)):
                t += "/" + texts.random_word(src, 1, 6)
            if src.p(0.2):
                t += "/?a=" + texts.random_word(src, 1, 3) + src.choice(["", "&b=2"])
            if src.p(0.1):
                t += "#" + texts.random_word(src, 1, 4)
        elif kind == "path":
            t = "/" + "/".join(texts.random_word(src, 1, 5) for _ in range(src.between(1, 3))) + src.choice(["", "/", ".html", ".png", "?a=1&b=2", "#x"])
        elif kind == "page":
            t = self.name(src, 2, 9) + src.choice(["", ".html", ".png"])
        elif kind == "mail":
            t = "mailto:" + texts.random_word(src).lower() + "@example.com"
        else:
            t = "#" + texts.random_word(src)
        return t

    def name(self, src, lo, hi):
        if src.p(0.15):
            words = re.findall("[a-z]+", texts.word(src))
            if words:
                return words[0][:20]
        return texts.random_word(src, lo, hi)

    def src_(self, src):
        t = src.choice(["", "/", "http://example.com/", "img/", "../"]) + self.name(src, 1, 8) + src.choice([".png", ".jpg", "", ".x.gif"])
        return t


def expected(tree, rename, image):
    def walk(children):
        out = []
        for c in children:
            if isinstance(c, str):
                out.append(c)
            elif c[0] == "img":
                out.append(["img", image(c[1]), []])
            elif c[0] == "a":
                out.append(["a", {"href": c[1]["href"]}, walk(c[2])])
            else:
                out.append([c[0], {}, walk(c[2])])
        return out
    return ht.canon(walk(tree), rename)


def longest(attrs):
    title, alt = attrs.get("title", ""), attrs.get("alt", "")
    return (alt if len(alt) > len(title) else title) or posixpath.basename(attrs["src"])


def compare(name, html, text, exp, act):
    if exp != act:
        fail(f"html2{name}({short(html, 1200)})\n = {short(text, 1200)}\n rendered: {g.first_difference(exp, act)}")


def labels_of(tree):
    labels = {f"has:{n[0]}" for n in ht.walk(tree)}
    if len(tree) > 1 or len(labels) > 2:
        labels.add("nt")
    return labels


# ---------------------------------------------------------------------------
# Markdown
# ---------------------------------------------------------------------------

class Markdown(Safe):
    br_in_face = True
    br_in_label = True
    faces = ("strong", "b", "big", "em", "i")
    code = "code"
    sibling_lists = False
    link_images = True
    header = "first"
    ragged = False
    inline_in_heading = True
    br_in_item = False
    adjacent_tables = True
    blocks = (("p", 8), ("h", 2), ("list", 3), ("table", 3), ("pre", 2))

    def same(self, tag):
        return "strong" if tag in ("strong", "b", "big") else "em"

    def pre_text(self, src):
        return code_block(src)

    def _path(self, src, t):
        """Blanks and other characters quote_link() has to quote"""
        if src.p(0.2) and re.match(r"https?://|/|\w+$", t) and not re.search(r"[?#]", t):
            t += src.choice(["/a b", "/ä ö.html", "/a b/c d.png", "/x%20y", "/caf\u00e9", "/日本 語", "/a,b", "/a;b", "/a'b", "/a+b c"])
        return t

    def href(self, src):
        return self._path(src, super().href(src))

    def src_(self, src):
        return self._path(src, super().src_(src))


LANGS = ["python", "html", "c++", "objective-c", "x", "js"]


def code_block(src):
    lines = []
    for _ in range(src.rep(1, 8, 2.5)):
        k = src.i(3)
        if k == 0:
            lines.append(src.choice(["", "    x = 1", "if a < b:", "* no list", "# no heading", "| a | b |", "&amp; <b>", "_x_ **y**", "[a](b)",
                                     "``", "  - z", "~~~", "`", "<br />", "---", "1. a"]))
        else:
            lines.append(src.choice(["", "  ", "    "]) + " ".join(texts.raw_word(src) for _ in range(src.between(1, 4))))
    text = "\n".join(lines)
    if "```" in text or not text.strip() or any(c in text for c in "\u2028\x02\x03\t"):
        text = "code"
    return text.strip("\n")


def gen_h03(src):
    prof = Markdown()
    tree = gh.break_headings(src, gh.document(src, prof))
    html = []
    for node in tree:
        for a in ht.walk([node]):
            if a[0] == "a" and src.p(0.2):
                a[1]["title"] = prof.text(src, 1.5, hi=5) if src.p(0.85) else str(src.i(2000))
        if node[0] == "pre":
            lang = src.choice(LANGS) if src.p(0.5) else ""
            node[1] = {"language": lang}
            text = gh.write_text(node[2][0], gh.Style(), True)
            if lang or src.p(0.3):
                cls = f' class="language-{lang}"' if lang else ""
                html.append(f"\n<pre><code{cls}>{text}\n</code></pre>\n")
            else:
                html.append(f"\n<pre>\n{text}\n</pre>\n")
        else:
            html.append(gh.any_layout(src, [node]))
    return {"tree": tree, "html": "".join(html)}


MD_RENAME = {"b": "strong", "big": "strong", "em": "i"}


def md_image(attrs):
    out = {"src": unquote(attrs["src"]), "alt": attrs.get("alt", "")}
    if attrs.get("title") and attrs.get("alt"):
        out["title"] = attrs["title"]
    return out


def md_tree(rendered):
    def walk(children):
        out = []
        for c in children:
            if isinstance(c, str):
                out.append(c)
            elif c[0] == "pre":
                code = c[2][0] if c[2] and isinstance(c[2][0], list) else None
                cls = code[1].get("class", "") if code else ""
                out.append(["pre", {"language": cls[9:] if cls.startswith("language-") else cls}, [ht.text_of(c[2])]])
            elif c[0] == "img":
                a = dict(c[1])
                a["src"] = unquote(a.get("src", ""))
                out.append(["img", a, []])
            elif c[0] == "a":
                out.append(["a", {**c[1], "href": unquote(c[1].get("href", ""))}, walk(c[2])])
            else:
                attrs = {k: v for k, v in c[1].items() if k != "style"}
                out.append([c[0], attrs, walk(c[2])])
        return out
    return rd.unwrap_p(rd.unwrap(walk(rendered), ("thead", "tbody")))


def check_h03(case):
    html = case["html"]
    text = convert("markdown", html)
    try:
        rendered = rd.render_markdown(text)
    except rd.RenderError as err:
        fail(f"html2markdown({short(html)}) = {short(text)}: {err}")

    def walk(children):
        out = []
        for c in children:
            if isinstance(c, str):
                out.append(c)
            elif c[0] == "pre":
                out.append(["pre", c[1], c[2]])
            elif c[0] == "img":
                out.append(["img", md_image(c[1]), []])
            elif c[0] == "a":
                out.append(["a", {**c[1], "href": unquote(c[1]["href"])}, walk(c[2])])
            else:
                out.append([c[0], c[1], walk(c[2])])
        return out
    exp = strip_pre(ht.canon(walk(case["tree"]), MD_RENAME))
    act = strip_pre(ht.canon(md_tree(rendered), MD_RENAME))
    compare("markdown", html, text, exp, act)
    return labels_of(case["tree"])


def strip_pre(children):
    for node in ht.walk(children):
        if node[0] == "pre" and node[2]:
            node[2] = ["\n".join(line for line in node[2][0].strip("\n").split("\n"))]
    return children


# ---------------------------------------------------------------------------
# ReSt
# ---------------------------------------------------------------------------

class Rest(Safe):
    faces = ("strong", "b", "big", "em", "i", "tt")
    code = "code"
    nest = False
    header = "maybe"
    ragged = False
    br = False
    inner = "'.,;?/"
    sections = True
    hr_inside = True
    adjacent_tables = True
    blocks = (("p", 8), ("h", 2), ("list", 3), ("table", 3), ("hr", 1), ("pre", 1))

    def same(self, tag):
        return tag

    def pre_text(self, src):
        return rest_block(src)


def rest_block(src):
    lines = []
    for _ in range(src.rep(1, 8, 2.5)):
        k = src.i(3)
        if k == 0:
            lines.append(src.choice(["", "    x = 1", "if a < b:", "* no list", "====", "| a | b |", "&amp; <b>", "_x_ **y**", "`a <b>`_",
                                     "``", "  - z", ".. x:", "::", "`", "<br />", "---", "1. a", "|x|", "\\"]))
        else:
            lines.append(src.choice(["", "  ", "    "]) + " ".join(texts.raw_word(src) for _ in range(src.between(1, 4))))
    text = "\n".join(line.rstrip() for line in lines).strip("\n")
    if not text.strip() or any(c in text for c in "\u2028\x02\x03\t"):
        text = "code"
    return text


def unique_labels(tree):
    """Equal labels with different targets are refused (H14)"""
    links, images = {}, {}
    for node in ht.walk(tree):
        if node[0] == "a":
            label = node[2]
            key = " ".join(ht.text_of(label).lower().split())
            n = 2
            while links.setdefault(key, node[1]["href"]) != node[1]["href"]:
                label[:] = [f"{ht.text_of(label)} {n}"]
                key = " ".join(ht.text_of(label).lower().split())
                n += 1
        elif node[0] == "img":
            key = longest(node[1])
            n = 2
            while images.setdefault(key.lower(), node[1]["src"]) != node[1]["src"] or key.strip() == "":
                node[1]["title"] = f"{key} {n}".strip()
                node[1].pop("alt", None)
                key = longest(node[1])
                n += 1


def gen_h04(src):
    tree = gh.document(src, Rest())
    while tree and tree[0][0] == "hr":
        tree.pop(0)
    unique_labels(tree)
    plain = [dict_pre(node) for node in gh.break_headings(src, tree)]     # a break in a heading is a blank in ReSt
    return {"tree": tree, "html": gh.any_layout(src, gh.loose(src, plain))}


def dict_pre(node):
    if node[0] == "pre":
        return ["pre", {}, [f"\n{node[2][0]}\n"]]
    return node


RS_RENAME = {"b": "strong", "big": "strong", "em": "i", "tt": "code"}


def check_h04(case):
    html = case["html"]
    text = convert("rest", html)
    levels = [int(n[0][1]) for n in case["tree"] if re.match(r"h\d$", n[0])]
    try:
        rendered = rd.render_rest(text, levels[0] if levels else 1)
    except rd.RenderError as err:
        fail(f"html2rest({short(html, 1200)}) = {short(text, 1200)}: {err}")
    exp = expected(case["tree"], RS_RENAME, lambda a: {"src": a["src"], "alt": longest(a)})
    act = ht.canon(rd.unwrap_p(rendered), RS_RENAME)
    compare("rest", html, text, dedent_pre(exp), dedent_pre(act))
    return labels_of(case["tree"])


def dedent_pre(children):
    for node in ht.walk(children):
        if node[0] == "pre" and node[2]:
            lines = node[2][0].strip("\n").splitlines()      # docutils does so, too
            while lines and not lines[0].strip():
                del lines[0]
            indent = min(len(line) - len(line.lstrip(" ")) for line in lines if line.strip())
            node[2] = ["\n".join(line[indent:].rstrip() for line in lines).rstrip("\n")]
    return children


# ---------------------------------------------------------------------------
# Textile
# ---------------------------------------------------------------------------

class Textile(Safe):

    max_face_depth = 3
    punct = (",", ";")
    digits = False
    uni = [w for w in SAFE_UNI if w != "ÄÖÜß"]     # capitals are marked up by the renderer
    outer_only = ("cite",)
    images_in_cells = False     # python-textile wants a blank behind an image
    nest_images = False
    one_kind = True             # python-textile takes the first marker, PHP Textile the last one
    nest_links = False
    nest_code = False
    faces = ("strong", "b", "em", "i", "sup", "sub", "del", "ins", "cite", "span")
    code = "code"
    after = (",", ";", "?")
    inner = ",;/"
    lone = ("&", "–", "=")
    inline_in_heading = True
    sibling_lists = False
    blocks = (("p", 8), ("h", 2), ("list", 3), ("table", 3))
    br_in_item = False
    br_in_cell = False
    header = "any"

    def same(self, tag):
        return {"strong": "strong", "b": "strong", "em": "i", "i": "i"}.get(tag, tag)

    def word(self, src, start, end):
        w = super().word(src, start, end)
        return "ax" if w == "x" else w      # "5 x 3" becomes "5 × 3"


def single_use(children, used):
    """Keep only the first use of every typeface"""
    out = []
    for c in children:
        if isinstance(c, str) or c[0] not in Textile.faces:
            out.append(c if isinstance(c, str) else [c[0], c[1], single_use(c[2], used)])
        elif c[0] in used:
            out.extend(single_use(c[2], used))
        else:
            used.add(c[0])
            out.append([c[0], c[1], single_use(c[2], used)])
    return gh.merge(out)


def nested(children):
    return any(n[0] in Textile.faces and any(m[0] in Textile.faces for m in ht.walk(n[2])) for n in ht.walk(children))


def simplify(block):
    """python-textile is confused by a marker used again beside nested typefaces in one line"""
    if block[0] in ("ul", "ol", "table"):
        return [block[0], block[1], [simplify(c) for c in block[2]]]
    if nested(block[2]):
        return [block[0], block[1], single_use(block[2], set())]
    return block


def gen_h05(src):
    prof = Textile()
    # python-textile mixes up * with ** (and _ with __) in one line
    drop = (src.choice(["strong", "b"]), src.choice(["em", "i"]))
    prof.faces = tuple(f for f in Textile.faces if f not in drop)
    tree = [simplify(b) for b in gh.document(src, prof)]
    broken = gh.break_headings(src, tree, safe=str.isalnum)      # python-textile has no line breaks in headings
    return {"tree": tree, "html": gh.any_layout(src, broken)}


def check_h05(case):
    html = case["html"]
    text = convert("textile", html)
    try:
        rendered = rd.render_textile(text)
    except rd.RenderError as err:
        fail(f"html2textile({short(html)}) = {short(text)}: {err}")
    rename = {}

    def keep(children):
        out = []
        for c in children:
            if isinstance(c, str):
                out.append(c)
            elif c[0] == "img":
                out.append(["img", {"src": c[1].get("src"), "alt": c[1].get("alt")}, []])
            elif c[0] == "a":
                out.append(["a", {"href": unquote(c[1].get("href", ""))}, keep(c[2])])
            else:
                out.append([c[0], {}, keep(c[2])])
        return out
    exp = expected(case["tree"], rename, lambda a: {"src": a["src"], "alt": longest(a)})
    act = ht.canon(keep(rd.unwrap_p(rd.unwrap(rendered, ("thead", "tbody")))), rename)
    compare("textile", html, text, exp, act)
    return labels_of(case["tree"])


PROPS = {
    "H03": {
        "rule": "more than one block or more than two kinds of elements",
        "subs": [Sub("markdown", gen_h03, check_h03, quick=12000, rule="more than one block or more than two kinds of elements")],
        "assumptions": ["python-markdown with tables, fenced_code, nl2br and tab_length=2 is the independent Markdown implementation",
                        "text free of Markdown markup (html2markdown writes text as it is)"],
    },
    "H04": {
        "rule": "more than one block or more than two kinds of elements",
        "subs": [Sub("docutils", gen_h04, check_h04, quick=10000, rule="more than one block or more than two kinds of elements")],
        "assumptions": ["docutils is the independent ReSt implementation", "text free of ReSt markup (html2rest writes text as it is)"],
    },
    "H05": {
        "rule": "more than one block or more than two kinds of elements",
        "subs": [Sub("textile", gen_h05, check_h05, quick=8000, rule="more than one block or more than two kinds of elements")],
        "assumptions": ["python-textile is the independent Textile implementation", "text free of Textile markup (html2textile writes text as it is)"],
    },
}
