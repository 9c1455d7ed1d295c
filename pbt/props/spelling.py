"""H11, H12, H13: different spellings of the same HTML document."""

import html as _html
import html.entities
import re

from pbt import genhtml as gh
from pbt import htmltree as ht
from pbt import texts
from pbt.engine import Sub
from pbt.props import html_any
from pbt.props import roundtrip
from pbt.sut import CONVERTERS, call, convert_any, fail, short


class Wide(gh.Profile):
    """Any text: the relation needs no text free of markup"""
    faces = ("strong", "b", "big", "em", "i", "tt", "sup", "sub", "u", "small", "del", "strike", "ins", "cite", "span")
    code = "code"
    adjacent = True
    link_images = True
    same_label = True
    inline_in_heading = True
    empty_items = True
    sibling_lists = True
    br_in_face = True
    blocks = (("p", 8), ("h", 3), ("list", 3), ("table", 3), ("hr", 1), ("pre", 2))

    def ok(self, w, start, end):
        return not BLANKS.search(w)

    def pre_text(self, src):
        lines = []
        for _ in range(src.rep(1, 7, 2.2)):
            lines.append(src.choice(["", "", " ", "    "]) + " ".join(texts.raw_word(src) for _ in range(src.rep(0, 4, 1.6))))
        text = "\n".join(lines)
        if not text.strip():
            text = "code"
        return "\n" + text.strip("\n") + "\n"

    def href(self, src):
        for _ in range(3):
            t = super().href(src)
            if not re.search(r"[\s\u2028]", t):
                return t
        return "x"


BLANKS = re.compile(r"\s|[\x1c-\x1f\x85\xa0\u2028]")


def make_tree(src, edges=True):
    tree = gh.document(src, Wide())
    if src.p(0.4):
        tree = unknown(src, tree)
    return gh.loose(src, tree, edges=edges)


UNKNOWN = ["font", "abbr", "x", "kbd", "q", "my-tag", "label", "data"]


def unknown(src, children, depth=0):
    """Put some elements into unknown inline elements"""
    out = []
    for c in children:
        if isinstance(c, list):
            inner = c[2] if c[0] in ("pre", "code") else unknown(src, c[2], depth + 1)
            c = [c[0], c[1], inner]
            if c[0] in ("b", "em", "a", "i", "strong", "tt") and src.p(0.2):
                c = [src.choice(UNKNOWN), {}, [c]]
        out.append(c)
    return out


def outputs(html):
    return {name: convert_any(name, html) for name in CONVERTERS}


def normal(name, text):
    """Blanks without a meaning: at the end of a line, the number of blank lines, blank lines beside a preformatted block"""
    if text is None:
        return None
    out = []
    for line in text.strip("\n").split("\n"):
        bare = re.sub(r" *(\\\\|<br />) *", r"\1", line.rstrip(" "))    # line breaks in list items and cells
        if name == "markdown" and line.endswith("  ") and bare:
            bare += "  "       # a line break
        if bare or out and out[-1]:
            out.append(bare)
    if name == "creole":
        out = [line for k, line in enumerate(out) if line or out[k - 1] != "}}}"]
    return out


def same_text(name, x, y):
    return x == y or normal(name, x) == normal(name, y)


def same(case, labels):
    a, b = case["a"], case["b"]
    names = case.get("only") or sorted(CONVERTERS)
    for name in names:
        x, y = convert_any(name, a), convert_any(name, b)
        if not same_text(name, x, y):
            fail(f"html2{name}({short(a, 1500)})\n = {short(x, 1200)}\n but html2{name}({short(b, 1500)})\n = {short(y, 1200)}")
        if x is None:
            labels.add("refused")
    if a != b:
        labels.add("nt")
    return labels


def tags_of(tree):
    return sorted({n[0] for n in ht.walk(tree)})


# ---------------------------------------------------------------------------
# H11
# ---------------------------------------------------------------------------

def gen_layout(src):
    tree = make_tree(src)
    first = gh.write(tree) if src.p(0.7) else gh.write(tree, gh.Style(src, ws=True))
    if src.p(0.25):
        second = gh.pretty(tree)
    else:
        second = gh.write(tree, gh.Style(src, ws=True))
    return {"a": first, "b": second, "tags": tags_of(tree)}


def check_layout(case):
    return same(case, {f"has:{t}" for t in case["tags"]})


PROTECTED = re.compile(r"(?is)\s*<pre[\s>].*?(?:</pre\s*>\s*|\Z)|<!--.*?(?:-->|\Z)|<[^<>]*>")
MARKUP_ONLY = re.compile(r"<!--.*?-->|</?[a-zA-Z][^<>]*>", re.DOTALL)
BETWEEN = re.compile(r"(?<=\w)[ \t\n\r\f]+(?=\w)")
RUN = re.compile(r"[ \t\n\r\f]+")


def gen_runs(src):
    """Any markup: a run of blanks between words or tags is replaced by another one"""
    words = html_any.Words()
    if src.p(0.6):
        html = html_any.wild_tree(src, words)
    else:
        tags = html_any.KNOWN_INLINE + html_any.KNOWN_BLOCK + html_any.UNKNOWN[:12] + html_any.TABLE
        if src.p(0.5):
            tags = src.subset(tags, 0.15) or tags
        html = html_any.soup(src, words, [t for t in tags if t not in RAW], comments=False)
    out = []
    pos = 0
    comments = src.p(0.3) and not re.search(r"=\s*(?:\"[^\"]*|'[^']*)[<>]", html) and "<" not in MARKUP_ONLY.sub("", html)

    def run():
        return "".join(src.choice(gh.WS) for _ in range(src.between(1, 3)))

    def vary(text):
        if comments:    # a comment beside a blank between two words
            text = BETWEEN.sub(lambda m: src.choice(["", run()]) + src.choice(gh.COMMENTS) + run() if src.p(0.3) else m.group(), text)
        return RUN.sub(lambda m: run() if src.p(0.5) else m.group(), text)
    for m in PROTECTED.finditer(html):
        out.append(vary(html[pos:m.start()]) + m.group())
        pos = m.end()
    out.append(vary(html[pos:]))
    return {"a": html, "b": "".join(out), "tags": []}


def gen_edges(src):
    """Blanks beside the tags of block level elements of every name"""
    parts = html_any.edge_parts(src, html_any.Words(), flat_heads=True)
    one = src.choice(["", " ", "\n", "\n\n", "\n\t"])

    def write(always):
        return "".join((one if always else src.choice(["", "", " ", "\n", "\n    ", "\t", "\r\n", " \n "])) if x is None else x for x in parts)
    return {"a": write(True), "b": write(False), "tags": []}


RAW = ("script", "style", "textarea", "iframe", "title", "xmp", "noembed", "noframes")


def gen_strip(src):
    words = html_any.Words()
    if src.p(0.5):
        html = html_any.soup(src, words, html_any.KNOWN_INLINE + html_any.KNOWN_BLOCK + html_any.UNKNOWN + html_any.TABLE)
    else:
        html = html_any.gen_h07(src)["html"]
    return {"html": html}


NONBLANK = re.compile(r"\s+")


def check_strip(case):
    from creole.html_tools.strip_html import strip_html
    html = case["html"]
    out = call(strip_html, html)
    if not isinstance(out, str):
        fail(f"strip_html({html!r}) returned {out!r}")
    if NONBLANK.sub("", out) != NONBLANK.sub("", html):
        fail(f"strip_html({html!r}) = {out!r}: changed more than blanks")
    again = call(strip_html, out)
    if NONBLANK.sub("", again) != NONBLANK.sub("", html):
        fail(f"strip_html({out!r}) = {again!r}: changed more than blanks")
    return {"nt"} if "<" in html and re.search(r"\s", html) else set()


# ---------------------------------------------------------------------------
# H12
# ---------------------------------------------------------------------------

def gen_refs(src):
    tree = make_tree(src)
    return {"a": gh.write(tree), "b": gh.write(tree, gh.Style(src, refs=True)), "tags": tags_of(tree)}


ENTITIES = sorted(name for name in html.entities.html5 if name.endswith(";"))
PLACES = ["<p>a {} b</p>", "<p>a{}b</p>", "{}x", "x{}", "<h2>a {}b</h2>", "<ul><li>{}a</li></ul>", "<table><tr><td>a{}</td></tr></table>",
          "<p><b>a{}</b></p>", '<p><a href="x">a {}</a></p>', "<p>a</p>\n<pre>\na {} b\n</pre>\n<p>b</p>", "<p>x <pre>a{}b</pre> y</p>", "<pre>\n{}a\nb\n</pre>",
          "<code>{}</code>", "<x>a{}b</x>", '<p><a href="/a{}b">c</a></p>', '<p>x <img src="a.png" alt="a{}b"></p>']


def gen_named(src):
    name = src.choice(ENTITIES)
    return {"name": name, "place": src.choice(PLACES), "twice": src.p(0.3)}


def check_named(case):
    char = html.entities.html5[case["name"]]
    place = case["place"]
    if BLANKS.search(char) or char in ("&", "<", '"', "\u200b", "\u2063") and False:
        # blanks of any kind: only that nothing fails and the words are kept
        forms = {f"&{case['name']}", "".join(f"&#{ord(c)};" for c in char), "".join(f"&#x{ord(c):x};" for c in char)}
        for name in CONVERTERS:
            outs = {form: convert_any(name, place.format(form)) for form in sorted(forms)}
            if len(set(outs.values())) > 1 and case["name"] != "nbsp;":   # deliberately a plain blank
                fail(f"html2{name} of {place!r} depends on the spelling of the character: {outs!r}")
            out = convert_any(name, place.format("&" + case["name"]))
            if out is not None and not all(w in out for w in re.findall(r"\w", re.sub(r"<[^>]*>", "", place.format("")))):
                fail(f"html2{name}({place.format('&' + case['name'])!r}) = {out!r} loses text")
        return {"blank"}
    raw = "".join({"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;"}.get(c, c) for c in char)
    dec = "".join(f"&#{ord(c)};" for c in char)
    hexa = "".join(f"&#x{ord(c):X};" for c in char)
    n = 2 if case["twice"] else 1
    labels = {"nt", "multi" if len(char) > 1 else "one"}
    for name in CONVERTERS:
        results = [convert_any(name, place.format(form * n)) for form in (raw, "&" + case["name"], dec, hexa)]
        if len(set(results)) > 1:
            fail(f"html2{name}({place!r} with {raw!r} / &{case['name']} / {dec} / {hexa}) gives {results!r}")
        if "href" not in place and results[0] is not None and char not in _html.unescape(results[0]):
            fail(f"html2{name}({place.format(raw * n)!r}) = {results[0]!r} without {char!r}")
    return labels


def gen_number(src):
    kind = src.weighted([(3, "any"), (2, "low"), (2, "edge"), (1, "huge")])
    if kind == "any":
        n = src.i(0x10ffff)
    elif kind == "low":
        n = src.i(0x180)
    elif kind == "edge":
        n = src.choice([0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x110000, 0, 9, 10, 13, 32, 127, 128,
                        159, 160, 0x2028, 0x2029, 0x200b, 0xfeff, 0x3000, 0xad]) + src.i(3) - 1
        n = max(n, 0)
    else:
        n = src.choice([2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64, 10 ** 30, 10 ** 400, 10 ** 3000])
    form = src.choice(["&#{};", "&#x{:x};", "&#X{:X};", "&#0{};", "&#x00{:x};"])
    return {"ref": form.format(n), "place": src.choice(PLACES), "n": n if n < 2 ** 40 else None}


def check_number(case):
    n = case["n"]
    valid = n is not None and (n < 0xd800 or 0xdfff < n <= 0x10ffff)
    char = chr(n) if valid else None
    html_text = case["place"].format(case["ref"])
    labels = {"valid" if valid else "invalid", "nt"}
    plain = valid and not BLANKS.search(char) and char.isprintable()
    for name in CONVERTERS:
        out = convert_any(name, html_text)
        if out is None:
            continue
        try:
            out.encode("utf-8")
        except UnicodeEncodeError as err:
            fail(f"html2{name}({html_text!r}) = {out!r}: {err}")
        if plain:
            raw = case["place"].format(_html.escape(char))
            other = convert_any(name, raw)
            if out != other:
                fail(f"html2{name}({html_text!r}) = {out!r}, but with the character itself {other!r}")
        for w in re.findall(r"[abxy]", re.sub(r"<[^>]*>", "", case["place"].format(""))):
            if w not in out:
                fail(f"html2{name}({html_text!r}) = {out!r} loses text")
    return labels


# ---------------------------------------------------------------------------
# H13
# ---------------------------------------------------------------------------

FLAGS = ["case", "quote", "attrs", "void", "comments", "tbody", "rawgt", "preattrs"]


def gen_spelling(src):
    tree = make_tree(src)
    flags = src.subset(FLAGS, 0.5) or [src.choice(FLAGS)]
    return {"a": gh.write(tree), "b": gh.write(tree, gh.Style(src, **{f: True for f in flags})), "tags": tags_of(tree), "flags": flags}


def check_spelling(case):
    return same(case, {f"has:{t}" for t in case["tags"]} | {f"flag:{f}" for f in case["flags"]})


def gen_synonyms(src):
    tree = gh.loose(src, roundtrip.document(src, roundtrip.Creole()) if src.p(0.5) else gh.document(src, Wide()))
    return {"a": gh.write(tree), "b": gh.write(tree, gh.Style(src, synonyms=True)), "tags": tags_of(tree), "only": ["creole"]}


VOID = ["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"]
EMPTY_PLACES = ["<p>a {} b</p>", "<p>a{}b</p>", "<p>a <b>c {}</b> d</p>", "<ul><li>a {} b</li><li>c</li></ul>", "<ol><li>a<ul><li>{}b</li></ul></li></ol>",
                "<table><tr><td>a {}</td><td>b</td></tr></table>", "<p>a</p>{}<p>b</p>", "<div>a {} b</div><p>c</p>", "<h2>a {} b</h2>",
                "<p><a href='x'>a {}</a></p>", "{}a", "a{}", "<table>{}<tr><td>a</td></tr></table>", "<blockquote>a{}</blockquote>b", "<x>a {} b</x>",
                "<p>a {}</p><p>b {} c</p>", "<code>a {} b</code>", "<p>a {} {} b</p>", "<p><i>a {} <tt>b</tt></i> {} c</p>"]
EMPTY_ATTRS = ["", "", ' class="a"', ' src="x.png"', ' href="u"', " disabled", ' name="a" value="b c"', ' alt="a"', ' src=x.png alt=b']


def gen_empty(src):
    place = src.choice(EMPTY_PLACES)
    a, b = [], []
    for _ in range(place.count("{}")):
        tag, attrs = src.choice(VOID), src.choice(EMPTY_ATTRS)
        forms = [f"<{tag}{attrs}>", f"<{tag}{attrs} />", f"<{tag.upper()}{attrs}>", f"<{tag}{attrs}\n/>", f"<{tag} {attrs} >", f"<{tag.title()}{attrs} />"]
        if tag != "br":
            forms += [f"<{tag}{attrs}></{tag}>", f"<{tag}{attrs} ></{tag.upper()}>", f"<{tag}{attrs} /></{tag}>"]
        a.append(src.choice(forms))
        b.append(src.choice(forms))
    if len(place) > 8 and src.p(0.3):
        place = f"<p>x <b>y</b></p>{place}<p><i>z</i></p>"
    return {"a": place.format(*a), "b": place.format(*b), "tags": []}


def gen_sections(src):
    """Sections of a table, written or left out"""
    a, b = ["<table>"], ["<table>"]
    n = 0
    if src.p(0.2):
        a.append("<caption>cap</caption>")
        b.append("<caption>cap</caption>")
    for section in src.subset(["thead", "tbody", "tbody", "tfoot"], 0.6) or ["tfoot"]:
        shown = src.p(0.5), src.p(0.5)
        rows = []
        for _ in range(src.between(1, 3)):
            row = []
            for _ in range(src.between(1, 4)):
                t = "th" if section == "thead" or src.p(0.1) else "td"
                n += 1
                row.append(f"<{t}>{src.choice(['c%d', '<b>c%d</b>', 'c%d x', '', 'c%d<br>y']).replace('%d', str(n))}</{t}>")
            rows.append("<tr>" + "".join(row) + "</tr>")
        for out, show in ((a, shown[0]), (b, shown[1])):
            ws = src.choice(["", "\n", " ", "\n  "])
            name = section.upper() if src.p(0.1) else section
            out.append((ws + f"<{name}{src.choice(['', ' class=x'])}>" if show else "") + ws.join(rows) + (f"{ws}</{name}>{ws}" if show else ""))
    a.append("</table>")
    b.append("</table>")
    before, after = src.choice([("", ""), ("<p>a</p>", "<p>b</p>"), ("<div>", "</div>"), ("x", "y")])
    return {"a": before + "".join(a) + after, "b": before + "".join(b) + after, "tags": []}


NOTHING = ["b", "strong", "em", "i", "u", "sup", "sub", "del", "small", "big", "strike", "code", "tt", "ins", "cite"]


def nothing_inline(src, depth=0):
    inner = [nothing_inline(src, depth + 1)] if depth < 4 and src.p(0.2) else []
    if src.p(0.2):
        return ["a", {"href": src.choice(["/x", "#top", "http://example.com/?a=b", "a.html", ""])}, inner]
    return [src.choice(NOTHING), {}, inner]


def nothing_block(src):
    inner = [nothing_inline(src)] if src.p(0.2) else []
    tag = src.choice(["p", "div", "h1", "h2", "h6", "ul", "ol", "table"])
    return [tag, {}, [] if tag in ("ul", "ol", "table") else inner]


def with_nothing(src, children, top=False):
    """Put elements without content between the blocks and into the texts"""
    out = []
    for c in children:
        if top and src.p(0.2):
            out.append(nothing_block(src))
        if isinstance(c, str):
            k = src.i(len(c) + 1) if len(c) > 1 and src.p(0.3) else 0
            if 0 < k < len(c):
                out += [c[:k], nothing_inline(src), c[k:]]
            else:
                out.append(c)
        elif c[0] in ("pre", "code", "tt", "img", "br", "hr"):
            out.append(c)
        else:
            inner = with_nothing(src, c[2])
            if c[0] == "li" and not any(isinstance(x, list) and x[0] in ("ul", "ol") for x in inner) and src.p(0.1):
                inner = inner + [[src.choice(["ul", "ol"]), {}, []]]
            out.append([c[0], c[1], inner])
    return out


def check_nothing(case):
    """Only blank lines may be added"""
    a, b = case["a"], case["b"]
    for name in sorted(CONVERTERS):
        x, y = convert_any(name, a), convert_any(name, b)
        if x != y and (None in (x, y) or [line for line in normal(name, x) if line.strip()] != [line for line in normal(name, y) if line.strip()]):
            fail(f"html2{name}({short(a, 1500)})\n = {short(x, 1200)}\n but html2{name}({short(b, 1500)})\n = {short(y, 1200)}")
    return {"nt"} if a != b else set()


def gen_nothing(src):
    tree = gh.document(src, Wide())
    if src.p(0.3):
        tree = unknown(src, tree)
    return {"a": gh.write(tree), "b": gh.write(with_nothing(src, tree, top=True)), "tags": []}


PROPS = {
    "H11": {"rule": "the two layouts differ", "subs": [
        Sub("layout", gen_layout, check_layout, quick=6000, rule="the two layouts differ"),
        Sub("runs", gen_runs, check_layout, quick=8000, rule="the two texts differ"),
        Sub("edges", gen_edges, check_layout, quick=8000, rule="the two texts differ"),
        Sub("strip", gen_strip, check_strip, quick=20000, rule="the text has tags and blanks")]},
    "H12": {"rule": "a reference to a character, in one of 16 places, or a document with some characters replaced", "subs": [
        Sub("refs", gen_refs, check_layout, quick=6000, rule="at least one character is written as a reference"),
        Sub("named", gen_named, check_named, quick=8000, rule="the reference does not stand for a kind of blank"),
        Sub("number", gen_number, check_number, quick=8000, rule="every case")]},
    "H13": {"rule": "the two spellings differ", "subs": [
        Sub("spelling", gen_spelling, check_spelling, quick=8000, rule="the two spellings differ"),
        Sub("synonyms", gen_synonyms, check_layout, quick=6000, rule="the two spellings differ"),
        Sub("empty", gen_empty, check_layout, quick=6000, rule="the two spellings differ"),
        Sub("nothing", gen_nothing, check_nothing, quick=6000, rule="at least one element without content"),
        Sub("sections", gen_sections, check_layout, quick=5000, rule="the two spellings differ")]},
}
