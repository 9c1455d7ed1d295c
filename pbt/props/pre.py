"""H09: preformatted HTML keeps its lines."""

import re

from pbt import genhtml as gh
from pbt import htmltree as ht
from pbt import renderers as rd
from pbt import texts
from pbt.engine import Sub
from pbt.props import render
from pbt.sut import c2h, convert, fail, short

LOOKS = ["", "", "    x = 1", "if a < b && c > d:", "* no list", "** x", "# no heading", "#. x", "== no heading ==", "| a | b |", "|= a |", "|_. a|",
         "&amp; <b>", "&lt;", "&#65; &copy;", "_x_ **y** //z//", "`a <b>`_", "[[a|b]]", "[a](b)", '"a":b', "{{a.png}}", "![a](b)", "!a.png!", "``", "  - z",
         "~~~", "<<toc>>", "<<html>>x<</html>>", "`", "<br />", "<p>x</p>", "<pre>", "<code>", "</code>", "<!-- c -->", "---", "----", "====", "1. a",
         "h1. x", ".. x:", "::", "\\", "\\\\", "a\\\\b", "{{{", "{{{x}}}", "}}}", " }}}", "x}}}", "}}", "{", "}", "%(x)s", "{0}", "$", "~", "~x", "~http://x.org",
         "http://example.com", "<script>alert(1)</script>", "<?php x ?>", "<![CDATA[x]]>", "]]>", "\"q\" 'r'", "a\tb", "x  y   z", "/* c */", "// c", "@x@",
         "+x+ -y- ^z^", "==text==", "<notextile>", "&", ";", "&;", "<", ">", "<a", "x >", "&nbsp", "\tx", "äöü 日本語 😀", "</td></tr>", "</p>", "<li>"]


def line(src):
    k = src.weighted([(3, "look"), (3, "words"), (1, "indent"), (1, "mix")])
    if k == "look":
        t = src.choice(LOOKS)
    elif k == "words":
        t = " ".join(texts.raw_word(src) for _ in range(src.rep(1, 10, 2.5)))
    elif k == "indent":
        t = " " * src.between(1, 12) + texts.raw_word(src)
    else:
        t = src.choice(LOOKS) + src.choice([" ", "", "  "]) + texts.raw_word(src) + src.choice(["", " "]) + src.choice(LOOKS)
    if src.p(0.1):
        t += src.choice([" ", "   "])
    return t


BAD = re.compile("[\r\f\v\x1c-\x1e\x85\u2028\u2029\xa0\x00\x02\x03]|</pre", re.I)


def content(src):
    n = src.rep(1, 60, 3.5)
    lines = [line(src) for _ in range(n)]
    text = "\n".join("x" if BAD.search(t) else t for t in lines)
    return text if text.strip() else "code"


def block(src, prof):
    k = src.weighted([(4, "p"), (1, "h"), (1, "list"), (1, "table")])
    if k == "p":
        return ["p", {}, [prof.text(src, 3)]]
    if k == "h":
        return ["h2", {}, [prof.text(src, 2)]]
    if k == "list":
        return ["ul", {}, [["li", {}, [prof.text(src, 2)]] for _ in range(src.between(1, 3))]]
    return ["table", {}, [["tr", {}, [["td", {}, [prof.text(src, 2)]]]]]]


EDGES = [("\n", "\n"), ("", ""), ("\n", ""), ("", "\n")]


def gen_block(src):
    prof = render.Safe()
    n = src.rep(1, 12, 3)
    tree = []
    for _ in range(n):
        if src.p(0.5):
            tree.append(["pre", {}, [content(src)]])
        else:
            node = block(src, prof)
            if tree and tree[-1][0] == node[0] != "p":
                node = ["p", {}, [prof.text(src, 3)]]
            tree.append(node)
    if not any(n[0] == "pre" for n in tree):
        tree.append(["pre", {}, [content(src)]])
    plain = []
    for node in tree:
        if node[0] == "pre":
            lines = node[2][0].split("\n")
            edges = ("\n", "\n")
            if len(lines) > 1 and lines[0].strip() and lines[-1].strip():
                edges = src.choice(EDGES)
            attrs = src.choice([{"class": "x"}, {"style": "color: red"}, {"lang": "de"}]) if src.p(0.1) else {}
            plain.append(["pre", attrs, [edges[0] + node[2][0] + edges[1]]])
        else:
            plain.append(node)
    wrapped = gh.bare_text(src, gh.wrap_blocks(src, plain), 0.15)
    style = gh.Style(src, refs=src.p(0.5), quote=True, case=src.p(0.3)) if src.p(0.6) else gh.Style()
    return {"tree": tree, "html": gh.write(wrapped, style)}


def norm(text):
    """Line ends at the edges have no meaning"""
    return text.strip("\n")


def creole_pres(out):
    found, cur = [], None
    for t in out.split("\n"):
        if cur is None:
            if t.rstrip() == "{{{":
                cur = []
        elif re.fullmatch(r"\}\}\}\s*", t):
            found.append("\n".join(cur))
            cur = None
        else:
            cur.append(re.sub(r"^~(\}\}\}\s*)$", r"\1", t))
    return found


def markdown_pres(out):
    return [m.group(3) for m in re.finditer(r"^(`{3,})([^`\n]*)\n(.*?)\n\1$", out, re.M | re.S)]


def lines_rest(text):
    lines = [t.rstrip() for t in text.rstrip().split("\n")]
    while lines and not lines[0]:
        del lines[0]
    return lines


def check_block(case):
    html, tree = case["html"], case["tree"]
    contents = [n[2][0] for n in tree if n[0] == "pre"]
    words = [w for n in tree if n[0] != "pre" for w in " ".join(ht.strip_tags_words([n])).split()]
    labels = set()

    def compare(fmt, out, what, got, want):
        if got != want:
            k = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            fail(f"html2{fmt}({short(html, 1500)})\n = {short(out, 1500)}\n {what}, block {k}: {short(got[k:k + 1], 500)}, not {short(want[k:k + 1], 500)}")

    # creole
    if not any(re.match(r"\s*(~+\s*\}\}\}|\}\}\}\s*\S)", t) for c in contents for t in c.split("\n")):
        out = convert("creole", html)
        compare("creole", out, "text", [norm(c) for c in creole_pres(out)], [norm(c) for c in contents])
        back = c2h(out)
        try:
            node = ht.parse(back)
        except ht.HtmlError as err:
            fail(f"html2creole({short(html)}) = {short(out)}, and back: {err}")
        compare("creole", out, "converted back",
                [norm(ht.text_of(n[2])) for n in ht.walk(node) if n[0] == "pre"], [norm(c) for c in contents])
        labels.add("creole")
    # markdown
    out = convert("markdown", html)
    compare("markdown", out, "text", [norm(c) for c in markdown_pres(out)], [norm(c) for c in contents])
    if not any("\t" in c for c in contents):
        rendered = rd.render_markdown(out)
        compare("markdown", out, "rendered",
                [lines_rest(ht.text_of(n[2])) for n in ht.walk(rendered) if n[0] == "pre"], [lines_rest(c) for c in contents])
    # textile
    if not any(re.search(r"<pre\b", c, re.I) for c in contents):
        out = convert("textile", html)
        compare("textile", out, "text", [norm(c) for c in re.findall(r"^<pre>(.*?)</pre>$", out, re.M | re.S)], [norm(c) for c in contents])
        labels.add("textile")
    # ReSt
    out = convert("rest", html)
    pos = 0
    for c in contents:
        want = "::\n\n" + "\n".join(("    " + t).rstrip() for t in lines_rest(c))
        flat = "\n".join(t.rstrip() for t in out.split("\n"))
        at = flat.find(want, pos)
        end = at + len(want)
        if at < 0 or (at and flat[at - 1] != "\n") or flat[end:end + 1] not in ("", "\n"):
            fail(f"html2rest({short(html, 1500)})\n = {short(out, 1500)}\n does not contain the lines of {short(c, 500)}")
        pos = end
    if not any("\t" in c for c in contents):
        try:
            rendered = rd.render_rest(out, 2)
        except rd.RenderError as err:
            fail(f"html2rest({short(html, 1500)})\n = {short(out, 1500)}: {err}")

        def dedent(text):
            lines = lines_rest(text)
            indent = min(len(t) - len(t.lstrip(" ")) for t in lines if t)
            return [t[indent:] for t in lines]
        compare("rest", out, "rendered", [dedent(ht.text_of(n[2])) for n in ht.walk(rendered) if n[0] == "pre"], [dedent(c) for c in contents])
        got = [w for n in rendered if n[0] != "pre" for w in " ".join(ht.strip_tags_words([n])).split()]
        compare("rest", out, "words outside", got, words)
    if any(len(c.split("\n")) > 1 for c in contents):
        labels.add("multi-line")
    if any(re.search(r"[<&{}*|`]", c) for c in contents):
        labels.add("markup")
    if {"multi-line", "markup"} <= labels:
        labels.add("nt")
    return labels


# ---------------------------------------------------------------------------
# inside of a line
# ---------------------------------------------------------------------------

def gen_inline(src):
    prof = render.Safe()
    parts = []
    n = src.rep(1, 6, 1.6)
    parts.append(prof.text(src, 2))
    for _ in range(n):
        t = line(src).strip()
        if not t or BAD.search(t) or "}}}" in t or "\n" in t or t[-1] == "}" or t[0] == "}" or re.search(r"<pre\b|<code", t, re.I):
            t = "x  <y>"
        if src.p(0.25):
            t = src.choice([" ", "  ", ""]) + t + src.choice([" ", "  ", ""])
        parts.append(["pre", {}, [t]])
        parts.append(prof.text(src, 2))
    style = gh.Style(src, refs=True) if src.p(0.5) else gh.Style()
    html = " ".join(p if isinstance(p, str) else gh.write_node(p, style) for p in parts)
    return {"parts": parts, "html": f"<p>{html}</p>"}


def check_inline(case):
    html = case["html"]
    contents = [p[2][0] for p in case["parts"] if isinstance(p, list)]
    words = [p for p in case["parts"] if isinstance(p, str)]
    for fmt in ("creole", "textile", "rest", "markdown"):
        out = convert(fmt, html)
        pos = 0
        for k, c in enumerate(contents):
            want = words[k] + {"creole": " {{{%s}}} ", "textile": " <pre>%s</pre> ", "rest": " <pre>%s</pre> ", "markdown": " \n```\n%s\n```\n"}[fmt] % c
            if fmt == "markdown":
                m = re.compile(re.escape(words[k]) + r"\s*\n(`{3,})\n" + re.escape(c) + r"\n\1\n\s*").match(out, pos)
                if not m:
                    fail(f"html2{fmt}({short(html, 1500)})\n = {short(out, 1500)}: {c!r} is not kept")
                pos = m.end()
                continue
            if not out.startswith(want, pos):
                fail(f"html2{fmt}({short(html, 1500)})\n = {short(out, 1500)}: no {want!r} at {pos}")
            pos += len(want)
        if out[pos:] != words[-1]:
            fail(f"html2{fmt}({short(html, 1500)})\n = {short(out, 1500)} does not end with {words[-1]!r}")
        if fmt == "creole":
            back = c2h(out)
            try:
                tts = [ht.text_of(n[2]) for n in ht.walk(ht.parse(back)) if n[0] in ("tt", "code")]
            except ht.HtmlError as err:
                fail(f"html2creole({short(html)}) = {short(out)}, and back: {err}")
            if tts != contents:
                fail(f"html2creole({short(html)}) = {short(out)}, and back {short(back)}: {tts}, not {contents}")
    return {"nt"} if any(re.search(r"[<&{}*|`]|  ", c) for c in contents) else set()


# ---------------------------------------------------------------------------
# in list items and table cells: the words stay
# ---------------------------------------------------------------------------

def gen_nested(src):
    n = [0]

    def w():
        n[0] += 1
        return f"w{n[0]}q"
    text = "\n".join(" " * src.i(4) + " ".join(w() + src.choice(["", " <b>", " *", " &", "  |"]) for _ in range(src.between(1, 3)))
                     for _ in range(src.between(1, 4)))
    pre = ["pre", {}, [src.choice(["", "\n"]) + text + src.choice(["", "\n"])]]
    kids = [w(), pre, w()]
    if src.p(0.3):
        kids = kids[1:]
    if src.p(0.3):
        kids = kids[:-1]
    where = src.choice(["li", "td", "th", "nested", "p", "strong", "dd", "label"])
    if where == "li":
        node = ["ul", {}, [["li", {}, kids], ["li", {}, [w()]]]]
    elif where == "nested":
        node = ["ul", {}, [["li", {}, [w(), ["ol", {}, [["li", {}, kids]]]]]]]
    elif where in ("td", "th"):
        node = ["table", {}, [["tr", {}, [[where, {}, kids], ["td", {}, [w()]]]]]]
    else:
        node = [where, {}, kids]
    tree = [["p", {}, ["start"]], node, ["p", {}, ["end"]]]
    return {"html": gh.write(tree), "words": sorted(re.findall(r"w\d+q", ht.text_of(tree)))}


def check_nested(case):
    for fmt in ("creole", "textile", "markdown", "rest"):
        out = convert(fmt, case["html"])
        got = sorted(re.findall(r"w\d+q", out))
        if got != case["words"]:
            fail(f"html2{fmt}({short(case['html'], 1500)})\n = {short(out, 1500)}: words {got}, not {case['words']}")
        if "{{{" not in out and out.count("<b>") != case["html"].count("&lt;b&gt;"):
            fail(f"html2{fmt}({short(case['html'], 1500)})\n = {short(out, 1500)}: <b> is not kept")
    return {"nt"}


RULE = "more than one line and characters with a meaning in a markup"
PROPS = {
    "H09": {
        "rule": RULE,
        "subs": [Sub("block", gen_block, check_block, quick=8000, rule=RULE),
                 Sub("inline", gen_inline, check_inline, quick=4000, rule="characters with a meaning in a markup"),
                 Sub("nested", gen_nested, check_nested, quick=3000, rule="all")],
        "assumptions": ["lines which the target format cannot hold are left out (creole: lines starting with ~}}} or }}}x; Textile: <pre> and </pre>)",
                        "in list items and table cells only the words are compared"],
    },
}
