"""C07-C09: creole2html on arbitrary input."""

import io
import re

from pbt import gencreole as g
from pbt import htmltree as ht
from pbt import texts
from pbt.engine import Sub
from pbt.sut import c2h, fail, short

# ---------------------------------------------------------------------------
# soup: any mixture of markup fragments
# ---------------------------------------------------------------------------

FRAGMENTS = ["**", "//", "__", "##", "^^", ",,", "--", "~~", "~", "\\\\", "\\", "[[", "]]", "|", "{{", "}}", "{{{", "}}}",
             "=", "==", "===", "*", "#", "**", "*#", "----", "-", ":", "http://", "ftp://x.y/z", "mailto:", "|=", "||", "[", "]", "{", "}",
             "#!python", "#!", "x", "10x20", " | ", "://", "~//", "~http://a.b", "!", ";"]
BREAKS = ["\n", "\n", "\n", "\n\n", "\n \n", "\n* ", "\n# ", "\n** ", "\n*# ", "\n= ", "\n== ", "\n|", "\n|=", "\n----\n", "\n{{{\n", "\n}}}\n", "\n}}}",
          "\n ", "\n\t", "\n ~}}}", "\n}}}x", "\n  * ", "\n *", "\n#", "\n=\n", "\n==", "\n|\n", "\n\n\n"]
PAIRS = [("**", "**"), ("//", "//"), ("__", "__"), ("##", "##"), ("^^", "^^"), (",,", ",,"), ("--", "--"), ("~~", "~~"), ("[[", "]]"),
         ("{{", "}}"), ("{{{", "}}}"), ("\n{{{\n", "\n}}}\n"), ("[[x|", "]]"), ("{{x|", "}}"), ("[[", "|y]]"), ("{{", "|y}}"), ("\n|", "|\n"), ("\n= ", " =\n"),
         ("\n* ", "\n"), ("<b>", "</b>"), ("\"", "\""), ("'", "'"), ("<!--", "-->")]
HOSTILE = ["<", ">", "&", "\"", "'", "<i>", "</i>", "<a href=\"x\">", "</a>", "<br />", "<script>alert(1)</script>", "\" onload=\"x", "'>", "\">", "&amp;",
           "&lt;", "&#60;", "&#x3c;", "<!--", "-->", "<![CDATA[", "]]>", "<?php ?>", "javascript:x", "<p>", "</p>", "<ul><li>", "<td>", "</td>", "&;", "&#;", "&",
           "<img src=x>", "%3Cb%3E", "\\\"", "``", "<h1>", "</h1>", "</pre>", "<pre>", "</code>"]
CONTROL = ["\x00", "\x01", "\x0b", "\x0c", "\x1c", "\x1d", "\x1e", "\x85", "\xa0", "\u2028", "\u2029", "\u200b", "\ufeff", "\u3000", "\x7f", "\x1b", "\ud7ff",
           "\ufffe", "\uffff", "\U0010ffff", "\t", "\x08"]


def soup(src, hostile=True, control=True, breaks=True, mean=14, words=texts.raw_word):
    n = src.rep(1, 200, mean) if not src.p(0.02) else src.between(50, 250)
    frags = src.subset(FRAGMENTS, 0.5) or ["**"]
    out = []
    stack = []
    for _ in range(n):
        kind = src.weighted([(8, "w"), (4, "sp"), (6, "f"), (4, "nl"), (3, "open"), (3, "close"), (3, "h"), (1, "c"), (1, "any")])
        if kind == "w":
            out.append(words(src))
        elif kind == "sp":
            out.append(src.choice([" ", " ", " ", "  ", "\t"]))
        elif kind == "f":
            out.append(src.choice(frags))
        elif kind == "nl":
            out.append(src.choice(BREAKS) if breaks else " ")
        elif kind == "open":
            a, b = src.choice(PAIRS)
            out.append(a)
            stack.append(b)
        elif kind == "close":
            out.append(stack.pop() if stack else src.choice(frags))
        elif kind == "h":
            out.append(src.choice(HOSTILE) if hostile else words(src))
        elif kind == "c":
            out.append(src.choice(CONTROL) if control else " ")
        else:
            out.append("".join(src.choice("*/_#-,^=|~[]{}<>\\:& \n\"'ab") for _ in range(src.between(1, 8))))
    while stack and src.p(0.6):
        out.append(stack.pop())
    return "".join(out)


def mutated(src, text):
    """A document with a few characters deleted, copied or replaced."""
    for _ in range(src.rep(1, 12, 3.0)):
        if not text:
            break
        a = src.i(len(text))
        n = src.choice([1, 1, 1, 2, 3, 8])
        kind = src.i(5)
        if kind == 0:
            text = text[:a] + text[a + n:]
        elif kind == 1:
            b = src.i(len(text))
            text = text[:b] + text[a:a + n] + text[b:]
        elif kind == 2:
            text = text[:a] + src.choice(FRAGMENTS) + text[a:]
        elif kind == 3:
            text = text[:a] + src.choice(BREAKS) + text[a:]
        else:
            text = text[:a]
    return text


def no_macros(text):
    """Macro calls are the matter of other checks."""
    while "<<" in text:
        text = text.replace("<<", "<")
    return text


MACROS = ["<<toc>>", "<<toc depth=2>>", "<<foo>>", "<<foo />>", "<<foo a=1>>", "<<foo>>bar<</foo>>", "<<toc depth=\"x\">>", "<<foo a>>", "<<foo a=\"b>>",
          "\n<<foo>>\nbar\n\nbaz\n<</foo>>\n", "<</foo>>", "<<toc>>x<</toc>>", "<<x.y>>", "<<>>", "<< >>", "<<pre>>x<</pre>>", "\n<<toc>>\n", "<<foo a=1 b=2>>"]


def gen_c07(src):
    kind = src.weighted([(6, 0), (4, 1), (2, 2)])
    if kind == 0:
        text = soup(src)
    elif kind == 1:
        doc = g.document(src, "blog", mean=2.5)
        text = mutated(src, g.source(doc))
    else:
        text = "".join(src.choice("*/_#-,^=|~[]{}<>\\:& \n\"'!abx0\t\r") for _ in range(src.size(1, 120)))
    text = no_macros(text)
    if src.p(0.25):
        for _ in range(src.rep(1, 4, 1.5)):
            a = src.i(len(text) + 1)
            b = text[:a].rstrip("<")
            text = b + src.choice(MACROS) + text[a:].lstrip(">")
        if any(re.search("[<>&]", x) for x in re.findall(r"(?s)(?=<<(.*?)>>)", text)):
            text = no_macros(text)
    return {"text": text, "blog": src.p(0.5), "strict": src.p(0.3)}


ATTRS = {"a": [{"href"}, {"name"}], "img": [{"src", "title", "alt"}, {"src", "title", "alt", "width", "height"}]}
TAGS = {"p", "br", "hr", "strong", "i", "tt", "u", "sup", "sub", "small", "del", "pre", "code", "a", "img", "ul", "ol", "li", "table", "tr", "td", "th"}
INLINE = {"br", "strong", "i", "tt", "u", "sup", "sub", "small", "del", "code", "a", "img"}
# elements that may stand directly inside
INSIDE = {
    "ul": {"li"}, "ol": {"li"}, "table": {"tr"}, "tr": {"td", "th"},
    "td": INLINE, "th": INLINE, "p": INLINE, "li": INLINE | {"ul", "ol"}, "pre": set(), "code": set(),
}
for _t in ("strong", "i", "tt", "u", "sup", "sub", "small", "del"):
    INSIDE[_t] = INLINE
HEAD = re.compile(r"h[1-9][0-9]*$")


def parse_safe(text, html, toc=False):
    try:
        tree = ht.parse(html)
    except ht.HtmlError as err:
        fail(f"creole2html({text!r}): {err}\nhtml: {short(html, 2000)}")
    labels = set()

    def visit(children, parent):
        for n in children:
            if isinstance(n, str):
                if parent in ("ul", "ol", "table", "tr") and n.strip("\n\t "):
                    fail(f"creole2html({text!r}): text {n!r} directly in <{parent}>\nhtml: {short(html, 2000)}")
                continue
            tag, attrs, sub = n
            labels.add(tag)
            if tag not in TAGS and not HEAD.match(tag):
                fail(f"creole2html({text!r}): element <{tag}> is not one of creole\nhtml: {short(html, 2000)}")
            if set(attrs) not in ATTRS.get(tag, [set()]):
                fail(f"creole2html({text!r}): attributes {sorted(attrs)} of <{tag}>\nhtml: {short(html, 2000)}")
            inside = INSIDE.get(parent)
            if inside is not None and tag not in inside and not (toc and parent == "p" and tag == "ul"):
                if not (toc and tag in ("ul", "a")):
                    fail(f"creole2html({text!r}): <{tag}> directly in <{parent}>\nhtml: {short(html, 2000)}")
            visit(sub, tag)
    visit(tree, None)
    return tree, labels


def check_c07(case):
    text = case["text"]
    err = io.StringIO()
    html = c2h(text, blog_line_breaks=case["blog"], strict=case["strict"], stderr=err)
    tree, labels = parse_safe(text, html, toc="<<toc" in text)
    labels = set(labels)
    if labels & set("<>&\""):
        labels.add("special")
    if len(labels) >= 3:
        labels.add("nt")
    return labels


PAYLOADS = ["<i>x</i>", "<a href=\"x\">y</a>", "\" onload=\"x", "\" title=\"x", "<script>alert(1)</script>", "&lt;b&gt;", "&amp;", "<b", "b>", "&", "\"", "<td>", "</li>",
            "</p><p>", "<br />", "&#60;i&#62;", "</pre>", "</code><b>", "<!-- x -->", "x\">", "'", "' onclick='x", "&quot;", "<p>", "a&b", "<", ">", "<img src=\"x\" />", "<h1>"]
CONTEXTS = {
    "text": "{}", "heading": "= {}", "heading with toc": "<<toc>>\n== {}\n", "item": "* {}", "nested item": "* a\n*# {}", "cell": "|{}|b|", "header cell": "|={}|", "target": "[[{}]]",
    "target and label": "[[{}|x]]", "label": "[[x|{}]]", "src": "{{{{{}}}}}", "src and alt": "{{{{{}|x}}}}", "alt": "{{{{x|{}}}}}", "size": "{{{{x|{}|3x4}}}}", "target as alt": "{{{{{}||3x4}}}}", "pre": "{{{{{{\n{}\n}}}}}}",
    "code": "{{{{{{{}}}}}}}", "bold": "**{}**", "italic": "a//{}//", "escaped": "~{}", "url": "http://a.b/{}", "wrong size": "{{{{x|{}|y}}}}",
    "underline": "__{}__", "del": "~~{}~~", "small": "--{}--", "sup": "^^{}^^", "sub": ",,{},,", "mono": "##{}##", "image in link": "[[a|{{{{b|{}}}}}]]", "link in cell": "|[[{}|q]]|",
    "image in cell": "|{{{{b|{}}}}}|",
}


def gen_c07_payload(src):
    context = src.choice(sorted(CONTEXTS))
    payload = "".join(src.choice(PAYLOADS) for _ in range(src.rep(1, 3, 1.4)))
    if src.p(0.3):
        payload = texts.random_word(src) + payload + texts.random_word(src)
    return {"context": context, "payload": payload, "blog": src.p(0.5), "strict": src.p(0.5)}


def strings(children):
    for c in children:
        if isinstance(c, str):
            yield c
        else:
            yield from c[1].values()
            yield ht.text_of(c)
            yield from strings(c[2])


def check_c07_payload(case):
    payload, context = case["payload"], case["context"]
    if context == "url":
        payload = re.sub(r"\s", "", payload)
    if context == "pre":
        pass
    elif "//" in payload and context == "italic":
        return set()
    text = CONTEXTS[context].format(payload)
    if "--" in payload or "//" in payload or "<<" in payload:
        return set()
    html = c2h(text, blog_line_breaks=case["blog"], strict=case["strict"], stderr=io.StringIO())
    tree, labels = parse_safe(text, html, toc=True)
    found = [s for s in strings(tree) if payload.strip() in s]
    if not found:
        fail(f"creole2html({text!r}): the text {payload!r} is not in the decoded HTML {html!r}")
    plain = c2h(CONTEXTS[context].format("qqq"), blog_line_breaks=case["blog"], strict=case["strict"], stderr=io.StringIO())
    want = sorted(n[0] for n in ht.walk(ht.parse(plain)))
    got = sorted(n[0] for n in ht.walk(tree))
    if want != got:
        fail(f"creole2html({text!r}) has the elements {got}, with plain text in its place it has {want}: {html!r}")
    return {"nt", context}


C07 = [
    Sub("soup", gen_c07, check_c07, quick=20000, thorough=700000,
        rule="markup soup, mutated documents and random characters, some with macro tags; non-trivial: at least three different elements come out"),
    Sub("payload", gen_c07_payload, check_c07_payload, quick=8000,
        rule="HTML fragments as text in every syntactic place, compared with a plain word in the same place; non-trivial: all"),
]

# --- C08 -------------------------------------------------------------------

WORD = re.compile(r"q[a-p]+z|97531[0-7]+9")


def numbered(k):
    """Unique words: q…z, no other text contains them"""
    s = ""
    k += 1
    while k:
        s += "abcdefghijklmnop"[k % 16]
        k //= 16
    return "q" + s + "z"


def gen_c08(src):
    counter = [0]

    def w(_src):
        counter[0] += 1
        return numbered(counter[0])
    text = no_macros(soup(src, hostile=src.p(0.3), control=src.p(0.2), mean=src.choice([8, 16, 30]), words=w))
    for _ in range(src.rep(0, 4, 0.5)):
        # numbers: images have a size
        size = src.choice(["x", "x", "X", "|", " x ", "*"]).join(number(w) for _ in range(src.weighted([(4, 2), (3, 3), (2, 1), (1, 4)])))
        image = "{{" + src.choice([w(src), ""]) + "|" + src.choice([w(src), ""]) + "|" + size + src.choice(["", "", " ", " " + w(src), "px", "x", "%"]) + "}}"
        if src.p(0.5):
            text += src.choice(["", " ", "\n", "|"]) + image
        else:
            text = image + src.choice(["", " ", "\n", "|"]) + text
    return {"text": text, "blog": src.p(0.5), "strict": src.p(0.3)}


def number(w):
    return "97531" + oct(sum(ord(c) * 20 ** k for k, c in enumerate(w(None))))[2:] + "9"


def gen_c08_doc(src):
    """Words in well-formed documents, then a few mutations"""
    doc = g.document(src, "blog", mean=2.5)
    text = no_macros(mutated(src, g.source(doc)))
    k = [0]

    def repl(m):
        k[0] += 1
        return numbered(k[0])
    text = re.sub(r"(?<![a-zA-Z0-9])(?!(?:http|https|ftp|nntp|news|mailto|telnet|file|irc)://)[a-zA-Z]{2,}(?![a-zA-Z0-9])", repl, text)
    return {"text": text, "blog": src.p(0.5), "strict": src.p(0.3)}


def stream(children, out):
    """Text of the tree in document order, with the repeats of the format counted once."""
    for c in children:
        if isinstance(c, str):
            out.append(c)
            continue
        tag, attrs, sub = c
        if tag == "a" and "href" in attrs:
            out.append(" ")
            if ht.text_of(sub) == attrs["href"] and not any(ht.walk(sub)):
                out.append(attrs["href"])
            else:
                out.append(attrs["href"] + " ")
                stream(sub, out)
        elif tag == "img":
            out.append(" " + attrs["src"] + " ")
            if attrs["title"] != attrs["alt"]:
                out.append(f"title {attrs['title']!r} alt {attrs['alt']!r}")
            if attrs["title"] != attrs["src"]:
                out.append(attrs["title"] + " ")
            out.append(" ".join(attrs.get(k, "") for k in ("width", "height")) + " ")
        else:
            block = tag in ht.BLOCK or tag == "br"
            if block:
                out.append("\n")
            stream(sub, out)
            if block:
                out.append("\n")


def check_c08(case):
    text = case["text"]
    html = c2h(text, blog_line_breaks=case["blog"], strict=case["strict"])
    try:
        tree = ht.parse(html)
    except ht.HtmlError:
        return set()        # C07
    out = []
    stream(tree, out)
    out = "".join(out)
    want = list(WORD.finditer(text))
    got = list(WORD.finditer(out))
    a, b = [m.group() for m in want], [m.group() for m in got]
    if a != b:
        fail(f"creole2html({text!r}, blog={case['blog']})\nwords {[w for w in a if w not in b]} lost, {sorted(w for w in set(b) if b.count(w) > a.count(w))} added"
             f" (or order changed)\nhtml: {html!r}")
    labels = set()
    for m1, m2, n1, n2 in zip(want, want[1:], got, got[1:]):
        gap = text[m1.end():m2.start()]
        if ("\n" in gap or "\r" in gap or gap.isspace()) and n1.end() == n2.start():
            fail(f"creole2html({text!r}, blog={case['blog']}): {m1.group()} and {m2.group()} are no longer separated\nhtml: {html!r}")
    for n in ht.walk(tree):
        labels.add(n[0])
    if len(labels) >= 3 and len(want) >= 3:
        labels.add("nt")
    return labels


C08 = [
    Sub("soup", gen_c08, check_c08, quick=20000, thorough=700000,
        rule="unique words among complete, nested, unterminated and misplaced markup; non-trivial: three words and three different elements"),
    Sub("documents", gen_c08_doc, check_c08, quick=10000,
        rule="well-formed documents with unique words, then mutated; non-trivial: as above"),
]

# --- C09 -------------------------------------------------------------------


def eol_plan(src, text):
    """Line ends for every newline of the text: LF, CR LF or CR"""
    n = text.count("\n")
    kind = src.weighted([(3, "\r\n"), (3, "\r"), (4, "mix")])
    ends = []
    for k in range(n):
        ends.append(kind if kind != "mix" else src.choice(["\n", "\r\n", "\r"]))
    out = []
    parts = text.split("\n")
    for k, part in enumerate(parts[:-1]):
        e = ends[k]
        # CR followed by LF would be one line end
        if out and out[-1].endswith("\r") and not part and e.startswith("\n"):
            e = "\r\n"
        out.append(part + e)
    out.append(parts[-1])
    return "".join(out)


def macro_doc(src, inline=True):
    body = "\n".join(texts.plain_word(src) + src.choice(["", " ", "  x"]) for _ in range(src.between(1, 5)))
    if src.p(0.3):
        body = body.replace("\n", "\n\n")
    if inline and "\n" not in body and src.p(0.3):
        return f"x <<m>>{body}<</m>> y"
    return src.choice(["<<m a=\"1\">>\n{}\n<</m>>", "<<m>>{}<</m>>", "* a\n\n<<m>>{}<</m>>\n\nb", "<<m>>\n\n{}\n\n<</m>>"]).format(body)


def gen_c09(src):
    kind = src.weighted([(6, 0), (3, 1), (2, 2)])
    if kind == 0:
        text = g.source(g.document(src, "blog", mean=4))
    elif kind == 1:
        text = no_macros(soup(src, mean=25))
    else:
        text = macro_doc(src) + "\n" + g.source(g.document(src, "blog", mean=2))
    text = text.replace("\r", "")
    return {"text": text, "variant": eol_plan(src, text), "blog": src.p(0.5)}


def m(text=None, **kw):
    return repr((text, sorted(kw.items())))


def check_c09(case):
    a, b = case["text"], case["variant"]
    html = c2h(a, blog_line_breaks=case["blog"], macros={"m": m})
    other = c2h(b, blog_line_breaks=case["blog"], macros={"m": m})
    if html != other:
        fail(f"blog={case['blog']}: {a!r} gives\n{html!r}\nbut {b!r} gives\n{other!r}")
    labels = set()
    if "\r" in b:
        labels.add("nt")
    if "\r" in b.replace("\r\n", "") and "\r\n" in b:
        labels.add("mixed")
    if "{{{\r" in b:
        labels.add("pre")
    if "<<m" in b:
        labels.add("macro")
    return labels


def gen_c09_modes(src):
    doc = g.document(src, "wiki", nl=False, mean=4)
    return {"doc": doc, "m": src.p(0.2) and macro_doc(src)}


def check_c09_modes(case):
    text = g.source(case["doc"])
    if case["m"]:
        text = case["m"] + "\n\n" + text
    blog, wiki = (c2h(text, blog_line_breaks=x, macros={"m": m}) for x in (True, False))
    if blog != wiki:
        fail(f"{text!r}: blog mode gives\n{blog!r}\nwiki mode gives\n{wiki!r}")
    kinds = {b[0] for b in case["doc"]}
    return kinds | ({"nt"} if len(kinds - {"blank"}) > 1 else set())


def gen_c09_outer(src):
    text = g.source(g.document(src, "blog", mean=3)) if src.p(0.7) else no_macros(soup(src, mean=20))
    if text.rstrip().endswith("\\"):
        text += "x"        # a line break at the very end of a paragraph is dropped before more lines

    def blank():
        return "".join(src.choice(["", "", " ", "  ", "\t"]) + src.choice(["\n", "\r\n", "\r"]) for _ in range(src.between(0, 4)))
    return {"text": text, "before": blank(), "after": src.choice(["\n", "\r\n", "\r"]) + blank(), "blog": src.p(0.5)}


def check_c09_outer(case):
    text = case["text"]
    other = case["before"] + text + case["after"]
    try:
        a, b = (ht.canon(ht.parse(c2h(t, blog_line_breaks=case["blog"]))) for t in (text, other))
    except ht.HtmlError:
        return set()
    if "{{{" in text and a != b:
        # an open preformatted block may end in the added line
        return {"open block"}
    if a != b:
        fail(f"blog={case['blog']}: {text!r} gives\n{ht.show(a)}\n{other!r} gives\n{ht.show(b)}")
    return {"nt"} if case["before"] else set()


C09 = [
    Sub("line_ends", gen_c09, check_c09, quick=12000,
        rule="documents, soup and macro bodies with other line ends; non-trivial: the variant differs from the text"),
    Sub("modes", gen_c09_modes, check_c09_modes, quick=8000,
        rule="documents with single-line paragraphs in both line-break modes; non-trivial: more than one kind of block"),
    Sub("outer_blank", gen_c09_outer, check_c09_outer, quick=6000,
        rule="blank lines added before and after; non-trivial: some before"),
]

PROPS = {
    "C07": {"subs": C07, "rule": "arbitrary strings read by a strict independent HTML reader with a whitelist", "assumptions": [
        "macro arguments holding <, > or & are left out: the existing tests pin the unescaped echo (known finding)"]},
    "C08": {"subs": C08, "rule": "unique words among markup fragments; the word sequence of the HTML is compared with the source's", "assumptions": []},
    "C09": {"subs": C09, "rule": "metamorphic: same document with other line ends / mode / outer blank lines", "assumptions": []},
}
