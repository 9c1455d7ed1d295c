"""H06, H07: any HTML, however malformed."""

import contextlib
import io
import re
import warnings

from pbt import genhtml as gh
from pbt import texts
from pbt.engine import Sub, Violation
from pbt.sut import CONVERTERS, HANDLERS, Html2restException, convert, convert_any, fail, short

KNOWN_INLINE = ["b", "strong", "i", "em", "big", "tt", "sup", "sub", "u", "small", "del", "strike", "a", "span", "code", "cite", "ins"]
KNOWN_BLOCK = ["p", "div", "h1", "h2", "h3", "h4", "h5", "h6", "ul", "ol", "li", "blockquote", "form", "section", "article", "main", "dl", "dt",
               "dd", "center", "fieldset", "body", "html", "figure", "figcaption", "details", "summary", "header", "footer", "nav", "aside", "address"]
TABLE = ["table", "tr", "td", "th", "tbody", "thead", "tfoot", "caption"]
UNKNOWN = ["x", "foo", "font", "abbr", "button", "label", "o:p", "my-tag", "svg", "q", "kbd", "var", "samp", "h7", "h9", "h10", "hx", "blockdata",
           "document", "data", "headline", "link", "script", "style", "textarea", "select", "option", "iframe", "video", "legend", "bdo", "time",
           "colgroup", "X1", "preface", "prex", "brx", "none", "charref", "entityref", "emit", "root", "inlinedata", "ruby", "rt"]
VOIDS = ["br", "hr", "img", "input", "meta", "wbr", "col", "area", "embed", "source", "base"]
ATTRS = ['', '', '', '', ' class="u1y"', " id='u2y'", ' href="http://u3y.de/?a=b&amp;c"', ' href=u4y', ' href', ' src="u5y.png"', ' title="u6y > u7y"',
         ' alt=""', ' a b c', ' x="1" x="2"', ' style="a:b; c:\'d\'"', ' href=""', ' on="<b>"', ' data-x=\'"\'', ' ="y"', ' "', ' a=\'\'', '\nclass="u8y"',
         ' ÄÖ="ü"', ' class = "u9y"', ' type="x" id="0"', ' colspan=2', ' level="3"', ' width="1" height="2"']
SEPS = [" ", " ", " ", "", "\n", "\n\n", "\t", ", ", ". ", "  \n  ", "\r\n", "; ", " - ", "\xa0", " & ", " &amp; ", "&nbsp;", " < ", " > ", "&lt;",
        "&#65;", "&#x41;", " &unknown; ", "&", " &#; ", " &#xZZ; ", "&#0;", " =", " * ", "|", "_", "#", "`", "\\", " \" ", "'", "&copy", " &#1114112; ",
        "\u2028", "\x0c", "\x0b", "\x1f", "\x85", "~", "//", "**", "{{{", "}}}", "::", "[", "]", "<3", "< b", "a< ", "é", "日本"]
COMMENTS = ["<!-- cm1 -->", "<!---->", "<!-- <b>cm2</b> > -->", "<!--cm3\n-->", "<!-- - -- cm4 -->", "<!--<p>-->", "<!DOCTYPE html>", "<?pi cm5 ?>",
            "<!DOCTYPE html PUBLIC \"-//W3C//DTD\" \"u\">", "<!-- a --!>"]
CUTS = ["<", "</", "<b", "<b ", "</b", "<a hr", "<p class=x", "&", "&a", "&#", "&#x", "&#x4", "&amp", "<h1", "<x/", "<br", "<br /", "</", "<li>", "<pre>",
        "<table><tr><td>", "</p></p>", "<a href=\"x\">", "<div><ul><li>", "&#12", "-->", "]]>", "/>"]
WORD = re.compile(r"w\d+q")
REST_DEFINITION = re.compile(r"^[ ]*\.\. (?:_.*: |\|.*\| image:: ).*$", re.MULTILINE)


class Words:
    def __init__(self):
        self.n = 0

    def next(self):
        self.n += 1
        return f"w{self.n}q"


def tag_case(src, tag):
    return gh.swap_case(src, tag) if src.p(0.08) else tag


def soup(src, words, tags, unknown=True, comments=True):
    """Tags and words in any order: opened, closed, both, neither."""
    out = []
    open_tags = []
    n = src.size(1, 60)
    for _ in range(n):
        kind = src.weighted([(8, "w"), (5, "open"), (5, "close"), (2, "pair"), (2, "void"), (1, "comment"), (1, "stray"), (1, "self"), (1, "pre")])
        if kind == "w":
            for _ in range(src.rep(1, 5, 1.5)):
                out.append(src.choice(SEPS) if src.p(0.4) else " ")
                out.append(words.next())
            out.append(src.choice(SEPS) if src.p(0.4) else "")
        elif kind == "open":
            t = src.choice(tags)
            open_tags.append(t)
            out.append(f"<{tag_case(src, t)}{src.choice(ATTRS)}>")
        elif kind == "close":
            if open_tags:
                t = open_tags.pop() if src.p(0.75) else open_tags.pop(src.i(len(open_tags)))
                out.append(f"</{tag_case(src, t)}>")
        elif kind == "pair":
            t = src.choice(tags)
            out.append(f"<{tag_case(src, t)}{src.choice(ATTRS)}>{words.next()}</{tag_case(src, t)}>")
        elif kind == "void":
            out.append(f"<{tag_case(src, src.choice(VOIDS))}{src.choice(ATTRS)}{src.choice(['', ' /', '/', ' '])}>")
        elif kind == "comment":
            if comments:
                out.append(src.choice(COMMENTS))
        elif kind == "stray":
            out.append(f"</{src.choice(tags)}>")
        elif kind == "self":
            out.append(f"<{src.choice(tags)}{src.choice(['', ' class=\"u1y\"'])} />")
        else:
            w = [words.next() for _ in range(src.rep(1, 4, 1.6))]
            sep = src.choice([" ", "\n", "\n\n  ", "\n<b>", "&lt;", "\n"])
            edge = src.choice(["", "\n", " ", "\n\n"])
            out.append(src.choice(["", "\n"]) + f"<pre{src.choice(['', '', ' class=\"u1y\"'])}>{edge}{sep.join(w)}{edge}</pre>" + src.choice(["", "\n"]))
    if src.p(0.4):
        out.append(src.choice(CUTS))
    return "".join(out)


def wild_tree(src, words, depth=0, cells=True, budget=None):
    """Well-formed, but any element anywhere; text only inside the cells of a table"""
    out = []
    budget = budget or [src.size(3, 60)]
    for _ in range(src.rep(1, 8, 2.0)):
        budget[0] -= 1
        deeper = depth < 8 and budget[0] > 0
        kind = src.weighted([(6, "w"), (4 if deeper else 0, "block"), (4 if deeper else 0, "inline"), (2 if deeper else 0, "table"),
                             (2 if deeper else 0, "unknown"), (1, "void"), (1, "pre"), (2 if deeper else 0, "list"), (1, "comment")])
        gap = src.choice(["", " ", "\n", "", "", "\n\n"])
        attr = src.choice(ATTRS[:14])
        if kind == "w":
            out.append(" ".join(words.next() for _ in range(src.rep(1, 4, 1.5))))
        elif kind in ("block", "inline", "unknown"):
            t = tag_case(src, src.choice({"block": KNOWN_BLOCK + (["td", "th", "tr", "caption"] if cells else []), "inline": KNOWN_INLINE,
                                          "unknown": [t for t in UNKNOWN if t not in ("script", "style", "link", "textarea", "iframe")]}[kind]))
            out.append(f"<{t}{attr}>{wild_tree(src, words, depth + 1, cells, budget)}</{t}>")
        elif kind == "list":
            t = src.choice(["ul", "ol"])
            out.append(f"<{t}>" + "".join(f"{src.choice(['', chr(10)])}<li>{wild_tree(src, words, depth + 1, cells, budget)}</li>"
                                          for _ in range(src.between(1, 3))) + f"</{t}>")
        elif kind == "table":
            rows = []
            for _ in range(src.between(1, 3)):
                row = "".join("<{0}>{1}</{0}>".format(src.choice(["td", "th"]), wild_tree(src, words, depth + 1, False, budget) if src.p(0.9) else "")
                              for _ in range(src.between(1, 3)))
                rows.append(f"<tr>{row}</tr>" if src.p(0.9) else row)
            out.append(f"<table{attr}>" + src.choice(["", "<tbody>"]) + src.choice(["", "\n"]).join(rows) + "</table>")
        elif kind == "void":
            out.append(f"<{src.choice(VOIDS)}{attr}{src.choice(['', ' /'])}>")
        elif kind == "comment":
            out.append(src.choice(COMMENTS))
        else:
            out.append(f"<pre>{words.next()}\n{words.next()}</pre>")
        out.append(gap)
    return "".join(out)


def gen_h06(src):
    words = Words()
    kind = src.weighted([(5, "plain"), (2, "tables"), (4, "tree")])
    if kind == "tree":
        html = wild_tree(src, words)
    else:
        groups = [KNOWN_INLINE, KNOWN_BLOCK, UNKNOWN]
        picked = [g for g in groups if src.p(0.6)] or groups
        tags = [t for g in picked for t in g]
        if src.p(0.5):
            tags = src.subset(tags, 0.15) or tags   # swarm: few kinds of tags, often repeated
        if kind == "tables":
            tags = tags + TABLE * (1 + len(tags) // 8)
        html = soup(src, words, tags)
    return {"kind": kind, "html": html, "n": words.n}


EDGES = ["address", "blockquote", "center", "dir", "div", "dl", "fieldset", "form", "h1", "h2", "h3", "h4", "h5", "h6", "isindex", "men",
         "noscript", "ul", "ol", "li", "th", "tr", "td", "p", "article", "aside", "body", "caption", "dd", "details", "dt", "figcaption",
         "figure", "footer", "head", "header", "html", "main", "nav", "section", "summary"]
SECTIONS = ["thead", "tbody", "tfoot"]
FACES = ["b", "strong", "i", "em", "tt", "u", "small", "span", "foo"]


def edge_parts(src, words, depth=0, flat_heads=False):
    """Block level elements of all names with words right beside their tags; a None marks a place for blanks without a meaning"""
    out = []
    n = src.between(1, 4 if depth < 2 else 2)
    last = ""
    for _ in range(n):
        kind = src.weighted([(4, "w"), (6, "block"), (1, "grid")]) if depth < 4 else "w"
        if kind == "w":
            if last == "w":
                out.append(" ")
            w = words.next()
            if src.p(0.2):
                t = src.choice(FACES)
                w = f"<{t}>{w}</{t}>"
            out.append(w)
        elif kind == "block":
            t = src.choice(EDGES)
            out += [None, f"<{t}>", None] + (edge_parts(src, words, 9 if flat_heads and t[0] == "h" and t[1:].isdigit() else depth + 1, flat_heads) or [words.next()]) + [None, f"</{t}>", None]
        else:
            out += [None, "<table>", None]
            for section in [""] if src.p(0.3) else src.subset(SECTIONS, 0.5) or ["tbody"]:
                out += [f"<{section}>", None] if section else []
                for _ in range(src.between(1, 2)):
                    out += ["<tr>", None]
                    for _ in range(src.between(1, 3)):
                        t = "th" if section == "thead" else "td"
                        out += [f"<{t}>", None, words.next(), None, f"</{t}>", None]
                    out += ["</tr>", None]
                out += [f"</{section}>", None] if section else []
            out += ["</table>", None]
        last = kind
    return out


def gen_edges(src):
    words = Words()
    parts = edge_parts(src, words)
    return {"html": "".join(x or "" for x in parts), "n": words.n, "kind": "edges"}


def check_edges(case):
    html = case["html"]
    expected = [f"w{k}q" for k in range(1, case["n"] + 1)]
    for name in CONVERTERS:
        out = convert_any(name, html)
        if out is None:
            fail(f"html2{name}({html!r}) is refused")
        if words_of(name, out) != expected:
            fail(f"html2{name}: words {words_of(name, out)} of {html!r}\n output: {out!r}")
        if GLUED.search(out):
            fail(f"html2{name}: {GLUED.search(out).groups()} are joined\n html: {html!r}\n output: {out!r}")
    return {"nt"} if case["n"] > 1 and "<" in html else set()


DEEP = {
    "table": ("<table><tr><td>{}", "{}</td></tr></table>"), "rows": ("<table><tr><th>{0}</th></tr><tr><td>", "{0}</td></tr></table>"),
    "grid": ("<table><tr><td>{0}</td><td>", "</td></tr><tr><td>{0}</td></tr></table>"), "last": ("<table><tbody><tr><td>{}</td></tr><tr><td>", "</td></tr></tbody></table>"),
    "ul": ("<ul><li>{}", "</li></ul>"), "ol": ("<ol><li>{}</li><li>", "</li></ol>"), "dl": ("<dl><dd>{}", "{}</dd></dl>"), "foo": ("<foo>{}", "{}</foo>"),
}
DEEP.update((t, (f"<{t}>{{}}", f"{{}}</{t}>")) for t in ("div", "p", "blockquote", "section", "span", "b", "i", "tt", "small", "u", "li", "td", "tr", "h2", "q"))


def gen_deep(src):
    """A few elements nested again and again"""
    words = Words()

    def put(part):
        out = ""
        for piece in re.split(r"(\{0?\})", part):
            if not piece.startswith("{"):
                out += piece
            elif src.p(0.7):
                out += src.choice(["{} ", " {} ", "{}\n"]).format(words.next())
        return out
    units = [src.choice(sorted(DEEP)) for _ in range(src.between(1, 3))]
    if src.p(0.3):
        units = [src.choice(["table", "rows", "grid", "last"])]
    n = src.between(2, 60 // len(units))
    chain = units * n
    if src.p(0.3):
        chain = src.shuffled(chain)
    html = words.next() + " " + "".join(put(DEEP[u][0]) for u in chain) + words.next() + " "
    if src.p(0.8):
        html += "".join(put(DEEP[u][1]) for u in reversed(chain)) + words.next()
    return {"html": html, "n": words.n, "kind": "deep", "units": units}


def check_deep(case):
    html = case["html"]
    expected = [f"w{k}q" for k in range(1, case["n"] + 1)]
    for name in CONVERTERS:
        out = convert_any(name, html)
        if out is not None and words_of(name, out) != expected:
            got = words_of(name, out)
            if sorted(got, key=lambda w: int(w[1:-1])) != expected or not any(u in TABLE + ["rows", "grid", "last"] for u in case["units"]):
                fail(f"html2{name}: words {got} of {html!r}\n output: {short(out, 3000)}")
    return set(case["units"]) | {"nt"}


def words_of(name, text):
    if name == "rest":
        text = REST_DEFINITION.sub("", text)
    return WORD.findall(text)


RAW = re.compile(r"<(script|style|textarea|title|xmp|iframe|noembed|noframes|plaintext)\b", re.IGNORECASE)   # comments are text in them


GLUED = re.compile(r"(w\d+q)(?=(w\d+q))")
ATTRIBUTE = r"""(?:=\s*"[^"]*"|=\s*'[^']*'|[^<>"'=]|=(?!\s*["']))*"""
MARKUP = re.compile(rf"<!--.*?--!?>|</?([a-zA-Z][^\s<>/]*){ATTRIBUTE}>", re.DOTALL)
BREAKS = {"p", "div", "h1", "h2", "h3", "h4", "h5", "h6", "ul", "ol", "li", "hr", "pre", "td", "th", "tr", "table", "blockquote", "section"}


def separated(html, a, b, tree):
    """Is there a blank between the words, or (in well formed HTML) the edge of a block"""
    between = html.partition(a)[2].partition(b)[0]
    if re.search(r"[<\">]", MARKUP.sub("", html)):
        return False      # quotes without end and the like
    tags = [m.group(1).lower() for m in MARKUP.finditer(between) if m.group(1)]
    blocks = any(t in KNOWN_BLOCK or t in TABLE or t in ("br", "hr", "pre") for t in tags)
    ends = "".join("/" if m.group(0).startswith("</") else "o" for m in MARKUP.finditer(between) if m.group(1))
    if "o/" in ends:
        return False      # a empty element
    blank = len(tags) < 2 and re.search(r"^[ \t\n\r\f]|[ \t\n\r\f]$", between) is not None     # a blank between two tags is not claimed
    if tree:
        return any(t in BREAKS for t in tags) or blank
    return not blocks and blank


def check_h06(case):
    html = case["html"]
    expected = [f"w{k}q" for k in range(1, case["n"] + 1)]
    labels = {case["kind"]}
    for name in CONVERTERS:
        out = convert_any(name, html)
        if out is None:
            labels.add("refused")
            continue
        got = words_of(name, out)
        if got != expected:
            if sorted(got, key=lambda w: int(w[1:-1])) != expected:
                missing = [w for w in expected if w not in got]
                twice = sorted({w for w in got if got.count(w) > 1})
                fail(f"html2{name}: words lost: {missing}, more than once: {twice}\n html: {html!r}\n output: {out!r}")
            if case["kind"] == "plain" or case["kind"] == "tree":
                fail(f"html2{name}: words in another order: {got}\n html: {html!r}\n output: {out!r}")
            labels.add("reordered")
        for m in GLUED.finditer(out):
            if case["kind"] != "tables" and separated(html, m.group(1), m.group(2), case["kind"] == "tree"):
                fail(f"html2{name}: {m.group(1)} and {m.group(2)} are joined\n html: {html!r}\n output: {out!r}")
        if "cm" in out and re.search(r"cm\d", out) and not RAW.search(html):
            fail(f"html2{name}: text of a comment is shown\n html: {html!r}\n output: {out!r}")
    if case["n"] >= 2 and "<" in html:
        labels.add("nt")
    return labels


# ---------------------------------------------------------------------------
# H07
# ---------------------------------------------------------------------------

STRINGS, INTS = texts.mine()
ODD = ["\x00", "\x01", "\x7f", "\ufeff", "\ufffe", "\U0010ffff", "\u2028", "\u0085", "\r", "\x0b", "\x0c", "\u200b", "\u202e", "İ", "ß", "ǅ", "Ⅷ", "٣", "²",
       "&#xD800;", "&#55296;", "&#xDFFF;", "&#x110000;", "&#99999999999999999999;", "&#-1;", "&#x;", "&#0;", "&#00065;", "&#x000041;", "&;", "&a", "&AMP;",
       "&NotEqualTilde;", "&nbsp", "&nbsp;", "&#160;", "&ngE;", "&#x80;", "&#150;", "&#٣;", "&#xg;", "<![CDATA[x]]>", "<!", "<!>", "<!x>", "<!-", "<!--",
       "<!-->", "<!--->", "<!--x--!>", "<?", "<?>", "<?x", "<![x]>", "<![if x]>", "<!ELEMENT br EMPTY>", "<!DOCTYPE", "</>", "</ b>", "<>", "< >", "<=>",
       "<1>", "<a\x00b>", "<b\n>", "<b/x>", "<b//>", "<a =>", "<a \"'>", "<a href='x>", '<a href="x>', "<b<b>", "</b<b>", "</b x=1>", "<ÄÖ>", "<b\u00a0c>",
       "<p></", "<script>", "</script>", "<style>a<b", "<textarea>", "<title>", "<plaintext>", "<xmp>", "<pre>", "</pre>", "<PRE>", "<pre >", "<pre\n>\n",
       "<pre x='>'>", "<pre/>", "<code>", "<code>`</code>", "<code>``</code>", "<code><p>x</p></code>", "<code>a<br>b</code>", "<code><pre>x\ny</pre></code>",
       "<code><ul><li>x</ul></code>", "<pre><code class=\"language-python\">x</code></pre>", "<pre><code>x</pre>", "<pre><code class>x</code></pre>",
       '<pre><code class="language-">', '<inlinedata type="pre" id="0" />', '<blockdata type="pre" id="7" />', '<blockdata id="x" />', "<inlinedata>",
       '<inlinedata_pre>x</inlinedata_pre>', "<blockdata_pre />", "<blockdata_pass>x</blockdata_pass>", "<headline>x</headline>", "<data>x</data>",
       "<charref>", "<entityref>x", "<document>", "<list_emit>", "<list>", "<a_emit>", "<a href>x</a>", "<a href=''>x</a>", "<a href='http://[x'>x</a>",
       "<a href='//[::1'>x</a>", "<a href='x\ny'>x</a>", "<a href='%'>x</a>", "<a href='http://ü.de/ä?ö#ß'>x</a>", "<img>", "<img src>", "<img src=''>",
       "<img src='http://[x' alt=x>", "<img src='data:x'>", "<img src='x' alt>", "<img src='a/' >", "<img src=x width=1 height=2>", "<img src=x width height>",
       "<h0>", "<h7>x</h7>", "<h9>", "<h10>", "<li>x", "</li>", "</ul>", "</ol></ol>", "<ul><ul><ul>", "<li><li>", "<td>", "</td>", "<tr>", "</table>",
       "<table>", "<table></table>", "<table><tr></tr></table>", "<table><td>x", "<tr><td>x", "<table><caption>x</caption></table>", "<th>x</th>",
       "<table><tr><td><table><tr><td>x", "<br/><br/>", "<hr>", "<p/>", "<b/>", "<ul/>", "<li/>", "<table/>", "<tr/>", "<td/>", "<th/>", "<h1/>", "<a/>"]


def gen_h07(src):
    out = []
    tags = KNOWN_INLINE + KNOWN_BLOCK + TABLE + UNKNOWN + VOIDS + ["pre"]
    if src.p(0.5):
        tags = src.subset(tags, 0.1) or tags
    for _ in range(src.size(1, 80)):
        kind = src.weighted([(3, "text"), (4, "open"), (3, "close"), (2, "odd"), (2, "void"), (1, "mined"), (1, "self"), (1, "random"), (1, "sep")])
        if kind == "text":
            out.append(texts.word(src, lambda w: True))
        elif kind == "open":
            out.append(f"<{tag_case(src, src.choice(tags))}{src.choice(ATTRS)}>")
        elif kind == "close":
            out.append(f"</{tag_case(src, src.choice(tags))}>")
        elif kind == "odd":
            out.append(src.choice(ODD))
        elif kind == "void":
            out.append(f"<{src.choice(VOIDS)}{src.choice(ATTRS)}>")
        elif kind == "self":
            out.append(f"<{src.choice(tags)}{src.choice(ATTRS)}/>")
        elif kind == "mined":
            m = src.choice(STRINGS) if src.p(0.8) else str(src.choice(INTS))
            form = src.choice(["{}", "<{}>", "</{}>", "&{};", "<a {}='x'>", "<a href='{}'>", "<img src='{}'>", "<{}/>", "<p {}>"])
            out.append(form.format(m))
        elif kind == "random":
            out.append("".join(chr(src.choice([src.i(128), src.i(0x300), 0x2000 + src.i(0x400), 0x10000 + src.i(0x1000), src.i(0xd800)]))
                               for _ in range(src.between(1, 5))))
        else:
            out.append(src.choice([" ", "\n", "", "\n\n", "\t", "\r\n"]))
        if src.p(0.3):
            out.append(src.choice([" ", "\n", " "]))
    html = "".join(out)
    if src.p(0.15) and html:
        html = html[:src.i(len(html)) + 1]
    if src.p(0.1) and html:
        a = src.i(len(html))
        html = html[a:] + html[:a]
    return {"html": html, "handler": src.choice(sorted(HANDLERS)), "strict": src.p(0.2)}


def check_h07(case):
    html = case["html"]
    labels = set()
    for name, func in CONVERTERS.items():
        kw = {}
        handler = HANDLERS[case["handler"]]
        if handler is not None:
            kw["unknown_emit"] = handler
        if case["strict"] and name == "creole":
            kw["strict"] = True
        stdout, stderr = io.StringIO(), io.StringIO()
        with warnings.catch_warnings(record=True) as caught, contextlib.redirect_stdout(stdout), contextlib.redirect_stderr(stderr):
            warnings.simplefilter("always")
            try:
                out = func(html, **kw)
            except Html2restException:
                if name != "rest":
                    fail(f"html2{name} raised the exception of html2rest for {html!r}")
                labels.add("refused")
                out = ""
            except NotImplementedError as err:
                if case["handler"] != "raise":
                    raise Violation(f"html2{name}({html!r}, handler {case['handler']}) raised {err!r}") from err
                labels.add("notimplemented")
                out = ""
            except (Exception, SystemExit) as err:
                raise Violation(f"html2{name}({html!r}, handler {case['handler']}) raised {type(err).__name__}: {err}") from err
        if not isinstance(out, str):
            fail(f"html2{name}({html!r}) returned {type(out)}")
        try:
            out.encode("utf-8")
        except UnicodeEncodeError as err:
            raise Violation(f"html2{name}({html!r}) returned invalid text: {err}") from err
        if stdout.getvalue() or stderr.getvalue():
            fail(f"html2{name}({html!r}) wrote {short(stdout.getvalue() + stderr.getvalue())}")
        if caught:
            fail(f"html2{name}({html!r}) warned {short([str(w.message) for w in caught])}")
    if "<" in html:
        labels.add("nt")
    labels.add(f"handler:{case['handler']}")
    return labels


PROPS = {
    "H06": {"rule": "any mixture of tags, comments, references and numbered words; the numbered words of the output are compared", "subs": [Sub("words", gen_h06, check_h06, quick=60000, rule="two words or more and at least one tag"),
        Sub("edges", gen_edges, check_edges, quick=15000, rule="block level elements of every name, with words right beside their tags"),
        Sub("deep", gen_deep, check_deep, quick=6000, rule="one to three kinds of elements nested up to sixty levels")]},
    "H07": {"rule": "fuzzed strings through all four converters and all unknown-tag handlers", "subs": [Sub("any_string", gen_h07, check_h07, quick=60000, rule="the string contains a <")]},
}
