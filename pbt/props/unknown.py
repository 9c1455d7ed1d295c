"""H08: tags a converter does not know, with every handler."""

import html as _html
import re
from xml.sax.saxutils import escape

from pbt import gencreole as g
from pbt import genhtml as gh
from pbt import htmltree as ht
from pbt import renderers as rd
from pbt import texts
from pbt.engine import Sub, Violation
from pbt.props import html_any, roundtrip
from pbt.props.spelling import Wide, same_text
from pbt.sut import CONVERTERS, HANDLERS, Html2restException, c2h, convert, convert_any, fail, short

NAMES = ["font", "abbr", "x", "kbd", "q", "label", "svg", "button", "var", "samp", "h10", "foo", "bdo", "time", "mark", "acronym", "data", "document",
         "list", "unknown", "charref", "entityref", "my-tag", "o:p", "x.y", "html2creole", "table1", "preface", "brx", "spanner", "aa", "b2",
         "nobr", "dfn", "ruby", "rt", "rp", "meter", "output", "none", "root", "last", "emit", "debug", "error", "blockdata", "inlinedata"]
PLAIN_NAMES = [n for n in NAMES if n.isalnum()]
ATTR_NAMES = ["class", "id", "style", "title", "href", "src", "alt", "size", "color", "data-x", "x", "y2", "type", "lang", "onclick", "xml:lang", "width",
              "face", "language", "level", "hidden"]
VALUES = ["", "1", "red", "a b", "x;y: z", "a&b", "a<b", "a>b", "it's", 'say "x"', "http://example.com/?a=b&c=d", "é", "None", "True", "0", "&amp;",
          "a=b", "{x}", "%s", "x/", "[a]", "# x", "-", "a_b", "&lt;", "#", "(x)", "@x", "100%", "/", "..", "x:y", "=", "'", '"']


def attributes(src, values=VALUES):
    return {src.choice(ATTR_NAMES): src.choice(values) for _ in range(src.rep(0, 4, 0.8))}


def insert(src, children, names, prob=0.25, inside=("pre", "code", "img", "br", "hr"), edges=True):
    """Put some texts, words and inline elements into unknown elements"""
    out = []
    for c in children:
        if isinstance(c, str):
            out.extend(in_text(src, c, names, prob, edges))
            continue
        tag = c[0]
        if tag in inside:
            inner = c[2]
        else:
            inner = insert(src, c[2], names, prob, inside, edges)
        c = [tag, c[1], inner]
        if tag in INLINE and src.p(prob):
            c = ["?" + src.choice(names), attributes(src), [c]]
            if src.p(0.15):
                c = ["?" + src.choice(names), attributes(src), [c]]
        out.append(c)
    return out


INLINE = set(Wide.faces) | {"a", "img", "code"}


def in_text(src, text, names, prob, edges):
    if not src.p(prob):
        return [text]
    if not edges and text != text.strip(" "):
        core = text.strip(" ")
        if not core:
            return [text]
        k = text.index(core)
        return gh.merge([text[:k], *in_text(src, core, names, 1, False), text[k + len(core):]])
    words = text.split(" ")
    a = src.i(len(words) + 1)
    b = src.between(a, len(words))
    node = ["?" + src.choice(names), attributes(src), []]
    before, inner, after = " ".join(words[:a]), " ".join(words[a:b]), " ".join(words[b:])
    if inner:
        node[2] = [inner]
        if edges and src.p(0.2) and before and after:
            # blanks inside of the element instead of beside it
            sides = src.between(1, 3)
            node[2] = [(" " if sides & 1 else "") + inner + (" " if sides & 2 else "")]
            return gh.merge([before + ("" if sides & 1 else " "), node, ("" if sides & 2 else " ") + after])
        if src.p(0.15):
            node[2] = [["?" + src.choice(names), attributes(src), node[2]]]
    elif not edges and src.p(0.3):
        node[2] = ["\u00a0"]    # a blank that is shown
    # a removed empty element leaves no second blank
    after = " " + after if after and (inner or before) else after
    return [s for s in (before + " " if before and inner else before, node, after) if s != ""]


def real(children):
    """The tree with the unknown elements as elements"""
    return [c if isinstance(c, str) else [c[0].lstrip("?"), c[1], real(c[2])] for c in children]


def attr_string(attrs):
    return "".join(f' {k}="{_html.escape(v, quote=False).replace(chr(34), "&quot;")}"' for k, v in sorted(attrs.items()))


def forms(tag, attrs, children, handler):
    a = attr_string(attrs)
    if handler in ("html_macro", "pre_macro"):
        m = handler.split("_")[0]
        if not children:
            return (f"<<{m}>><{tag}{a} /><</{m}>>",)
        return (f"<<{m}>><{tag}{a}><</{m}>>", f"<<{m}>></{tag}><</{m}>>")
    if not children:
        return (escape(f"<{tag}{a} />"),)
    return (escape(f"<{tag}{a}>"), escape(f"</{tag}>"))


class Tokens:
    def __init__(self, handler):
        self.handler = handler
        self.table = {}

    def token(self, form):
        n = len(self.table)
        t = "ƣ" + "".join("abcdefghij"[int(d)] for d in str(n)) + "ƥ"
        t = "ƣ" * max(0, len(form) - len(t)) + t
        if len(t) != len(form):
            raise AssertionError("token too long")
        self.table[t] = form
        return t

    def replace(self, children):
        out = []
        for c in children:
            if isinstance(c, str):
                out.append(c)
            elif c[0].startswith("?"):
                f = forms(c[0][1:], c[1], c[2], self.handler)
                if len(f) == 1:
                    out.append(self.token(f[0]))
                else:
                    start = self.token(f[0])
                    inner = self.replace(c[2])
                    out.extend([start, *inner, self.token(f[1])])
            else:
                out.append([c[0], c[1], self.replace(c[2])])
        return gh.merge(out)

    def restore(self, text):
        return re.sub(r"ƣ+[a-j]+ƥ", lambda m: self.table.get(m.group(), m.group()), text)


def flat(children):
    out = []
    for c in children:
        if isinstance(c, str):
            out.append(c)
        elif c[0].startswith("?"):
            out.extend(flat(c[2]))
        else:
            out.append([c[0], c[1], flat(c[2])])
    return gh.merge(out)


# elements of the generator which are not a part of the target format
MAYBE = {"creole": ("code", "ins", "cite"), "rest": ("sup", "sub", "u", "del", "strike", "ins", "cite"), "textile": ("tt", "u", "small", "strike"),
         "markdown": ("ins", "cite")}


class Words(Wide):
    def __init__(self, name):
        self.faces = tuple(f for f in Wide.faces if f not in MAYBE[name])
        self.code = None if "code" in MAYBE[name] else "code"
        self.br = name not in ("rest", "markdown")

    def ok(self, w, start, end):
        return not re.search(r"[\s\x1c-\x1f\x85\xa0\u2028|`]", w) and w.isascii()


def gen_model(src):
    name = src.choice(sorted(CONVERTERS))
    handler = src.choice(["default", "transparent", "html_macro", "pre_macro", "escape"])
    # a blank at the edge of an element may move out of it
    tree = insert(src, gh.document(src, Words(name)), NAMES, edges=handler in ("default", "transparent"))
    return {"tree": tree, "handler": handler, "name": name}


def unknown_names(tree):
    return [n[0][1:] for n in ht.walk(tree) if n[0].startswith("?")]


def check_model(case):
    tree, name, handler = case["tree"], case["name"], case["handler"]
    html = gh.write(real(tree))
    kw = {} if HANDLERS[handler] is None else {"unknown_emit": HANDLERS[handler]}
    labels = {f"handler:{handler}", f"target:{name}"}
    if unknown_names(tree):
        labels.add("nt")
    act = convert_any(name, html, **kw)
    if handler in ("default", "transparent"):
        plain = gh.write(flat(tree))
        exp = convert_any(name, plain)
    else:
        tokens = Tokens(handler)
        plain = gh.write(tokens.replace(tree))
        exp = convert_any(name, plain)
        exp = None if exp is None else tokens.restore(exp)
    if act is None or exp is None:
        if act != exp:
            fail(f"html2{name}({short(html)}, {handler}) = {short(act)}, without the unknown tags {short(exp)}")
        return labels | {"refused"}
    if name == "rest" and exp is not None:
        # labels with a colon are quoted
        exp, act = [re.sub(r"(?m)^(\s*)\.\. _`(.*)`: ", r"\1.. _\2: ", text) for text in (exp, act)]
    if not same_text(name, exp, act):
        d = next(((x, y) for x, y in zip(exp.split("\n"), act.split("\n")) if x.rstrip() != y.rstrip()), None)
        fail(f"html2{name}({short(html, 1000)}, handler {handler})\n = {short(act, 1000)}\n expected {short(exp, 1000)}\n first difference {d}")
    return labels


# ---------------------------------------------------------------------------
# blanks at the edges of unknown elements: they may move out, but words stay apart (or together)
# ---------------------------------------------------------------------------

def without_links(children):
    """A link without label and a label in ReSt are written in more than one way"""
    out = []
    for c in children:
        if isinstance(c, str):
            out.append(c)
        elif c[0] == "a":
            out.extend(without_links(c[2]))
        elif c[0] != "img":
            out.append([c[0], c[1], without_links(c[2])])
    return gh.merge(out)


def inner_blanks(children):
    """Nothing inside of a typeface: blanks at the edges of elements in there are lost (see the known findings); no blanks beside line breaks"""
    out = []
    for c in children:
        if isinstance(c, str) or c[0] == "br":
            out.append(c if isinstance(c, str) else " ")
        else:
            out.append([c[0], c[1], [ht.text_of(c[2])] if c[0] in INLINE and ht.text_of(c[2]) else inner_blanks(c[2])])
    return gh.merge(out)


def gen_blanks(src):
    name = src.choice(sorted(CONVERTERS))
    tree = [n for n in gh.document(src, Words(name)) if n[0] in ("p", "ul", "ol")] or [["p", {}, ["one two three"]]]
    tree = inner_blanks(insert(src, without_links(tree), PLAIN_NAMES, prob=0.4, edges=True))
    return {"tree": tree, "handler": src.choice(["html_macro", "pre_macro"]), "name": name}


def parted(text):
    """The words, without regard to markup"""
    return re.sub(r"</?su[bp]>|[^\w\s]|_", "", text).split()


def check_blanks(case):
    tree, name, handler = case["tree"], case["name"], case["handler"]
    html = gh.write(real(tree))
    plain = convert_any(name, html)
    act = convert_any(name, html, unknown_emit=HANDLERS[handler])
    if plain is None or act is None:
        return {"refused"}
    bare = re.sub(r"<<(html|pre)>>.*?<</\1>>", "", act)
    if parted(bare) != parted(plain):
        d = next(((x, y) for x, y in zip(parted(plain), parted(bare)) if x != y), None)
        fail(f"html2{name}({short(html, 1000)}, handler {handler})\n = {short(act, 1000)}\n without the unknown tags {short(plain, 1000)}\n first difference {d}")
    return {f"handler:{handler}", f"target:{name}"} | ({"nt"} if unknown_names(tree) else set())


# ---------------------------------------------------------------------------
# any nesting, also around and between blocks: the order of words and tags
# ---------------------------------------------------------------------------

class Mixed:
    def __init__(self, src):
        self.src = src
        self.words = html_any.Words()
        self.expected = []

    def word(self):
        w = self.words.next()
        self.expected.append(w)
        return w

    def nodes(self, depth=0, budget=None):
        src = self.src
        budget = budget or [src.size(3, 40)]
        out = []
        for _ in range(src.rep(1, 6, 2.0)):
            budget[0] -= 1
            deeper = depth < 7 and budget[0] > 0
            kind = src.weighted([(5, "w"), (4 if deeper else 0, "u"), (3 if deeper else 0, "block"), (3 if deeper else 0, "inline"),
                                 (2 if deeper else 0, "list"), (1, "empty"), (1, "br")])
            gap = src.choice([" ", "", "\n", " "])
            if kind == "w":
                out.append(" ".join(self.word() for _ in range(src.rep(1, 3, 1.4))) + " ")
            elif kind == "u":
                t = src.choice(NAMES)
                a = attributes(src)
                written = "".join(f" {k}='{_html.escape(v)}'" for k, v in a.items())
                self.expected.append(["start", t, a])
                inner = self.nodes(depth + 1, budget)
                self.expected.append(["end", t])
                out.append(f"<{t}{written}>{inner}</{t}>")
            elif kind == "empty":
                t = src.choice(NAMES)
                a = attributes(src)
                written = "".join(f" {k}='{_html.escape(v)}'" for k, v in a.items())
                self.expected.append(["start", t, a])
                self.expected.append(["end", t])
                out.append(f"<{t}{written}></{t}>" if src.p(0.5) else f"<{t}{written} />")
            elif kind == "block":
                t = src.choice(["p", "div", "h2", "h5"])
                out.append(f"<{t}>{self.nodes(depth + 1, budget)}</{t}>")
            elif kind == "inline":
                t = src.choice(["b", "i", "span", "em", "strong"])
                out.append(f"<{t}>{self.nodes(depth + 1, budget)}</{t}>")
            elif kind == "list":
                t = src.choice(["ul", "ol"])
                items = "".join(f"<li>{self.nodes(depth + 1, budget)}</li>" for _ in range(src.between(1, 3)))
                out.append(f"<{t}>{items}</{t}>")
            else:
                out.append("<br>")
            out.append(gap)
        return "".join(out)


def gen_order(src):
    m = Mixed(src)
    html = m.nodes()
    return {"html": html, "expected": m.expected, "handler": src.choice(["default", "html_macro", "pre_macro", "escape"]), "name": src.choice(sorted(CONVERTERS))}


def check_order(case):
    html, handler, name = case["html"], case["handler"], case["name"]
    kw = {} if HANDLERS[handler] is None else {"unknown_emit": HANDLERS[handler]}
    out = convert_any(name, html, **kw)
    if out is None:
        return {"refused"}
    want = []
    for e in case["expected"]:
        if isinstance(e, str):
            want.append(e)
        elif handler != "default":
            m = handler.split("_")[0]
            tag = f"<{e[1]}{attr_string(e[2])}>" if e[0] == "start" else f"</{e[1]}>"
            want.append(f"<<{m}>>{tag}<</{m}>>" if handler != "escape" else escape(tag))
    text = out
    if handler == "escape":
        text = re.sub(r"&lt;([^\s&/]+)((?: [^\s=]+=\"(?:(?!&lt;|&gt;)[^\"])*\")*) /&gt;", r"&lt;\1\2&gt;&lt;/\1&gt;", text)
    else:
        text = re.sub(r"<<(html|pre)>><([^\s<>/]+)((?: [^\s=]+=\"[^\"]*\")*) /><</\1>>", r"<<\1>><\2\3><</\1>><<\1>></\2><</\1>>", text)
    pos = 0
    for w in want:
        k = text.find(w, pos)
        if k < 0:
            fail(f"html2{name}({short(html, 1500)}, handler {handler})\n = {short(out, 1500)}\n {w!r} is missing after {text[max(0, pos - 40):pos]!r}")
        pos = k + len(w)
    count = len(re.findall(r"<<(?:html|pre)>>", text)) if handler != "default" else len(re.findall(r"<<|&lt;", text))
    extra = sum(1 for w in want if not re.fullmatch(r"w\d+q", w))
    if handler != "escape" and count != extra:
        fail(f"html2{name}({short(html, 1500)}, handler {handler})\n = {short(out, 1500)}\n has {count} masked tags, expected {extra}")
    if len(re.findall(r"w\d+q", text)) != sum(1 for w in want if re.fullmatch(r"w\d+q", w)):
        fail(f"html2{name}({short(html, 1500)}, handler {handler})\n = {short(out, 1500)}\n: words are repeated")
    return {f"handler:{handler}", f"target:{name}"} | ({"nt"} if any(not isinstance(e, str) for e in case["expected"]) else set())


# ---------------------------------------------------------------------------
# raise; documents without unknown tags
# ---------------------------------------------------------------------------

def gen_raise(src):
    name = src.choice(sorted(CONVERTERS))
    tree = gh.document(src, Words(name) if src.p(0.7) else Wide())
    if src.p(0.6):
        tree = insert(src, tree, NAMES, prob=0.08)
    elif src.p(0.3):
        tree = [["?" + src.choice(NAMES), {}, tree]]
    return {"tree": tree, "name": name}


def check_raise(case):
    tree, name = case["tree"], case["name"]
    unknown = unknown_names(tree)
    html = gh.write(real(tree))
    base = convert_any(name, html)
    tags = {n[0] for n in ht.walk(tree)}
    if not unknown:
        # which elements a target knows is its own matter: they are the same for all handlers
        ref = None
        try:
            ref = CONVERTERS[name](html, unknown_emit=HANDLERS["raise"])
        except NotImplementedError as err:
            m = re.search(r"'([^']*)'", str(err))
            if not m or m.group(1) not in tags:
                fail(f"html2{name}({short(html)}): {err} names no tag of the document")
            if m.group(1) not in MAYBE.get(name, ()):
                fail(f"html2{name}({short(html)}): {err}, a known tag")
            return {"unsupported"}
        except Html2restException:
            ref = None
        except Exception as err:
            raise Violation(f"html2{name}({short(html)}) raised {err!r}") from err
        if ref != base:
            fail(f"html2{name}({short(html)}) = {short(base)}, with the raising handler {short(ref)}")
        for handler in ("transparent", "html_macro", "pre_macro", "escape"):
            out = convert_any(name, html, unknown_emit=HANDLERS[handler])
            if out != base:
                fail(f"html2{name}({short(html)}) = {short(base)}, with handler {handler} {short(out)}: it has no unknown tag")
        return {"nt", "known"}
    try:
        out = CONVERTERS[name](html, unknown_emit=HANDLERS["raise"])
    except NotImplementedError as err:
        m = re.search(r"'([^']*)'", str(err))
        if not m or m.group(1) not in unknown and m.group(1) not in MAYBE.get(name, ()):
            fail(f"html2{name}({short(html)}) raised {err}: the unknown tags are {unknown}")
        return {"nt", "raised"}
    except Html2restException:
        return {"refused"}
    except Exception as err:
        raise Violation(f"html2{name}({short(html)}) raised {err!r}") from err
    fail(f"html2{name}({short(html)}) = {short(out)}: unknown tags {unknown}, and no NotImplementedError")


# ---------------------------------------------------------------------------
# html macro: there and back
# ---------------------------------------------------------------------------



LITERAL = ("pre", "code", "img", "br", "hr", "a")     # a link label is literal in creole


def gen_back(src):
    tree = roundtrip.document(src, roundtrip.Creole())
    out = []
    for node in tree:
        if node[0][0] == "h" and node[0] != "hr":
            out.append(node)     # the text of a heading is literal in creole
        elif node[0] == "p":
            inner = insert(src, node[2], PLAIN_NAMES, inside=LITERAL, edges=False)
            line = []
            for c in inner:
                if isinstance(c, list) and c[0].startswith("?") and (not line or line[-1] == ["br", {}, []]):
                    line.append("word ")      # a macro at the start of a line is a block
                line.append(c)
            out.append(["p", {}, line])
        else:
            out.extend(insert(src, [node], PLAIN_NAMES, inside=LITERAL, edges=False))
    return {"tree": out}


def html_macro(text):
    return text


def check_back(case):
    tree = case["tree"]
    html = gh.write(real(tree))
    creole = convert("creole", html, unknown_emit=HANDLERS["html_macro"])
    back = c2h(creole, macros={"html": html_macro})
    try:
        act = rd.tree_of(back)
    except rd.RenderError as err:
        fail(f"html2creole({short(html)}) = {short(creole)}, back {short(back)}: {err}")

    def walk(children):
        out = []
        for c in children:
            if isinstance(c, str):
                out.append(c)
            elif c[0] == "img":
                text = roundtrip.image_text(c[1])
                out.append(["img", {**{k: c[1][k] for k in ("width", "height") if k in c[1]}, "src": c[1]["src"], "alt": text, "title": text}, []])
            elif c[0] == "a":
                out.append(["a", {"href": c[1]["href"]}, walk(c[2])])
            elif c[0].startswith("?"):
                out.append([c[0][1:], c[1], walk(c[2])])
            else:
                out.append([c[0], {}, walk(c[2])])
        return out
    exp = roundtrip.normal_pre(ht.canon(walk(tree), roundtrip.RENAME))
    act = roundtrip.normal_pre(ht.canon(act, roundtrip.RENAME))
    exp, act = roundtrip.unordered_sizes(exp), roundtrip.unordered_sizes(act)
    if exp != act:
        fail(f"html2creole({short(html, 1200)}, html macro)\n = {short(creole, 1200)}\n back: {g.first_difference(exp, act)}")
    return {"nt"} if unknown_names(tree) else set()


PROPS = {
    "H08": {"rule": "at least one unknown tag, or (known) none and all handlers compared", "subs": [
        Sub("model", gen_model, check_model, quick=10000, rule="at least one unknown tag"),
        Sub("blanks", gen_blanks, check_blanks, quick=5000, rule="at least one unknown tag"),
        Sub("order", gen_order, check_order, quick=10000, rule="at least one unknown tag"),
        Sub("raise", gen_raise, check_raise, quick=6000, rule="an unknown tag was refused, or all handlers were compared"),
        Sub("back", gen_back, check_back, quick=5000, rule="at least one unknown tag")],
        "assumptions": ["unknown elements in text for the exact model and the way back; around blocks only order and completeness are claimed"]},
}
