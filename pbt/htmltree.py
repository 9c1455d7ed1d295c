"""A strict, independent reader for the HTML creole2html writes, and canonical
forms of HTML trees.

A tree is a list of children; a child is a str (decoded text) or a list
``[tag, {attr: value}, [children]]``.
"""

import html as _html
import re

VOID = {"br", "hr", "img"}
BLOCK = {"p", "h1", "h2", "h3", "h4", "h5", "h6", "h7", "h8", "h9", "ul", "ol", "li", "table", "tr",
         "th", "td", "hr", "pre", "div", "blockquote", "body", "thead", "tbody", "dl", "dt", "dd"}


class HtmlError(Exception):
    pass


TOKEN = re.compile(r"""
      (?P<text> (?: [^<>&] | &(?:[a-zA-Z][a-zA-Z0-9]*|\#[0-9]+|\#[xX][0-9a-fA-F]+); )+ )
    | </ (?P<end> [a-zA-Z][a-zA-Z0-9]* ) >
    | < (?P<start> [a-zA-Z][a-zA-Z0-9]* ) (?P<attrs> (?: \s+ [a-zA-Z_:][a-zA-Z0-9_:.-]* = " [^"<>]* " )* ) \s* (?P<close> /? ) >
""", re.VERBOSE)
ATTR = re.compile(r"""\s+ ([a-zA-Z_:][a-zA-Z0-9_:.-]*) = " ([^"<>]*) " """, re.VERBOSE)
BAD_AMP = re.compile(r"&(?!(?:[a-zA-Z][a-zA-Z0-9]*|#[0-9]+|#[xX][0-9a-fA-F]+);)")
SIMPLE = {"&amp;": "&", "&lt;": "<", "&gt;": ">", "&quot;": '"', "&#39;": "'", "&#x27;": "'", "&apos;": "'"}
REF = re.compile(r"&[^;&]*;")


def decode(text):
    """Only the references an escape function writes are accepted."""
    def repl(m):
        ref = m.group(0)
        if ref in SIMPLE:
            return SIMPLE[ref]
        raise HtmlError(f"reference {ref!r} is not from escaping (text not escaped?)")
    return REF.sub(repl, text)


def parse(html, allow_void=VOID):
    """Strict parse: every tag closed and properly nested, everything quoted and escaped."""
    root = []
    stack = [("", root)]
    pos = 0
    while pos < len(html):
        m = TOKEN.match(html, pos)
        if not m:
            raise HtmlError(f"malformed HTML at {pos}: {html[max(0, pos - 40):pos + 60]!r}")
        pos = m.end()
        if m.group("text") is not None:
            children = stack[-1][1]
            text = decode(m.group("text"))
            if children and isinstance(children[-1], str):
                children[-1] += text
            else:
                children.append(text)
        elif m.group("end"):
            tag = m.group("end")
            if stack[-1][0] != tag:
                raise HtmlError(f"</{tag}> closes <{stack[-1][0]}> at {m.start()}: "
                                f"{html[max(0, m.start() - 60):m.end() + 20]!r}")
            stack.pop()
        else:
            tag = m.group("start")
            attrs = {}
            for name, value in ATTR.findall(m.group("attrs")):
                if BAD_AMP.search(value):
                    raise HtmlError(f"unescaped & in attribute {name}={value!r}")
                if name in attrs:
                    raise HtmlError(f"attribute {name} twice in <{tag}>")
                attrs[name] = decode(value)
            node = [tag, attrs, []]
            stack[-1][1].append(node)
            if m.group("close"):
                if tag not in allow_void:
                    raise HtmlError(f"<{tag} /> is not an empty element")
            elif tag in allow_void:
                raise HtmlError(f"<{tag}> is not closed")
            else:
                stack.append((tag, node[2]))
    if len(stack) > 1:
        raise HtmlError(f"<{stack[-1][0]}> is never closed")
    return root


WS = re.compile(r"[ \t\n\r\f]+")


def merge(children):
    out = []
    for c in children:
        if isinstance(c, str):
            if not c:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += c
            else:
                out.append(c)
        else:
            out.append(c)
    return out


def text_of(node):
    if isinstance(node, str):
        return node
    children = node[2] if node and isinstance(node[0], str) and len(node) == 3 and isinstance(node[1], dict) else node
    return "".join(text_of(c) for c in children)


def is_node(x):
    return isinstance(x, list)


def canon(children, rename=None, attrs=None, verbatim=("pre", "code"), block=True, drop=()):
    """Canonical children: blanks collapsed, removed at the edges of blocks and
    beside line breaks, empty texts removed.

    rename: {tag: canonical tag}; attrs: {tag: (kept attribute names)} (default: keep all)
    """
    rename = rename or {}
    children = merge(children)
    out = []
    for c in children:
        if isinstance(c, str):
            out.append(WS.sub(" ", c))
            continue
        tag, a, sub = c
        tag = rename.get(tag, tag)
        if tag in drop:
            sub = canon(sub, rename, attrs, verbatim, False, drop)
            out.extend(sub)
            continue
        if attrs is not None:
            keep = attrs.get(tag, ())
            a = {k: v for k, v in a.items() if k in keep}
        if tag in verbatim:
            text = text_of(sub)
            if tag == "pre":
                if text.startswith("\n"):
                    text = text[1:]
                if text.endswith("\n"):
                    text = text[:-1]
            out.append([tag, a, [text] if text else []])
        else:
            out.append([tag, a, canon(sub, rename, attrs, verbatim, tag in BLOCK, drop)])
    out = [WS.sub(" ", c) if isinstance(c, str) else c for c in merge(out)]

    def breaks(k):
        return is_node(out[k]) and (out[k][0] in BLOCK or out[k][0] == "br")

    for k, c in enumerate(out):
        if isinstance(c, str):
            if (k == 0 and block) or (k > 0 and breaks(k - 1)):
                c = c.lstrip(" ")
            if (k == len(out) - 1 and block) or (k < len(out) - 1 and breaks(k + 1)):
                c = c.rstrip(" ")
            out[k] = c
    return [c for c in out if c != ""]


def show(children):
    """Compact text form for messages."""
    parts = []
    for c in children:
        if isinstance(c, str):
            parts.append(_html.escape(c, quote=False))
        else:
            a = "".join(f' {k}="{_html.escape(v)}"' for k, v in sorted(c[1].items()))
            if c[0] in VOID:
                parts.append(f"<{c[0]}{a}/>")
            else:
                parts.append(f"<{c[0]}{a}>{show(c[2])}</{c[0]}>")
    return "".join(parts)


def walk(children):
    for c in children:
        if is_node(c):
            yield c
            yield from walk(c[2])


def strip_tags_words(children):
    """All text and attribute values in document order."""
    for c in children:
        if isinstance(c, str):
            yield c
        else:
            for v in c[1].values():
                yield v
            yield from strip_tags_words(c[2])
