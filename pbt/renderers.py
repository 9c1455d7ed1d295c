"""Independent readers of the target formats: the installed Markdown, docutils and
textile packages.  Each returns a tree in the form of htmltree."""

import html as _html
import io
import re
from html.parser import HTMLParser

import docutils.core
import docutils.nodes
import docutils.utils
import markdown
import textile

from pbt import htmltree as ht

VOID = {"br", "hr", "img", "input", "col"}


class RenderError(Exception):
    pass


class Tree(HTMLParser):
    """The renderers write well formed HTML"""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.root = []
        self.stack = [("", self.root)]

    def handle_starttag(self, tag, attrs):
        node = [tag, {k: v or "" for k, v in attrs}, []]
        self.stack[-1][1].append(node)
        if tag not in VOID:
            self.stack.append((tag, node[2]))

    def handle_startendtag(self, tag, attrs):
        self.stack[-1][1].append([tag, {k: v or "" for k, v in attrs}, []])

    def handle_endtag(self, tag):
        if tag in VOID:
            return
        if self.stack[-1][0] != tag:
            raise RenderError(f"</{tag}> closes <{self.stack[-1][0]}>")
        self.stack.pop()

    def handle_data(self, data):
        self.stack[-1][1].append(data)


def tree_of(html):
    p = Tree()
    p.feed(html)
    p.close()
    if len(p.stack) > 1:
        raise RenderError(f"<{p.stack[-1][0]}> not closed")
    return p.root


def render_markdown(text):
    md = markdown.Markdown(extensions=["tables", "fenced_code", "nl2br"], tab_length=2)
    return tree_of(md.convert(text))


def render_textile(text):
    return tree_of(textile.textile(text, html_type="html5"))


class SectionLevels(docutils.nodes.NodeVisitor):
    pass


FACE = {"strong": "strong", "emphasis": "i", "literal": "code", "superscript": "sup", "subscript": "sub"}


def render_rest(text, base=1):
    """docutils' document tree; RenderError on any system message"""
    stream = io.StringIO()
    try:
        doc = docutils.core.publish_doctree(text, settings_overrides={
            "report_level": 2, "halt_level": 5, "warning_stream": stream, "doctitle_xform": False, "sectsubtitle_xform": False,
            "raw_enabled": False, "file_insertion_enabled": False, "_disable_config": True, "smart_quotes": False})
    except Exception as err:
        raise RenderError(f"docutils: {type(err).__name__}: {err}") from err
    messages = [m.astext() for m in doc.findall(docutils.nodes.system_message) if m["level"] >= 2]
    if messages or stream.getvalue():
        raise RenderError(f"docutils reports {messages or stream.getvalue()!r}")
    return convert_children(doc, base)


def convert_children(node, level):
    out = []
    for child in node.children:
        out.extend(convert(child, level))
    return out


def convert(node, level):
    n = docutils.nodes
    if isinstance(node, n.Text):
        return [str(node)]
    if isinstance(node, (n.target, n.substitution_definition, n.comment, n.colspec, n.system_message)):
        return []
    name = node.tagname
    if isinstance(node, n.section):
        title = node.children[0]
        return [[f"h{level}", {}, convert_children(title, level)]] + [
            c for child in node.children[1:] for c in convert(child, level + 1)]
    if name == "paragraph":
        return [["p", {}, convert_children(node, level)]]
    if name in FACE:
        return [[FACE[name], {}, convert_children(node, level)]]
    if name == "reference":
        return [["a", {"href": node.get("refuri", "#" + node.get("refid", "?"))}, convert_children(node, level)]]
    if name == "image":
        return [["img", {"src": node["uri"], "alt": node.get("alt", "")}, []]]
    if name == "bullet_list":
        return [["ul", {}, convert_children(node, level)]]
    if name == "enumerated_list":
        if node.get("start", 1) != 1:
            raise RenderError(f"numbered list starts at {node['start']}")
        return [["ol", {}, convert_children(node, level)]]
    if name == "list_item":
        return [["li", {}, convert_children(node, level)]]
    if name == "block_quote":
        return convert_children(node, level)       # nested lists are indented more than needed
    if name == "transition":
        return [["hr", {}, []]]
    if name == "literal_block":
        return [["pre", {}, [node.astext()]]]
    if name == "table":
        return [["table", {}, convert_children(node, level)]]
    if name in ("tgroup", "tbody"):
        return convert_children(node, level)
    if name == "thead":
        rows = convert_children(node, level)
        for row in rows:
            for cell in row[2]:
                cell[0] = "th"
        return rows
    if name == "row":
        return [["tr", {}, convert_children(node, level)]]
    if name == "entry":
        return [["td", {}, convert_children(node, level)]]
    return [[name, {}, convert_children(node, level)]]


def unwrap_p(children, inside=("li", "td", "th")):
    """<li><p>x</p></li> is <li>x</li>"""
    out = []
    for c in children:
        if isinstance(c, str):
            out.append(c)
            continue
        sub = unwrap_p(c[2], inside)
        if c[0] in inside:
            flat = []
            for s in sub:
                if isinstance(s, list) and s[0] == "p":
                    flat.extend(s[2])
                else:
                    flat.append(s)
            sub = flat
        out.append([c[0], c[1], sub])
    return out


def unwrap(children, tags):
    out = []
    for c in children:
        if isinstance(c, str):
            out.append(c)
        elif c[0] in tags:
            out.extend(unwrap(c[2], tags))
        else:
            out.append([c[0], c[1], unwrap(c[2], tags)])
    return out
