"""T01, T02: rest2html and pypi_rest2html."""

import contextlib
import io
import os
import re
import shutil
import sys
import tempfile
from html.parser import HTMLParser

import docutils.core
import docutils.nodes
import docutils.transforms
import docutils.utils
from docutils.parsers.rst import roles

from pbt import genrest
from pbt import htmltree as ht
from pbt import renderers as rd
from pbt import texts
from pbt.engine import Sub
from pbt.sut import fail, short

from creole.rest_tools.clean_writer import rest2html
from creole.rest_tools.pypi_rest2html import pypi_rest2html


class Quiet:
    """docutils writes its warnings to stderr"""

    def __enter__(self):
        self.err = sys.stderr
        sys.stderr = io.StringIO()

    def __exit__(self, *args):
        sys.stderr = self.err


def clean(text, **kw):
    """None: docutils halts at a severe error"""
    try:
        with Quiet():
            out = rest2html(text, **kw)
    except docutils.utils.SystemMessage as err:
        if err.level >= 4:
            return None
        fail(f"rest2html({short(text, 1500)}) raised {type(err).__name__}: {err}")
    except (Exception, SystemExit) as err:
        fail(f"rest2html({short(text, 1500)}) raised {type(err).__name__}: {err}")
    if not isinstance(out, str):
        fail(f"rest2html({short(text)}) returned {type(out)}")
    return out


def standard(text):
    """What docutils' own writer makes of it"""
    with Quiet():
        return docutils.core.publish_parts(text, writer_name="html4css1", settings_overrides={
            "input_encoding": "unicode", "doctitle_xform": False, "file_insertion_enabled": False, "raw_enabled": False, "embed_stylesheet": False,
            "stylesheet_path": None, "stylesheet": None, "math_output": "LaTeX", "_disable_config": True})["html_body"]


KEEP = {"h1", "h2", "h3", "h4", "h5", "h6", "ul", "ol", "li", "dl", "dt", "dd", "table", "tr", "td", "th", "a", "img", "pre", "em", "strong", "tt", "code", "sup", "sub",
        "i", "b", "cite", "br", "hr", "kbd", "var", "abbr", "caption", "object", "small", "big", "ins", "del", "samp", "q", "acronym", "u", "s"}
BLOCKS = {"h1", "h2", "h3", "h4", "h5", "h6", "ul", "ol", "li", "dl", "dt", "dd", "table", "tr", "td", "th", "pre", "hr", "caption", "p", "div", "br", "blockquote", "object"}
NO_BLANKS = BLOCKS | {"img"}
ATTRS = {"a": ("href",), "img": ("src", "alt", "width", "height", "style", "align"), "object": ("data",)}


def with_align(children):
    """docutils' classes for the alignment of an image or a figure as the attribute which rest2html writes"""
    for node in ht.walk(children):
        cls = node[1].get("class", "").split()
        align = next((c[6:] for c in cls if c.startswith("align-")), None)
        if node[0] == "img" and align:
            node[1]["align"] = align
        elif node[0] == "div" and "figure" in cls and align:
            for c in node[2]:
                for image in [c] + (c[2] if isinstance(c, list) and c[0] == "a" else []):
                    if isinstance(image, list) and image[0] == "img":
                        image[1]["align"] = align    # replaced below, if the image has its own
    return children


def reduce(children):
    """Structure and words; containers, paragraphs and spans are transparent"""
    out = []
    for c in children:
        if isinstance(c, str):
            out.append(c)
            continue
        tag, attrs, sub = c
        sub = reduce(sub)
        if tag in BLOCKS:
            out.append("\n")
        if tag in KEEP:
            attrs = {k: v for k, v in attrs.items() if k in ATTRS.get(tag, ())}
            if tag == "pre":
                sub = [ht.text_of(sub).strip("\n")]
            else:
                sub = squeeze(sub, tag in BLOCKS)
            out.append([tag, attrs, sub])
        else:
            out.extend(sub)
        if tag in BLOCKS:
            out.append("\n")
    return out


def squeeze(children, block):
    """Blanks collapsed; no blanks beside blocks"""
    out = []
    for c in ht.merge(children):
        out.append(ht.WS.sub(" ", c) if isinstance(c, str) else c)
    for k, c in enumerate(out):
        if isinstance(c, str):
            if (block and k == 0) or (k and out[k - 1][0] in NO_BLANKS):
                c = c.lstrip(" ")
            if (block and k == len(out) - 1) or (k + 1 < len(out) and out[k + 1][0] in NO_BLANKS):
                c = c.rstrip(" ")
            out[k] = c
    return [c for c in out if c != ""]


def tree(text, html):
    try:
        return rd.tree_of(html)
    except rd.RenderError as err:
        fail(f"rest2html({short(text, 1500)})\n = {short(html, 1500)}: {err}")


def gen_t01(src):
    r = genrest.Rest(src)
    text = r.document()
    return {"rest": text, "levels": [] if r.malformed else r.levels}


def check_t01(case):
    text = case["rest"]
    html = clean(text)
    if html is None:
        try:
            standard(text)
        except docutils.utils.SystemMessage:
            return {"severe"}
        fail(f"rest2html({short(text, 1500)}) refuses what docutils renders")
    act = tree(text, html)
    for node in ht.walk(act):
        if node[0] == "div":
            fail(f"rest2html({short(text, 1500)})\n = {short(html, 1500)}: there is a <div>")
        for name in ("class", "id"):
            if name in node[1]:
                fail(f"rest2html({short(text, 1500)})\n = {short(html, 1500)}: <{node[0]} {name}={node[1][name]!r}>")
    want = squeeze(reduce(with_align(rd.tree_of(standard(text)))), True)
    got = squeeze(reduce(act), True)
    if want != got:
        from pbt import gencreole as g
        fail(f"rest2html({short(text, 1500)})\n = {short(html, 1500)}\n against docutils: {g.first_difference(want, got)}")
    if case["levels"]:
        heads = [(n[0], ht.text_of(n[2])) for n in ht.walk(got) if n[0] in ("h1", "h2", "h3", "h4", "h5", "h6")]
        for level, title in case["levels"]:
            if not any(h == f"h{level}" and re.search(rf"(?:^|\xa0){title}(?!\d)", t.strip()) for h, t in heads):
                fail(f"rest2html({short(text, 1500)})\n = {short(html, 1500)}\n: {title!r} is not a heading of level {level}: {heads}")
    tags = {n[0] for n in ht.walk(got)}
    labels = {f"has:{t}" for t in tags}
    if len(tags) > 3:
        labels.add("nt")
    return labels


# ---------------------------------------------------------------------------
# T02
# ---------------------------------------------------------------------------

ALLOWED = set("""file ftp gopher hdl http https imap mailto mms news nntp prospero rsync rtsp rtspu sftp shttp sip sips snews svn svn+ssh telnet
wais irc""".split())
FOREIGN = ["javascript", "data", "vbscript", "about", "ssh", "tel", "magnet", "ws", "blob", "git", "x-foo", "view-source", "httpx", "ldap"]
SECRET = "TOPSECRETq7"

_audit = {"dir": None, "hits": []}


def _hook(event, args):
    if _audit["dir"] is None:
        return
    if event == "open":
        path = args[0]
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if isinstance(path, str) and _audit["dir"] in os.path.abspath(path) and not path.endswith("docutils.conf"):
            _audit["hits"].append(f"open {path}")
    elif event in ("socket.connect", "socket.getaddrinfo", "urllib.Request", "subprocess.Popen", "os.system"):
        _audit["hits"].append(f"{event} {args}")
        raise OSError("not in a test")


sys.addaudithook(_hook)


class Scratch:
    """A directory with files a document could try to read"""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="pbt-t02-")
        for name, text in (("s.txt", f"{SECRET} text\n"), ("s.html", f"<b>{SECRET}</b>\n"), ("s.csv", f"{SECRET},b\n"), ("s.rst", f"{SECRET}\n=========\n"),
                           ("s.py", f"x = '{SECRET}'\n")):
            with open(os.path.join(self.dir, name), "w") as f:
                f.write(text)
        self.cwd = os.getcwd()
        os.chdir(self.dir)
        _audit["hits"] = []
        _audit["dir"] = self.dir
        return self

    def __exit__(self, *args):
        _audit["dir"] = None
        os.chdir(self.cwd)
        shutil.rmtree(self.dir)


def scheme_of(uri):
    """As browsers see it"""
    uri = re.sub(r"[\t\r\n]", "", uri).strip("".join(map(chr, range(33))))
    m = re.match(r"([a-zA-Z][a-zA-Z0-9+.-]*):", uri)
    return m.group(1).lower() if m else ""


class Danger(genrest.Rest):
    """A document with things which have to be refused"""

    def __init__(self, src):
        super().__init__(src)
        self.raws = 0
        self.files = 0
        self.foreign = src.p(0.5)
        self.rate = src.choice([0.02, 0.05, 0.15, 0.5])
        self.dangerous = src.choice([0.0, 0.15, 0.4])
        self.bad = src.p(0.3)
        self.safe = src.p(0.6)

    def uri(self):
        src = self.src
        if self.foreign and src.p(self.rate):
            scheme = src.choice(FOREIGN)
        elif self.safe or src.p(0.8):
            scheme = src.choice(sorted(ALLOWED))
        else:
            return super().uri()
        if src.p(0.2):
            scheme = src.choice([scheme.upper(), scheme.title(), "".join(c.upper() if src.p(0.5) else c for c in scheme)])
        if src.p(0.04):
            scheme = scheme[:2] + src.choice(["\\", "\\ ", "\n"])[:1] + scheme[2:]
        rest = src.choice(["//x.org/", "alert(1)", "me@example.com", "//a.b/c?d=e&f=g", "text/html,<b>", "//x.org/a%20b", "x"])
        if scheme.lower() in ("http", "https", "ftp", "svn", "irc", "telnet", "file") and not rest.startswith("//"):
            rest = "//x.org"
        return f"{scheme}:{rest}"

    def inline(self):
        if self.src.p(self.dangerous * 0.2):
            self.raws += 1
            self.n += 1
            k = self.src.i(4)
            if k == 0:
                self.after.append(f".. |raw{self.n}| raw:: html\n\n   <xraw>1</xraw>")
                return f"|raw{self.n}|"
            if k == 1:
                return f":raw-html{self.n}:`<xraw>1</xraw>`"
            if k == 2:
                return ":raw:`<xraw>1</xraw>`"
            self.roles = getattr(self, "roles", []) + [f".. role:: raw-html{self.n}(raw)\n   :format: {self.src.choice(['html', 'html4css1', 'HTML', 'html html'])}"]
            return f":raw-html{self.n}:`<xraw>1</xraw>`"
        if self.src.p(0.05):
            return self.src.choice(["<xraw>1</xraw>", "``<xraw>1</xraw>``", "*<xraw>*", ":code:`<xraw>`", ":math:`<xraw>`", ":sub:`<xraw>`", ":title:`<xraw/>`",
                                    "`<xraw> <http://x.org/>`__", ":math:`\\text{<xraw>}`"])
        return super().inline()

    def block(self, last):
        src = self.src
        if src.p(self.dangerous):
            self.raws += 1
            return "danger", self.danger()
        if src.p(0.05):
            return "look", src.choice([["::", "", "    .. raw:: html", "", "       <xraw>1</xraw>"], [".. <xraw>1</xraw>"], [".. code:: html", "", "   <xraw>1</xraw>"],
                                       [".. image:: http://x.org/a.svg", "   :alt: <xraw>1</xraw>"], [".. image:: http://x.org/a.png", "   :alt: <xraw>1</xraw>"],
                                       [".. image:: http://x.org/<xraw>.SWF"], [".. math:: <xraw>1</xraw>"], [".. parsed-literal::", "", "   <xraw>"],
                                       [".. figure:: http://x.org/b.svg", "   :alt: <xraw>", "", "   T <xraw>1</xraw>"], [".. meta::", "   :description: <xraw>"],
                                       [".. x --><xraw>1</xraw>"], ["-x <xraw>  T <xraw>"], [".. class:: \"><xraw>", "", "T x"],
                                       [".. image:: http://x.org/a.svg", "   :width: 10", "   :alt: \"><xraw>1</xraw>"], [".. topic:: <xraw>", "", "   T x"],
                                       [".. image:: http://x.org/a.svg\n   :target: http://x.org/\"><xraw>"]])
        if not self.bad and self.depth:
            for _ in range(3):
                kind, lines = super().block(last)
                if kind != "badblock":
                    return kind, lines
            return "para", self.para()
        return super().block(last)

    def path(self, ext):
        src = self.src
        return src.choice(["", "./", "@DIR@/", "../@BASE@/"]) + "s." + ext

    def danger(self):
        src = self.src
        k = src.i(9)
        if k == 0:
            return [f".. raw:: {src.choice(['html', 'HTML', 'html latex', 'html4css1 html'])}", "", "   <xraw>1</xraw>"]
        if k == 1:
            return [".. raw:: html", f"   :file: {self.path('html')}"]
        if k == 2:
            return [".. raw:: html", f"   :url: file://@DIR@/s.html"]
        if k == 3:
            out = [f".. include:: {self.path(src.choice(['txt', 'rst']))}"]
            for o in src.subset([":literal:", ":start-line: 0", ":encoding: utf-8", ":code: python", ":number-lines:", ":tab-width: 4"], 0.2):
                out.append("   " + o)
            return out
        if k == 4:
            return [".. csv-table:: t", f"   :file: {self.path('csv')}"]
        if k == 5:
            return [".. csv-table:: t", "   :url: file://@DIR@/s.csv"]
        if k == 6:
            return [".. raw:: html", "   :url: http://127.0.0.1:9/x"]
        if k == 7:
            return [".. include:: <isonum.txt>"]
        return [".. RAW:: html", "", "   <xraw>1</xraw>"]

    def document(self):
        text = super().document()
        for r in getattr(self, "roles", ()):
            if self.src.p(0.7):
                text = r + "\n\n" + text
        return text


FORMS = [
    ("`lb <{u}>`__", ""), ("`lb <{u}>`_", ""), ("`lb`_", ".. _lb: {u}"), ("lbl_", ".. _lbl: {u}"), ("`lb`__", "__ {u}"), ("`lb`__", ".. __: {u}"),
    ("lbl_", ".. _lbl: mid_\n.. _mid: {u}"), ("`lb`__", "__ mid_\n\n.. _mid: {u}"), ("|img|", ".. |img| image:: {u}"),
    ("|img|", ".. |img| image:: http://x.org/a.png\n   :target: {u}"), ("|img|_", ".. |img| replace:: text\n.. _img: {u}"),
    ("|tx|", ".. |tx| replace:: a `b <{u}>`__"), ("|im|_", ".. |im| image:: http://x.org/a.png\n.. _im: {u}"), ("{u}", ""), ("<{u}>", ""),
    ("`<{u}>`__", ""), ("`<{u}>`_", ""), ("`lb <al_>`_", ".. _al: {u}"), ("**x** `lb <{u}>`__ ``y``", ""), ("`a <{s}>`__ `b <{u}>`__", ""),
    ("`lb`_ `lb`_", ".. _LB:\n   {u}"), ("x", ".. image:: {u}"), ("x", ".. image:: http://x.org/a.png\n   :target: {u}"), ("x", ".. figure:: {u}\n\n   cap"),
    ("x", ".. figure:: http://x.org/a.png\n   :target: {u}"), ("x", ".. list-table::\n\n   * - `a <{u}>`__"), ("x", ".. csv-table:: t\n\n   a, `b <{u}>`__"),
    ("[#fn]_", ".. [#fn] note `a <{u}>`__"), ("[CIT]_", ".. [CIT] note `a <{u}>`__"), ("`lb <{u}>`__ `lb <{u}>`__", ""), ("x", "lb_\n\n.. _lb: {u}"), ("x", ".. _lb: {u}"), ("x", ".. _a b: {u}"),
    ("x", ".. sidebar:: `a <{u}>`__\n\n   text"), ("x", ".. topic:: `a <{u}>`__\n\n   text"), ("x", ".. rubric:: `a <{u}>`__"), ("x", ".. line-block::\n\n   `a <{u}>`__"),
    ("x", ".. epigraph::\n\n   text\n\n   -- `a <{u}>`__"), ("x", ".. compound::\n\n   `a <{u}>`__"), ("x", ".. container:: c\n\n   `a <{u}>`__"),
]
PLACES = [
    "{}", "text {} text", "a {}\n{l}\n\ntext\n\nb\n=\n\ntext", "a\n=\n\nb {}\n{m}\n\ntext\n\nc\n=\n\ntext", "- a\n- {}", "- a\n\n  - b {}", "1. {}\n2. b", "term {}\n    text", "term\n    text {}",
    ":field: {}", ":a field {}: text", "-o  text {}", "| line {}\n| b", "    quote {}", "    quote\n\n    -- {}", ".. note:: {}", ".. warning::\n\n   a\n\n   {}",
    ".. parsed-literal::\n\n   a {}", "text\n\n.. header:: a\n\ntext {}", "a\n\n----\n\n{}", "**a** {} *b*", ".. class:: c\n\ntext {}", "* a\n\n  1. b\n\n     term\n         {}",
    "=====  =====\na      {}\n=====  =====", "text {} text\ntext", "..\n\n   {}", "a\n=\n\n:field: {}\n\nb\n=\n\ntext", "text [#]_\n\n.. [#] {}", "text [1]_\n\n.. [1] {}", ".. admonition:: t\n\n   {}",
    ".. admonition:: a {}\n\n   text", "a\n=\n\nb\n-\n\nc {}\n{k}\n\ntext\n\nd\n=\n\ntext",
]


def gen_places(src):
    """One link of every form in every kind of place"""
    form, after = src.choice(FORMS)
    place = src.choice(PLACES)
    scheme = src.choice(FOREIGN) if src.p(0.5) else src.choice(sorted(ALLOWED) + ["http"] * 10)
    if src.p(0.2):
        scheme = src.choice([scheme.upper(), scheme.title()])
    rest = src.choice(["//x.org/", "//x.org/a", "alert", "a@example.com"])
    if scheme.lower() in ("http", "https", "ftp", "svn", "irc", "telnet", "file"):
        rest = "//x.org/b"
    if src.p(0.08):
        u = src.choice(["/rel", "page.html", "#x", "a/b:c", "?x"])
    else:
        u = f"{scheme}:{rest}"
    inline = form.replace("{u}", u).replace("{s}", "http://x.org/")
    n = len(inline) + 12
    text = place.replace("{l}", "=" * n).replace("{m}", "-" * n).replace("{k}", "~" * n).replace("{}", inline)
    text += "\n\n" + after.replace("{u}", u) + "\n"
    if src.p(0.3):
        text = "before\n\n" + text
    if src.p(0.3):
        text += "\nafter\n"
    if src.p(0.15):
        text += "\n" + " ".join(texts.raw_word(src) for _ in range(src.between(1, 3))).replace("`", "").replace("*", "").replace("|", "").replace("_", "") + "\n"
        return {"rest": text, "codec": src.choice(["utf-8", "ascii", "latin-1", "utf-16", "cp1252"])}
    return {"rest": text}


def gen_t02(src):
    return {"rest": Danger(src).document()}


def reference(text):
    """docutils' document, its warnings and what it links to"""
    with Quiet(), roles_restored():
        doc = docutils.core.publish_doctree(text, settings_overrides={
            "report_level": 2, "halt_level": 5, "warning_stream": io.StringIO(), "raw_enabled": False, "file_insertion_enabled": False, "_disable_config": True})
    n = docutils.nodes
    messages = [m for m in [*doc.findall(n.system_message), *doc.transform_messages] if m["level"] >= 2]
    uris = []
    for node in doc.findall():
        if isinstance(node, n.Element):
            if node.get("refuri") is not None and isinstance(node, n.reference):
                uris.append(node["refuri"])
            elif isinstance(node, n.image):
                uris.append(node["uri"])
    targets = [t["refuri"] for t in doc.findall(n.target) if t.get("refuri") is not None]
    hidden = [u for node in doc.findall(n.substitution_definition) for x in node.findall(n.Element)
              for u in (x.get("refuri"), x.get("uri")) if u]
    return doc, messages, uris, targets, hidden


@contextlib.contextmanager
def roles_restored():
    saved = dict(roles._roles)
    try:
        yield
    finally:
        roles._roles.clear()
        roles._roles.update(saved)


def no_raw(what, text, html):
    if "<xraw" in html or "&lt;xraw" not in html and "xraw" in html:
        elements = [n for n in ht.walk(loose_tree(html)) if "xraw" in n[0]]
        if elements:
            fail(f"{what}({short(text, 1500)})\n = {short(html, 1500)}: raw HTML in the output")
    if SECRET in html:
        fail(f"{what}({short(text, 1500)})\n = {short(html, 1500)}: the content of a file is in the output")


class Elements(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.found = []

    def handle_starttag(self, tag, attrs):
        self.found.append([tag, dict(attrs), []])


def loose_tree(html):
    p = Elements()
    p.feed(html)
    p.close()
    return p.found


def no_access(what, text):
    if _audit["hits"]:
        fail(f"{what}({short(text, 1500)}) accessed {_audit['hits']}")


def check_t02(case):
    labels = set()
    with Scratch() as scratch:
        text = case["rest"].replace("@DIR@", scratch.dir).replace("@BASE@", os.path.basename(scratch.dir))
        with roles_restored():
            html = clean(text)
        no_access("rest2html", text)
        if html is not None:
            no_raw("rest2html", text, html)
        try:
            with Quiet(), roles_restored():
                out = pypi_rest2html(text)
        except Exception as err:
            out, error = None, err
        no_access("pypi_rest2html", text)
        doc, messages, uris, targets, hidden = reference(text)
    bad = [u for u in uris + targets if scheme_of(u) not in ALLOWED]
    if messages:
        labels.add("warning")
    if bad:
        labels.add("foreign scheme")
    if out is None:
        if not isinstance(error, (docutils.utils.SystemMessage, docutils.transforms.TransformError)):
            fail(f"pypi_rest2html({short(text, 1500)}) raised {type(error).__name__}: {error}")
        if not messages and not bad and not [u for u in hidden if scheme_of(u) not in ALLOWED]:
            fail(f"pypi_rest2html({short(text, 1500)}) raised {type(error).__name__}: {error}, but there is nothing wrong")
        labels.add("refused")
    else:
        if messages:
            fail(f"pypi_rest2html({short(text, 1500)}) does not refuse {short(messages[0].astext(), 300)}")
        if bad:
            fail(f"pypi_rest2html({short(text, 1500)}) does not refuse the link to {bad[0]!r}")
        no_raw("pypi_rest2html", text, out)
        got = []
        for n in loose_tree(out):
            for name in ("href", "src", "data"):
                if name in n[1] and not (n[1][name] or "").startswith("#"):
                    got.append(n[1][name])
        if set(got) - set(uris) or set(in_body(doc)) - set(got):
            fail(f"pypi_rest2html({short(text, 1500)})\n = {short(out, 1500)}: links {got}, not {uris}")
        labels.add("accepted")
        codec = case.get("codec")
        if codec:
            try:
                want = out.encode(codec)
            except UnicodeError:
                want = None
            try:
                with Quiet(), roles_restored():
                    encoded = pypi_rest2html(text, output_encoding=codec)
            except UnicodeError:
                encoded = None
            if encoded != want:
                fail(f"pypi_rest2html({short(text, 1500)}, output_encoding={codec!r})\n = {short(encoded, 1500)}, expected {short(want, 1500)}")
            labels.add("encoded")
        if uris:
            labels.add("links")
    if labels & {"warning", "foreign scheme", "links"}:
        labels.add("nt")
    return labels


def in_body(doc):
    """The title and the bibliographic fields of the document are not part of the output"""
    n = docutils.nodes
    out = []
    for node in doc.findall(n.Element):
        uri = node.get("refuri") if isinstance(node, n.reference) else node["uri"] if isinstance(node, n.image) else None
        if uri is None:
            continue
        up = node
        while up.parent is not None and not isinstance(up, (n.docinfo, n.decoration, n.substitution_definition)) and not (
                isinstance(up, (n.title, n.subtitle)) and up.parent is doc):
            up = up.parent
        if up is doc:
            out.append(uri)
    return out


RULE2 = "raw HTML, a file, a warning or a link in the document"

RULE1 = "more than three kinds of elements"
PROPS = {
    "T01": {
        "rule": RULE1,
        "subs": [Sub("documents", gen_t01, check_t01, quick=2500, rule=RULE1)],
        "assumptions": ["docutils' html4css1 writer is the reference"],
    },
    "T02": {
        "rule": RULE2,
        "subs": [Sub("documents", gen_t02, check_t02, quick=3000, rule=RULE2), Sub("places", gen_places, check_t02, quick=4000, rule=RULE2)],
        "assumptions": ["docutils finds the warnings and links of a document"],
    },
}
