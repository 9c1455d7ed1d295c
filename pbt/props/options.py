"""T08: the long description for packaging.  T09: debug mode and spelled-out defaults."""

import contextlib
import io
import os
import shutil
import sys
import tempfile
import warnings
from pathlib import Path

from pbt import gencreole as g
from pbt import genhtml as gh
from pbt import texts
from pbt.engine import Sub
from pbt.props import creole_any, html_any, readme
from pbt.sut import CONVERTERS, fail, short

from creole import creole2html, html2rest, parse_html
from creole.parser.creol2html_rules import BlockRules
from creole.parser.html_parser import HtmlParser
from creole.rest_tools.pypi_rest2html import pypi_rest2html
from creole.setup_utils import get_long_description
from creole.shared.unknown_tags import raise_unknown_node, transparent_unknown_nodes


# ---------------------------------------------------------------------------
# T08
# ---------------------------------------------------------------------------

PACKAGING = ["check", "register", "sdist", "bdist", "upload", "--long-description", "--restructuredtext"]
OTHER = ["install", "build", "test", "--help", "--version", "bdist_wheel", "checked", "develop", "-v", "un-register", "Upload"]
EXTRAS = ["x ^^sup^^ y", "__under__ x", "a ~~gone~~", "(--small--)", "{{/rel.png|image}}", "[[/rel|relative]]", "[[foo:bar|scheme]]", "a\n------------\nb",
          "[[http://a.tld/|same]] and [[http://b.tld/|same]]", "{{http://a.tld/x.png|same}} {{http://b.tld/y.png|same}}", "= =", "[[http://a.tld/]]", "* a\n*** b", "x*", "a_",
          "|a_|b|", "{{{\n}}}", "<<toc>>", "<<macro>>", "[[http://a.tld|label]]", "x\\\\y", "....", "**bold**text", "`x`", "|x|"]


def gen_t08(src):
    kind = src.weighted([(6, "readme"), (2, "doc"), (1, "soup"), (1, "missing"), (1, "bytes")])
    text = readme.creole(src)
    if kind == "doc":
        text = g.source(g.document(src, "blog", mean=3))
    elif kind == "soup":
        text = creole_any.soup(src)
    elif src.p(0.35):
        parts = text.split("\n\n")
        for _ in range(src.between(1, 2)):
            parts.insert(src.i(len(parts) + 1), src.choice(EXTRAS))
        text = "\n\n".join(parts)
    if src.p(0.15):
        text = text.replace("\n", "\r\n")
    case = {"text": text, "kind": kind, "raise": src.choice([True, False, None]), "name": src.choice(["README.creole", "README.creole", "docs.txt", "x y.creole"]),
            "argv": [], "path": src.p(0.5)}
    if src.p(0.8):
        case["argv"] = [src.choice(OTHER) for _ in range(src.between(0, 2))]
        if src.p(0.5):
            case["argv"].insert(src.i(len(case["argv"]) + 1), src.choice(PACKAGING))
    return case


def check_t08(case):
    base = Path(tempfile.mkdtemp(prefix="pbt-longdesc-"))
    labels = {case["kind"]}
    argv = sys.argv
    try:
        path = base / case["name"]
        data = case["text"].encode("utf-8", "surrogatepass")
        if case["kind"] == "bytes":
            half = len(data) // 2
            data = data[:half] + b"\xff\xfe" + data[half:]
        if case["kind"] != "missing":
            path.write_bytes(data)
        must_raise = case["raise"]
        if must_raise is None:
            must_raise = not case["argv"] or any(a in PACKAGING for a in case["argv"])
        # the model
        source = converted = problem = None
        if case["kind"] != "missing":
            try:
                source = data.decode("utf-8").strip()
            except UnicodeDecodeError:
                pass
        if source is not None:
            try:
                converted = html2rest(creole2html(source), unknown_emit=raise_unknown_node if must_raise else transparent_unknown_nodes)
            except Exception as err:
                problem = err
        what = f"get_long_description, raise_errors={case['raise']}, arguments {case['argv']}, source {short(source)}"
        # the call
        result = error = None
        sys.argv = ["setup.py"] + case["argv"]
        kw = {}
        if case["raise"] is not None or len(case["argv"]) % 2:
            kw["raise_errors"] = case["raise"]
        if case["name"] != "README.creole":
            kw["filename"] = case["name"]
        out = io.StringIO()
        with warnings.catch_warnings(), contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            warnings.simplefilter("ignore")
            try:
                result = get_long_description(base if case["path"] else str(base), **kw)
            except (Exception, SystemExit) as err:
                error = err
        sys.argv = argv
        if case["kind"] != "missing" and path.read_bytes() != data:
            fail(f"{what}: the source was changed")
        if sorted(p.name for p in base.iterdir()) != ([case["name"]] if case["kind"] != "missing" else []):
            fail(f"{what}: wrote other files: {sorted(p.name for p in base.iterdir())}")
        if not must_raise:
            if error is not None:
                fail(f"{what}: raised {error!r}")
            if converted is not None:
                labels.add("converted")
                if result != converted:
                    fail(f"{what}\nreturned {short(result, 1500)}\nexpected {short(converted, 1500)}")
            else:
                labels.add("reported")
                start, _, rest = result.partition("\n") if isinstance(result, str) else ("", "", "")
                if not isinstance(result, str) or not result.startswith("[Error: ") or not result.endswith("]\n" + (source or "")):
                    fail(f"{what}: an error must be reported before the source, but it returned {short(result, 1500)}")
                if problem is not None and result != f"[Error: {problem}]\n{source}":
                    fail(f"{what}: the error is {problem!r}, but it returned {short(result, 1500)}")
        else:
            refused = None
            if converted is not None:
                with contextlib.redirect_stderr(io.StringIO()):
                    try:
                        pypi_rest2html(converted)
                    except (Exception, SystemExit) as err:
                        refused = err
            if converted is None:
                labels.add("raised")
                if error is None:
                    fail(f"{what}: must fail, but returned {short(result, 1500)}")
                if isinstance(error, SystemExit):
                    fail(f"{what}: must raise the error of the conversion, {problem!r}, but it raised {error!r}")
                if problem is not None and (type(error) is not type(problem) or str(error) != str(problem)):
                    fail(f"{what}: must raise {problem!r}, but it raised {error!r}")
            elif refused is not None:
                labels.add("refused")
                if not isinstance(error, SystemExit) or not error.code:
                    fail(f"{what}\nthe ReSt is refused with {refused!r}, but the result is {error!r}, {short(result, 1500)}")
            else:
                labels.add("valid")
                if error is not None:
                    fail(f"{what}: raised {error!r}")
                if result != converted:
                    fail(f"{what}\nreturned {short(result, 1500)}\nexpected {short(converted, 1500)}")
        if source and len(source.split()) > 1:
            labels.add("nt")
        return labels
    finally:
        sys.argv = argv
        shutil.rmtree(base, ignore_errors=True)


# ---------------------------------------------------------------------------
# T09
# ---------------------------------------------------------------------------

def macro(text=None, **kw):
    return repr((text, sorted(kw.items())))


def bad(text=None):
    raise KeyError("boom")


def gen_t09_creole(src):
    kind = src.weighted([(3, 0), (3, 1), (2, 2)])
    if kind == 0:
        text = g.source(g.document(src, "blog", mean=3))
    elif kind == 1:
        text = creole_any.soup(src, mean=12)
    else:
        text = creole_any.macro_doc(src) + "\n\n" + creole_any.soup(src, mean=6)
    if src.p(0.3):
        text += "\n" + src.choice(creole_any.MACROS)
    return {"text": text, "blog": src.p(0.6), "strict": src.p(0.3), "macros": src.p(0.5), "verbose": src.weighted([(4, None), (1, 0), (1, 1), (1, 2), (1, 3)])}


def attempt(func, *args, **kw):
    """(result or exception as text, what was written)"""
    out, err = io.StringIO(), io.StringIO()
    with warnings.catch_warnings(), contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        warnings.simplefilter("ignore")
        try:
            result = ["result", func(*args, **kw)]
        except Exception as error:
            result = ["raised", type(error).__name__, str(error)]
    return result, out.getvalue(), err.getvalue()


def check_t09_creole(case):
    text = case["text"]
    base = {}
    if not case["blog"]:
        base["blog_line_breaks"] = False
    if case["strict"]:
        base["strict"] = True
    if case["macros"]:
        base["macros"] = {"m": macro, "foo": bad}
    if case["verbose"] is not None:
        base["verbose"] = case["verbose"]
    want, out, err = attempt(creole2html, text, **base)
    given = io.StringIO()
    variants = {
        "debug=True": {"debug": True},
        "debug=False": {"debug": False},
        "block_rules": {"block_rules": BlockRules(blog_line_breaks=case["blog"])},
        "stderr": {"stderr": given},
        "blog_line_breaks": {"blog_line_breaks": case["blog"]},
        "strict": {"strict": case["strict"]},
    }
    if not case["macros"]:
        variants["macros={}"] = {"macros": {}}
        variants["macros=None"] = {"macros": None}
    if case["verbose"] is None:
        variants["verbose=1"] = {"verbose": 1}
        variants["verbose=None"] = {"verbose": None}
    for name, kw in variants.items():
        got, out2, err2 = attempt(creole2html, text, **{**base, **kw})
        if got != want:
            fail(f"creole2html({text!r}, {base}): with {name} the result is\n{short(got, 1500)}\nnot\n{short(want, 1500)}")
        if name == "stderr":
            if err2 or bool(given.getvalue()) != bool(err):
                fail(f"creole2html({text!r}, {base}): writes {short(err)} to sys.stderr, but with an own stderr {short(given.getvalue())} to that, and {short(err2)} to sys.stderr")
    labels = {want[0]}
    if want[0] == "result" and want[1].count("<") > 2:
        labels.add("nt")
    if err:
        labels.add("traceback")
    return labels


def gen_t09_html(src):
    kind = src.weighted([(3, 0), (3, 1), (2, 2)])
    if kind == 0:
        return {"html": html_any.gen_h06(src)["html"]}
    if kind == 1:
        return {"html": html_any.gen_h07(src)["html"][:400]}
    return {"html": creole2html(g.source(g.document(src, "blog", mean=3)))}


def tree(node):
    return [node.kind, node.content, list(node.attrs.items()), node.level, [tree(c) for c in node.children]]


def check_t09_html(case):
    html = case["html"]
    labels = set()
    for name, func in CONVERTERS.items():
        want, out, err = attempt(func, html)
        variants = {"debug=True": {"debug": True}, "unknown_emit=None": {"unknown_emit": None},
                    "unknown_emit=transparent": {"unknown_emit": transparent_unknown_nodes}}
        if name == "creole":
            variants["strict=False"] = {"strict": False}
            if "width" not in html.lower() and "height" not in html.lower():
                variants["strict=True, without sizes,"] = {"strict": True}
        for variant, kw in variants.items():
            got, _, _ = attempt(func, html, **kw)
            if got != want:
                fail(f"html2{name}({html!r}): with {variant} the result is\n{short(got, 1500)}\nnot\n{short(want, 1500)}")
        labels.add(want[0])
    want, _, _ = attempt(lambda: tree(parse_html(html)))
    for what, func in (("with debug", lambda: tree(parse_html(html, debug=True))), ("of HtmlParser", lambda: tree(HtmlParser().feed(html))),
                       ("of HtmlParser with debug", lambda: tree(HtmlParser(debug=True).feed(html)))):
        got, _, _ = attempt(func)
        if got != want:
            fail(f"parse_html({html!r}): the tree {what} is\n{short(got, 1500)}\nnot\n{short(want, 1500)}")
    if html.count("<") > 2:
        labels.add("nt")
    return labels


PROPS = {
    "T08": {
        "rule": "generated READMEs, command lines and faults against a model made of the converters and the strict renderer",
        "assumptions": ["html2rest and pypi_rest2html are the reference; they are judged by H04, H14 and T02"],
        "subs": [
            Sub("longdesc", gen_t08, check_t08, quick=6000,
                rule="random READMEs, arguments and faults (missing file, bytes that are no UTF-8); non-trivial: more than one word"),
        ],
    },
    "T09": {
        "rule": "the same conversion with debug on, and with every default written out",
        "assumptions": ["stdout can take the diagnostics of the debug mode (it is captured here)"],
        "subs": [
            Sub("creole", gen_t09_creole, check_t09_creole, quick=6000,
                rule="creole documents and soups with and without macros; non-trivial: more than one element in the HTML"),
            Sub("html", gen_t09_html, check_t09_html, quick=5000,
                rule="HTML documents and tag soups; non-trivial: more than two tags"),
        ],
    },
}
