"""T05: conversions are independent of each other.

The worker process itself never converts anything: every history and every
reference result is computed in a fork of the still unused process.
"""

import io
import json
import os
import pickle
import signal
import sys
import threading
import types

from pbt import gencreole as g
from pbt import genhtml as gh
from pbt import texts
from pbt.engine import Sub
from pbt.sut import HANDLERS, fail, short

import creole
from creole import creole2html, html2creole, html2markdown, html2rest, html2textile
from creole.html_tools.deentity import Deentity
from creole.html_tools.strip_html import strip_html
from creole.parser.html_parser import HtmlParser
from creole.rest_tools.clean_writer import rest2html
from creole.rest_tools.pypi_rest2html import pypi_rest2html
from creole.shared import example_macros
from creole.shared.utils import dict2string, string2dict

OUT = {"html2creole": html2creole, "html2markdown": html2markdown, "html2rest": html2rest, "html2textile": html2textile}


def forked(func, timeout=60):
    """The result of func() in a fork of this process."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(timeout)
            try:
                data = pickle.dumps(func())
            except BaseException as err:      # an error of the harness
                data = pickle.dumps(("HARNESS", repr(err)))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return ("HARNESS", "no answer")
    return pickle.loads(data)


# ---------------------------------------------------------------------------
# operations
# ---------------------------------------------------------------------------

def shape(macros):
    """What a caller can see of the macros he passed"""
    if isinstance(macros, dict):
        return [(k, repr(type(v))) for k, v in macros.items()]
    return sorted((k, repr(type(v))) for k, v in vars(macros).items())


def nested_macro(how):
    def macro(text=None, **kw):
        text = text or ""
        if how == "creole":
            return creole2html(text, macros={"n": nested_macro("echo"), "toc2": nested_macro("html")})
        if how == "html":
            return html2creole(creole2html("* a\n** [[x|b]]\n|t|\n" + text))
        if how == "rest":
            return html2rest("<p><a href=\"/nested\">link</a> <img src=\"/n.png\" alt=\"image\"></p><ul><li>x</li></ul>")
        if how == "toc":
            return creole2html("<<toc>>\n= inner\n== in2\n")
        if how == "raise":
            raise KeyError("boom")
        return f"[{text}|{sorted(kw.items())}]"
    return macro


def nested_handler(emitter, node):
    inner = html2rest('<p><a href="/other">link</a></p><table><tr><td><a href="/o2">t</a></td></tr></table>')
    other = html2creole("<ul><li>a<ol><li>b</li></ol></li></ul><table><tr><td>x</td></tr></table>")
    return f"({node.kind}:{len(inner)}:{len(other)}:{emitter.emit_children(node)}:{html2markdown('<ol><li>q</li></ol>')})"


def perform(op):
    """Result of one operation as plain data; exceptions count as results."""
    kind = op["op"]
    extra = None
    try:
        if kind == "creole2html":
            macros = None
            if op.get("macros"):
                macros = {name: nested_macro(how) for name, how in op["macros"]}
                if op.get("bundled"):
                    macros.update(html=example_macros.html, pre=example_macros.pre, code=example_macros.code)
                if op.get("object"):
                    macros = types.SimpleNamespace(**macros)
            elif op.get("bundled"):
                macros = {"html": example_macros.html, "pre": example_macros.pre, "code": example_macros.code}
            before = shape(macros) if macros is not None else None
            err = io.StringIO()
            out = creole2html(op["text"], macros=macros, blog_line_breaks=op.get("blog", True), strict=op.get("strict", False),
                              verbose=op.get("verbose"), stderr=err)
            if macros is not None and shape(macros) != before:
                extra = f"the macros passed were changed from {before} to {shape(macros)}"
            err = err.getvalue()
            return ["ok", [out, bool(err)], extra]
        if kind in OUT:
            kw = {}
            if op.get("handler"):
                kw["unknown_emit"] = nested_handler if op["handler"] == "nested" else HANDLERS[op["handler"]]
            if op.get("strict") and kind == "html2creole":
                kw["strict"] = True
            return ["ok", OUT[kind](op["text"], **kw), None]
        if kind == "rest2html":
            return ["ok", rest2html(op["text"], **op.get("kwargs", {})), None]
        if kind == "pypi":
            return ["ok", pypi_rest2html(op["text"]), None]
        if kind == "string2dict":
            return ["ok", sorted(string2dict(op["text"]).items(), key=repr), None]
        if kind == "dict2string":
            d = dict(op["pairs"])
            before = list(d.items())
            out = dict2string(d)
            return ["ok", out, None if list(d.items()) == before else "the dict passed was changed"]
        if kind == "strip_html":
            return ["ok", strip_html(op["text"]), None]
        if kind == "deentity":
            return ["ok", Deentity().replace_all(op["text"]), None]
        if kind == "parse":
            def tree(node):
                return [node.kind, node.content, sorted(node.attrs.items()), node.level, [tree(c) for c in node.children]]
            return ["ok", tree(HtmlParser().feed(op["text"])), None]
        raise AssertionError(kind)
    except AssertionError:
        raise
    except BaseException as err:
        return ["raised", type(err).__name__, extra]


# ---------------------------------------------------------------------------
# generators
# ---------------------------------------------------------------------------

LINK_TEXTS = ["link", "foo", "image", "x", "toc"]


def small_creole(src):
    feats = ["f", "c", "a", "br", "img", "e"]
    kind = src.weighted([(4, 0), (3, 1)])
    if kind == 0:
        return g.source(g.document(src, "blog", blocks=["p", "h", "list", "table", "pre"], feats=feats, mean=2.0))
    parts = []
    for _ in range(src.rep(1, 6, 2.5)):
        parts.append(src.choice(["= head", "== head 2", "=== deep", "<<toc>>", "<<toc depth=1>>", "text <<m a=1>> t", "<<m a=1>>body<</m>>", "<<n>>\nblock\n<</n>>", "<<m2 x=\"a b\">>", "* a\n** b\n*# c",
                                 "# x", "|=a|b|\n|c|", "{{{\npre\n}}}", "[[/a|link]] [[/b|foo]]", "{{/i.png|image}}", "{{/i|t|1x2}}", "<<html>><x-y a=\"1\">u</x-y><</html>>", "<<code ext=\".py\">>\nx = 1\n<</code>>",
                                 "<<unknown>>", "<<m bad>>", "**bold", "----", "~*x", "http://a.b", "<<pre>><b><</pre>>", "a\\\\b"]))
    return src.choice(["\n", "\n\n"]).join(parts)


def small_html(src):
    parts = []
    for _ in range(src.rep(1, 6, 2.5)):
        label = src.choice(LINK_TEXTS)
        url = src.choice(["/a", "/b", "/c", "http://x.y/z"])
        parts.append(src.choice([
            f'<p><a href="{url}">{label}</a></p>', f'<p><img src="{url}" alt="{label}" /></p>', f'<table><tr><td><a href="{url}">{label}</a></td><th>h</th></tr></table>',
            "<ul><li>a</li><li>b<ol><li>c</li></ol></li></ul>", "<ol><li>x", "<table><tr><td>a", "<ul><li>u", "<pre>x\n y</pre>", "<pre>one</pre>", "<p>a &uuml; &#65; &#x41; &nope;</p>",
            "<x-y a=\"1\">u</x-y>", "<q>w</q>", "<h1>t</h1>", "<h7>t</h7>", "<p>a <b>b <i>c", "</p></ul>", "text", "<!-- c -->", "<br>", "<hr>", "<p>a<br />b</p>",
            "<table><tr><th>h</th></tr><tr><td>1</td></tr></table>", "<p><code>c</code></p>", "<table><tr><td><table><tr><td>in</td></tr></table></td></tr></table>", "<data>x</data>",
            "<p>" + " ".join(w.replace("<", "").replace("&", "") for w in (texts.raw_word(src), texts.raw_word(src))) + "</p>"]))
    return src.choice(["", "\n"]).join(parts)


def small_rest(src):
    parts = []
    for _ in range(src.rep(1, 6, 2.5)):
        parts.append(src.choice(["text *em* **strong**", "Head\n====", "Sub\n---", "Other\n~~~~", "- a\n- b", "1. x\n2. y", "`link <http://a.b>`_", "`link`_\n\n.. _link: http://c.d", ".. |i| image:: http://x/i.png\n\n|i|",
                                 "::\n\n    pre", "+--+--+\n|a |b |\n+--+--+", "bad *em", "`nope`_", ".. role:: red\n\n:red:`x`", "a :red:`y`", ".. role:: emphasis(strong)\n\n:emphasis:`x`", "a :emphasis:`y`", ".. default-role:: strong\n\n`x`", "a `y`", ".. raw:: html\n\n    <b>x</b>", "x [1]_\n\n.. [1] foot",
                                 ":field: value", ".. note:: n", ".. sectnum::", ".. title:: T", ".. class:: c\n\npara", "`x <javascript:a>`_", "text"]))
    return "\n\n".join(parts)


def operation(src):
    kind = src.weighted([(5, "creole2html"), (3, "html2creole"), (3, "html2rest"), (2, "html2markdown"), (2, "html2textile"), (2, "rest2html"),
                         (1, "pypi"), (2, "string2dict"), (1, "dict2string"), (1, "strip_html"), (1, "deentity"), (1, "parse")])
    op = {"op": kind}
    if kind == "creole2html":
        op["text"] = small_creole(src)
        options(src, op)
    elif kind in OUT:
        op["text"] = small_html(src)
        op["handler"] = src.choice([None, None, None, "nested", "html_macro", "pre_macro", "escape", "raise"])
        op["strict"] = src.p(0.2)
    elif kind in ("rest2html", "pypi"):
        op["text"] = small_rest(src)
        if kind == "rest2html" and src.p(0.2):
            op["kwargs"] = src.choice([{"initial_header_level": 3}, {"doctitle_xform": True}, {"report_level": 5}])
    elif kind == "string2dict":
        op["text"] = src.choice(["a=1", "a=1", "", 'x="a b"', "bad", "depth=1", "a=1 b=2", "ext=.py", "a=True"])
    elif kind == "dict2string":
        op["pairs"] = [[k, src.choice([1, "x", True, None])] for k in src.subset(["a", "b", "c"], 0.6)]
    else:
        op["text"] = small_html(src)
    return op


def options(src, op):
    """The other options of a creole2html call"""
    if src.p(0.6):
        op["macros"] = [[n, src.choice(["echo", "creole", "html", "rest", "toc", "raise"])] for n in src.subset(["m", "m2", "n"], 0.7)]
        op["object"] = src.p(0.4)
    op["bundled"] = src.p(0.4)
    op["blog"] = src.p(0.7)
    op["strict"] = src.p(0.2)
    op["verbose"] = src.choice([None, None, 0, 1, 2])


def related(src, op):
    """A call with the same text, or nearly the same, and other options"""
    new = {"op": op["op"], "text": op["text"]}
    how = src.weighted([(5, 0), (1, 1), (1, 2)])
    if how == 1:
        new["text"] += src.choice(["\n", " ", "x", "\n\n= end"])
    elif how == 2:
        new["text"] = new["text"].swapcase() if src.p(0.5) else new["text"].strip()
    if op["op"] == "creole2html":
        options(src, new)
    elif op["op"] in OUT:
        if src.p(0.5):
            new["op"] = src.choice(sorted(OUT))
        new["handler"] = src.choice([None, None, None, "nested", "html_macro", "pre_macro", "escape", "raise"])
        new["strict"] = src.p(0.2)
    elif op["op"] == "rest2html" and src.p(0.6):
        new["kwargs"] = src.choice([{"initial_header_level": 3}, {"doctitle_xform": True}, {"report_level": 5}])
    return new


def gen_history(src):
    ops = [operation(src) for _ in range(src.rep(2, 8, 4.0))]
    for op in ops:
        if "text" in op and op["op"] != "string2dict" and src.p(0.1):
            # as long as real documents
            op["text"] = src.choice(["\n\n", "\n"]).join([op["text"]] * (1 + 600 // (len(op["text"]) + 1)))
    for _ in range(src.between(0, 3)):
        op = src.choice(ops)
        if "text" in op and op["op"] != "string2dict":
            ops.append(related(src, op))
    order = [src.i(len(ops)) for _ in range(src.rep(2, 14, 7.0))]
    return {"ops": ops, "order": order}


_CACHE = {}


def reference(op):
    """The result of the operation in an unused process"""
    key = json.dumps(op, sort_keys=True)
    if key not in _CACHE:
        if len(_CACHE) > 5000:
            _CACHE.clear()
        _CACHE[key] = forked(lambda: quiet(lambda: perform(op)))
    return _CACHE[key]


def quiet(func):
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    return func()


def harness(result, case=None):
    if isinstance(result, tuple) and result and result[0] == "HARNESS":
        raise RuntimeError(f"{result[1]}: {case!r}")


def compare(ops, order, results, how):
    for n, k in enumerate(order):
        want = reference(ops[k])
        harness(want, ops[k])
        got = results[n]
        for r in (want, got):
            if r[2]:
                fail(f"{short(ops[k])}: {r[2]}")
        if want[:2] != got[:2]:
            before = [ops[j]["op"] for j in order[:n]]
            fail(f"{how}: operation {n} {short(ops[k], 900)}\nalone gives {short(want[:2], 900)}\nhere gives  {short(got[:2], 900)}\nbefore it: {before}")


def check_history(case):
    ops, order = case["ops"], case["order"]
    results = forked(lambda: quiet(lambda: [perform(ops[k]) for k in order]))
    harness(results, case)
    compare(ops, order, results, "in a history")
    labels = {ops[k]["op"] for k in order}
    if len(order) > len(set(order)) or len(labels) < len(order):
        labels.add("nt")
    return labels


# rest2html and pypi_rest2html run inside docutils, whose registries are not made for threads
THREAD_OPS = [(4, "creole2html"), (3, "html2creole"), (3, "html2rest"), (2, "html2markdown"), (2, "html2textile"), (1, "string2dict"), (1, "strip_html"), (1, "deentity"), (1, "parse")]


def gen_threads(src):
    ops = []
    while len(ops) < 2 or src.p(0.5) and len(ops) < 6:
        op = operation(src)
        if op["op"] not in ("rest2html", "pypi", "dict2string") and not op.get("bundled"):
            ops.append(op)
    return {"ops": ops, "threads": src.between(2, 5), "rounds": src.between(2, 5), "order": [src.i(len(ops)) for _ in range(12)]}


def check_threads(case):
    ops = case["ops"]
    plans = []
    for t in range(case["threads"]):
        plans.append([case["order"][(t * 5 + r * (t + 1)) % 12] for r in range(case["rounds"])])

    def run():
        sys.setswitchinterval(1e-6)
        results = [[None] * len(p) for p in plans]
        gate = threading.Barrier(len(plans))

        def work(t):
            gate.wait()
            for r, k in enumerate(plans[t]):
                results[t][r] = perform(ops[k])
        threads = [threading.Thread(target=work, args=(t,)) for t in range(len(plans))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        return results
    results = forked(lambda: quiet(run))
    harness(results, case)
    for t, plan in enumerate(plans):
        compare(ops, plan, results[t], f"in {len(plans)} threads")
    labels = {op["op"] for op in ops}
    return labels | {"nt"}


PROPS = {
    "T05": {
        "rule": "histories of conversions, each result compared with the same call in an unused process",
        "assumptions": ["docutils itself is not made for threads: rest2html and pypi_rest2html are checked in histories only",
                        "thread schedules are sampled (switch interval of one microsecond), not enumerated"],
        "subs": [
            Sub("history", gen_history, check_history, quick=3000,
                rule="random histories with macro and handler callbacks that convert themselves; non-trivial: a converter is used again"),
            Sub("threads", gen_threads, check_threads, quick=1200, rule="the same conversions in two to five threads at once"),
        ],
    },
}
