"""C10 and C12: macro calls, and failing macros."""

import collections
import functools
import io
import re
import types

from pbt import gencreole as g
from pbt import texts
from pbt.engine import Sub
from pbt.sut import creole2html, c2h, fail, short
from pbt.props.creole_any import eol_plan

NAMES = ["m", "mac", "macro", "html5", "x_1", "Größe", "toc2", "PRE", "a", "text_", "data", "M", "mm", "m1", "in", "code2", "_p", "list", "None", "n0", "é"]
KEYS = ["a", "b", "key", "ext", "depth", "class", "x1", "data-x", "a.b", "k:1", "ü", "K", "lang", "name", "args", "macro", "value", "_", "for", "self", "node", "result", "text"]
TYPED = {"True": True, "False": False, "None": None}


class Str(str):
    """As e.g. Django's SafeString"""


class MacroDict(dict):
    """A dict of its own class, as e.g. a registry"""


class Lazy:
    """Macros which are looked up when they are needed"""

    def __init__(self, table):
        self._lazy_table = table

    def __getattr__(self, name):
        try:
            return self._lazy_table[name]
        except KeyError:
            raise AttributeError(name) from None


def make_module(table):
    module = types.ModuleType("macros")
    vars(module).update(table)
    return module


FORMS = {
    "dict": dict,
    "object": lambda table: types.SimpleNamespace(**table),
    "dict of a subclass": MacroDict,
    "ordered dict": collections.OrderedDict,
    "module": make_module,
    "instance": lambda table: type("Macros", (), {name: staticmethod(func) for name, func in table.items()})(),
    "looked up": Lazy,
}
INTISH = re.compile(r"""[\s'"]*[+-]?[\d_\s'"]*\d[\d_\s'"]*$""")


def arg_value(src):
    for _ in range(4):
        kind = src.weighted([(5, 0), (3, 1), (2, 2), (2, 3), (1, 4), (1, 5)])
        if kind == 0:
            v = src.choice(texts.ASCII)
        elif kind == 1:
            v = src.choice(["1", "0", "42", "-7", "007", "123456789012345678901234567890", "10", "2"])
        elif kind == 2:
            v = src.choice(["True", "False", "None", "true", "none", "TRUE", "false", "NULL", "", "1.5", "0x10", "1e3", " ", "a=b", "=", "==", "\"q\"", "it's", "\\", "a\\b",
                            "\\\"", "\"", "'", "#x", "#", "a#b", "C:\\x", "/", "//", "a/", "|", "a|b", "**", "]]", "}}", "{{{", ">", "<", "&", "&amp;", "\t", "~"])
        elif kind == 3:
            v = " ".join(texts.raw_word(src) for _ in range(src.between(1, 4)))
        elif kind == 4:
            v = "".join(src.choice("ab \"'\\=/#<>|*&;~`$(){}[]!?,.-_") for _ in range(src.between(1, 10)))
        else:
            v = texts.random_word(src)
        if "<<" in v or ">>" in v or "\u2028" in v or v.endswith(">"):
            continue
        if INTISH.match(v) and not re.match(r"-?[0-9]+$", v):
            continue
        return v
    return "v"


def quote(src, v, body=False):
    styles = ["d"]
    if "'" not in v:
        styles.append("s")
    if re.match(r"[A-Za-z0-9_.:äü=-]+$" if not body else r"[A-Za-z0-9_.:äü=/+,?!%@$*()~;&-]+$", v):
        styles.append("b")
    style = src.choice(styles)
    if style == "d":
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if style == "s":
        return "'" + v + "'"
    return v


def typed(v):
    if v in TYPED:
        return TYPED[v]
    if re.match(r"-?[0-9]+$", v):
        return int(v)
    return v


def make_args(src, body=False):
    """body: the tag has a closing tag, so a slash at its end is part of the last value"""
    n = src.weighted([(3, 0), (3, 1), (3, 2), (1, 3), (1, 6)])
    parts, pairs = [], []
    for _ in range(n):
        key = src.choice(KEYS)
        v = arg_value(src)
        if body and src.p(0.15):
            v = src.choice(["/a/b/", "a/", "/", "/x", "http://a.b/", "a/b", "//", "a,b", "50%"])
        parts.append(key + "=" + quote(src, v, body))
        pairs.append([key, v])
    return src.choice([" ", " ", "  ", "\t"]).join(parts), pairs


def body_text(src, name, block):
    def piece():
        kind = src.weighted([(4, 0), (3, 1), (2, 2)])
        if kind == 0:
            t = " ".join(texts.raw_word(src) for _ in range(src.between(1, 4)))
        elif kind == 1:
            t = src.choice(["**b**", "//i//", "[[a|b]]", "{{{c}}}", "= h =", "* item", "|a|b|", "<b>html</b>", "&amp;", "\"q\" 'q'", "\\\\", "~*", "x > y", ">>", "<<other>>", "}}}", "----",
                            "http://a.b", "a|b", "<</other>>", "<<o a=1>>y<</o>>", "<", "{{i|t}}", "  indented"])
        else:
            t = texts.random_word(src)
        return t
    if src.p(0.08):
        return ""
    if not block:
        t = " ".join(piece() for _ in range(src.between(1, 3)))
    else:
        t = ""
        for _ in range(src.rep(1, 8, 2.5)):
            t += piece() + src.choice(["\n", "\n", "\n\n", " ", "\n  ", "\n\t"])
    t = t.replace("\u2028", " ")
    t = src.choice(["", " ", "\n" if block else " ", "\n\n" if block else "  "]) + t + src.choice(["", " ", "\n" if block else ""])
    if "<</" + name in t:
        return "x"
    return t


def make_macro(src, kind, tag_names, body_names):
    args, pairs = make_args(src, kind != "tag")
    if kind == "tag":
        name = src.choice(tag_names)
        if args:
            if args.endswith("/"):
                args += " "
            s = f"<<{name} {args}" + src.choice([">>", ">>", " >>", " />>", "/>>"])
            if re.search(r"/\s*/?>>$", s) and not s.endswith(("\"/>>", "'/>>", "\" />>", "' />>", "\">>", "'>>")):
                s = f"<<{name} {args}>>"
        else:
            s = f"<<{name}" + src.choice([">>", ">>", " >>", " />>", "/>>"])
        return {"kind": kind, "name": name, "pairs": pairs, "body": None, "src": s}
    name = src.choice(body_names)
    body = body_text(src, name, kind == "block")
    open_ = "<<" + src.choice(["", "", " "]) + name + (" " + args if args else "") + src.choice(["", "", " "]) + ">>"
    close = "<</" + src.choice(["", "", " "]) + name + src.choice(["", "", " "]) + ">>"
    return {"kind": kind, "name": name, "pairs": pairs, "body": body, "src": open_ + body + close}


def insert_inline(src, nodes, macro, k, cell=False, depth=0, faces=()):
    """Put an inline macro somewhere into the inline nodes; False if it does not fit."""
    ctx = g.Ctx(faces=faces)
    if faces and not ctx.raw_ok(macro["src"]):
        return False
    spots = [n for n in nodes if n[0] == "f"]
    if spots and src.p(0.4):
        f = src.choice(spots)
        if insert_inline(src, f[2], macro, k, cell, depth + 1, faces + (g.FACES[f[1]][0],)):
            return True
    pos = src.between(1, len(nodes)) if nodes else 0
    node = ["m", k]
    new = [["t", " "], node, ["t", " "]] if src.p(0.7) else [node]
    if new == [node]:
        # directly beside plain text only
        left = pos == 0 or (nodes[pos - 1][0] == "t")
        right = pos == len(nodes) or (nodes[pos][0] == "t")
        if not (left and right):
            new = [["t", " "], node, ["t", " "]]
    if pos == len(nodes) and new[-1] != node:
        new.append(["t", "z"])
    if pos == 0:
        new.insert(0, ["t", "z "])
    nodes[pos:pos] = new
    return True


def gen_doc(src, blocks=("p", "p", "h", "list", "table", "pre"), kinds=("tag", "inline", "block")):
    mode = src.choice(["blog", "wiki"])
    feats = src.subset(["f", "c", "a", "br", "img", "e"], 0.4)
    doc = []
    for b in g.document(src, mode, blocks=list(blocks), feats=feats, mean=2.5):
        doc.append(b)
    names = src.shuffled(NAMES)
    cut = src.between(1, 4)
    tag_names, body_names = names[:cut], names[cut:cut + src.between(1, 4)]
    macros = []
    for _ in range(src.rep(1, 10, 2.5)):
        kind = src.choice(kinds)
        mac = make_macro(src, kind, tag_names, body_names)
        k = len(macros)
        if kind == "block":
            pos = src.i(len(doc) + 1)
            doc[pos:pos] = [["blank", 1, ""], ["mb", k], ["blank", 1, ""]]
            macros.append(mac)
            continue
        hosts = [b for b in doc if b[0] in ("p", "list", "table")]
        if not hosts:
            doc += [["blank", 1, ""], ["p", [["t", "x "], ["m", k], ["t", " y"]], ""]]
            macros.append(mac)
            continue
        host = src.choice(hosts)
        if host[0] == "p":
            ok = insert_inline(src, host[1], mac, k)
        elif host[0] == "list":
            ok = insert_inline(src, src.choice(host[1])[3], mac, k)
        else:
            cell = src.choice(src.choice(host[1])[0])
            ok = insert_inline(src, cell[2], mac, k, cell=True)
        if ok:
            macros.append(mac)
    # a preformatted block or a macro body may not pair with the tags of another macro
    return {"doc": doc, "mode": mode, "macros": macros}


def resolve(doc, inline, block):
    """Copy of the document with the macro nodes replaced."""
    def nodes(ns):
        out = []
        for n in ns:
            if n[0] == "m":
                out.append(["m", inline(n[1])])
            elif n[0] == "f":
                out.append(["f", n[1], nodes(n[2])])
            else:
                out.append(n)
        return out
    res = []
    for b in doc:
        if b[0] == "p":
            res.append(["p", nodes(b[1]), b[2]])
        elif b[0] == "list":
            res.append(["list", [[a, i, gap, nodes(t), tr] for a, i, gap, t, tr in b[1]]])
        elif b[0] == "table":
            res.append(["table", [[[[h, l, nodes(c), r] for h, l, c, r in cells], closed, ind] for cells, closed, ind in b[1]]])
        elif b[0] == "mb":
            res.append(["raw", block(b[1])])
        else:
            res.append(b)
    return res


def order(doc):
    """Macro numbers in document order."""
    out = []
    resolve(doc, lambda k: out.append(k) or "", lambda k: out.append(k) or "")
    return out


def sources(case):
    ms = case["macros"]
    text = g.source(resolve(case["doc"], lambda k: ms[k]["src"], lambda k: ms[k]["src"]))
    plain = g.source(resolve(case["doc"], lambda k: f"MQx{k}xzQ", lambda k: "----"))
    return text, plain


def pieces(case, plain_html, seq):
    """The HTML around the macros, in order: len(seq)+1 texts (None: cannot be told apart)"""
    ms = case["macros"]
    rest = plain_html
    out = []
    for k in seq:
        mark = f"MQx{k}xzQ" if ms[k]["kind"] != "block" else "<hr />"
        if mark not in rest:
            return None
        a, rest = rest.split(mark, 1)
        out.append(a)
    out.append(rest)
    return out


def expected_call(mac):
    kw = {}
    for key, v in mac["pairs"]:
        kw[key] = typed(v)
    kw.pop("text", None)        # the body is handed over under this name
    return [mac["name"], kw, None if mac["body"] is None else mac["body"].strip()]


def same(a, b):
    return a == b and type(a) is type(b)


def check_calls(case, seq, calls, text):
    ms = case["macros"]
    want = [expected_call(ms[k]) for k in seq]
    if len(calls) != len(want):
        fail(f"{text!r}: {len(want)} macro calls written, {len(calls)} made: {short(calls)}")
    for w, c in zip(want, calls):
        if w[0] != c[0]:
            fail(f"{text!r}: expected a call of {w[0]!r}, got {c[0]!r}")
        if list(w[1]) != list(w[1]) or set(w[1]) != set(c[1]) or any(not same(w[1][x], c[1][x]) for x in w[1]):
            fail(f"{text!r}: macro {w[0]!r} got the arguments {c[1]!r}, written are {w[1]!r}")
        if not same(w[2], c[2]):
            fail(f"{text!r}: macro {w[0]!r} got the text {c[2]!r}, written is {w[2]!r}")


def gen_c10(src):
    case = gen_doc(src)
    case["results"] = [src.choice(["r", "<b>x</b>", "&", "<<t>>", "a\nb", "", "\"", "<br />", "[[x]]", "**", "\\\\", " ", "é中", "<p>", "  \n ", "x ", " x", "x\n", "\n\nx", "\tx\n\n"]) for _ in case["macros"]]
    if src.p(0.3):
        case["form"] = src.choice(list(FORMS)[2:])
    if src.p(0.15):
        case["str"] = True
    if src.p(0.5):
        case["bare"] = True
    return case


def check_c10(case):
    text, plain = sources(case)
    seq = order(case["doc"])
    ms = case["macros"]
    blog = case["mode"] == "blog"
    plain_html = c2h(plain, blog_line_breaks=blog)
    outs = []
    kind = Str if case.get("str") else str
    forms = ["dict", "object"] + [x for x in [case.get("form")] if x]
    for form in forms:
        calls = []

        def result(n):
            if case.get("bare"):
                return case["results"][seq[n]]
            return f"⟦{n}{case['results'][seq[n]]}⟧"

        def recorder(name):
            def macro(text=None, **kw):
                calls.append([name, kw, text])
                n = len(calls) - 1
                return kind(result(n)) if n < len(seq) else "⟦?⟧"
            return macro
        table = {name: recorder(name) for name in {mm["name"] for mm in ms}}
        html = c2h(text, blog_line_breaks=blog, macros=FORMS[form](table))
        check_calls(case, seq, calls, text)
        outs.append(html)
        around = pieces(case, plain_html, seq)
        if around is None:
            fail(f"{plain!r}: a word or rule is missing in {plain_html!r}")
        want = around[0]
        for n, k in enumerate(seq):
            want += result(n) + around[n + 1]
        if html.strip() != want.strip():
            fail(f"{text!r}: macro results not verbatim in place\nexpected {want!r}\ngot      {html!r}")
    for form, out in zip(forms, outs):
        if outs[0] != out:
            fail(f"{text!r}: macros as dict give\n{outs[0]!r}\nas {form}\n{out!r}")
    labels = {m["kind"] for m in ms}
    if any(m["pairs"] for m in ms):
        labels.add("args")
    if ms and (len(ms) > 1 or "args" in labels):
        labels.add("nt")
    return labels


def gen_c10_args(src):
    """One tag, many arguments"""
    form = src.choice(["tag", "inline", "block"])
    args, pairs = make_args(src, form != "tag")
    for _ in range(src.between(0, 2)):
        a, p = make_args(src, form != "tag")
        if a:
            args = args + " " + a if args else a
            pairs += p
    return {"args": args, "pairs": pairs, "form": form, "name": src.choice(NAMES)}


def check_c10_args(case):
    args, name = case["args"], case["name"]
    sep = " " if args else ""
    body = None
    if case["form"] == "tag":
        text = f"x <<{name}{sep}{args} >>"
        if args.endswith("/"):
            return set()
    else:
        body = "b"
        text = ("x " if case["form"] == "inline" else "") + f"<<{name}{sep}{args}>>b<</{name}>>"
    calls = []

    def macro(text=None, **kw):
        calls.append([name, kw, text])
        return ""
    c2h(text, macros={name: macro})
    fake = {"macros": [{"name": name, "pairs": case["pairs"], "body": body}]}
    check_calls(fake, [0], calls, text)
    return {"nt", case["form"]} if case["pairs"] else set()


C10 = [
    Sub("documents", gen_c10, check_c10, quick=9000, thorough=300000,
        rule="documents with recorded macros in paragraphs, typefaces, items, cells and as blocks; non-trivial: several calls or arguments"),
    Sub("arguments", gen_c10_args, check_c10_args, quick=8000,
        rule="one call with arguments in every quoting style; non-trivial: has arguments"),
]

# --- C12 -------------------------------------------------------------------


class Custom(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)


class CustomType(TypeError):
    def __init__(self, code, reason):
        super().__init__(f"{reason} ({code})")


RAISES = {
    "value": ValueError("bad value"), "key": KeyError("k"), "zero": ZeroDivisionError("division by zero"), "assert": AssertionError(),
    "html": RuntimeError("<b>&\"x\""), "attr": AttributeError("no attr"), "unicode": UnicodeDecodeError("utf-8", b"\xff", 0, 1, "bad"),
    "custom": Custom("a", "b"), "os": OSError(2, "No such file"), "stop": StopIteration("s"), "lookup": IndexError("i"), "percent": ValueError("100% {x} %s %(y)s"),
    "name": NameError("n"), "recursion": RecursionError("deep"), "import": ImportError("mod"), "notimpl": NotImplementedError("x"), "multi": ValueError("two\nlines"),
    "uni": ValueError("Größe 中"), "empty": Exception(), "syntax": SyntaxError("s"), "memory": MemoryError("m"), "timeout": TimeoutError("t"), "eof": EOFError("e"),
}
RESULTS = {"none": None, "int": 5, "bytes": b"<b>", "list": ["x"], "bool": True, "float": 1.5, "dict": {"a": "<i>"}, "obj": object}
BROKEN = ["unknown", "malformed", "mismatch", "result", "raise", "typeerror", "notcallable"]
MALFORMED = ["x", "a b", "a=\"b", "a='b", "=a\" b", "x=1 y", "\"x\"", "a=1 'b", "-", "x=1 =\"", "foo bar=1", "\\", "a=b\\"]


def gen_c12(src):
    case = gen_doc(src)
    n = 0
    broken = {}
    for k in range(len(case["macros"])):
        if src.p(0.6) or k == 0:
            kind = src.choice(BROKEN)
            detail = ""
            if kind == "raise":
                detail = src.choice(sorted(RAISES))
            elif kind == "result":
                detail = src.choice(sorted(RESULTS))
            elif kind == "malformed":
                detail = src.choice(MALFORMED)
            elif kind in ("mismatch", "typeerror"):
                detail = src.choice(["function", "lambda", "partial", "object", "method", "builtin", "exec", "class"])
            broken[str(k)] = [kind, detail]
            n += 1
    # every broken macro gets a name of its own
    for k, mac in enumerate(case["macros"]):
        old = mac["name"]
        new = (f"ok{k}" if str(k) not in broken else f"bad{k}") + src.choice(["", "_", "é"])
        if mac["body"] is None:
            mac["src"] = "<<" + new + mac["src"][2 + len(old):]
        else:
            mac["src"] = re.sub(r"^<<(\s*)" + re.escape(old), lambda m: "<<" + m.group(1) + new, mac["src"])
            mac["src"] = re.sub(r"<</(\s*)" + re.escape(old) + r"(\s*)>>$", lambda m: "<</" + m.group(1) + new + m.group(2) + ">>", mac["src"])
        mac["name"] = new
        if str(k) in broken and broken[str(k)][0] == "malformed":
            bad = broken[str(k)][1]
            if mac["kind"] == "tag":
                mac["src"] = f"<<{new} {bad}>>"
            else:
                mac["src"] = f"<<{new} {bad}>>{mac['body']}<</{new}>>"
            mac["pairs"] = []
    case["broken"] = broken
    case["verbose"] = src.choice([0, 1, 2, 2, None])
    case["form"] = src.choice(["dict", "object"])
    return case


def broken_macro(kind, detail, calls, name):
    if kind == "notcallable":
        return 5
    if kind == "result":
        value = RESULTS[detail]

        def macro(**kw):
            calls.append(name)
            return value
        return macro
    if kind == "raise":
        def macro(**kw):
            calls.append(name)
            raise RAISES[detail]
        return macro

    def bad(**kw):
        if detail in ("lambda", "exec"):
            raise CustomType(3, "wrong")
        raise TypeError("wrong <type>")

    def mismatch(needed_argument, other):
        return "never"
    func = bad if kind == "typeerror" else mismatch
    if detail == "lambda":
        if kind == "typeerror":
            return lambda **kw: func(**kw)
        return lambda needed_argument: "never"
    if detail == "partial":
        return functools.partial(func)
    if detail == "object":
        class Callable:
            def __call__(self, **kw):
                return func(**kw)
        return Callable()
    if detail == "method":
        class Holder:
            def method(self, needed_argument=None, *, text=None, **kw):
                return func(**kw)
        return Holder().method
    if detail == "builtin":
        return len
    if detail == "exec":
        ns = {}
        exec("def f(needed_argument_x, other): return 'never'", ns)
        return ns["f"]
    if detail == "class":
        class Klass:
            def __init__(self, needed_argument_x, other):
                pass
        return Klass
    return func


def check_c12(case):
    text, plain = sources(case)
    seq = order(case["doc"])
    ms = case["macros"]
    blog = case["mode"] == "blog"
    plain_html = c2h(plain, blog_line_breaks=blog)
    calls = []
    err = io.StringIO()
    table = {}
    for k, mac in enumerate(ms):
        b = case["broken"].get(str(k))
        name = mac["name"]
        if b is None:
            def ok(name=name, **kw):
                calls.append(name)
                return f"⟦{name}⟧"
            table[name] = functools.partial(lambda _name, **kw: calls.append(_name) or f"⟦{_name}⟧", name)
        elif b[0] != "unknown":
            table[name] = broken_macro(b[0], b[1], calls, name)
    macros = table if case["form"] == "dict" else types.SimpleNamespace(**table)
    import sys
    saved = sys.stderr
    sys.stderr = io.StringIO()
    try:
        html = c2h(text, blog_line_breaks=blog, macros=macros, verbose=case["verbose"], stderr=err)
        leaked = sys.stderr.getvalue()
    finally:
        sys.stderr = saved
    if leaked:
        fail(f"{text!r}: written to sys.stderr instead of the given stream: {short(leaked)}")
    ok_calls = [ms[k]["name"] for k in seq if str(k) not in case["broken"]]
    if [c for c in calls if c.startswith("ok")] != ok_calls:
        fail(f"{text!r}: the working macros {ok_calls} were called as {calls}")
    around = pieces(case, plain_html, seq)
    if around is None:
        fail(f"{plain!r}: a word or rule is missing in {plain_html!r}")
    verbose = 1 if case["verbose"] is None else case["verbose"]
    pos = 0

    def bad(what):
        fail(f"{text!r} verbose={case['verbose']}: {what}\naround: {around!r}\ngot: {html!r}\nat: {html[pos:pos + 80]!r}")

    def skip():
        nonlocal pos
        while pos < len(html) and html[pos].isspace():
            pos += 1
    for n in range(len(around)):
        piece = around[n].strip()
        skip()
        if not html.startswith(piece, pos):
            bad(f"the document around the macros changed, expected {piece!r}")
        pos += len(piece)
        skip()
        if n == len(seq):
            break
        k = seq[n]
        name = ms[k]["name"]
        if str(k) not in case["broken"]:
            if not html.startswith(f"⟦{name}⟧", pos):
                bad(f"the result of {name} is missing")
            pos += len(name) + 2
        elif verbose:
            # the note ends at the first "]" line end before the document goes on
            m = re.compile(r"\[Error: (?:(?!\[Error: |⟦)(?:.|\n))*?\]\n").match(html + "\n", pos)
            if not m or not re.search(r"(?<!\w)" + re.escape(name) + r"(?!\w)", m.group()):
                bad(f"no error note naming {name}")
            pos = min(m.end(), len(html))
    if pos != len(html):
        bad("something follows")
    trace = err.getvalue()
    if verbose <= 1 and trace:
        fail(f"{text!r}: verbose={case['verbose']} wrote to the error stream: {short(trace)}")
    if verbose > 1 and any(b[0] in ("raise", "typeerror", "mismatch") for b in case["broken"].values()) and "Traceback" not in trace and seq:
        fail(f"{text!r}: verbose={case['verbose']} wrote no traceback")
    labels = {b[0] for b in case["broken"].values()} | {f"verbose {case['verbose']}", case["form"]}
    if seq and case["broken"]:
        labels.add("nt")
    return labels


def gen_c12_raise(src):
    return {"detail": src.choice(["function", "lambda", "partial", "object", "builtin", "exec", "class"]), "kind": src.choice(["mismatch", "raise", "unknown", "malformed", "result"]),
            "verbose": src.choice([2, 3, 4, 10]), "what": src.choice(sorted(RAISES)), "pos": src.choice(["a <<bad>> b", "<<bad>>\nx\n<</bad>>", "* <<bad>>", "x <<bad>>y<</bad>>"])}


def check_c12_raise(case):
    """Argument mismatches are raised again above verbosity 2, nothing else is."""
    kind, verbose = case["kind"], case["verbose"]
    text = case["pos"]
    if kind == "malformed":
        text = text.replace("<<bad>>", "<<bad x>>", 1)
    table = {}
    if kind == "raise":
        table["bad"] = broken_macro("raise", case["what"], [], "bad")
    elif kind == "result":
        table["bad"] = broken_macro("result", "int", [], "bad")
    elif kind == "mismatch":
        table["bad"] = broken_macro("mismatch", case["detail"], [], "bad")
    err = io.StringIO()
    try:
        html = creole2html(text, macros=table, verbose=verbose, stderr=err)
    except TypeError:
        if kind == "mismatch" and verbose > 2:
            return {"nt", "raised"}
        fail(f"{text!r} with {case!r}: TypeError raised")
    except Exception as exc:
        fail(f"{text!r} with {case!r}: {exc!r} raised")
    if kind == "mismatch" and verbose > 2:
        fail(f"{text!r} with {case!r}: the argument mismatch is not raised")
    if "[Error: " not in html or "bad" not in html:
        fail(f"{text!r} with {case!r}: no error note in {html!r}")
    return {"nt", kind}


C12 = [
    Sub("documents", gen_c12, check_c12, quick=8000, thorough=250000,
        rule="documents whose macros fail in every way beside working ones; non-trivial: at least one failing macro in the document"),
    Sub("raising", gen_c12_raise, check_c12_raise, quick=800,
        rule="one failing macro at verbosity above 1; all non-trivial"),
]

PROPS = {
    "C10": {"subs": C10, "rule": "documents with recorded macro calls; calls compared with what was written, HTML with that of placeholders", "assumptions": [
        "a macro name used as a single tag is not also used with a body in the same document (ambiguous)"]},
    "C12": {"subs": C12, "rule": "documents with failing macros compared with the same documents holding placeholders", "assumptions": [
        "exceptions outside Exception (KeyboardInterrupt, SystemExit) are not contained"]},
}
