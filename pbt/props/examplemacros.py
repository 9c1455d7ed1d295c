"""T07: the bundled macros."""

import re

from pbt import htmltree as ht
from pbt import texts
from pbt.engine import Sub
from pbt.sut import c2h, call, fail, short

from pygments import lexers
from pygments.util import ClassNotFound

from creole.shared import example_macros

LANGUAGES = ["py", "python", "js", "html", "xml", "css", "sh", "bash", "c", "cpp", "java", "json", "yaml", "ini", "sql", "diff", "rst", "tex", "php",
             "rb", "go", "rs", "pl", "lua", "make", "txt", "text", "md", "pycon", "console", "dos", "vim", "scheme", "hs", "mysql", "jinja", "html+jinja",
             "", "xyz", "nosuchlanguage", "1", "7", "..", ".", "a.b.c", "Ü", "None", "guess", "-", "html+", "PY", " py ", "*", "py/", "x y", "\\", "'", "True"]


def code_line(src):
    kind = src.weighted([(5, 0), (3, 1), (2, 2), (2, 3)])
    if kind == 0:
        return src.choice(["def f(x):", "    return x < 1 and x > 2", "if (a && b) { c(); }", "<b class=\"x\">&amp;</b>", "# comment <i>", "SELECT * FROM t WHERE a<>'b';", "'unterminated",
                           "\"\"\"doc", "/* open", "*/", "<!-- c -->", "<script>alert(1)</script>", "{% for x in y %}", "$x = \"a\";", ">>> print(1)", "Traceback (most recent call last):",
                           "key = value", "- item", "* item", "#!/bin/sh", "<?php echo 1; ?>", "\\begin{x}", "--- a", "+++ b", "@@ -1 +1 @@", "| a | b |", "~", "&lt;", "&#60;", "`x`", "**b**",
                           "//i//", "[[l]]", "{{i}}", "{{{", "}}}", "a\\\\b", "= h =", "\t\ttabs", "  two  blanks", "x" * 200, "é中😀", "\u00a0nbsp", "&nbsp;", "</pre>", "</code>", "<br />", "%s", "{0}"])
    if kind == 1:
        return " ".join(texts.raw_word(src) for _ in range(src.between(1, 5)))
    if kind == 2:
        return "".join(src.choice("ab <>&\"'\\/*#{}[]()=+-;:.,!?%$@^~|`_0 1") for _ in range(src.between(0, 20)))
    return ""


def code_text(src):
    lines = [code_line(src) for _ in range(src.rep(1, 30, 4.0))]
    return "\n".join(lines)


def usable(text, name):
    """May the text stand in a macro body?"""
    return "<</" not in text and "\r" not in text


def shown(html, what):
    """The text a browser shows for this fragment; only highlighting elements may occur."""
    try:
        tree = ht.parse(html)
    except Exception as err:
        fail(f"{what}: {short(html)} is no balanced HTML: {err}")
    for tag, attrs, children in ht.walk(tree):
        if tag not in ("div", "pre", "span", "br"):
            fail(f"{what}: the text became an element <{tag}>: {short(html)}")
        for name in attrs:
            if name not in ("class", "style"):
                fail(f"{what}: the text became an attribute {name}: {short(html)}")
    return tree


def plain(tree):
    return ht.text_of(tree)


def kept_by_pygments(ext, text):
    """Some lexers lose or reorder text themselves, e.g. pycon with an unfinished traceback"""
    for name in (ext.strip("."), None):
        try:
            lexer = lexers.guess_lexer(text) if name is None else lexers.get_lexer_by_name(name)
        except ClassNotFound:
            continue
        if "".join(value for _, value in lexer.get_tokens(text)).strip("\n") != text.strip("\n"):
            return False
        if name is not None:
            break
    return True


def gen_macro(src):
    return {"text": code_text(src), "ext": ("." if src.p(0.4) else "") + src.choice(LANGUAGES), "macro": src.choice(["pre", "code", "code", "html"])}


def expect(macro, text, html, what):
    if macro == "html":
        if html != text:
            fail(f"{what} returned {short(html)}")
    elif macro == "pre":
        tree = shown(html, what)
        if len(tree) != 1 or isinstance(tree[0], str) or tree[0][0] != "pre" or any(not isinstance(c, str) for c in tree[0][2]):
            fail(f"{what} is not one pre element: {short(html)}")
        if plain(tree) != text:
            fail(f"{what} shows {short(plain(tree))}")
    else:
        # every line end became "<br />\n"; blank lines around the code have no meaning
        tree = shown(html, what)
        got = plain(tree)
        if got.strip("\n") != text.strip("\n") and not (got.strip() == "" == text.strip()):
            fail(f"{what}\nshows  {short(got)}\nwritten {short(text)}")
        breaks = sum(1 for tag, _, _ in ht.walk(tree) if tag == "br")
        if breaks != html.count("\n"):
            fail(f"{what}: {breaks} line breaks for {html.count(chr(10))} line ends: {short(html)}")


def check_macro(case):
    macro, text, ext = case["macro"], case["text"], case["ext"]
    if macro == "code":
        if not kept_by_pygments(ext, text):
            return {"lexer"}
        html = call(example_macros.code, ext, text)
        what = f"code({ext!r}, {short(text)})"
    else:
        html = call(getattr(example_macros, macro), text)
        what = f"{macro}({short(text)})"
    if not isinstance(html, str):
        fail(f"{what} returned {html!r}")
    expect(macro, text, html, what)
    return {macro} | ({"nt"} if set(text) & set("<>&\"") else set())


def gen_doc(src):
    parts = []
    for _ in range(src.rep(1, 5, 2.0)):
        macro = src.choice(["pre", "code", "html"])
        text = code_text(src)
        while not usable(text, macro):
            text = text.replace("<</", "< </").replace("\r", "")
        ext = src.choice([x for x in LANGUAGES if not set(x) & set("\\'\"<>")])
        parts.append([macro, ext, text, src.choice(["block", "inline", "quoted"])])
    return {"parts": parts, "eol": src.choice(["\n", "\n", "\r\n", "\r"]), "blog": src.p(0.5), "object": src.p(0.5)}


MARK = re.compile(r"⟦(\d+)⟧")


def check_doc(case):
    # each macro stands between two words, the results are cut out there
    source = ""
    for k, (macro, ext, text, form) in enumerate(case["parts"]):
        args = ""
        if macro == "code":
            args = f' ext="{ext}"' if form == "quoted" or not re.match(r"[\w.+-]+$", ext) else f" ext={ext}"
        if form == "inline":
            body = " ".join(text.split("\n"))
            if "}}}" in body or "{{{" in body:
                body = body.replace("{{{", "{ {").replace("}}}", "} }")
            case["parts"][k][2] = body
            source += f"w ⟦{k}⟧<<{macro}{args}>>{body}<</{macro}>>⟦{k}⟧ w\n\n"
        else:
            source += f"<<html>>⟦{k}⟧<</html>>\n<<{macro}{args}>>\n{text}\n<</{macro}>>\n<<html>>⟦{k}⟧<</html>>\n\n"
    macros = example_macros if case["object"] else {"html": example_macros.html, "pre": example_macros.pre, "code": example_macros.code}
    source = source.replace("\n", case["eol"])
    html = c2h(source, macros=macros, blog_line_breaks=case["blog"])
    pieces = MARK.split(html)
    found = {}
    for n in range(1, len(pieces) - 1, 2):
        if pieces[n] == pieces[n + 2 if n + 2 < len(pieces) else n]:
            found.setdefault(int(pieces[n]), pieces[n + 1])
    for k, (macro, ext, text, form) in enumerate(case["parts"]):
        what = f"macro {macro} {ext!r} with {short(text)} in {short(source, 900)}"
        if k not in found:
            fail(f"{what}: not in place in {short(html, 900)}")
        out = found[k]
        if "[Error:" in out and "[Error:" not in text:
            fail(f"{what}: reports an error: {short(out)}")
        if macro == "html":
            out = out.strip()
        elif form != "inline":
            # what the document puts between the blocks
            out = out.removeprefix("\n").removesuffix("\n")
        if macro != "code" or kept_by_pygments(ext, text.strip()):
            expect(macro, text.strip(), out, what)
    return {p[0] for p in case["parts"]} | {"nt"}


PROPS = {
    "T07": {
        "rule": "random code and text through the bundled macros; what a browser shows is compared with the text",
        "assumptions": ["blank lines around highlighted code have no meaning (Pygments drops them)",
                        "texts which the lexer of Pygments itself loses or reorders are left out (unfinished tracebacks in console sessions)"],
        "subs": [
            Sub("macro", gen_macro, check_macro, quick=12000, rule="direct calls with any language name; non-trivial: text with characters special in HTML"),
            Sub("document", gen_doc, check_doc, quick=8000, rule="documents using the macros: every result verbatim in place and no error note"),
        ],
    },
}
