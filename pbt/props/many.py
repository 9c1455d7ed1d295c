"""Documents with very many similar parts: the parts do not depend on their number.

A document is head + N units + tail, where every unit is the same but for a
number.  What N units become is predicted from what 6 and 7 units become: the
texts between the numbers occur as often as they must, and the numbers are in
order.  What few units become is the business of the other checks of the
property; these here reach the counts (of rows, links, blocks, words) which
documents of a usual size do not have.
"""

import re
from collections import Counter

from pbt.engine import Sub
from pbt.sut import call, convert_any, fail, short

A, B = 6, 7
TOKEN = re.compile(r"w(\d{5})q")
SIZES = [40, 70, 101, 130, 180, 260, 300, 400, 520, 700, 1030]


def build(case, n):
    return case["head"] + case.get("sep", "").join(case["unit"].replace("@", "w%05dq" % k) for k in range(1, n + 1)) + case["tail"]


def runs(seq, n):
    """Multiplicities of the ascending runs 1..n, or None"""
    out, pos = [], 0
    while pos < len(seq):
        m = 0
        while pos + m < len(seq) and seq[pos + m] == 1:
            m += 1
        if not m or seq[pos:pos + m * n] != [k for k in range(1, n + 1) for _ in range(m)]:
            return None
        out.append(m)
        pos += m * n
    return out


def parse(text):
    parts = TOKEN.split(text)
    return Counter(parts[::2]), [int(x) for x in parts[1::2]]


def check_with(func):
    def check(case):
        n = case["n"]
        results = []
        for count in (A, B, n):
            source = build(case, count)
            out = func(case, source)
            if out is None:
                return set()
            results.append((parse(out), out))
        ((sa, qa), outa), ((sb, qb), _), ((sn, qn), out) = results
        labels = {case["what"]}
        what = f"{case['what']}({case['head']!r} + {n} * {case['unit']!r} + {case['tail']!r})\n = {short(out, 1500)}"
        if n < B:
            return labels
        want = Counter()
        for seg in set(sa) | set(sb) | set(sn):
            count = sa[seg] + (n - A) * (sb[seg] - sa[seg])
            if count != sn[seg]:
                fail(f"{what}\n has {sn[seg]} times {short(seg)} between the numbers, expected {count} (with {A}: {sa[seg]}, with {B}: {sb[seg]})")
            want[seg] = count
        ra, rb = runs(qa, A), runs(qb, B)
        if ra is not None and ra == rb:
            if runs(qn, n) != ra:
                fail(f"{what}\n has the numbers in another order: {short(qn)}")
            labels.add("ordered")
        elif Counter(Counter(qn).values()).keys() - Counter(Counter(qb).values()).keys():
            fail(f"{what}\n some parts are missing or doubled")
        return labels | {"nt"}
    return check


def html_case(src, what, containers):
    head, units, sep, tail = src.choice(containers)
    unit = sep.join(src.choice(units) for _ in range(src.between(1, 3)))
    n = src.choice(SIZES)
    n = max(B + 1, n // max(1, len(unit) // 60))
    if "<<" in unit:
        n = min(n, 60)         # the time grows with the third power of the number of macros without an end
    if src.p(0.3):
        head, tail = src.choice(BEFORE[what != "creole2html"]) + head, tail + src.choice(AFTER[what != "creole2html"])
    return {"what": what, "head": head, "unit": unit, "sep": sep, "tail": tail, "n": n}


BEFORE = [["\n\nfirst\n\n", "= first\n\n", "* first\n\n"], ["<p>first</p>\n", "<h2>first</h2>\n", "<ul><li>first</li></ul>\n<p>second</p>\n"]]
AFTER = [["\n\nlast", "\n\n----\n\nlast", "\n\n=== last"], ["\n<p>last</p>", "\n<h2>last</h2>", "\n<p>last</p><ul><li>last</li></ul>"]]


def creole_macros():
    return {"m": lambda text=None, **kw: f"[m {sorted(kw.items())} {text}]", "s": lambda **kw: f"[s {sorted(kw.items())}]",
            "bad": lambda **kw: 1 / 0}


def run_creole(case, source):
    import io
    from creole import creole2html
    return call(creole2html, source, macros=creole_macros() if case.get("macros") else None, blog_line_breaks=case["blog"],
                stderr=io.StringIO(), verbose=1)


def creole_sub(containers, macros=False, quick=160):
    def gen(src):
        case = html_case(src, "creole2html", containers)
        case["blog"] = src.p(0.6)
        case["macros"] = macros
        return case
    return Sub("many", gen, check_with(run_creole), quick=quick, rule="more than 7 units")


def run_html(case, source):
    out = convert_any(case["what"], source)
    if out is not None and "<table" in source:      # the width of a column
        out = re.sub(r"(?m)^(\| -+ )+\|$", "|-|", re.sub(r"(\+[-=]+)+\+", "+-+", re.sub(r" +", " ", out)))
    return out


def html_sub(containers, names=("creole", "markdown", "rest", "textile"), quick=160):
    def gen(src):
        return html_case(src, src.choice(list(names)), containers)
    return Sub("many", gen, check_with(run_html), quick=quick, rule="more than 7 units")


def rest_sub(containers, quick=80):
    def run(case, source):
        from creole.rest_tools.clean_writer import rest2html
        from creole.rest_tools.pypi_rest2html import pypi_rest2html
        return call({"rest2html": rest2html, "pypi_rest2html": pypi_rest2html}[case["what"]], source)

    def gen(src):
        case = html_case(src, src.choice(["rest2html", "rest2html", "pypi_rest2html"]), [c for c in containers])
        if case["sep"] == " ":
            case["n"] = min(case["n"], 8000 // (len(case["unit"]) + 20))      # docutils has a limit for the length of a line
        for key, old in (("head", BEFORE[1]), ("tail", AFTER[1][::-1])):
            for part in old:
                case[key] = case[key].replace(part, "")
        return case
    return Sub("many", gen, check_with(run), quick=quick, rule="more than 7 units")


# (head, units, separator, tail)
C_TEXT = [("", ["a @", "**b** @", "//i @ i//", "##m @##", "**//x @//** y", "{{{c @}}}", "@^^2^^", "__u__ @", "--d @--", "a @\\\\b"], "\n\n", ""),
          ("", ["a @", "**b** @", "//i @ i//", "##m @##", "{{{c @}}}", "x @ y^^2^^", "__u__ @", "--d @--", "@\\\\b"], " ", ""),
          ("", ["a @", "**b** @", "//i @ i//", "##m @##", "{{{c @}}}", "x @ y,,2,,"], "\n", ""),
          ("**", ["a @", "//i @ i//", "##m @##", "{{{c @}}}"], " ", "** end")]
C_LIST = [("", ["* @", "* @\n** b @", "* @ x\n*# b @", "* **b** @", "* @\n** x\n*** y @\n** z", "* [[@|b]]"], "\n", ""),
          ("", ["# @", "# @\n## b @", "# @ x\n#* b @", "# //b @//"], "\n", ""),
          ("a\n", ["* @", "* @ b\n** c @"], "\n", "\nb"),
          ("", ["* @\n** a", "# @\n## x @"], "\n\np @\n\n", ""),
          ("* ", ["a @", "**b** @", "{{{c @}}}", "a\\\\@"], " ", "\n* b"),
          ("* top\n", ["** @", "** @\n*** c", "*# @"], "\n", "")]
C_TABLE = [("|=a|=b|\n", ["|@|b|", "|=@|=b @|", "|@| |", "||@|c|", "|**a** @|{{{x|y}}}|", "|[[@|b]]|c", "|a\\\\@|"], "\n", ""),
           ("|", ["@|", "=@|", "**a** @|", " @ | |", "[[x|@]]|", "{{a.png|@}}|"], "", ""),
           ("|a|", ["@ b", "//i// @", "x\\\\@"], " ", "|\n|b|"),
           ("", ["|@|b|", "|=@|c|\n|d|"], "\n\np @\n\n", "")]
C_BLOCK = [("", ["= @", "== @ ==", "=== a @ ===", "====== @"], "\n", ""),
           ("", ["{{{\n@\n}}}", "{{{\n@\n  a\n\n**b**\n}}}", "----\na @", "= @"], "\n", ""),
           ("", ["{{{@}}} ", "a {{{@ ** b}}}", "{{{x|@|}}}"], " ", ""),
           ("{{{\n", ["@", " @ b", "**@**", "@\n\n"], "\n", "\n}}}"),
           ("", ["a @\n----\n", "{{{\n@\n}}}\n", "== @\n"], "\n", "")]
C_LINK = [("", ["[[@]]", "[[http://example.com/@|b @]]", "http://example.com/@", "{{@.png}}", "{{@.png|a b}}", "{{/@.png|a @|10x20}}", "[[@|{{a.png|@}}]]",
               "~http://example.com/@", "[[a@|**b**]]", "mailto:@@example.com", "ftp://x.org/@?a=b"], sep, "") for sep in (" ", "\n", "\n\n", ", ")]
C_ESCAPE = [("", ["~**a @", "~//b~// @", "~[[@~]]", "~{{@~}}", "~= @", "a~\\\\ @", "~##@~##", "~http://a.b/@", "**x** ~** @ **y**"], sep, "") for sep in (" ", "\n\n")]
C_MACRO = [("", ["<<s a=\"@\" />> x@", "<<m>>x @<</m>>", "<<m>>\nx @\n<</m>>", "a <<m b=2>>@<</m>> c", "<<s c=x />>@"], sep, "") for sep in (" ", "\n\n", "\n")]
C_FAIL = [("", ["@ <<bad>>", "<<none a=\"@\" />>@", "<<m a=b c @ />> @", "a @ <<bad>>x @<</bad>> c", "**b** @"], sep, "") for sep in (" ", "\n\n")]
C_TOC = [("<<toc>>\n", ["= @", "= @\n== b @", "= a @\n== x @\n=== y @\n"], "\n", ""), ("<<toc 1>>\n", ["= @\n== y", "= a @\n"], "\n", ""),
         ("= a\n<<toc 2>>\n", ["== @\n=== y", "== a @\n"], "\n", "")]

H_LINKS = ['<a href="/@">b @</a>', '<a href="/x@" title="t">@</a>', '<img src="/@.png" alt="@">', '<b>b</b> @']
H_INLINE = ["a @", "<b>b @</b>", "<i>i</i> @", "<tt>t @</tt>", "<code>c @</code>", "<a href=\"/@\">l @</a>", "x @<br>y", "&amp; @", "<em>e @</em>"]
H_TEXT = [("<p>", H_INLINE, " ", "</p>"), ("", [f"<p>{x}</p>" for x in H_INLINE] + ["<h2>@</h2>", "<h1>a @</h1>", "<p>a @</p><hr><p>b</p>"], sep := "\n", ""),
          ("", [f"<p>{x}</p>" for x in H_INLINE], "", "")]
H_LIST = [("<ul>", ["<li>@</li>", "<li>a <b>b</b> @</li>", "<li>@<ul><li>c @</li></ul></li>", "<li>@ <a href='/@'>b @</a></li>"], "", "</ul>"),
          ("<ol>\n", ["<li>@</li>", "<li>a <i>b</i> @</li>", "<li>@<ol><li>c @</li><li>d</li></ol></li>"], "\n", "</ol>"),
          ("<ul><li>a<ul>", ["<li>@</li>", "<li>a <b>b</b> @</li>"], "", "</ul></li></ul>"),
          ("", ["<ul><li>@</li><li>b @</li></ul><p>c</p>", "<ol><li>@</li></ol><p>@</p>"], "\n", "")]
H_TABLE = [("<table><tr><th>aaa</th><th>b</th></tr>", ["<tr><td>@</td><td>b</td></tr>", "<tr><td>a</td><td><b>b</b> @</td></tr>",
                                                    "<tr><td>a @</td><td><a href='/@'>b @</a></td></tr>"], "", "</table>"),
           ("<table>\n", ["<tr><td>@</td><td>b</td></tr>", "<tr><td>a</td><td>@</td></tr>"], "\n", "</table>"),
           ("<table><tr><td>x</td>", ["<td>@</td>", "<td>a @</td>", "<td></td><td>@</td>"], "", "</tr></table>"),
           ("<table><tr><th>x</th>", ["<th>@</th>", "<th>a @</th>"], "", "</tr></table>"),
           ("", ["<table><tr><th>a @</th></tr><tr><td>@</td></tr></table>"], "<p>x</p>", ""),
           ("<table><tr><td>", ["a @", "<b>@</b>", "@<br>"], " ", "</td></tr></table>")]
H_PRE = [("", ["<pre>\n@\n</pre>", "<pre>\n  a\n\n@ **b**\n</pre>", "<pre>x @\ny</pre>"], sep, "") for sep in ("\n<p>@</p>\n", "<h2>a @</h2>")] + [
    ("<pre>\n", ["@", "  a @", "* @", "&lt;b&gt; @"], "\n", "\n</pre>"), ("<p>a</p><pre>\n", ["@\n\n", "    @"], "\n", "\n</pre><p>b</p>")]
H_REFS = [("<p>", ["&#228; @", "&auml;@", "&amp; @ &#38;", "&lt;@", "&#x41; @ &nbsp; c"], sep, "</p>") for sep in (" ", "\n", "<br>")] + [
    ("<pre>\n", ["&#228; @", "&auml;@", "&amp; @ &#38;", "&lt;@"], "\n", "\n</pre>")]
H_SPELL = [("<p>", ["<B>@</B>", "<i class=x>@</i >", "@<br/>x", "@<BR>x", "<!-- c --> @", "<a  HREF='/@'>@</a>", "<img src=/@.png alt=@ />"], " ", "</p>"),
           ("", ["<!-- a --><P>@</P>", "<p id=x>@</p>", "<H2 class='a'>@</H2>"], "\n", "")]
H_LABELS = [(h, H_LINKS + ['<a href="/x">same</a> @'], sep, t) for h, sep, t in (("<p>", " ", "</p>"), ("<p>", "</p><p>", "</p>"), ("<ul><li>", "</li><li>", "</li></ul>"))] + [
    ("<table><tr><td>", H_LINKS, "</td></tr><tr><td>", "</td></tr></table>")]
H_UNKNOWN = [("<p>", ["<x>@</x>", "a <y-z b='c'>@ <b>d</b></y-z>", "<font>a</font> @"], sep, "</p>") for sep in (" ", "</p>\n<p>")] + [
    ("<ul>", ["<li><x>@</x></li>", "<li>@ <font size=1>a</font></li>"], "", "</ul>")]
H_MALFORMED = [("", ["<p>a @</b></p>", "<b>@</b></p>", "@</i>", "<li>@</li>", "<td>@</td>", "a @<!-- c -->", "</ul>@", "<x>@</x>", "</pre>@"], sep, "") for sep in (" ", "\n")]
REST = [("", ["a @\n", "**b** @\n", "* @\n* b\n", "::\n\n  @\n", "`l @ <http://example.com/@>`_\n", "``c`` @\n", "#. @\n#. c\n"], "\np @\n\n", "\n"),
        ("", ["* @", "* a *b* @"], "\n", "\n"), ("", ["t @\n==========\n", "t @\n==========\n\ntext @\n"], "\n\n", "\n"),
        ("==========  =\n", ["@     b"], "\n", "\n==========  =\n"), ("a ", ["@", "**b** @", "`l @ <http://example.com/@>`__"], " ", "\n"),
        ("", ["`l @`_ a\n\n.. _l @: http://example.com/@"], "\n\n", "\n\n")]


def run_cycle(case, source):
    from creole import html2creole
    text = call(html2creole, run_creole(case, source))
    again = call(html2creole, run_creole(case, text))
    if again != text:
        fail(f"{short(source, 800)} drifts: {short(text, 800)} then {short(again, 800)}")
    return text


def cycle_sub():
    def gen(src):
        plain = [(h, [u for u in units if "10x20" not in u and "{{{a" not in u and " **" not in u and "{{{x" not in u and "~" not in u], sep, t)
                 for h, units, sep, t in C_TEXT[:2] + C_LIST[:2] + C_TABLE[:2] + C_BLOCK[:2] + C_LINK[:3]]
        case = html_case(src, "creole2html", plain)
        return {**case, "blog": True, "macros": False}
    return Sub("many", gen, check_with(run_cycle), quick=120, rule="more than 7 units")


def run_line_ends(case, source):
    out = run_creole(case, source)
    for end in ("\r\n", "\r"):
        if run_creole(case, source.replace("\n", end)) != out:
            fail(f"creole2html depends on the line ends {end!r} of {short(source, 1500)}")
    return out


def line_end_sub():
    def gen(src):
        case = html_case(src, "creole2html", C_TEXT + C_LIST + C_TABLE + C_BLOCK + C_MACRO)
        return {**case, "blog": src.p(0.5), "macros": True}
    return Sub("many", gen, check_with(run_line_ends), quick=120, rule="more than 7 units")


def run_handler(case, source):
    from pbt.sut import HANDLERS
    return convert_any(case["what"], source, **({"unknown_emit": HANDLERS[case["handler"]]} if case["handler"] != "default" else {}))


def handler_sub():
    def gen(src):
        return {**html_case(src, src.choice(["creole", "markdown", "rest", "textile"]), H_UNKNOWN), "handler": src.choice(["default", "html_macro", "pre_macro", "escape"])}
    return Sub("many", gen, check_with(run_handler), quick=160, rule="more than 7 units")


def run_example(case, source):
    from creole.shared import example_macros
    if case["macro"] == "code":
        return call(example_macros.code, ext=case["ext"], text=source)
    return call(getattr(example_macros, case["macro"]), text=source)


def example_sub():
    def gen(src):
        case = {"what": "example", "head": "", "unit": "\n".join(src.choice(["@", "x = @", "a & @", "b < @", "c(@)"]) for _ in range(src.between(1, 3))),
                "sep": "\n", "tail": "", "n": src.choice(SIZES), "macro": src.choice(["code", "code", "pre", "html"]), "ext": src.choice([".py", ".xyz", ".txt"])}
        return case
    return Sub("many", gen, check_with(run_example), quick=80, rule="more than 7 units")


SUBS = {
    "C01": lambda: creole_sub(C_TEXT), "C02": lambda: creole_sub(C_LIST), "C03": lambda: creole_sub(C_TABLE), "C04": lambda: creole_sub(C_BLOCK),
    "C05": lambda: creole_sub(C_LINK), "C06": lambda: creole_sub(C_ESCAPE), "C08": lambda: creole_sub(C_TEXT + C_LIST + C_TABLE + C_BLOCK + C_LINK, quick=240),
    "C09": line_end_sub, "C10": lambda: creole_sub(C_MACRO, True), "C11": lambda: creole_sub(C_TOC), "C12": lambda: creole_sub(C_FAIL, True),
    "H01": cycle_sub, "H02": lambda: html_sub(H_TEXT + H_LIST + H_TABLE[:2] + H_PRE, ["creole"]),
    "H03": lambda: html_sub(H_TEXT + H_LIST + H_TABLE[:2] + H_PRE, ["markdown"]), "H04": lambda: html_sub(H_TEXT + H_LIST + H_TABLE[:2] + H_PRE, ["rest"]),
    "H05": lambda: html_sub(H_TEXT + H_LIST + H_TABLE, ["textile"]), "H06": lambda: html_sub(H_MALFORMED), "H08": handler_sub,
    "H09": lambda: html_sub(H_PRE), "H10": lambda: html_sub(H_TABLE), "H11": lambda: html_sub(H_TEXT + H_LIST), "H12": lambda: html_sub(H_REFS),
    "H13": lambda: html_sub(H_SPELL), "H14": lambda: html_sub(H_LABELS, ["rest"]), "T01": lambda: rest_sub(REST), "T02": lambda: rest_sub(REST[:1] + REST[4:]),
    "T07": example_sub,
}
