"""H10: the grid of tables and the alignment of their columns."""

import re
import unicodedata

from pbt import genhtml as gh
from pbt import htmltree as ht
from pbt import renderers as rd
from pbt import texts
from pbt.engine import Sub
from pbt.props import render
from pbt.sut import convert, fail, short

WIDE = ["日本語", "中", "한국어", "ｗｉｄｅ", "日x", "😀", "ｶﾅ", "全角文字列"]


def good(w):
    return not (re.search(r"[|&~\\]|\[\[|\{\{|<<|\{\{\{|^[=_*#]|^\d+\.|^[-+>]", w) or any(
        unicodedata.category(c) in ("Mn", "Me", "Cf", "Mc") or c.isspace() for c in w))


def word(src):
    if src.p(0.15):
        return src.choice(WIDE)
    if src.p(0.02):
        return src.choice(texts.ODD_BLANKS)
    if src.p(0.03):  # the text of a cell, not its marks
        return src.choice(["=>", "==", "=x", "_x", "_.", "*", "#", "-", "--", "1.", "+", ">", "^", "=" * 3])
    return texts.word(src, good)


def words(src, mean=1.5, hi=8):
    return " ".join(word(src) for _ in range(src.rep(1, hi, mean)))


class Plain:
    text = staticmethod(words)
    faces = ("strong", "b", "em", "i")
    code = True


def safe_words(src, mean=1.5, hi=8):
    prof = render.Rest()
    n = src.rep(1, hi, mean)
    return " ".join(src.choice(WIDE[:6]) if src.p(0.15) else prof.word(src, k == 0, k == n - 1) for k in range(n))


class Safe:
    text = staticmethod(safe_words)
    faces = ("strong", "b", "em", "i")
    code = False


def cell(src, kind, br=True):
    """Inline children of one cell, elements separated by blanks"""
    k = src.weighted([(8, "text"), (2, "empty"), (3, "face"), (1, "link"), (2, "br"), (1, "p"), (1, "two"), (1, "long")])
    if k == "empty":
        return [" "] if src.p(0.2) else []
    if k == "face":
        out = [[src.choice(kind.faces), {}, [kind.text(src)]]]
        if src.p(0.5):
            out = [kind.text(src), " "] + out
        if src.p(0.5):
            out += [" ", kind.text(src)]
        return out
    if k == "link":
        return [["a", {"href": "/" + texts.random_word(src)}, [texts.random_word(src)]]]
    if k == "br" and br:
        out = [kind.text(src)]
        for _ in range(src.between(1, 3)):
            out += [["br", {}, []], src.choice("-.:;1x") if src.p(0.1) else kind.text(src)]
        return out
    if k == "p":
        return [["p", {}, [kind.text(src)]]]
    if k == "two":
        return [[src.choice(kind.faces), {}, [kind.text(src)]], " ", [src.choice(kind.faces), {}, [kind.text(src)]]]
    if k == "long":
        return [kind.text(src, 12, 40)]
    return [kind.text(src)]


def table(src, kind, br=True, rows_max=14, cols_max=12):
    rows = src.between(1, 4) if not src.p(0.15) else src.between(1, rows_max)
    cols = src.between(1, 4) if not src.p(0.15) else src.between(1, cols_max)
    heads = src.choice(["none", "first", "any", "column", "all"])
    ragged = src.p(0.5)
    out = []
    for r in range(rows):
        n = src.between(1, cols + 2) if ragged and src.p(0.5) else cols
        cells = []
        for c in range(n):
            head = heads == "all" or heads == "first" and r == 0 or heads == "column" and c == 0 or heads == "any" and src.p(0.4)
            attrs = {}
            if src.p(0.05):
                attrs = src.choice([{"class": "x"}, {"align": "right"}, {"style": "color:red"}, {"width": "10%"}])
            cells.append(["th" if head else "td", attrs, cell(src, kind, br)])
        out.append(["tr", {}, cells])
    return ["table", {}, out]


def sections(src, node):
    """The rows in thead, tbody and tfoot"""
    rows = node[2]
    if len(rows) < 2 or not src.p(0.3):
        return node
    a = src.between(1, len(rows) - 1)
    groups = [["thead", {}, rows[:a]], ["tbody", {}, rows[a:]]]
    if len(rows) - a > 1 and src.p(0.3):
        groups = [["thead", {}, rows[:a]], ["tbody", {}, rows[a:-1]], ["tfoot", {}, rows[-1:]]]
    return ["table", {}, groups]


def document(src, kind, br=True):
    tree = []
    for _ in range(src.rep(1, 6, 2.2)):
        k = src.weighted([(5, "table"), (3, "p"), (1, "h"), (1, "bare")])
        if tree and tree[-1][0] == "bare" and k == "bare":
            k = "p"
        if k == "table":
            tree.append(table(src, kind, br))
        elif k == "h":
            tree.append(["h2", {}, [safe_words(src)]])
        else:
            tree.append([k, {}, [safe_words(src, 3, 8)]])
    if not any(n[0] == "table" for n in tree):
        tree.append(table(src, kind, br))
    return tree


def to_html(src, tree):
    out = []
    for node in tree:
        if node[0] == "bare":
            out.append(node[2][0])
        elif node[0] == "table":
            out.append(sections(src, node))
        else:
            out.append(node)
    return gh.any_layout(src, gh.merge(out))


def gen_lines(src):
    tree = document(src, Plain)
    return {"tree": tree, "html": to_html(src, tree)}


FACES = {
    "creole": {"strong": "**", "b": "**", "em": "//", "i": "//", "br": r"\\"},
    "textile": {"strong": "*", "b": "**", "em": "_", "i": "__", "br": r"\\"},
    "markdown": {"strong": "**", "b": "**", "em": "_", "i": "_", "br": "<br />"},
}


def written(children, fmt):
    out = []
    for c in children:
        if isinstance(c, str):
            out.append(c)
            continue
        tag = c[0]
        inner = written(c[2], fmt)
        if tag == "br":
            out.append(FACES[fmt]["br"])
        elif tag == "a":
            href = c[1]["href"]
            out.append({"creole": f"[[{href}|{inner}]]", "textile": f'"{inner}":{href}', "markdown": f"[{inner}]({href})"}[fmt])
        elif tag == "p":
            out.append(inner)
        else:
            out.append(FACES[fmt][tag] + inner + FACES[fmt][tag])
    return "".join(out).strip()


def width(text):
    return sum(2 if unicodedata.east_asian_width(c) in "WF" else 1 for c in text)


HEAD = {"creole": r"=[ ]?", "textile": r"_\.[ ]?", "markdown": ""}
BLANK = "[ ]*"


def row_pattern(row, fmt):
    cells = []
    for c in row[2]:
        text = re.escape(written(c[2], fmt))
        cells.append(f"({BLANK}{HEAD[fmt] if c[0] == 'th' else ''}{BLANK}{text}{BLANK})")
    return re.compile(r"\|" + r"\|".join(cells) + r"\|\Z")


def check_lines(case):
    html, tree = case["html"], case["tree"]
    labels = set()
    for fmt in ("creole", "textile", "markdown"):
        out = convert(fmt, html)

        def bad(msg):
            fail(f"html2{fmt}({short(html, 1500)})\n = {short(out, 1500)}\n {msg}")
        lines = out.split("\n")
        pos = 0
        outside = []
        for no, node in enumerate(tree):
            if node[0] != "table":
                outside += node[2][0].split(" ")
                continue
            while pos < len(lines) and not lines[pos].startswith("|"):
                pos += 1
            got = [w for line in lines[:pos] if not line.startswith("|") for w in line.split(" ") if w not in ("", "==", "##", "h2.")]
            if got != outside:
                bad(f"the text before table {no} is {got}, not {outside}")
            if pos and no and tree[no - 1][0] == "table" and lines[pos - 1].strip():
                bad(f"table {no} directly follows a table")
            rows = [r[2] for r in node[2]]
            expected = [("row", r) for r in node[2]]
            if fmt == "markdown" and any(c[0] == "th" for r in rows for c in r) and len(rows) > 1:
                expected.insert(1, ("sep", None))
            widths = {}
            for what, row in expected:
                if pos >= len(lines) or not lines[pos].startswith("|"):
                    bad(f"table {no}: a line is missing for the row {short(row, 300)}")
                line = lines[pos]
                pos += 1
                if what == "sep":
                    m = re.fullmatch(r"\|( *:?-+:? *\|)+", line)
                    cells = line[1:-1].split("|")
                    if not m or len(cells) != max(len(r) for r in rows):
                        bad(f"table {no}: {line!r} is not the line below the header")
                else:
                    m = row_pattern(row, fmt).match(line)
                    if not m:
                        bad(f"table {no}: {line!r} does not have the cells {[written(c[2], fmt) for c in row[2]]}")
                    cells = list(m.groups())
                if fmt != "textile":
                    for k, c in enumerate(cells):
                        widths.setdefault(k, set()).add(width(c))
            if any(len(w) > 1 for w in widths.values()):
                bad(f"table {no}: the cells of a column have different widths: {widths}")
            if pos < len(lines) and lines[pos].startswith("|"):
                bad(f"table {no}: there is a line too much: {lines[pos]!r}")
        got = [w for line in lines if not line.startswith("|") for w in line.split(" ") if w not in ("", "==", "##", "h2.")]
        if got != outside:
            bad(f"the text outside the tables is {got}, not {outside}")
    return labels | shape_labels(tree)


def shape_labels(tree):
    labels = set()
    for node in tree:
        if node[0] != "table":
            continue
        sizes = {len(r[2]) for r in node[2]}
        if len(sizes) > 1:
            labels.add("ragged")
        if len({c[0] for r in node[2] for c in r[2]}) > 1:
            labels.add("mixed header")
        if any(not c[2] for r in node[2] for c in r[2]):
            labels.add("empty cell")
        if len(node[2]) > 1 and max(sizes) > 1:
            labels.add("nt")
    return labels


# ---------------------------------------------------------------------------
# ReSt: docutils reads the grid
# ---------------------------------------------------------------------------

def gen_rest(src):
    tree = document(src, Safe, br=False)
    seen = set()
    for n in ht.walk(tree):
        if n[0] == "a":
            while ht.text_of(n[2]).lower() in seen:
                n[2][:] = [ht.text_of(n[2]) + "x"]
            seen.add(ht.text_of(n[2]).lower())
    tree = [["p", {}, n[2]] if n[0] == "h2" else n for n in tree]
    return {"tree": tree, "html": to_html(src, tree)}


def check_rest(case):
    html, tree = case["html"], case["tree"]
    out = convert("rest", html)

    def bad(msg):
        fail(f"html2rest({short(html, 1500)})\n = {short(out, 1500)}\n {msg}")
    try:
        rendered = ht.canon(rd.unwrap_p(rd.render_rest(out)), render.RS_RENAME)
    except rd.RenderError as err:
        bad(str(err))
    exp = []
    for node in tree:
        if node[0] == "table":
            cols = max(len(r[2]) for r in node[2])
            exp.append([[" ".join(ht.text_of(c[2]).split()) for c in r[2]] + [""] * (cols - len(r[2])) for r in node[2]])
        else:
            exp.append(" ".join(node[2][0].split()))
    act = []
    for node in rendered:
        if isinstance(node, list) and node[0] == "table":
            act.append([[" ".join(ht.text_of(c[2]).split()) for c in r[2]] for r in node[2]])
            if any(r[0] != "tr" for r in node[2]):
                bad("not only rows in the table")
        else:
            act.append(" ".join(ht.text_of([node] if isinstance(node, str) else node[2]).split()))
    if exp != act:
        bad(f"docutils reads {short(act, 800)}, not {short(exp, 800)}")
    for line in out.split("\n"):
        if line[:1] in "+|" and line and line[-1:] not in "+|":
            bad(f"{line!r} is cut")
    for node, back in zip(tree, [n for n in rendered]):
        if node[0] == "table":
            first = [c[0] for c in back[2][0][2]]
            want = "th" if any(c[0] == "th" for r in node[2] for c in r[2]) and len(node[2]) > 1 else "td"
            if all(c[0] == "th" for c in node[2][0][2]) and not any(c[0] == "th" for r in node[2][1:] for c in r[2]) and set(first) != {want}:
                bad(f"the first row has {first}, not {want}")
            if any(c[0] == "th" for r in back[2][1:] for c in r[2]):
                bad("more than one header row")
            if want == "td" and "th" in first:
                bad("a header row without header cells")
    return shape_labels(tree)


# ---------------------------------------------------------------------------
# nested tables and text between rows
# ---------------------------------------------------------------------------

def gen_nested(src):
    counter = [0]

    def w(n=1):
        out = []
        for _ in range(n):
            counter[0] += 1
            out.append(f"w{counter[0]}{src.choice(['', 'a', 'äö', '日本'])}")
        return " ".join(out)

    def tab(depth):
        rows = []
        for _ in range(src.between(1, 3)):
            cells = []
            for _ in range(src.between(1, 3)):
                kids = [w(src.between(1, 2))] if not src.p(0.1) else []
                if depth < 3 and src.p(0.3 if depth else 0.5):
                    kids.append(tab(depth + 1))
                    if src.p(0.4):
                        kids.append(w())
                cells.append(["th" if src.p(0.2) else "td", {}, kids])
            rows.append(["tr", {}, cells])
        return ["table", {}, rows]
    tree = []
    for _ in range(src.between(1, 4)):
        tree.append(["p", {}, [w(2)]] if src.p(0.4) else tab(0))
    return {"tree": tree, "html": gh.any_layout(src, tree)}


def check_nested(case):
    html, tree = case["html"], case["tree"]
    exp = [w for t in ht.strip_tags_words(tree) for w in t.split()]
    tables = [n for n in tree if n[0] == "table"]
    depth = 0
    for fmt in ("creole", "textile", "markdown", "rest"):
        out = convert(fmt, html)

        def bad(msg):
            fail(f"html2{fmt}({short(html, 1500)})\n = {short(out, 1500)}\n {msg}")
        got = re.findall(r"w\d+[aäö日本]*", out)
        if sorted(got) != sorted(exp):
            bad(f"words {got}, not {exp}")
        if fmt == "rest":
            continue
        if got != exp:
            bad(f"order of the words: {got}, not {exp}")
        lines = [line for line in out.split("\n") if line.startswith("|") and not re.fullmatch(r"\|( *-+ *\|)+", line)]
        rows = [r for t in tables for r in t[2]]
        if len(lines) != len(rows):
            bad(f"{len(lines)} lines for {len(rows)} rows of the outer tables")
        for line, row in zip(lines, rows):
            mine = [w for t in ht.strip_tags_words(row[2]) for w in t.split()]
            if re.findall(r"w\d+[aäö日本]*", line) != mine:
                bad(f"{line!r} does not have the words {mine}")
            if not line.endswith("|"):
                bad(f"{line!r} is not closed")
            if not any(n[0] == "table" for n in ht.walk(row[2])):
                if line.count("|") != len(row[2]) + 1:
                    bad(f"{line!r} does not have {len(row[2])} cells")
    deep = [1 for t in tables for n in ht.walk(t[2]) if n[0] == "table"]
    return {"nt", "nested"} if deep else ({"several"} if len(tables) > 1 else set())


RULE = "a table with more than one row and column"
PROPS = {
    "H10": {
        "rule": RULE + ", or a nested table",
        "subs": [Sub("lines", gen_lines, check_lines, quick=10000, rule=RULE),
                 Sub("rest", gen_rest, check_rest, quick=6000, rule=RULE),
                 Sub("nested", gen_nested, check_nested, quick=5000, rule="a table in a table cell")],
        "assumptions": ["cell text without pipes and without the markup of the target format (the converters write text as it is)",
                        "wide characters are those with East Asian Width W or F; combining characters are left out"],
    },
}
