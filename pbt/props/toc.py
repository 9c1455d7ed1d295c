"""C11: the table of contents."""

import types

from pbt import gencreole as g
from pbt import htmltree as ht
from pbt.engine import Sub
from pbt.sut import c2h, fail


def gen(src):
    mode = src.choice(["blog", "wiki"])
    blocks = ["h", "h", "h", "h", "p"] + src.subset(["list", "table", "pre", "hr"], 0.3)
    feats = src.subset(["f", "c", "a", "e"], 0.4)
    doc = [b for b in g.document(src, mode, blocks=blocks, feats=feats, mean=src.choice([3, 6, 10]))]
    heads = [b for b in doc if b[0] == "h"]
    if heads and src.p(0.3):
        # same text again, or text that looks like others
        for b in heads[1:]:
            if src.p(0.4):
                b[2] = src.choice(heads)[2]
                b[3] = b[3] or " " if b[2][0] == "=" else b[3]
    tocs = []
    for k in range(src.weighted([(6, 1), (2, 2), (1, 3)])):
        depth = src.weighted([(4, None), (2, 1), (2, 2), (2, 3), (1, 4), (1, 5), (1, 6), (1, 0), (1, 9)])
        args = "" if depth is None else src.choice([f" depth={depth}", f' depth="{depth}"', f" depth='{depth}'", f" depth={depth} title=\"x\""])
        if depth is None and src.p(0.1):
            args = src.choice([" depth=None", " foo=1"])
        tag = "<<toc" + args + src.choice([">>", ">>", " >>", " />>"])
        tocs.append([tag, depth])
    form = src.choice(["own", "own", "own", "inline", "item", "cell", "bold", "end"])
    where = [src.i(len(doc) + 1) for _ in tocs]
    where.sort()
    return {"doc": doc, "mode": mode, "tocs": tocs, "where": where, "form": form, "macros": src.choice([None, "dict", "object"])}


FORMS = {"own": "{}", "inline": "before {} after", "item": "* {}", "cell": "|{}|x|", "bold": "a **{}** b", "end": "text {}"}


def build(entries, depth):
    """Independent model: a list of entries of this level and, between them, lists of deeper ones."""
    out = []
    k = 0
    while k < len(entries):
        level, text = entries[k]
        if level == depth:
            out.append(["li", {}, [["a", {"href": "#" + text}, [text]]]])
            k += 1
        else:
            j = k
            while j < len(entries) and entries[j][0] > depth:
                j += 1
            out.append(build(entries[k:j], depth + 1))
            k = j
    return ["ul", {}, out]


def unwrap(children, names):
    out = []
    for c in children:
        if isinstance(c, str):
            out.append(c)
        elif c[0] == "a" and "name" in c[1]:
            inner = [x for x in c[2] if not isinstance(x, str) or x.strip()]
            if set(c[1]) != {"name"} or len(inner) != 1 or isinstance(inner[0], str) or not inner[0][0].startswith("h"):
                fail(f"anchor {c!r} is not around one heading")
            names.append((c[1]["name"], ht.text_of([inner[0]])))
            out.append(inner[0])
        else:
            out.append([c[0], c[1], unwrap(c[2], names)])
    return out


def replace(children, toc):
    out = []
    for c in children:
        if isinstance(c, str):
            if "TOCQ" in c:
                a, b = c.split("TOCQ", 1)
                out += [a, toc, b]
            else:
                out.append(c)
        elif c[0] == "p" and len(c[2]) == 1 and c[2][0] == "TOCQ":
            out.append(toc)
        else:
            out.append([c[0], c[1], replace(c[2], toc)])
    return out


def check(case):
    doc = case["doc"]
    blog = case["mode"] == "blog"

    def write(tags):
        out = list(doc)
        for k in reversed(range(len(tags))):
            pos = case["where"][k]
            out[pos:pos] = [["blank", 1, ""], ["raw", FORMS[case["form"]].format(tags[k])], ["blank", 1, ""]]
        return g.source(out)
    text = write([t for t, _ in case["tocs"]])
    plain = write(["TOCQ"] + ["~<~<toc>>"] * (len(case["tocs"]) - 1))
    macros = {"x": lambda text=None: "x"}
    macros = {None: None, "dict": macros, "object": types.SimpleNamespace(**macros)}[case["macros"]]
    html = c2h(text, blog_line_breaks=blog, macros=macros)
    try:
        tree = ht.parse(html)
    except ht.HtmlError as err:
        fail(f"{text!r}: {err}\n{html!r}")
    names = []
    got = ht.canon(unwrap(tree, names))
    depth = case["tocs"][0][1]
    heads = [(b[1], b[2]) for b in doc if b[0] == "h"]
    toc = build([h for h in heads if depth is None or h[0] <= depth], 1)
    want = ht.canon(replace(ht.parse(c2h(plain, blog_line_breaks=blog)), toc))
    if names != [(t, t) for _, t in heads]:
        fail(f"{text!r}: headings {heads!r} have the anchors {names!r}")
    if got != want:
        fail(f"{text!r} (mode {case['mode']})\nexpected {ht.show(want)}\ngot      {ht.show(got)}\n{g.first_difference(want, got)}")
    labels = {case["form"], f"{len(case['tocs'])} tocs"}
    if len(heads) > 1:
        labels.add("nt")
    if len({h[0] for h in heads}) > 2:
        labels.add("three levels")
    if any(b - a > 1 for (a, _), (b, _) in zip(heads, heads[1:])):
        labels.add("level jump")
    return labels


PROPS = {
    "C11": {"subs": [Sub("toc", gen, check, quick=12000, rule="documents with headings of any levels and toc tags anywhere; non-trivial: two headings or more")],
            "rule": "documents with toc tags compared with the same document holding a placeholder and an independently nested list", "assumptions": []},
}
