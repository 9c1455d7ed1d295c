"""C01-C06: creole constructs against an independent model of their HTML."""

from pbt import gencreole as g
from pbt import htmltree as ht
from pbt import texts
from pbt.engine import Sub
from pbt.props import macros
from pbt.sut import c2h, fail, short


def tree(html, what):
    try:
        return ht.parse(html)
    except ht.HtmlError as err:
        fail(f"{what}: {err}\nhtml: {short(html)}")


def count(nodes, kind):
    n = 0
    for x in nodes:
        if isinstance(x, list):
            if x and x[0] == kind:
                n += 1
            for y in x:
                if isinstance(y, list):
                    n += count([z for z in ([y] if y and isinstance(y[0], str) else y) if isinstance(z, list)], kind)
    return n


def depth(nodes):
    return max([0] + [1 + depth(n[2]) for n in nodes if n[0] == "f"])


def compare(doc, mode, strict, extra=None):
    src = g.source(doc)
    html = c2h(src, blog_line_breaks=(mode == "blog"), strict=strict, **(extra or {}))
    act = ht.canon(tree(html, f"creole2html({short(src)})"))
    exp = ht.canon(g.expected(doc, mode, strict))
    if exp != act:
        fail(f"creole ({mode}, strict={strict}): {src!r}\nexpected: {ht.show(exp)}\ngot:      {ht.show(act)}\n"
             f"{g.first_difference(exp, act)}")
    return html


def check_doc(case):
    doc, mode, strict = case["doc"], case["mode"], case.get("strict", False)
    compare(doc, mode, strict)
    labels = {mode}
    for b in doc:
        labels.add(b[0])
        if b[0] == "p":
            labels.update("p:" + n[0] for n in b[1])
            d = depth(b[1])
            if d >= 2:
                labels.add("nested typefaces")
            if d >= 4:
                labels.add("typefaces nested 4+")
    return labels


def nt_if(pred):
    def check(case):
        labels = check_doc(case)
        if pred(case, labels):
            labels.add("nt")
        return labels
    return check


def gen_doc(blocks, feats=None, nl=True, mean=2.0, strict=False, extra_blocks=None, kinds=None):
    def gen(src):
        mode = src.choice(["blog", "wiki"])
        f = feats if feats is not None else src.subset(g.ALL_FEATS, 0.6)
        bl = list(blocks)
        if extra_blocks and src.p(0.4):
            bl = bl + bl + src.subset(extra_blocks, 0.6)
        doc = g.document(src, mode, blocks=bl, feats=f, mean=mean, nl=nl, kinds=kinds)
        case = {"doc": doc, "mode": mode}
        if strict:
            case["strict"] = src.p(0.4)
        return case
    return gen


# --- C01 -------------------------------------------------------------------

def gen_c01(src):
    mode = src.choice(["blog", "wiki"])
    feats = ["f"] + src.subset(["c", "br", "e", "a", "u"], 0.4)
    kinds = src.subset(list(g.FACES), 0.7) or ["strong"]
    ctx = g.Ctx(feats=feats, kinds=kinds)
    doc = []
    for _ in range(src.rep(1, 8, 1.8)):
        mean = src.weighted([(5, 2.5), (3, 5.0), (1, 12.0)])
        g.add_block(src, doc, ["p", g.inlines(src, ctx, mean=mean, nl=True), src.choice(["", "", "", " ", "   "])], mode)
    if src.p(0.1):
        doc.append(["blank", src.between(1, 3), src.choice(["", " "])])
    return {"doc": doc, "mode": mode}


def gen_c01_deep(src):
    """All eight typefaces nested in any order, with text at any level"""
    mode = src.choice(["blog", "wiki"])
    order = src.shuffled(g.FACES)[:src.between(2, 8)]
    ctx = g.Ctx(feats=[])
    node = None
    for k, face in enumerate(reversed(order)):
        faces = tuple(g.FACES[f][0] for f in order[:len(order) - k])
        c = g.Ctx(faces=faces, feats=[])
        inner = []
        if node is None or src.p(0.5):
            inner.append(["t", g.sentence(src, c)])
            if node is not None and src.p(0.5):
                inner.append(["t", " "])
        if node is not None:
            inner.append(node)
            if src.p(0.5):
                if src.p(0.5):
                    inner.append(["t", " "])
                inner.append(["t", g.sentence(src, c)])
        node = ["f", face, inner]
    line = [node]
    if src.p(0.7):
        line = [["t", g.sentence(src, ctx)], ["t", src.choice([" ", ""])]] + line
    if src.p(0.7):
        line = line + [["t", src.choice([" ", ""])], ["t", g.sentence(src, ctx)]]
    return {"doc": [["p", line, ""]], "mode": mode}


def gen_c01_flat(src):
    """Long lines: many short typefaces side by side, many lines"""
    mode = src.choice(["blog", "wiki"])
    kinds = src.subset(list(g.FACES), 0.7) or ["emphasis"]
    ctx = g.Ctx(feats=["f"], kinds=kinds)
    nodes = []
    n = src.choice([5, 10, 20, 40, 80, 150]) if src.p(0.3) else src.between(2, 12)
    for k in range(n):
        if k:
            nodes.append(["nl", ""] if src.p(0.2) else ["t", src.choice([" ", " ", "", "  "])])
        face = src.choice(kinds)
        c = ctx.inner(g.FACES[face][0])
        if src.p(0.75):
            nodes.append(["f", face, [["t", g.sentence(src, c, mean=1.5)]]])
        else:
            nodes.append(["t", g.sentence(src, ctx, mean=2)])
    return {"doc": [["p", nodes, ""]], "mode": mode}


LONE = ["~", "~", ":", ";", ".", ",", "-", "_", "/", "^", "+", "<", ">", "&", "'", '"', "!", "?", "(", ")", "%", "{", "}", "]", "$", "@", "`", "0", "x", "a ~", "x -"]


def gen_c01_lines(src):
    """Short lines: a single character, a typeface or inline code alone in its line"""
    mode = src.choice(["blog", "wiki"])
    ctx = g.Ctx(feats=[])
    nodes = []
    for k in range(src.between(2, 8)):
        if k:
            nodes.append(["nl", src.choice(["", "", "", " ", "\t"])])
        kind = src.weighted([(4, "lone"), (2, "t"), (2, "f"), (1, "c")])
        if kind == "lone":
            nodes.append(["t", src.choice(LONE)])
        elif kind == "t":
            nodes.append(["t", g.sentence(src, ctx, mean=1.5)])
        elif kind == "f":
            face = src.choice(sorted(g.FACES))
            nodes.append(["f", face, [["t", g.sentence(src, ctx.inner(g.FACES[face][0]), mean=1.5)]]])
        else:
            nodes.append(["c", src.choice(["x", "~", "**", "a b", "0", "<", "&amp;"])])
    return {"doc": [["p", nodes, ""]], "mode": mode}


C01 = [
    Sub("lines", gen_c01_lines, nt_if(lambda c, l: True), quick=5000,
        rule="paragraphs of short lines, often a single character; non-trivial: every case"),
    Sub("paragraphs", gen_c01, nt_if(lambda c, l: "p:f" in l or "p:br" in l or "p:nl" in l), quick=16000,
        rule="paragraph documents with typefaces, breaks, code and links; non-trivial: holds a typeface or a line end"),
    Sub("deep", gen_c01_deep, nt_if(lambda c, l: "nested typefaces" in l), quick=6000,
        rule="2 to 8 typefaces nested in a random order; non-trivial: at least two nested"),
    Sub("flat", gen_c01_flat, nt_if(lambda c, l: "p:f" in l), quick=5000,
        rule="many typefaces side by side over many lines; non-trivial: holds a typeface"),
]

# --- C02 -------------------------------------------------------------------


def gen_c02(src):
    mode = src.choice(["blog", "wiki"])
    feats = src.subset(g.ALL_FEATS, 0.3)
    ctx = g.Ctx(feats=feats, kinds=src.subset(list(g.FACES), 0.5) or ["strong"])
    doc = []
    others = src.subset(["p", "h", "hr", "pre", "table"], 0.5) if src.p(0.5) else []
    for _ in range(src.rep(1, 6, 1.6)):
        if others and src.p(0.4):
            g.add_block(src, doc, g.make_block(src, src.choice(others), ctx), mode)
        block = g.list_block(src, ctx, max_items=16, max_depth=src.choice([2, 3, 4, 6, 10]))
        g.add_block(src, doc, block, mode)
    return {"doc": doc, "mode": mode}


def gen_c02_shape(src):
    """Plain words, large and deep list trees"""
    n = src.between(1, 25) if not src.p(0.15) else src.between(10, 120)
    items = []
    level = 0
    prefix = ""
    up = src.choice([1, 2, 3, 5])
    maxd = src.choice([3, 5, 8, 15, 25])
    mix = src.p(0.5)
    for k in range(n):
        if k == 0:
            level = 1
        else:
            r = src.i(4 + up)
            level = level + 1 if r < up else level if r < up + 2 else src.between(1, level)
            level = min(level, maxd)
        prefix = prefix[:level - 1] + src.choice("*#") if mix or level > len(prefix) else prefix[:level]
        prefix = (prefix + "*" * level)[:level]
        items.append([prefix, "", " ", [["t", f"i{k}"]], ""])
    return {"doc": [["list", items]], "mode": src.choice(["blog", "wiki"])}


def c02_nt(case, labels):
    for b in case["doc"]:
        if b[0] == "list":
            levels = [len(i[0]) for i in b[1]]
            if max(levels) >= 2 and any(x < y for y, x in zip(levels, levels[1:])):
                return True
            if len({i[0][-1] for i in b[1]}) > 1:
                return True
    return False


C02 = [
    Sub("documents", gen_c02, nt_if(c02_nt), quick=13000,
        rule="lists of any shape with inline markup, beside other blocks; non-trivial: returns to an outer level or mixes kinds"),
    Sub("shapes", gen_c02_shape, nt_if(c02_nt), quick=6000,
        rule="large and deep list trees of plain items; non-trivial: returns to an outer level or mixes kinds"),
]

# --- C03 -------------------------------------------------------------------


def gen_c03(src):
    mode = src.choice(["blog", "wiki"])
    feats = src.subset(g.ALL_FEATS, 0.4)
    ctx = g.Ctx(feats=feats, kinds=src.subset(list(g.FACES), 0.4) or ["strong"])
    doc = []
    others = src.subset(["p", "h", "hr", "pre", "list"], 0.5) if src.p(0.5) else []
    for _ in range(src.rep(1, 5, 1.4)):
        if others and src.p(0.4):
            g.add_block(src, doc, g.make_block(src, src.choice(others), ctx), mode)
        g.add_block(src, doc, g.table_block(src, ctx), mode)
        if others and src.p(0.2):
            g.add_block(src, doc, g.make_block(src, src.choice(others), ctx), mode)
    return {"doc": doc, "mode": mode}


def gen_c03_pipes(src):
    """Cells whose inline elements hold pipes"""
    ctx = g.Ctx((), True, ["f", "c", "a", "img", "br"], ["strong", "emphasis"])
    rows = []
    for _ in range(src.between(1, 4)):
        cells = []
        for _ in range(src.between(1, 5)):
            content = []
            for k in range(src.between(1, 3)):
                if k:
                    content.append(["t", " "])
                what = src.i(5)
                if what == 0:
                    content.append(["a", g.target(src, ctx, g.BAD_LINK), [["t", g.label_text(src, ctx)]]])
                elif what == 1:
                    content.append(["img", g.target(src, ctx, g.BAD_IMG), g.label_text(src, ctx, image=True), None])
                elif what == 2:
                    content.append(["c", src.choice(["a|b", "|", "||", "|x|", "a | b", "=|", "|=x"])])
                elif what == 3:
                    w, h = src.i(500), src.i(500)
                    content.append(["img", g.target(src, ctx, g.BAD_IMG), g.label_text(src, ctx, image=True), [w, h, f"{w}x{h}"]])
                else:
                    content.append(["t", g.sentence(src, ctx)])
            cells.append([src.p(0.3), src.choice(["", " "]), content, src.choice(["", " "])])
        rows.append([cells, src.p(0.7), ""])
    return {"doc": [["table", rows]], "mode": src.choice(["blog", "wiki"])}


def c03_nt(case, labels):
    for b in case["doc"]:
        if b[0] == "table":
            if len(b[1]) > 1 or len({len(r[0]) for r in b[1]}) > 1 or any(not c[2] for r in b[1] for c in r[0]):
                return True
            if "|" in "".join(g.inline_source(c[2]) for r in b[1] for c in r[0]):
                return True
    return False


def gen_c03_macros(src):
    case = macros.gen_doc(src, blocks=("table",), kinds=("tag", "inline"))
    case["results"] = [src.choice(["r", "a|b", "", "|", "<b>x</b>"]) for _ in case["macros"]]
    return case


def check_c03_macros(case):
    macros.check_c10(case)
    labels = set()
    if any("|" in m["src"] for m in case["macros"]):
        labels |= {"pipe", "nt"}
    return labels


C03 = [
    Sub("documents", gen_c03, nt_if(c03_nt), quick=9000,
        rule="tables beside other blocks; non-trivial: several rows, ragged, blank cells, or a pipe inside a cell"),
    Sub("macros", gen_c03_macros, check_c03_macros, quick=6000,
        rule="tables whose cells hold macros: same cells as with a plain word instead; non-trivial: a pipe in a macro"),
    Sub("pipes", gen_c03_pipes, nt_if(c03_nt), quick=7000,
        rule="data cells holding links, images and code with pipes; non-trivial: as above"),
]

# --- C04 -------------------------------------------------------------------


def gen_c04(src):
    mode = src.choice(["blog", "wiki"])
    blocks = ["h", "h", "pre", "pre", "hr", "p"] + src.subset(["list", "table"], 0.3)
    ctx = g.Ctx(feats=["c", "f"], kinds=["strong", "emphasis"])
    doc = []
    for _ in range(src.rep(1, 12, 3.0)):
        g.add_block(src, doc, g.make_block(src, src.choice(blocks), ctx), mode)
    return {"doc": doc, "mode": mode}


def gen_c04_code(src):
    mode = src.choice(["blog", "wiki"])
    where = src.i(3)
    ctx = g.Ctx(feats=["c"], cell=where == 2)
    nodes = []
    for k in range(src.between(1, 5)):
        if k:
            nodes.append(["t", src.choice([" ", "", " x ", "y"])])
        nodes.append(["c", g.code_text(src, ctx)] if src.p(0.8) else ["t", g.sentence(src, ctx)])
    for k in range(len(nodes) - 1, 0, -1):
        if nodes[k][0] == "c" and nodes[k - 1][0] == "c":
            nodes.insert(k, ["t", " "])
    if where == 0:
        doc = [["p", nodes, ""]]
    elif where == 1:
        doc = [["list", [["*", "", " ", nodes, ""]]]]
    else:
        doc = [["table", [[[[False, " ", [["t", "a "]] + nodes, " "]], True, ""]]]]
    return {"doc": doc, "mode": mode}


def gen_c04_tilde(src):
    """The tilde that guards closing braces in preformatted blocks"""
    lines = []
    for _ in range(src.between(1, 6)):
        lines.append(src.choice(["}}}", "  }}}", "}}} ", "x", "", "{{{", "~x", "a ~}}} b", "if {", "}"]))
    return {"lines": lines}


def check_c04_tilde(case):
    src_lines = []
    for line in case["lines"]:
        if line.strip() == "}}}":
            line = line.replace("}}}", "~}}}")
        src_lines.append(line)
    src = "{{{\n" + "\n".join(src_lines) + "\n}}}\n\nafter"
    html = c2h(src)
    act = ht.canon(tree(html, f"creole2html({src!r})"))
    text = ht.text_of([act[0]])
    exp = "\n".join(case["lines"])
    if act[0][0] != "pre" or text != exp or act[1:] != [["p", {}, ["after"]]]:
        fail(f"creole: {src!r}\nexpected pre text {exp!r}\ngot {ht.show(act)}")
    return {"nt"} if any(x.strip() == "}}}" for x in case["lines"]) else set()


C04 = [
    Sub("documents", gen_c04, nt_if(lambda c, l: "pre" in l or "h" in l), quick=13000,
        rule="sequences of headings, rules, preformatted blocks and paragraphs; non-trivial: holds a heading or preformatted block"),
    Sub("inline_code", gen_c04_code, nt_if(lambda c, l: True), quick=6000,
        rule="inline code with any content in paragraphs, items and cells; every case non-trivial"),
    Sub("guarded_braces", gen_c04_tilde, check_c04_tilde, quick=1500,
        rule="preformatted blocks with guarded closing braces; non-trivial: holds a guarded line"),
]

# --- C05 -------------------------------------------------------------------


def gen_c05(src):
    mode = src.choice(["blog", "wiki"])
    strict = src.p(0.4)
    cell = False
    ctx = g.Ctx(feats=["a", "img", "u", "e", "br"])
    nodes = []
    for k in range(src.rep(1, 6, 2.0)):
        if k:
            nodes.append(["t", src.choice([" ", " and ", " x, ", "\t"])])
        what = src.weighted([(4, "a"), (3, "img"), (2, "u"), (1, "ue"), (1, "t")])
        if what == "a":
            nodes.append(g.link(src, ctx))
        elif what == "img":
            nodes.append(g.image(src, ctx))
        elif what == "t":
            nodes.append(["t", g.sentence(src, ctx)])
        else:
            nodes.append([what, g.bare_url(src, ctx)])
    where = src.weighted([(6, "p"), (2, "list"), (2, "face"), (1, "cell")])
    if where == "p":
        doc = [["p", nodes, ""]]
    elif where == "list":
        doc = [["list", [["*", "", " ", nodes, ""]]]]
    elif where == "face":
        faces = [f for f in g.FACES if g.Ctx((g.FACES[f][0],)).raw_ok(g.inline_source(nodes))]
        last = g.inline_source(nodes)[-1]
        faces = [f for f in faces if last != g.FACES[f][0][0] and not (f == "emphasis" and last == ":")
                 and g.inline_source(nodes)[0] != g.FACES[f][0][0]]
        doc = [["p", [["f", src.choice(faces), nodes]] if faces else nodes, ""]]
    else:
        if any(x in n[1] for n in nodes if n[0] in ("u", "ue", "t") for x in ("|", "{{", "[[")):
            doc = [["p", nodes, ""]]
        else:
            doc = [["table", [[[[False, " ", nodes, " "]], True, ""]]]]
    return {"doc": doc, "mode": mode, "strict": strict}


def has_link(case, labels):
    text = repr(case["doc"])
    return any(f"['{k}'" in text for k in ("a", "img", "u", "ue"))


def gen_c05_size(src):
    """Things that look like image sizes"""
    w, h = src.i(3000), src.i(3000)
    size = src.choice([f"{w}x{h}", f"{w} x {h}", f" {w}x{h} ", f"{w}x", f"x{h}", f"{w}X{h}", f"{w}*{h}", "axb", f"{w}", f"{w}x{h}x3", f"{w}px x {h}px",
                       f"{w}x{h} |", "x", f"{w}.5x{h}", f"0{w}x{h}"])
    return {"src": texts.random_word(src) + ".png", "label": texts.random_word(src, 0, 8), "size": size, "strict": src.p(0.5), "w": w, "h": h}


def check_c05_size(case):
    import re
    src = "{{%s|%s|%s}}" % (case["src"], case["label"], case["size"])
    html = c2h(src, strict=case["strict"])
    act = ht.canon(tree(html, src))
    m = re.match(r"\s*(\d+)\s*x\s*(\d+)\s*$", case["size"])
    full = f"{case['label']}|{case['size']}".strip()
    if m and not case["strict"]:
        text = case["label"] or case["src"]
        exp = {"src": case["src"], "title": text, "alt": text, "width": str(int(m.group(1))), "height": str(int(m.group(2)))}
    else:
        exp = {"src": case["src"], "title": full, "alt": full}
    exp_tree = [["p", {}, [["img", exp, []]]]]
    if act != exp_tree:
        fail(f"{src!r} strict={case['strict']}: expected {ht.show(exp_tree)} got {ht.show(act)}")
    return {"nt", "size" if m else "no size"}


C05 = [
    Sub("links", gen_c05, nt_if(has_link), quick=16000,
        rule="links, bare URLs and images with any targets and labels; non-trivial: holds one of them"),
    Sub("sizes", gen_c05_size, check_c05_size, quick=2500,
        rule="images with a size or something like one, strict or not; every case non-trivial"),
    Sub("documents", gen_doc(["p", "list", "table"], feats=["a", "img", "u", "f", "c", "e"], strict=True), nt_if(has_link), quick=6000,
        rule="documents with links and images in paragraphs, items and cells; non-trivial: holds one"),
]

# --- C06 -------------------------------------------------------------------

MARKUP = "*/_#-,^=|[]{}<>\\:!+`"


def gen_c06_all(src):
    parts = []
    for _ in range(src.rep(1, 40, 6.0)):
        k = src.weighted([(4, 0), (5, 1), (2, 2)])
        if k == 0:
            parts.append(src.choice(["a", "word", "x1", "é", "&", "\"", ";", "."]))
        elif k == 1:
            c = src.choice(MARKUP)
            parts.append(c * src.choice([1, 2, 2, 3, 4]))
        else:
            parts.append(src.choice(["[[a|b]]", "{{i|t}}", "{{{c}}}", "<<m>>", "**b**", "//i//", "----", "= h", "* x", "|t|", "<<m a=1>>x<</m>>", "http://a.b", "\\\\"]))
        if src.p(0.3):
            parts.append(" ")
    text = "".join(parts).strip() or "*"
    return {"text": text, "mode": src.choice(["blog", "wiki"])}


def check_c06_all(case):
    text = case["text"]
    src = "".join("~" + c if c in MARKUP else c for c in text)
    html = c2h(src, blog_line_breaks=case["mode"] == "blog")
    act = ht.canon(tree(html, src))
    exp = ht.canon([["p", {}, [text]]])
    if act != exp:
        fail(f"escaped text {text!r}\nsource {src!r}\nexpected {ht.show(exp)}\ngot {ht.show(act)}")
    n = sum(c in MARKUP for c in text)
    return {"nt"} if n >= 2 else set()


def gen_c06_some(src):
    """Escaped constructs among living markup"""
    mode = src.choice(["blog", "wiki"])
    kinds = [k for k in g.FACES if k != "delete"]
    ctx = g.Ctx(feats=["f", "e"], kinds=src.subset(kinds, 0.6) or ["strong"])
    nodes = []
    for k in range(src.between(2, 7)):
        if k:
            nodes.append(["t", " "])
        what = src.i(4)
        if what == 0:
            c = src.choice("*/_#,^-=[{<\\|")
            nodes.append(["e", c * src.choice([1, 2, 2, 3])])
            nodes.append(["t", " " + texts.random_word(src)])
        elif what == 1:
            face = src.choice(ctx.kinds)
            m = g.FACES[face][0]
            nodes.append(["f", face, [["t", texts.random_word(src) + " "], ["e", src.choice("*/_#,^-=[{<\\").replace(m[0], "!") * 2], ["t", " x"]]])
        elif what == 2:
            face = src.choice(ctx.kinds)
            nodes.append(["f", face, [["t", texts.random_word(src)]]])
        else:
            # an escaped construct: ~*~*word~*~*
            m = src.choice([g.FACES[f][0] for f in kinds] + ["[[", "{{", "<<"])
            close = {"[[": "]]", "{{": "}}", "<<": ">>"}.get(m, m)
            nodes += [["e", m], ["t", texts.random_word(src)], ["e", close], ["t", " z"]]
    return {"doc": [["p", nodes, ""]], "mode": mode}


def c06_nt(case, labels):
    return "p:e" in labels and "p:f" in labels


C06 = [
    Sub("all", gen_c06_all, check_c06_all, quick=12000,
        rule="texts over markup characters with every one escaped; non-trivial: at least two markup characters"),
    Sub("some", gen_c06_some, nt_if(c06_nt), quick=8000,
        rule="escaped constructs among typefaces in force; non-trivial: holds both"),
    Sub("lines", gen_doc(["p"], feats=["e", "f"], kinds=[k for k in g.FACES if k != "delete"]), nt_if(lambda c, l: "p:e" in l), quick=4000,
        rule="multi-line paragraphs with escapes; non-trivial: holds an escape"),
]

ASSUME = ["the generator only writes unambiguous creole (DESIGN.md lists what is left out)"]
PROPS = {
    "C01": {"subs": C01, "rule": "generated paragraph documents compared with the tree an independent model builds", "assumptions": ASSUME},
    "C02": {"subs": C02, "rule": "generated list documents compared with the tree an independent list model builds", "assumptions": ASSUME},
    "C03": {"subs": C03, "rule": "generated table documents compared with the tree of an independent model", "assumptions": ASSUME},
    "C04": {"subs": C04, "rule": "generated headings, rules, preformatted blocks and inline code compared with the tree of an independent model", "assumptions": ASSUME},
    "C05": {"subs": C05, "rule": "generated links, URLs and images compared with the tree of an independent model", "assumptions": ASSUME},
    "C06": {"subs": C06, "rule": "generated escaped texts compared with the plain text / model tree", "assumptions": ASSUME},
}
