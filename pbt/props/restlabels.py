"""H14: every label in html2rest output resolves to the target of that link or image."""

import re

from pbt import genhtml as gh
from pbt import htmltree as ht
from pbt import renderers as rd
from pbt import texts
from pbt.engine import Sub
from pbt.props import render
from pbt.sut import fail, rest_or_none, short


def near(src, target):
    """Targets that are nearly the same"""
    head, sep, path = target.rpartition("/")
    new = [head + sep + path.swapcase(), head + sep + path.upper(), head + sep + path.title(), target + "x", target + "?x", target + "#x"]
    return [t for t in src.subset(new, 0.4) if t != target]


class Pool(render.Rest):
    """Links and images over small pools of labels and targets"""

    def __init__(self, src):
        self.link_rate = src.choice([2, 6, 12])
        n = src.choice([1, 2, 3, 5, 9, 20])
        self.labels = [self._label(src) for _ in range(n)]
        if src.p(0.3):
            w = src.choice(self.labels)
            w = w.replace("İ", "I")     # docutils is confused by combining characters in tables
            self.labels += src.subset([w.upper(), w.lower(), w.title(), w + " x", "x " + w, w + "x"], 0.4)
        same = src.p(0.6)
        self.bound = {} if same else None
        self.targets = [render.Rest.href(self, src) for _ in range(src.choice([1, 2, 3, 6]))]
        self.sources = [render.Rest.src_(self, src) for _ in range(src.choice([1, 2, 3, 6]))]
        if src.p(0.3):
            t = src.choice(self.targets)
            self.targets += [t + "x", t + "/"]
        for pool in (self.targets, self.sources):
            if src.p(0.25):
                pool += near(src, src.choice(pool))
        self.clash = src.p(0.35)

    def _label(self, src):
        k = src.i(8)
        w = render.Safe.text(self, src, 1.4, hi=5)
        if k == 0:
            w = w + src.choice([": ", " - ", " (", ", ", ". ", "; "]) + src.choice(self.words)
        elif k == 1:
            w = src.choice(self.words)
        elif k == 2:
            w = src.choice(["Foo", "foo", "bar", "Bar", "Über", "über"])
        return w

    def label(self, src):
        return src.choice(self.labels)

    def alt(self, src):
        return src.choice(self.labels)

    def pick(self, src, kind, label, pool):
        """Targets clash only where the case wants it"""
        if self.clash and src.p(0.15):
            return src.choice(pool)
        return self.memo.setdefault((kind, key_of(kind, label)), src.choice(pool))


def key_of(kind, label):
    label = " ".join(label.split())
    return label.lower() if kind == "a" else label


def assign(src, prof, tree):
    prof.memo = {}
    for node in ht.walk(tree):
        if node[0] == "a":
            node[1]["href"] = prof.pick(src, "a", ht.text_of(node[2]), prof.targets)
        elif node[0] == "img":
            node[1]["src"] = prof.pick(src, "img", render.longest({**node[1], "src": "x"}), prof.sources)
            if not node[1].get("alt") and not node[1].get("title"):
                node[1]["alt"] = prof.label(src)
                node[1]["src"] = prof.pick(src, "img", node[1]["alt"], prof.sources)


def some_inlines(src, prof, n):
    """Links and images with some text around"""
    out = []
    for k in range(n):
        if out:
            out.append(" ")
        kind = src.weighted([(4, "a"), (2, "img"), (2, "t")])
        if kind == "a":
            out.append(["a", {}, [prof.label(src)]])
        elif kind == "img":
            attrs = {src.choice(["alt", "title"]): prof.label(src)}
            if src.p(0.2):
                attrs["title"] = prof.label(src)
            out.append(["img", attrs, []])
        else:
            out.append(prof.text(src, 2, hi=6))
    return gh.merge(out)


def gen(src):
    prof = Pool(src)
    if src.p(0.5):
        tree = gh.document(src, prof)
        while tree and tree[0][0] == "hr":
            tree.pop(0)
    else:
        tree = []
        base = level = None
        for _ in range(src.rep(1, 25, 4)):
            kind = src.weighted([(4, "p"), (3, "table"), (2, "list"), (2, "h")])
            if kind == "list" and tree and tree[-1][0] in ("ul", "ol"):
                kind = "p"
            if kind == "p":
                tree.append(["p", {}, some_inlines(src, prof, src.rep(1, 8, 2))])
            elif kind == "h":
                if base is None:
                    base = level = src.between(1, 6)
                else:
                    level = src.between(base, min(6, level + 1))
                tree.append([f"h{level}", {}, some_inlines(src, prof, 1 + src.i(2))])
            elif kind == "list":
                node = gh.list_node(src, prof)
                for li in ht.walk([node]):
                    if li[0] == "li":
                        li[2][:] = some_inlines(src, prof, src.between(1, 2)) + [c for c in li[2] if isinstance(c, list) and c[0] in ("ul", "ol")]
                tree.append(node)
            else:
                cols = src.between(1, 3)
                head = src.p(0.4)
                tree.append(["table", {}, [["tr", {}, [["th" if head and not r else "td", {}, some_inlines(src, prof, src.between(1, 2))]
                                                       for _ in range(cols)]] for r in range(src.between(1 + head, 4))]])
    assign(src, prof, tree)
    return {"tree": tree, "html": gh.any_layout(src, gh.loose(src, [render.dict_pre(n) for n in tree]))}


def clashes(tree):
    """A label with two targets?  (ReSt ignores the case of link labels)"""
    seen = {}
    exact = {}
    sure = maybe = False
    for node in ht.walk(tree):
        if node[0] == "a":
            label, target = " ".join(ht.text_of(node[2]).split()), node[1]["href"]
            if exact.setdefault(("a", label), target) != target:
                sure = True
            if seen.setdefault(label.lower(), target) != target:
                maybe = True
        elif node[0] == "img":
            label, target = " ".join(render.longest(node[1]).split()), node[1]["src"]
            if exact.setdefault(("img", label), target) != target:
                sure = True
    return sure, maybe


def check(case):
    html, tree = case["html"], case["tree"]
    sure, maybe = clashes(tree)
    text = rest_or_none(html)
    labels = {"clash" if sure else "case clash" if maybe else "no clash"}
    if text is None:
        if not (sure or maybe):
            fail(f"html2rest({short(html, 1500)}) refuses the document, but no label has two targets")
    else:
        if sure:
            fail(f"html2rest({short(html, 1500)}) = {short(text, 1500)}: a label with two targets is not refused")
        levels = [int(n[0][1]) for n in tree if re.match(r"h\d$", n[0])]
        try:
            rendered = rd.render_rest(text, levels[0] if levels else 1)
        except rd.RenderError as err:
            fail(f"html2rest({short(html, 1500)}) = {short(text, 1500)}: {err}")
        exp = render.expected(tree, render.RS_RENAME, lambda a: {"src": a["src"], "alt": render.longest(a)})
        act = ht.canon(rd.unwrap_p(rendered), render.RS_RENAME)
        render.compare("rest", html, text, render.dedent_pre(exp), render.dedent_pre(act))
    count = {}
    for node in ht.walk(tree):
        if node[0] in ("a", "img"):
            key = (node[0], ht.text_of(node[2]).lower() if node[0] == "a" else render.longest(node[1]))
            count[key] = count.get(key, 0) + 1
    if count and max(count.values()) > 1:
        labels.add("reused label")
    if len(count) > 1:
        labels.add("several labels")
    if labels & {"clash", "case clash", "reused label"}:
        labels.add("nt")
    return labels


RULE = "a label is used more than once"
PROPS = {
    "H14": {
        "rule": RULE,
        "subs": [Sub("labels", gen, check, quick=10000, rule=RULE)],
        "assumptions": ["docutils is the independent ReSt implementation", "link labels and text are free of ReSt markup",
                        "ReSt does not distinguish upper and lower case in link labels: such labels with different targets may be refused"],
    },
}
