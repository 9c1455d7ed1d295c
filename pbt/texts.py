"""Words, sentences and hints mined from the code under test."""

import ast
import os
import re

from pbt.sut import REPO

ASCII = ["alpha", "beta", "Gamma", "delta", "x", "y", "I", "a", "on", "the", "README", "foo", "bar",
         "foobar", "http", "www", "toc", "macro", "html", "text", "pre", "code", "Item", "end", "None",
         "True", "class", "div", "span", "table", "li", "td", "br", "lt", "amp", "quot", "nbsp", "data",
         "image", "link", "python", "creole", "wiki", "word", "mailto", "file", "E", "px", "depth"]
NUMBERS = ["0", "1", "2", "3", "10", "42", "007", "1.5", "3,14", "1000000", "2024", "12:30", "50x60", "-1", "+3",
           "1st", "4096", "65535"]
UNI = ["äöü", "ÄÖÜß", "été", "naïve", "Ωmega", "привет", "мир", "日本語", "中文", "한국어", "עברית", "العربية",
       "ไทย", "e\u0301", "n\u0303o", "😀", "👩‍💻", "🎉x", "ﬁ", "Å", "İstanbul", "ı", "ẞ", "ǅ", "x²", "½", "№", "€5",
       "„q“", "«g»", "–", "—", "…", "→", "\u00a0".join(("no", "break")), "zero\u200bwidth", "soft\u00adhyphen",
       "\U0001d538\U0001d539", "\uff21\uff22", "ｶﾅ", "\u0661\u0662"]
SPECIAL = ["a<b", "b>a", "a&b", "AT&T", "&amp;", "&lt;", "&gt;", "&quot;", "&#39;", "&copy;", "&nbsp;", "<b>", "</b>",
           "<br>", "<br/>", "<script>", "</p>", "<!--", "-->", "\"q\"", "'s", "it's", "\"", "'", "<", ">", "&", "&&", "<a",
           "a\"b", "x=\"y\"", "%s", "%(x)s", "{0}", "{}", "$x", "$", "@", "`x`", "`", "\\n", "\\", "a\\b", ";", "&;", "&#",
           "&#x41;", "&#65;", "?", "!", "a?b=c&d=e", "100%", "(x)", "[x]", "{x}", "]", "}", "[", "{", ")", "(", ":", "a:b",
           "::", ".", ",", "..", "a.b", "a;b", "\u2028".join("ab"), "+", "+x+", "@x@", "a+b", "C++", "C#", "^", "%", "%x%"]
SINGLE = ["*", "/", "_", "#", "-", ",", "^", "=", "|", ":", "+", "a*b", "a/b", "a_b", "a#b", "a-b", "a,b", "a^b",
          "a=b", "*x", "x*", "/x", "x/", "_x", "x_", "#x", "x#", "-x", "x-", "^x", "x^", "=x", "x=", "<x", "x>", "1*2",
          "1/2", "1-2", "a_b_c", "a-b-c", "a/b/c", "x_y*z", "//:", "://", "*/", "/*", "_*", "*_", "-*", "#*", "x|y"]

DOUBLED = re.compile(r"\*\*|//|##|\^\^|,,|__|--|~|\\\\|\[\[|\]\]|\{\{|\}\}|<<|>>")
BARE_URL = re.compile(r"(?:http|https|ftp|nntp|news|mailto|telnet|file|irc)://")


def mine(root=None):
    """String and integer constants of the code under test: dictionary of a fuzzer."""
    strings, ints = set(), set()
    root = root or os.path.join(REPO, "creole")
    for path, dirs, files in os.walk(root):
        dirs.sort()
        if "tests" in dirs:
            dirs.remove("tests")
        if "__pycache__" in dirs:
            dirs.remove("__pycache__")
        for name in sorted(files):
            if not name.endswith(".py"):
                continue
            try:
                tree = ast.parse(open(os.path.join(path, name), encoding="utf-8").read())
            except (SyntaxError, OSError):
                continue
            docs = set()
            for node in ast.walk(tree):
                if isinstance(node, (ast.Module, ast.ClassDef, ast.FunctionDef)):
                    if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
                        docs.add(id(node.body[0].value))
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant) and id(node) not in docs:
                    if isinstance(node.value, str) and 0 < len(node.value) <= 24 and node.value.isprintable():
                        strings.add(node.value)
                    elif isinstance(node.value, int) and not isinstance(node.value, bool) and 1 < node.value <= 400:
                        ints.add(node.value)
    return sorted(strings), sorted(ints)


MINED, MINED_INTS = mine()
# Words without blanks; the context decides which of them are safe
MINED_WORDS = sorted({w for s in MINED for w in s.split() if w})
HINT_INTS = sorted({n for n in MINED_INTS} | {n + 1 for n in MINED_INTS} | {n - 1 for n in MINED_INTS})
LENGTHS = sorted({n for n in HINT_INTS if 2 <= n <= 300} | {8, 16, 20, 30, 32, 40, 50, 60, 64, 72, 79, 80, 81, 100, 120, 128, 200, 255, 256, 300})

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


# characters str.split() and str.splitlines() know, but neither HTML nor the markup languages
ODD_BLANKS = ["a\u2028b", "a\u2029b", "x\x85y", "p\xa0q", "k\x1cl", "k\x1dl", "k\x1el", "全\u3000角", "t\u2003m", "t\u1680m"]


def rare_char(src):
    """Any assigned-looking printable non-ASCII character"""
    ranges = [(0xa1, 0x17f), (0x370, 0x3ff), (0x400, 0x4ff), (0x5d0, 0x5ea), (0x620, 0x64a), (0x900, 0x93f),
              (0xe01, 0xe3a), (0x1e00, 0x1eff), (0x2010, 0x2027), (0x2030, 0x205e), (0x20a0, 0x20bf), (0x2190, 0x21ff),
              (0x2200, 0x22ff), (0x2500, 0x257f), (0x2600, 0x26ff), (0x3041, 0x3096), (0x30a1, 0x30fa),
              (0x4e00, 0x9fff), (0xac00, 0xd7a3), (0xe000, 0xe0ff), (0xfb00, 0xfb06), (0xff01, 0xff5e), (0x1f300, 0x1f64f), (0x1d400, 0x1d44f)]
    lo, hi = src.choice(ranges)
    c = chr(src.between(lo, hi))
    return c if c.isprintable() else "é"


def random_word(src, lo=1, hi=10):
    n = src.between(lo, hi)
    return "".join(src.choice(LETTERS) for _ in range(n))


def raw_word(src):
    if src.p(0.015):
        return src.choice(ODD_BLANKS)
    kind = src.weighted([(40, "ascii"), (8, "num"), (12, "uni"), (14, "special"), (8, "single"), (8, "rnd"), (4, "mined"),
                         (2, "long"), (4, "rare")])
    if kind == "ascii":
        return src.choice(ASCII)
    if kind == "num":
        return src.choice(NUMBERS) if src.p(0.7) else str(src.i(100000))
    if kind == "uni":
        return src.choice(UNI)
    if kind == "special":
        return src.choice(SPECIAL)
    if kind == "single":
        return src.choice(SINGLE)
    if kind == "rnd":
        return random_word(src)
    if kind == "rare":
        return random_word(src, 0, 2) + rare_char(src) + random_word(src, 0, 2)
    if kind == "mined":
        return src.choice(MINED_WORDS) if MINED_WORDS else "mined"
    return src.choice("abxÄ中") * src.choice(LENGTHS)


def word(src, ok=None, fallback=None):
    """A word the context accepts (ok: predicate); falls back to a plain word."""
    for _ in range(3):
        w = raw_word(src)
        if ok is None or ok(w):
            return w
    return fallback or src.choice(ASCII)


def plain_word(src):
    """A word without any special character"""
    kind = src.weighted([(6, 0), (2, 1), (2, 2), (1, 3)])
    if kind == 0:
        return src.choice(ASCII)
    if kind == 1:
        return random_word(src)
    if kind == 2:
        return src.choice(["äöü", "été", "привет", "日本語", "한국어", "עברית", "ไทย", "Ωmega", "ẞ", "中文"])
    return src.choice("abx") * src.choice(LENGTHS)


def near(src, target):
    """A text that is nearly the given link target"""
    pairs = [("_", " "), (" ", "_"), ("-", " "), ("%20", " "), (" ", "%20"), ("&", "&amp;"), ("&amp;", "&"), ("/", " "), (".", " "), ("_", ""), ("+", " ")]
    some = [(a, b) for a, b in pairs if a in target]
    kind = src.i(16)
    if some and kind < 6:
        a, b = src.choice(some)
        return target.replace(a, b) if src.p(0.7) else target.replace(a, b, 1)
    return [target.swapcase, target.title, target.upper, target.lower, target.capitalize, lambda: target[1:], lambda: target[:-1], lambda: target + "/",
            lambda: target + "x", lambda: target.strip("/"), lambda: target.rpartition("/")[2], lambda: target.partition("://")[2], lambda: target.partition("#")[0],
            lambda: target.partition("?")[0], lambda: target.rpartition(".")[0], lambda: target.rpartition(":")[2]][src.i(16)]()
