"""T06: macro argument strings."""

import re

from pbt import texts
from pbt.engine import Sub
from pbt.props.macros import INTISH, KEYS
from pbt.sut import call, fail, short

from creole.shared.utils import dict2string, string2dict

TYPED = {"True": True, "False": False, "None": None}
BARE = re.compile(r"""[^\s'"\\]+\Z""")


def typed(value):
    """Independent model of the documented types."""
    if value in TYPED:
        return TYPED[value]
    if re.match(r"[+-]?[0-9]+$", value) and not value.endswith("\n"):
        return int(value)
    inner = value.strip("'\"")      # e.g.: "'1'" is a number, too
    if inner != value and re.match(r"[+-]?[0-9]+$", inner) and not inner.endswith("\n"):
        return int(inner)
    return value


def odd(value):
    """Spellings whose type is left open, e.g. 1_0 or a number with blanks around it"""
    return bool(INTISH.match(value)) and not re.match(r"""['"]*[+-]?[0-9]+['"]*\Z""", value, re.ASCII) or len(value) > 4000


def same(a, b):
    return a == b and type(a) is type(b)


def value(src):
    for _ in range(5):
        kind = src.weighted([(5, 0), (3, 1), (3, 2), (3, 3), (2, 4), (1, 5)])
        if kind == 0:
            v = src.choice(texts.ASCII)
        elif kind == 1:
            v = src.choice(["1", "0", "42", "-7", "+7", "007", "123456789012345678901234567890", "10", "-0", str(src.i(10 ** 6))])
        elif kind == 2:
            v = src.choice(["True", "False", "None", "true", "none", "TRUE", "", "1.5", "0x10", "1e3", " ", "a=b", "=", "==", "a==b=", "\"q\"", "it's", "\\", "a\\b",
                            "\\\"", "\\\\", "\"", "'", "''", "'\"'", "#x", "#", "a#b", "C:\\x", "/", "a/", "|", ">", "<", "&", "\t", "~", "'1'", "\"2\"", "\n", "a\nb", "k=v",
                            "-", "--", "-1-", "1-2", "1 2", "\u00a0", "\u2028", "é", "None ", " True", "true=True", "\\n", "\\ ", "a\\'b", "*", "$x", "`x`", "!x", ";", "(", "%"])
        elif kind == 3:
            v = " ".join(texts.raw_word(src) for _ in range(src.between(1, 4)))
        elif kind == 4:
            v = "".join(src.choice("ab \"'\\=/#<>|*&;~`$(){}[]!?,.-_\t\n") for _ in range(src.between(1, 10)))
        else:
            v = texts.random_word(src)
        if not odd(v):
            return v
    return "v"


def key(src):
    if src.p(0.7):
        return src.choice(KEYS)
    for _ in range(3):
        k = src.choice([texts.random_word(src), texts.raw_word(src), "a b", "", "1", "\\", "'", "\"", "True", "#", "key-2", "x:y", "Ü"])
        if "=" not in k:
            return k
    return "k"


def quoted(src, text):
    """text in one of the shell's quoting styles, or in a mixture of them"""
    style = src.weighted([(4, "d"), (3, "s"), (2, "b"), (2, "e"), (2, "mix")])
    if style == "mix" and len(text) > 1:
        cut = src.between(1, len(text) - 1)
        return quoted(src, text[:cut]) + quoted(src, text[cut:])
    if style == "s" and "'" not in text:
        return "'" + text + "'"
    if style == "b" and BARE.match(text):
        return text
    if style == "e" and text and "\n" not in text:
        return "".join("\\" + c if c in " \t\r'\"\\" or src.p(0.1) else c for c in text)
    return '"' + text.replace("\\", "\\\\").replace('"', '\\"') + '"'


def gen_write(src):
    pairs, parts = [], []
    for _ in range(src.rep(0, 20, 3.0)):
        k = src.choice(pairs)[0] if pairs and src.p(0.15) else key(src)
        v = value(src)
        if src.p(0.6) and BARE.match(k):
            parts.append(k + "=" + quoted(src, v))
        else:
            parts.append(quoted(src, k + "=" + v))
        pairs.append([k, v])
    blanks = [" ", " ", "  ", "\t", "\n", " \n ", "\r\n"]
    text = src.choice(["", "", " ", "\n"])
    for n, part in enumerate(parts):
        text += (src.choice(blanks) if n else "") + part
    return {"text": text + src.choice(["", "", " ", "\n"]), "pairs": pairs}


def check_write(case):
    got = call(string2dict, case["text"])
    want = {}
    for k, v in case["pairs"]:
        want[k] = typed(v)
    compare(case["text"], want, got)
    again = call(string2dict, case["text"])
    compare(case["text"], want, again)
    return {"nt"} if len(want) > 1 or any(not isinstance(v, str) or not v.isalnum() for v in want.values()) else ()


def compare(text, want, got):
    if not isinstance(got, dict):
        fail(f"string2dict({short(text)}) returned {got!r}")
    if set(want) != set(got) or any(not same(want[k], got[k]) for k in want):
        fail(f"string2dict({short(text)})\nexpected {short(want)}\ngot      {short(got)}")


def split(text):
    """Reference model of shell splitting; None: a quote is not closed"""
    tokens, cur, state = [], None, ""
    k = 0
    while k < len(text):
        c = text[k]
        k += 1
        if state == "":
            if c in " \t\r\n":
                if cur is not None:
                    tokens.append(cur)
                cur = None
            elif c in "'\"":
                cur = cur or ""
                state = c
            elif c == "\\":
                if k >= len(text):
                    return None
                cur = (cur or "") + text[k]
                k += 1
            else:
                cur = (cur or "") + c
        elif state == "'":
            if c == "'":
                state = ""
            else:
                cur += c
        else:
            if c == '"':
                state = ""
            elif c == "\\":
                if k >= len(text):
                    return None
                cur += text[k] if text[k] in '"\\' else "\\" + text[k]
                k += 1
            else:
                cur += c
    if state:
        return None
    if cur is not None:
        tokens.append(cur)
    return tokens


def gen_soup(src):
    alphabet = src.choice(["ab= '\"", "a=\\\"' \t\n", "ab12= ", "aTrue=None' \"", "x=é\\#;\"\u00a0 '\u2028"])
    if src.p(0.6):
        text = "".join(src.choice(alphabet) for _ in range(src.size(0, 40)))
    else:
        text = ""
        for _ in range(src.rep(1, 10, 3.0)):
            text += src.choice(["a=1", "b='x y'", 'c="z"', "=", "d", "''", '""', "e=", "=f", "'", '"', "\\", "a=\\\"", "True", "g=True", "h==2", "i=1=2", "/", "a = 1", "k='1' ", texts.raw_word(src)])
            text += src.choice(["", " ", " ", "\n"])
    return {"text": text}


def check_soup(case):
    text = case["text"]
    tokens = split(text)
    want = {}
    if tokens is not None:
        for token in tokens:
            if "=" not in token:
                want = None
                break
            k, v = token.split("=", 1)
            if odd(v):
                return {"open"}
            want[k] = typed(v)
    else:
        want = None
    try:
        got = string2dict(text)
    except ValueError:
        if want is None:
            return {"refused", "nt"}
        fail(f"string2dict({short(text)}) refused, but it is {short(want)}")
    except BaseException as err:
        fail(f"string2dict({short(text)}) raised {type(err).__name__}: {err}")
    if want is None:
        fail(f"string2dict({short(text)}) returned {short(got)}, but this is no list of assignments")
    compare(text, want, got)
    return {"accepted"} | ({"nt"} if want else set())


def gen_dict(src):
    pairs = []
    for _ in range(src.rep(0, 12, 3.0)):
        k = src.choice(KEYS) if src.p(0.7) else texts.random_word(src)
        kind = src.weighted([(5, 0), (2, 1), (1, 2)])
        if kind == 0:
            for _ in range(4):
                v = value(src)
                if isinstance(typed(v), str):
                    break
            else:
                v = "v"
        elif kind == 1:
            v = src.choice([0, 1, -1, 42, 10 ** 20, -5, src.i(10 ** 9)])
        else:
            v = src.choice([True, False, None])
        pairs.append([k, v])
    return {"pairs": src.shuffled(pairs)}


def check_dict(case):
    d = dict((k, v) for k, v in case["pairs"])
    before = list(d.items())
    text = call(dict2string, d)
    if not isinstance(text, str):
        fail(f"dict2string({short(d)}) returned {text!r}")
    if list(d.items()) != before:
        fail(f"dict2string changed its argument {short(before)} to {short(d)}")
    other = dict(sorted(d.items(), key=lambda kv: kv[0][::-1]))
    if call(dict2string, other) != text:
        fail(f"dict2string depends on the order of insertion: {text!r}, {dict2string(other)!r}")
    tokens = split(text)
    if tokens is None or [t.split("=", 1)[0] for t in tokens] != sorted(d):
        fail(f"dict2string({short(d)}) is not ordered by key: {short(text)}")
    compare(text, d, call(string2dict, text))
    return {"nt"} if len(d) > 1 else ()


PROPS = {
    "T06": {
        "rule": "argument lists written in random quoting styles, random texts and random dictionaries",
        "assumptions": ["numbers written with blanks, underscores or non-ASCII digits and a backslash before a line end are left open; quotes inside the value of a number are ignored, as documented by the tests"],
        "subs": [
            Sub("write", gen_write, check_write, quick=40000,
                rule="pairs in random quoting styles read back; non-trivial: several pairs or a value that is not one word"),
            Sub("soup", gen_soup, check_soup, quick=50000,
                rule="random text against a reference splitter: same dict, or ValueError exactly when it is no list of assignments"),
            Sub("dict", gen_dict, check_dict, quick=25000,
                rule="dict2string is ordered by key, independent of insertion order and reads back; non-trivial: several keys"),
        ],
    },
}
