"""T03: generated README files, over histories of edits."""

import contextlib
import datetime
import io
import os
import re
import shutil
import sys
import tempfile
from pathlib import Path

from pbt import texts
from pbt.engine import Sub
from pbt.sut import fail, short

from creole import creole2html, html2markdown, html2rest, setup_utils
from creole.shared.unknown_tags import raise_unknown_node

KINDS = {
    "rst": (setup_utils.update_rst_readme, setup_utils.assert_rst_readme, html2rest),
    "md": (setup_utils.update_markdown_readme, setup_utils.assert_markdown_readme, html2markdown),
}
NAMES = ["README.creole", "README.creole", "README.creole", "docs.creole", "my readme.creole", "README.v1.creole", "notes.txt", "README"]


def words(src, n=3):
    out = []
    for _ in range(src.between(1, n)):
        w = src.choice(texts.ASCII + texts.NUMBERS + ["ä", "日本語", "a<b", "AT&T", "it's", "(x)", "x;", "end."])
        out.append(w)
    return " ".join(out)


def creole(src):
    """A readme which is valid in all formats"""
    parts = []
    if src.p(0.6):
        parts.append("= " + words(src) + " =")
    for _ in range(src.rep(1, 7, 2.5)):
        kind = src.i(8)
        if kind <= 1:
            parts.append(words(src, 6) + src.choice(["", "\n" + words(src)]))
        elif kind == 2:
            parts.append("* " + words(src) + "\n* " + words(src) + src.choice(["", "\n** " + words(src)]))
        elif kind == 3:
            parts.append("|= " + words(src, 2) + " |= b |\n| " + words(src, 2) + " | d |")
        elif kind == 4:
            parts.append("{{{\n" + words(src) + "\n\n  " + words(src) + "\n}}}")
        elif kind == 5:
            parts.append(f"[[http://example.com/{src.i(99)}|label {src.i(1000)}]] and **bold** text")
        elif kind == 6:
            parts.append("== " + words(src) + " ==" if parts and parts[0].startswith("= ") else words(src))
        else:
            parts.append("# " + words(src) + "\n# " + words(src))
    if src.p(0.06):
        parts.append(src.choice(["<<toc>>", "<<macro>>", "x ^^sup^^", "__under__ x", "{{/rel.png|image}}", "a\n------------\nb"]))
    return src.choice(["", "", "\n", "\n\n  "]) + "\n\n".join(parts) + src.choice(["", "\n", "\n\n", " \n\t\n"])


def gen(src):
    name = src.choice(NAMES)
    ops = [["edit", creole(src), src.between(0, 2 * 10 ** 9)]]
    for _ in range(src.rep(2, 16, 6.0)):
        kind = src.weighted([(4, "update"), (4, "assert"), (2, "edit"), (2, "touch"), (2, "damage"), (1, "delete"), (1, "restore")])
        if kind in ("update", "assert", "delete"):
            ops.append([kind, src.choice(["rst", "md"])])
        elif kind == "edit":
            if src.p(0.4):
                ops.append(["tweak", src.choice(["blank-end", "word", "blank", "case", "line", "undo"]), src.i(1000), src.between(0, 2 * 10 ** 9)])
            else:
                ops.append(["edit", creole(src), src.between(0, 2 * 10 ** 9)])
        elif kind == "touch":
            ops.append(["touch", src.between(0, 2 * 10 ** 9)])
        elif kind == "damage":
            ops.append(["damage", src.choice(["rst", "md"]), src.choice(["char", "blank", "dropline", "blankline", "indent", "append", "prepend", "nonote", "empty", "other", "case", "swap", "cut", "crlf"]), src.i(10 ** 6)])
        else:
            ops.append(["restore", src.choice(["rst", "md"])])
    return {"name": name, "ops": ops}


def convert(kind, text):
    """What the library makes of the source; None if it refuses"""
    try:
        return KINDS[kind][2](creole2html(text.strip()), unknown_emit=raise_unknown_node)
    except Exception:
        return None


NOTE = re.compile(r"\n\n------------\n\n``Note: this file is generated from (?P<name>.*) (?P<date>\d{4}-\d\d-\d\d \d\d:\d\d:\d\d) with \"python-creole\"``\Z")


def damage(text, how, k):
    lines = text.split("\n")
    body = max(1, len(lines) - 4)
    n = k % body
    if how == "char":
        p = k % max(1, len("\n".join(lines[:body])))
        return text[:p] + "¤" + text[p + 1:]
    if how == "blank":
        return "\n".join(lines[:n] + [lines[n] + " "] + lines[n + 1:])
    if how == "indent":
        return "\n".join(lines[:n] + [" " + lines[n]] + lines[n + 1:])
    if how == "dropline":
        return "\n".join(lines[:n] + lines[n + 1:])
    if how == "blankline":
        return "\n".join(lines[:n] + [""] + lines[n:])
    if how == "swap" and n + 1 < body:
        return "\n".join(lines[:n] + [lines[n + 1], lines[n]] + lines[n + 2:])
    if how == "append":
        return text + "\nmore"
    if how == "prepend":
        return "\n" + text
    if how == "nonote":
        return "\n".join(lines[:body])
    if how == "empty":
        return ""
    if how == "case":
        return "\n".join(lines[:body]).swapcase() + "\n" + "\n".join(lines[body:])
    if how == "cut":
        return "\n".join(lines[n:])
    if how == "other":
        return "something else"
    return text


def accepted(content, body):
    """Is this derived file the converted text and a note of one line?"""
    tail = "\n\n------------\n\n"
    return content is not None and content.startswith(body + tail) and "\n" not in content[len(body + tail):]


def run(func, *args):
    """None, or the exception"""
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            func(*args)
    except (Exception, SystemExit) as err:
        return err
    return None


HUNK = re.compile(r"^@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@", re.MULTILINE)
NO_END = "\\ No newline at end of file"


def check_diff(what, message, old, new):
    """The message shows where the file (old) differs from the expected text (new): a unified diff of these two"""
    start = message.find("--- ")
    if start < 0:
        fail(f"{what}: the message shows no difference: {short(message, 800)}")
    lines = message[start:].split("\n")
    sides = {"-": old.split("\n"), "+": new.split("\n")}
    k, found, changes = 0, 0, 0
    while k < len(lines):
        m = HUNK.match(lines[k])
        k += 1
        if not m:
            continue
        found += 1
        a, an, b, bn = (int(x) if x is not None else 1 for x in m.groups())
        want = {"-": sides["-"][a - 1:a - 1 + an] if an else [], "+": sides["+"][b - 1:b - 1 + bn] if bn else []}
        got = {"-": [], "+": []}
        while k < len(lines) and not HUNK.match(lines[k]):
            mark, rest = lines[k][:1], lines[k][1:]
            if mark in ("-", " "):
                got["-"].append(rest)
            if mark in ("+", " "):
                got["+"].append(rest)
            if mark in ("-", "+"):
                changes += 1
            elif mark not in ("", " ") and lines[k] != NO_END:
                fail(f"{what}: the line {lines[k]!r} is not a part of a diff: {short(message, 800)}")
            k += 1
        if got != want:
            fail(f"{what}: the message shows {got}, the texts are {want}: {short(message, 800)}")
    if not found or not changes:
        fail(f"{what}: the message shows no difference: {short(message, 800)}")


def valid(kind, body):
    if kind == "rst":
        from readme_renderer.rst import render
        return render(body, stream=io.StringIO()) is not None
    return True


def check(case):
    base = Path(tempfile.mkdtemp(prefix="pbt-readme-"))
    labels = set()
    try:
        source = base / case["name"]
        derived = {k: source.with_suffix("." + k) for k in KINDS}
        state = {k: None for k in KINDS}       # model: content of the derived files
        history = []
        text = mtime = None
        saved = {}
        cache = {}
        stamp = 10 ** 9

        def body_of(kind):
            if (kind, text) not in cache:
                body = convert(kind, text)
                if body is not None and not valid(kind, body):
                    body = None
                cache[kind, text] = body
            return cache[kind, text]

        for op in case["ops"]:
            what = f"{case['name']}: {short(text)} after {[o if o[0] != 'edit' else ['edit'] for o in history]}, now {op}"
            history.append(op)
            if op[0] in ("edit", "tweak"):
                if op[0] == "edit":
                    new = op[1]
                elif op[1] == "blank-end":
                    new = text + " \n"
                elif op[1] == "blank":
                    p = op[2] % (len(text) + 1)
                    new = text[:p] + " " + text[p:]
                elif op[1] == "word":
                    new = text.rstrip() + f" w{op[2]}"
                elif op[1] == "case":
                    new = text.swapcase()
                elif op[1] == "line":
                    new = text.rstrip() + f"\n\nline {op[2]}"
                else:
                    new = saved.get("text", text)
                saved["text"] = text if text is not None else new
                text, mtime = new, op[-1]
                with open(source, "w", encoding="utf-8", newline="\n") as f:
                    f.write(text)
                os.utime(source, (mtime, mtime))
            elif op[0] == "touch":
                mtime = op[1]
                os.utime(source, (mtime, mtime))
            elif op[0] == "delete":
                if state[op[1]] is not None:
                    saved[op[1]] = state[op[1]]
                    derived[op[1]].unlink()
                    state[op[1]] = None
            elif op[0] == "restore":
                if op[1] in saved:
                    write(derived[op[1]], saved[op[1]])
                    state[op[1]] = saved[op[1]]
            elif op[0] == "damage":
                if state[op[1]] is not None:
                    saved[op[1]] = state[op[1]]
                    new = damage(state[op[1]], op[2], op[3])
                    write(derived[op[1]], new)
                    state[op[1]] = new
            elif op[0] == "update":
                kind = op[1]
                body = body_of(kind)
                other = {k: state[k] for k in KINDS if k != kind}
                stamp += 10
                if state[kind] is not None:
                    os.utime(derived[kind], (stamp, stamp))
                err = run(KINDS[kind][0], base, case["name"])
                content = read(derived[kind])
                if body is None:
                    labels.add("refused")
                    if err is None:
                        fail(f"{what}: the source cannot be converted, but the update succeeded")
                    if content != state[kind]:
                        fail(f"{what}: the update failed, but changed the file to {short(content)}")
                else:
                    if err is not None:
                        fail(f"{what}: the update failed with {err!r}")
                    if state[kind] == body:
                        labels.add("open")      # only the note is missing
                    elif accepted(state[kind], body):
                        labels.add("current")
                        if content != state[kind] or derived[kind].stat().st_mtime != stamp:
                            fail(f"{what}: already up-to-date, but it was written again: {short(state[kind])} -> {short(content)}")
                    else:
                        labels.add("generated")
                        m = NOTE.search(content or "")
                        if not m or content[:m.start()] != body:
                            fail(f"{what}\nwrote    {short(content, 1500)}\nexpected {short(body, 1500)} and the note")
                        if m.group("name") != case["name"]:
                            fail(f"{what}: the note names {m.group('name')!r}")
                        want = datetime.datetime.fromtimestamp(mtime).replace(microsecond=0).isoformat(sep=" ")
                        if m.group("date") != want:
                            fail(f"{what}: the note says {m.group('date')}, the source is from {want}")
                    state[kind] = content
                for k, v in other.items():
                    if read(derived[k]) != v:
                        fail(f"{what}: the other file {derived[k].name} changed")
            else:
                kind = op[1]
                body = body_of(kind)
                err = run(KINDS[kind][1], base, case["name"])
                if read(derived[kind]) != state[kind]:
                    fail(f"{what}: the assertion changed the file")
                good = body is not None and accepted(state[kind], body)
                if state[kind] == body:
                    labels.add("open")      # only the note is missing
                    continue
                if good and err is not None:
                    fail(f"{what}: the file is up-to-date, but the assertion says {err!r}")
                if not good and err is None:
                    fail(f"{what}\nthe assertion accepts {short(state[kind], 1500)}\nfor {short(body, 1500)}")
                if not good and body is not None and state[kind] and not isinstance(err, AssertionError):
                    fail(f"{what}: the assertion failed with {err!r}, not with AssertionError")
                if not good and body is not None and state[kind]:
                    check_diff(what, str(err), state[kind], body)
                    labels.add("diff")
                labels.add("accepted" if good else "rejected")
            if read(source) != text:
                fail(f"{what}: the source changed")
        if {"generated"} & labels and labels & {"accepted", "rejected", "current"}:
            labels.add("nt")
        return labels
    finally:
        shutil.rmtree(base, ignore_errors=True)


def write(path, text):
    with open(path, "w", encoding="utf-8", newline="\n") as f:
        f.write(text)


def read(path):
    try:
        with open(path, encoding="utf-8", newline="") as f:
            return f.read()
    except FileNotFoundError:
        return None


PROPS = {
    "T03": {
        "rule": "histories of edits, touches, damages, deletions, updates and assertions against a model of the derived files",
        "assumptions": ["the generation note itself (its text, or whether it is there) is not part of what the assertion compares"],
        "subs": [
            Sub("history", gen, check, quick=5000,
                rule="random histories; non-trivial: a file was generated and later judged by an update or an assertion"),
        ],
    },
}
