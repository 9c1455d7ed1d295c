"""T04: the command line converters."""

import contextlib
import io
import os
import shutil
import subprocess
import sys
import tempfile

from pbt import gencreole as g
from pbt import genhtml as gh
from pbt import texts
from pbt.engine import Sub, Violation
from pbt.props.independence import small_creole, small_html
from pbt.sut import REPO, fail, short

from creole import cmdline, creole2html, html2creole, html2rest, html2textile

TOOLS = {
    "cli_creole2html": creole2html,
    "cli_html2creole": html2creole,
    "cli_html2rest": html2rest,
    "cli_html2textile": html2textile,
}
CODECS = ["utf-8", "utf-8", "utf-8", "utf-8-sig", "utf-16", "utf-16-le", "utf-32", "latin-1", "cp1252", "ascii", "koi8-r", "shift_jis", "gb18030", "iso8859-15", "cp437", "big5", "utf-7", "UTF8", "mac_roman"]
NAMES = ["source.txt", "dest.txt", " a.html", "b.creole ", "ä ö.html", "%s", "{0}", "~", "$HOME", "a\nb", "\ttab", "-x", "--encoding", "*", "a'b\"c", "README", ".hidden", "x.y.z",
         "日本.txt", "con", "a\udcff.html", "UPPER.TXT", "@file", "a;b", "x" * 120, "\\", "u\u2028v", "e\u0301", "#1", "a=b", "n.html~"]
BROKEN = ["nosuchcodec", "rot13", "hex", "base64"]


def text_for(src, tool):
    kind = src.weighted([(4, 0), (3, 1), (1, 2)])
    if kind == 0:
        t = small_creole(src) if tool == "cli_creole2html" else small_html(src)
    elif kind == 1:
        t = ""
        for _ in range(src.rep(0, 10, 3.0)):
            t += texts.raw_word(src) + src.choice([" ", " ", "\n", "\r\n", "\r", "\n\n", "", "\t"])
    else:
        t = src.choice(["", "\n", " ", "\ufeffbom", "<pre>\na\r\nb\r\n</pre>\n<p>x</p>", "<p>&#8364; &euro; &#x1F600;</p>", "{{{\na\r\n\r\nb\n}}}", "ä\u0085ö\u2028ü",
                        "<p><a href='/a'>x</a> <a href='/b'>x</a></p>", "&#xD800;", "\x00", "\x1a after", "é" * 3000, "x\n" * 3000, "<pre>\rx\r</pre>"])
    if src.p(0.2):
        t = t.replace("\n", src.choice(["\r\n", "\r"]))
    return t


def gen(src):
    tool = src.choice(sorted(TOOLS))
    text = text_for(src, tool)
    codec = src.choice(CODECS) if src.p(0.95) else src.choice(BROKEN)
    case = {"tool": tool, "codec": codec, "default": codec == "utf-8" and src.p(0.5)}
    # the source: encoded text, or bytes that may not be text at all
    kind = src.weighted([(8, "text"), (1, "bytes"), (1, "cut"), (1, "missing"), (1, "directory")])
    case["source"] = kind
    if kind == "bytes":
        data = bytes(src.i(256) for _ in range(src.between(0, 30)))
    elif kind in ("text", "cut"):
        try:
            data = text.encode(codec if codec not in BROKEN else "utf-8", "xmlcharrefreplace" if src.p(0.5) else "ignore")
        except Exception:
            data = text.encode("utf-8", "replace")
        if kind == "cut":
            data = data[:src.i(len(data) + 1)] + src.choice([b"", b"\xff", b"\x80", b"\xc3", b"\xd8\x00"])
    else:
        data = b""
    case["data"] = data.hex()
    case["dest"] = src.choice(["new", "new", "existing", "existing", "same", "same", "link", "hard", "relative", "plain", "plain", "nodir", "isdir"])
    case["old"] = src.choice([b"old", b"", b"old content\n" * 500, b"\xff\xfe"]).hex()
    case["names"] = [src.choice(NAMES) if src.p(0.3) else "source.txt", src.choice(NAMES) if src.p(0.3) else "dest.txt"]
    case["opt"] = src.choice(["last", "first", "eq"])
    return case


def expected(case, data):
    """The bytes the command must write; None: it must fail"""
    try:
        text = data.decode(case["codec"])
        if not isinstance(text, str):
            return None
        out = TOOLS[case["tool"]](text).encode(case["codec"])
    except Exception:
        return None
    return out


def snapshot(path):
    found = {}
    for root, dirs, files in os.walk(path):
        for name in sorted(files):
            p = os.path.join(root, name)
            found[os.path.relpath(p, path)] = (os.path.islink(p), open(p, "rb").read() if os.path.exists(p) else None)
        for name in dirs:
            found[os.path.relpath(os.path.join(root, name), path)] = "dir"
    return found


def prepare(case, base):
    data = bytes.fromhex(case["data"])
    old = bytes.fromhex(case["old"])
    source_name, dest_name = case["names"]
    source = os.path.join(base, source_name)
    if case["source"] == "directory":
        os.mkdir(source)
    elif case["source"] != "missing":
        with open(source, "wb") as f:
            f.write(data)
    kind = case["dest"]
    real = dest = os.path.join(base, "out", dest_name)
    os.mkdir(os.path.join(base, "out"))
    if kind == "existing" or kind == "relative":
        with open(dest, "wb") as f:
            f.write(old)
        if kind == "relative":
            dest = os.path.join("out", "..", "out", dest_name)
    elif kind == "plain":  # names only, in the current directory
        real = os.path.join(base, dest_name)
        source, dest = (name if not name.startswith("-") else "./" + name for name in (source_name, dest_name))
    elif kind == "same":
        real = dest = source
    elif kind == "link":
        os.symlink(source, dest)
        real = source
    elif kind == "hard":
        if os.path.isfile(source):
            os.link(source, dest)
    elif kind == "nodir":
        real = dest = os.path.join(base, "out", "no", dest_name)
    elif kind == "isdir":
        real = dest = os.path.join(base, "out", "dir")
        os.mkdir(dest)
    return source, dest, real


def arguments(case, source, dest):
    if case["default"]:
        return [source, dest]
    if case["opt"] == "first":
        return ["--encoding", case["codec"], source, dest]
    if case["opt"] == "eq":
        return [source, "--encoding=" + case["codec"], dest]
    return [source, dest, "--encoding", case["codec"]]


def judge(case, base, before, ok, error, real):
    data = bytes.fromhex(case["data"])
    what = f"{case['tool']} codec {case['codec']}, source {case['source']} {short(data)}, destination {case['dest']}"
    want = None
    if case["source"] not in ("missing", "directory") and case["dest"] not in ("nodir", "isdir"):
        want = expected(case, data)
    after = snapshot(base)
    rel = os.path.relpath(real, base)
    if want is None:
        if ok:
            fail(f"{what}: must fail, but was reported as done")
        if after != before:
            changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
            if [k for k in changed if k in before or k != rel]:
                fail(f"{what}: failed ({error}), but {changed} changed: {short([after.get(k) for k in changed])}")
        return {"fails", "nt"}
    if not ok:
        fail(f"{what}: failed with {error}, expected the output {short(want)}")
    content = after.get(rel)
    if content is None or content[1] != want:
        fail(f"{what}\nwrote    {short(content)}\nexpected {short(want)}")
    for name in before:
        same_file = case["dest"] in ("hard", "link") and name in (case["names"][0], os.path.join("out", case["names"][1]))
        if name != rel and not same_file and before[name] != after.get(name):
            fail(f"{what}: the file {name} changed, too: {short(after.get(name))}")
    extra = set(after) - set(before) - {rel}
    if extra:
        fail(f"{what}: left the files {sorted(extra)}")
    return {"converted", "nt"} if want else {"converted"}


def check(case):
    base = tempfile.mkdtemp(prefix="pbt-cli-")
    argv, cwd = sys.argv, os.getcwd()
    try:
        source, dest, real = prepare(case, base)
        before = snapshot(base)
        os.chdir(base)
        sys.argv = [case["tool"]] + arguments(case, source, dest)
        error = None
        try:
            with contextlib.redirect_stdout(io.TextIOWrapper(io.BytesIO(), "utf-8")), contextlib.redirect_stderr(io.StringIO()):
                getattr(cmdline, case["tool"])()
        except SystemExit as err:
            error = None if err.code in (None, 0) else err
        except Violation:
            raise
        except Exception as err:
            error = err
        return judge(case, base, before, error is None, repr(error), real) | {case["dest"]}
    finally:
        sys.argv = argv
        os.chdir(cwd)
        shutil.rmtree(base, ignore_errors=True)


def check_process(case):
    """The same in a process of its own: the exit status is what counts"""
    base = tempfile.mkdtemp(prefix="pbt-cli-")
    try:
        source, dest, real = prepare(case, base)
        before = snapshot(base)
        code = f"import sys; sys.path.insert(0, {REPO!r}); from creole import cmdline; cmdline.{case['tool']}()"
        p = subprocess.run([sys.executable, "-B", "-c", code] + arguments(case, source, dest), cwd=base, capture_output=True,
                           env=dict(os.environ, PYTHONIOENCODING="utf-8"))
        return judge(case, base, before, p.returncode == 0, p.stderr.decode("utf-8", "replace")[-300:], real) | {case["dest"]}
    finally:
        shutil.rmtree(base, ignore_errors=True)


PROPS = {
    "T04": {
        "rule": "source bytes, codec, destination and options of each command against the library call on the decoded source",
        "assumptions": ["a failing command may leave a new destination, but never changes one that existed", "the destination's encoding is the codec given (with byte order mark where the codec writes one)"],
        "subs": [
            Sub("command", gen, check, quick=12000, rule="the entry points called in process; non-trivial: output expected, or failure expected"),
            Sub("process", gen, check_process, quick=160, rule="the same in processes of their own (exit status)"),
        ],
    },
}
