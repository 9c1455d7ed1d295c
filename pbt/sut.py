"""Access to the code under test.  Any exception of a conversion that is not
documented becomes a Violation here; harness errors stay ordinary exceptions."""

import os
import sys

REPO = os.environ.get("PBT_REPO", "/repo")
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

from pbt.engine import Violation  # noqa: E402

try:
    import creole  # noqa: E402
    from creole import creole2html, html2creole, html2markdown, html2rest, html2textile  # noqa: E402
    from creole.emitter.html2rest_emitter import Html2restException  # noqa: E402
    from creole.shared import unknown_tags  # noqa: E402
except Exception as err:  # the code under test does not even import
    raise SystemExit(f"cannot import the code under test: {err!r}")

assert os.path.realpath(creole.__file__).startswith(os.path.realpath(REPO) + os.sep), creole.__file__

CONVERTERS = {
    "creole": html2creole,
    "markdown": html2markdown,
    "rest": html2rest,
    "textile": html2textile,
}

HANDLERS = {
    "default": None,
    "transparent": unknown_tags.transparent_unknown_nodes,
    "html_macro": unknown_tags.use_html_macro,
    "pre_macro": unknown_tags.preformat_unknown_nodes,
    "escape": unknown_tags.escape_unknown_nodes,
    "raise": unknown_tags.raise_unknown_node,
}


def short(value, n=600):
    text = repr(value)
    return text if len(text) <= n else text[:n] + "..."


def fail(message):
    raise Violation(message)


def call(func, *args, **kwargs):
    try:
        return func(*args, **kwargs)
    except Violation:
        raise
    except (Exception, SystemExit) as err:
        name = getattr(func, "__name__", str(func))
        raise Violation(f"{name}({short(args[0]) if args else ''}, {short(kwargs, 200)}) raised "
                        f"{type(err).__name__}: {err}") from err


def c2h(text, **kw):
    out = call(creole2html, text, **kw)
    if not isinstance(out, str):
        fail(f"creole2html({short(text)}) returned {type(out)}")
    return out


def convert(name, html, **kw):
    out = call(CONVERTERS[name], html, **kw)
    if not isinstance(out, str):
        fail(f"html2{name}({short(html)}) returned {type(out)}")
    return out


def rest_or_none(html, **kw):
    """html2rest, or None where it refuses with its documented exception."""
    try:
        return html2rest(html, **kw)
    except Html2restException:
        return None
    except (Exception, SystemExit) as err:
        raise Violation(f"html2rest({short(html)}) raised {type(err).__name__}: {err}") from err


def convert_any(name, html, **kw):
    """Like convert(), but None for the documented refusal of html2rest."""
    if name == "rest":
        out = rest_or_none(html, **kw)
        if out is not None and not isinstance(out, str):
            fail(f"html2rest({short(html)}) returned {type(out)}")
        return out
    return convert(name, html, **kw)
