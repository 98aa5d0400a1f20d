"""Regular-expression facts: a small parser for the syntax the crate uses."""
import re


def to_py(p):
    """Rust regex -> python regex source, or None"""
    q = re.sub(r"\\x\{([0-9A-Fa-f]+)\}", lambda m: "\\U%08x" % int(m.group(1), 16), p)
    m = re.match(r"\(\?([a-z]+)\)", q)
    flags = 0
    if m:
        for f in m.group(1):
            flags |= {"m": re.M, "s": re.S, "i": re.I, "x": re.X}.get(f, 0)
        q = q[m.end():]
    q = re.sub(r"\\z", r"\\Z", q)
    try:
        return re.compile(q, flags)
    except re.error:
        return None


def valid(p):
    return to_py(p) is not None


def match_lit(p, s):
    c = to_py(p)
    if c is None:
        return None
    return c.search(s) is not None


def accepts_empty_only_ws(p):
    return p in (r"^\s*$", r"\A\s*\z")
