"""Puts attributes which mean nothing to thiserror around those which do."""
import random
import re

BITS = ["/** doc {x} */", "#[doc = \"{0} #[source]\"]", "#[allow(dead_code)]", "#[cfg(all())]", "#[cfg_attr(all(), allow(unused))]", "#[doc(hidden)]",
        "#[cfg_attr(any(), error(\"never\"), source, from, backtrace)]", "#[allow(unused, clippy::all)]", "#[rustfmt::skip]", "#[cfg(not(any()))]",
        "#[doc = concat!(\"a\", \"b\")]", "#[cfg_attr(all(), doc = \"c\")]", "#[doc = r#\"#[error(\"no\")]\"#]"]
MARK = re.compile(r'#\[(?:error\s*\(|source\]|from\]|backtrace\])')
SKIP = re.compile(r'//[^\n]*|/\*.*?\*/|b?r(#*)".*?"\1|b?"(?:\\.|[^"\\])*"|b?\'(?:\\.[^\']*|[^\\\'])\'', re.S)


def end_of(code, i):
    """The index after the attribute which begins at i."""
    depth = 0
    while i < len(code):
        m = SKIP.match(code, i)
        if m:
            i = m.end()
            continue
        if code[i] in "([{":
            depth += 1
        elif code[i] in ")]}":
            depth -= 1
            if depth == 0:
                return i + 1
        i += 1
    return None


def bits(r):
    return [r.choice(BITS) for _ in range(r.choice([0, 0, 1, 2, 3, 9, 17]))]


def clutter(code, r):
    out, i, last = [], 0, 0
    while i < len(code):
        m = SKIP.match(code, i)
        if m:
            i = m.end()
            continue
        if code[i] == "#" and MARK.match(code, i):
            e = end_of(code, i)
            if e is None:
                return code
            if r.random() < 0.4:
                out += [code[last:i], " ".join(bits(r)), " ", code[i:e], " ", " ".join(bits(r)), " "]
                last = e
            i = e
            continue
        i += 1
    return "".join(out) + code[last:]


def case(c, seed, share):
    r = random.Random("clutter/%s/%s" % (seed, c.id))
    if not c.known and not getattr(c, "cluttered", False) and r.random() < share and "macro_rules!" not in c.code:
        c.code = clutter(c.code, r)
        c.cluttered = True
    return c
