"""C11: misuse is rejected with a diagnostic at the mistake, and only that.

The monitored execution is the compiler's: every definition is compiled
through the real proc-macro interface, next to code which uses the type, and
the stream of diagnostics is checked against where the one mistake was planted.
"""
import re

from tv import core, gen
from tv.core import Case, Config, Inconclusive, Violation


class Node:
    """Something attributes can be on: the item, a variant or a field."""

    def __init__(self, text=""):
        self.attrs, self.text = [], text
        self.type_line = None


class A:
    """One attribute."""

    def __init__(self, text):
        self.text = text

    @property
    def kind(self):
        return re.match(r"#\[\s*(\w+)", self.text).group(1)


class Var(Node):
    def __init__(self, name, shape):
        super().__init__()
        self.name, self.shape, self.fields = name, shape, []
        self.role = None  # msg, transparent, fmt, inherit, none


class Fld(Node):
    def __init__(self, name, ty):
        super().__init__()
        self.name, self.ty = name, ty


class Def(Node):
    def __init__(self, kind):
        super().__init__()
        self.kind, self.variants = kind, []
        self.generics, self.inst, self.where = "", "", ""
        self.fns = []


PLAIN = ["i32", "String", "u8", "&'static str", "vs::Probe", "Vec<u8>", "Option<u8>", "std::path::PathBuf", "Box<vs::Probe>"]
ERR = ["vs::Leaf", "vs::Leaf2", "std::io::Error", "Box<dyn std::error::Error>", "Box<vs::Leaf>", "Option<vs::Leaf>",
       "std::sync::Arc<vs::Leaf>", "Box<dyn std::error::Error + Send + Sync>", "Option<std::io::Error>", "std::fmt::Error"]
LT_TYPES = ["crate::Lt<'a>", "crate::G<&'a str>", "Box<crate::Lt<'a>>", "Option<crate::Lt<'a>>", "&'a vs::Leaf", "crate::G<crate::Lt<'a>>",
            "crate::LtG<'static, &'a str>", "crate::LtG<'a, u8>", "Option<Box<crate::G<&'a u8>>>", "crate::G2<vs::Leaf, crate::Lt<'a>>",
            "std::boxed::Box<crate::G2<&'a str, u8>>", "&'a (dyn std::error::Error + 'static)", "crate::G<crate::G<crate::G<&'a str>>>"]

BACKTRACES = ["std::backtrace::Backtrace", "std::backtrace::Backtrace", "Option<std::backtrace::Backtrace>", "std::sync::Arc<std::backtrace::Backtrace>", "::std::backtrace::Backtrace"]

HEADER = r'''
pub const LIMIT: u8 = 1;
macro_rules! err { ($([$($g:tt)*] $t:ty;)*) => { $(
    impl<$($g)*> std::fmt::Display for $t { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
    impl<$($g)*> std::error::Error for $t {}
)* } }
#[derive(Debug)] pub struct Lt<'a>(pub &'a str);
#[derive(Debug)] pub struct LtG<'a, T>(pub &'a str, pub T);
#[derive(Debug)] pub struct G<T>(pub T);
#[derive(Debug)] pub struct G2<T, U>(pub T, pub U);
err! { ['a] Lt<'a>; ['a, T: std::fmt::Debug] LtG<'a, T>; [T: std::fmt::Debug] G<T>; [T: std::fmt::Debug, U: std::fmt::Debug] G2<T, U>; }
pub fn is_error<T: std::error::Error>(_: &T) {}
pub fn is_display<T: std::fmt::Display + ?Sized>(_: &T) {}
pub fn debug_fmt<T: std::fmt::Debug>(_: &T, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
pub struct NoDisplay;
'''


def field_names(r, n):
    # `source` has a meaning of its own and is only placed on purpose.
    return [x for x in r.sample(["a", "b", "x", "code", "name", "r#type", "r#fn", "path", "line", "é", "cause", "inner", "_u", "data"], n)]


def message(r, v, i):
    """A message attribute over the fields."""
    s = "m%d" % i
    for f in v.fields:
        if r.random() < 0.4 and ("String" in f.ty or f.ty in ("i32", "u8", "&'static str", "vs::Probe")):
            n = gen.unraw(f.name) if f.name else str(v.fields.index(f))
            s += " {%s%s}" % (n, r.choice(["", ":?", ":>4"]))
    t = '"%s"' % s
    if r.random() < 0.15:
        t += ","
    elif r.random() < 0.2 and "{0" not in s and "{1" not in s:
        s2 = r.choice(["extra = 1 + 1", "n = if true { 1 } else { 2 }", "extra = vec![1, 2].len()"])
        t = '"%s {%s}", %s' % (s, s2.split(" ")[0], s2)
    d = r.choice(["()", "()", "()", "[]", "{}"])
    return A("#[error%s%s%s]" % (d[0], t, d[1]))


def fill_variant(r, d, v, i, roles):
    v.role = role = r.choice(roles)
    names = lambda n: field_names(r, n) if v.shape == "named" else [None] * n
    if v.shape == "unit":
        if role in ("transparent",):
            v.shape = r.choice(["named", "tuple"])
    if role == "transparent":
        f = Fld(names(1)[0], r.choice([t for t in ERR if not t.startswith("Option")]))
        if r.random() < 0.3:
            f.attrs.append(A("#[from]"))
        v.fields = [f]
        v.attrs.append(A("#[error(transparent)]"))
        return
    if v.shape != "unit":
        form = r.choice(["plain", "plain", "source", "from", "named_source"])
        if form == "from":
            f = Fld(names(1)[0], r.choice(ERR))
            f.attrs.append(A("#[from]"))
            if r.random() < 0.2:
                f.attrs.append(A("#[source]"))
            v.fields = [f]
        else:
            v.fields = [Fld(n, r.choice(PLAIN)) for n in names(r.choice([0, 1, 2, 3]))]
            if form == "source" or (form == "named_source" and v.shape == "tuple"):
                f = Fld(names(1)[0] and "cause_", r.choice(ERR))
                f.attrs.append(A("#[source]"))
                v.fields.insert(r.randint(0, len(v.fields)), f)
            elif form == "named_source":
                v.fields.insert(r.randint(0, len(v.fields)), Fld("source", r.choice(ERR)))
    if v.shape != "unit" and d.generics and r.random() < 0.5:
        p = r.choice(["T", "Vec<T>", "Option<T>", "std::marker::PhantomData<&'a T>"])
        if not any(a.kind == "from" for f in v.fields for a in f.attrs):
            v.fields.append(Fld(names(1)[0] and "gen_", p))
    if role == "msg":
        v.attrs.append(message(r, v, i))
    elif role == "fmt":
        d.fns.append("pub fn fmt%d<%s>(%sf: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }" % (
            i, ", ".join((["'a"] if any("'a" in f.ty for f in v.fields) else []) + (["T: std::fmt::Debug"] if any("T" in f.ty.replace("Type", "") for f in v.fields) else [])) if d.generics else "", "".join("_: &%s, " % f.ty for f in v.fields)))
        v.attrs.append(A("#[error(fmt = fmt%d)]" % i))


def valid(r):
    d = Def(r.choice(["struct", "enum", "enum"]))
    if r.random() < 0.3:
        d.generics, d.inst, d.ph = "<'a, T: std::fmt::Debug>", "<'static, u8>", "&'a T"
        preds = ["T: Clone", "T: std::fmt::Debug", "Vec<T>: Sized", "'static: 'a", "T: Copy + Send", "for<'z> &'z T: Clone", "Option<T>: PartialEq<Option<T>>", "T: 'a", "u8: PartialEq<T>"]
        q = r.random()
        if q < 0.25:
            d.generics, d.inst, d.ph = "<'a, T: std::fmt::Debug, U: Send>", "<'static, u8, i8>", r.choice(["(&'a T, U)", "(&'a T, fn() -> U)"])
            preds += ["U: Clone", "(T, U): Clone", "U: Sync + Unpin", "T: PartialOrd<T>", "U: PartialOrd"]
        elif q < 0.4:
            d.generics, d.inst = "<'a, T: std::fmt::Debug, const N: usize>", "<'static, u8, 3>"
            preds += ["[T; N]: Clone", "[T; N]: PartialEq<[T; N]>"]
        elif q < 0.5:
            d.generics, d.inst, d.ph = "<'a, 'b: 'a, T: std::fmt::Debug + 'b>", "<'static, 'static, u8>", "(&'a T, &'b ())"
        if r.random() < 0.65:
            d.where = "where " + ", ".join(r.sample(preds, r.choice([1, 1, 2, 2, 3, 4]))) + r.choice(["", ","])
    if d.kind == "struct":
        v = Var("E", r.choice(["named", "tuple", "unit"]))
        d.variants = [v]
        fill_variant(r, d, v, 0, ["msg", "msg", "msg", "transparent", "none"])
    else:
        n = r.choice([1, 2, 3, 4])
        style = r.choice(["own", "own", "own", "inherit", "none"])
        for i in range(n):
            v = Var("V%d" % i, r.choice(["named", "tuple", "unit"]))
            fill_variant(r, d, v, i, {"own": ["msg", "msg", "transparent", "fmt"], "inherit": ["msg", "inherit", "transparent"], "none": ["none"]}[style])
            d.variants.append(v)
        if style == "own" and all(v.role == "transparent" for v in d.variants) is False and not any(v.role in ("msg", "fmt") for v in d.variants):
            return valid(r)
        if style == "own" and not any(v.role in ("msg", "fmt") for v in d.variants) and n > 0 and r.random() < 0.5:
            pass
        if style == "inherit":
            d.attrs.append(A('#[error("all of them")]'))
        d.style = style
    if d.generics:
        # Both parameters are used, without getting in the way of anything.
        joined = " ".join(f.ty for v in d.variants for f in v.fields)
        if d.kind == "enum":
            v = Var("Ph", "tuple")
            v.fields = [Fld(None, "std::marker::PhantomData<%s>" % d.ph)]
            v.role = "msg"
            if d.style != "none":
                v.attrs.append(A('#[error("ph")]'))
            else:
                v.role = "none"
            d.variants.insert(r.randint(0, len(d.variants)), v)
        elif "PhantomData<%s>" % d.ph not in joined:
            v = d.variants[0]
            if v.role == "transparent" or v.shape == "unit" or any(a.kind == "from" for f in v.fields for a in f.attrs):
                d.generics = d.inst = d.where = ""
                for f in v.fields:
                    f.ty = f.ty if "T>" not in f.ty and f.ty != "T" else "u8"
            else:
                v.fields.append(Fld("ph" if v.shape == "named" else None, "std::marker::PhantomData<%s>" % d.ph))
    # One conversion per type.
    seen = set()
    for v in d.variants:
        for f in v.fields:
            if any(a.text == "#[from]" for a in f.attrs):
                t = re.sub(r"^Option<(.*)>$", r"\1", f.ty)
                if t in seen:
                    return valid(r)
                seen.add(t)
    # Attributes which are none of the derive's business.
    nodes = [d] + d.variants * (d.kind == "enum") + [f for v in d.variants for f in v.fields]
    for n in nodes:
        if r.random() < 0.1:
            n.attrs.insert(r.randint(0, len(n.attrs)), A(r.choice(["#[doc = \"x\"]", "#[allow(unused)]", "#[cfg(all())]"])))
    for f in nodes:
        if isinstance(f, Fld) and r.random() < 0.05 and not any(a.kind == "from" for a in f.attrs):
            f.attrs.append(A(r.choice(["#[from(forward)]", "#[from = \"x\"]", "#[from(u8, u16)]"])))
    d.display = has_display(d)
    d.derived = bool(d.generics) and not d.fns and r.random() < 0.5 and not any(f.ty in ("T", "Vec<T>", "Option<T>") for v in d.variants for f in v.fields)
    if d.derived:
        # Debug only if T is, and without saying so.
        d.generics = re.sub(r"T: std::fmt::Debug( \+ )?", lambda m: "T: " if m.group(1) else "T", d.generics)
        d.where = d.where.replace("T: std::fmt::Debug", "T: Sized")
    return d


def has_display(d):
    if d.kind == "struct":
        return d.variants[0].role in ("msg", "transparent")
    return d.style != "none" or all(v.role == "transparent" for v in d.variants)


# -------------------------------------------------------------------- misuse
#
# Each takes a valid definition and plants one mistake. It returns the nodes
# or attributes at which the diagnostic may be, or None if not applicable here.

OPS = {}


def op(exact=True):
    def reg(f):
        OPS[f.__name__] = (f, exact)
        return f
    return reg


def err_attr(n):
    return [a for a in n.attrs if a.kind == "error"]


def holder(d, v):
    """The node carrying the attributes of the variant."""
    return d if d.kind == "struct" else v


def put(r, n, a):
    n.attrs.insert(r.randint(0, len(n.attrs)), a)
    return a


def pick(r, xs):
    xs = list(xs)
    return r.choice(xs) if xs else None


def nodes_with_messages(d):
    return [n for n in [d] + (d.variants if d.kind == "enum" else []) if err_attr(n)]


@op()
def missing_message(r, d):
    if d.kind != "enum" or d.style != "own":
        return None
    v = pick(r, [v for v in d.variants if v.role in ("msg", "fmt")])
    if not v or sum(1 for w in d.variants if w.role in ("msg", "fmt")) < 2:
        return None
    v.attrs = [a for a in v.attrs if a.kind != "error"]
    return [v]


@op()
def duplicate_message(r, d):
    n = pick(r, nodes_with_messages(d))
    if not n or "transparent" in err_attr(n)[0].text or "fmt =" in err_attr(n)[0].text:
        return None
    return [err_attr(n)[0], put(r, n, A('#[error("again")]'))]


@op()
def duplicate_transparent(r, d):
    n = pick(r, [n for n in nodes_with_messages(d) if "transparent" in err_attr(n)[0].text])
    return n and [err_attr(n)[0], put(r, n, A("#[error(transparent)]"))]


@op()
def duplicate_fmt(r, d):
    n = pick(r, [n for n in nodes_with_messages(d) if "fmt =" in err_attr(n)[0].text])
    return n and [err_attr(n)[0], put(r, n, A(r.choice([err_attr(n)[0].text, "#[error(fmt = core::fmt::Octal::fmt)]"])))]


@op()
def conflicting_messages(r, d):
    n = pick(r, nodes_with_messages(d))
    if not n:
        return None
    t = err_attr(n)[0].text
    k = "transparent" if "transparent" in t else "fmt" if "fmt =" in t else "msg"
    new = r.choice([x for x in ["transparent", "fmt", "msg"] if x != k and not (x == "fmt" and d.kind == "struct")])
    # Only the conflict: the field count suits transparent.
    if "transparent" in (k, new):
        v = n if n is not d else (d.variants[0] if d.kind == "struct" else None)
        if v is None or len(v.fields) != 1 or any(a.kind == "source" for a in v.fields[0].attrs):
            return None
        if new == "transparent" and v.fields[0].ty not in ERR:
            return None
    return [err_attr(n)[0], put(r, n, A({"transparent": "#[error(transparent)]", "fmt": "#[error(fmt = crate::debug_fmt)]", "msg": '#[error("msg")]'}[new]))]


@op()
def duplicate_field_attr(r, d):
    f = pick(r, [f for v in d.variants for f in v.fields if any(a.kind == "source" or a.text == "#[from]" for a in f.attrs)])
    if not f:
        return None
    a = pick(r, [a for a in f.attrs if a.kind == "source" or a.text == "#[from]"])
    return [a, put(r, f, A(a.text))]


@op()
def duplicate_backtrace_attr(r, d):
    f = pick(r, [f for v in d.variants for f in v.fields])
    return f and [put(r, f, A("#[backtrace]")), put(r, f, A("#[backtrace]"))]


@op()
def two_sources(r, d):
    v = pick(r, [v for v in d.variants if len(v.fields) >= 1 and v.role != "transparent" and any(a.kind == "source" for f in v.fields for a in f.attrs)
                 and not any(a.text == "#[from]" for f in v.fields for a in f.attrs)])
    if not v:
        return None
    f = Fld("second_" if v.shape == "named" else None, r.choice(ERR))
    f.attrs.append(A("#[source]"))
    old = [a for g in v.fields for a in g.attrs if a.kind == "source"]
    v.fields.insert(r.randint(0, len(v.fields)), f)
    if v.role == "fmt":
        return None
    if not renumber_ok(v):
        return None
    return old + f.attrs


@op()
def two_froms(r, d):
    v = pick(r, [v for v in d.variants if v.role != "fmt" and v.role != "transparent" and any(a.text == "#[from]" for f in v.fields for a in f.attrs)])
    if not v or not renumber_ok(v):
        return None
    f = Fld("second_" if v.shape == "named" else None, r.choice(ERR))
    f.attrs.append(A("#[from]"))
    old = [a for g in v.fields for a in g.attrs if a.text in ("#[from]", "#[source]")]
    v.fields.insert(r.randint(0, len(v.fields)), f)
    return old + f.attrs


@op()
def two_backtraces(r, d):
    v = pick(r, [v for v in d.variants if len(v.fields) >= 2])
    if not v:
        return None
    f, g = r.sample(v.fields, 2)
    return [put(r, f, A("#[backtrace]")), put(r, g, A("#[backtrace]"))]


@op()
def field_attr_outside(r, d):
    n = r.choice([d] + (d.variants if d.kind == "enum" else []))
    return [put(r, n, A(r.choice(["#[from]", "#[source]", "#[backtrace]"])))]


@op()
def message_on_field(r, d):
    f = pick(r, [f for v in d.variants for f in v.fields])
    if not f:
        return None
    return [put(r, f, A(r.choice(['#[error("...")]', "#[error(transparent)]", "#[error(fmt = core::fmt::Octal::fmt)]", '#[error("{x}", x = 1)]'])))]


@op()
def transparent_many(r, d):
    v = pick(r, [v for v in d.variants if v.role == "transparent"])
    if not v or any(a.text == "#[from]" for f in v.fields for a in f.attrs):
        return None
    n = r.choice([0, 2, 3])
    if n == 0:
        v.fields = []
        if r.random() < 0.3:
            v.shape = "unit"
    else:
        for i in range(n - 1):
            v.fields.insert(r.randint(0, len(v.fields)), Fld("more%d" % i if v.shape == "named" else None, r.choice(PLAIN + ERR)))
    return err_attr(holder(d, v)) + [holder(d, v)]


@op()
def transparent_enum_many(r, d):
    if d.kind != "enum" or d.style != "inherit" or all(len(v.fields) == 1 for v in d.variants if v.role == "inherit"):
        return None
    a = err_attr(d)[0]
    bad = [v for v in d.variants if v.role == "inherit" and len(v.fields) != 1]
    # Only this mistake: those with one field have an error in it.
    for v in d.variants:
        if v.role == "inherit" and len(v.fields) == 1:
            v.attrs.append(A('#[error("own")]'))
    a.text = "#[error(transparent)]"
    return [a] + bad


@op()
def transparent_source(r, d):
    v = pick(r, [v for v in d.variants if v.role == "transparent"])
    if not v:
        return None
    return [put(r, v.fields[0], A("#[source]"))]


@op()
def from_not_source(r, d):
    v = pick(r, [v for v in d.variants if v.role in ("msg", "none", "inherit") and any(a.kind == "source" for f in v.fields for a in f.attrs)
                 and not any(a.text == "#[from]" for f in v.fields for a in f.attrs)])
    if not v or not renumber_ok(v):
        return None
    f = Fld("other_" if v.shape == "named" else None, r.choice(ERR))
    a = A("#[from]")
    f.attrs.append(a)
    v.fields.insert(r.randint(0, len(v.fields)), f)
    return [a]


@op()
def from_with_more(r, d):
    v = pick(r, [v for v in d.variants if v.role in ("msg", "none", "inherit") and any(a.text == "#[from]" for f in v.fields for a in f.attrs)])
    if not v or not renumber_ok(v):
        return None
    a = [a for f in v.fields for a in f.attrs if a.text == "#[from]"]
    for i in range(r.choice([1, 1, 2])):
        n = "source" if i == 0 and r.random() < 0.2 and not any(f.name == "source" for f in v.fields) else "extra%d" % i
        v.fields.insert(r.randint(0, len(v.fields)), Fld(n if v.shape == "named" else None, r.choice(ERR + PLAIN)))
    return a


@op()
def from_with_backtraces(r, d):
    v = pick(r, [v for v in d.variants if v.role in ("msg", "none", "inherit") and any(a.text == "#[from]" for f in v.fields for a in f.attrs)])
    if not v or not renumber_ok(v):
        return None
    if any("acktrace" in f.ty or any(a.text == "#[backtrace]" for a in f.attrs) for f in v.fields):
        return None
    src = [f for f in v.fields if any(a.text == "#[from]" for a in f.attrs)][0]
    a = [a for a in src.attrs if a.text == "#[from]"]
    n = r.choice([1, 2, 2, 2, 3])
    for i in range(n):
        v.fields.insert(r.randint(0, len(v.fields)), Fld("bt%d" % i if v.shape == "named" else None, r.choice(BACKTRACES[:2] if r.random() < 0.6 else BACKTRACES)))
    if n == 1:
        # The source is the backtrace, so that the other is one too many.
        put(r, src, A("#[backtrace]"))
    elif r.random() < 0.5:
        put(r, r.choice([f for f in v.fields if "acktrace" in f.ty]), A("#[backtrace]"))
    return a


def renumber_ok(v):
    """Whether fields can be added in front of others without touching the message."""
    return not any("{0" in a.text or "{1" in a.text or "{2" in a.text for a in v.attrs) or v.shape == "named"


@op()
def fmt_on_struct(r, d):
    if d.kind != "struct" or d.variants[0].role not in ("none", "msg"):
        return None
    d.attrs = [a for a in d.attrs if a.kind != "error"]
    return [put(r, d, A("#[error(fmt = %s)]" % r.choice(["core::fmt::Octal::fmt", "crate::debug_fmt", "<u8 as std::fmt::Display>::fmt", "f::<T>"])))]


@op()
def union(r, d):
    if d.kind != "struct" or d.generics:
        return None
    d.kind = "union"
    d.variants[0].shape = "named"
    d.variants[0].fields = [Fld("a", "u8"), Fld("b", "i8")]
    d.attrs = [a for a in d.attrs if a.kind != "error"]
    if r.random() < 0.5:
        d.attrs.append(A('#[error("u")]'))
    return [d]


@op()
def ambiguous_number(r, d):
    n = pick(r, [v for v in d.variants if v.role == "msg" and v.shape == "tuple" and v.fields and v.fields[0].ty in ("i32", "u8", "String", "&'static str")])
    if not n:
        return None
    h = holder(d, n)
    a = err_attr(h)[0]
    a.text = r.choice(['#[error("{0} {}", 1)]', '#[error("{0} {}", i32::MAX == 1)]', '#[error("{0} {}", LIMIT == 1)]', '#[error("{0} {}", [1][0])]', '#[error("{0} {}", u8::MAX != 1, )]', '#[error("{0:?} < {}", i32::MAX)]', '#[error("{} {0}", named.len(), named = "x")]', '#[error("{n} {0} {}", n = 1, {2})]',
                       '#[error("{0}", 1 + 1)]', '#[error("{x}{0:>4}", x = 1, 5)]', '#[error("{0} {}", .0)]', '#[error("{} {0}", if true { 1 } else { 2 })]'])
    if "named.len" in a.text:
        a.text = '#[error("{} {0} {named}", "x".len(), named = "x")]'
    if "{n} {0}" in a.text or a.text.startswith('#[error("{x}'):
        # A positional argument cannot follow a named one.
        a.text = '#[error("{} {0} {n}", {2}, n = 1)]'
    return [a]


@op()
def ambiguous_number_enum(r, d):
    if d.kind != "enum" or d.style != "inherit":
        return None
    vs_ = [v for v in d.variants if v.role == "inherit"]
    if not any(v.shape == "tuple" and v.fields for v in vs_):
        return None
    # The other variants would have no field 0 to show.
    for v in vs_:
        if not (v.shape == "tuple" and v.fields):
            v.attrs.append(A('#[error("own")]'))
    a = err_attr(d)[0]
    a.text = '#[error("{0:?} {}", 1)]'
    return [a]


@op()
def non_static_source(r, d):
    v = pick(r, [v for v in d.variants if v.role != "transparent" and v.role != "fmt" and any(a.kind in ("source",) or a.text == "#[from]" for f in v.fields for a in f.attrs)])
    if not v or not d.generics:
        return None
    f = [f for f in v.fields if any(a.kind == "source" or a.text == "#[from]" for a in f.attrs)][0]
    f.ty = r.choice(LT_TYPES)
    return [("type", f)]


@op()
def unknown_content_error(r, d):
    n = pick(r, nodes_with_messages(d))
    if not n:
        return None
    a = err_attr(n)[0]
    a.text = r.choice(["#[error]", "#[error()]", '#[error = "msg"]', "#[error(foo)]", "#[error(transparent, x)]", "#[error(fmt)]", "#[error(fmt = )]", "#[error(fmt = 3)]",
                       "#[error(1)]", '#[error(b"x")]', '#[error(concat!("a"))]', "#[error(transparent = 1)]", "#[error(,)]", "#[error(transparent transparent)]",
                       "#[error(fmt = a b)]", "#[error('c')]", '#[error(c"x")]', "#[error(Transparent)]", "#[error(-1)]", "#[error[]]", "#[error{}]", "#[error(x = \"y\")]"])
    return [a]


@op()
def unknown_content_field(r, d):
    f = pick(r, [f for v in d.variants for f in v.fields])
    if not f:
        return None
    cands = ["#[source(x)]", '#[source = "x"]', "#[backtrace(y)]", '#[backtrace = "y"]', "#[source()]", "#[backtrace{}]", "#[source[1]]"]
    f.attrs = [a for a in f.attrs if a.kind not in ("source", "from", "backtrace")]
    return [put(r, f, A(r.choice(cands)))]


@op(exact=False)
def unknown_placeholder(r, d):
    n = pick(r, [v for v in d.variants if v.role == "msg"])
    if not n:
        return None
    a = err_attr(holder(d, n))[0]
    a.text = r.choice(['#[error("{nonexistent}")]', '#[error("{99}")]', '#[error("{")]', '#[error("}")]', '#[error("{_}")]', '#[error("{} {}", 1)]', '#[error("{nonexistent:?} {{")]',
                       '#[error("{:}")]', '#[error("{nope:>4$}")]', '#[error("{a b}")]', '#[error("x", unused = 1)]', '#[error("{é}{zé}")]'])
    return [a]


@op(exact=False)
def not_displayable(r, d):
    n = pick(r, [v for v in d.variants if v.role == "msg" and v.shape == "named"])
    if not n or any(a.text == "#[from]" for f in n.fields for a in f.attrs):
        return None
    f = Fld("nodisp", "crate::NoDisplay")
    n.fields.append(f)
    a = err_attr(holder(d, n))[0]
    a.text = '#[error("{nodisp%s}")]' % r.choice(["", ":o", ":>5", ":x", ":e"])
    d.no_debug = True
    return [a, f]


@op(exact=False)
def source_not_error(r, d):
    v = pick(r, [v for v in d.variants if v.role not in ("fmt", "transparent") and v.shape == "named" and not any(a.kind in ("source", "from") for f in v.fields for a in f.attrs)
                 and not any(f.name == "source" for f in v.fields)])
    if not v:
        return None
    f = Fld(r.choice(["source", "not_err"]), "vs::Probe")
    if f.name != "source":
        f.attrs.append(A("#[source]"))
    v.fields.append(f)
    return f.attrs + [f]


@op(exact=False)
def no_display_at_all(r, d):
    if d.display or d.generics:
        return None
    d.handwritten = False
    return [d]


# ---------------------------------------------------------------------- text

def emit(d, spans):
    """The lines of the definition; spans collects id -> (first, last)."""
    L = []

    def node(n, pre, text_lines, post):
        first = len(L)
        for a in n.attrs:
            k = len(L)
            L.append(a.text)
            spans[id(a)] = (k, k)
        for t in text_lines:
            L.append(pre + t)
        L[-1] += post
        spans[id(n)] = (first, len(L) - 1)

    def fields(v):
        for f in v.fields:
            first = len(L)
            for a in f.attrs:
                spans[id(a)] = (len(L), len(L))
                L.append(a.text)
            if f.name:
                L.append("%s%s:" % ("" if d.kind == "enum" else "pub ", f.name))
            L.append(f.ty + ",")
            spans[("type", id(f))] = (len(L) - 1, len(L) - 1)
            spans[id(f)] = (first, len(L) - 1)

    first = len(L)
    for a in d.attrs + (d.variants[0].attrs if d.kind != "enum" and d.variants[0] is not d else []):
        spans[id(a)] = (len(L), len(L))
        L.append(a.text)
    if d.kind in ("struct", "union"):
        v = d.variants[0]
        if v.shape == "unit":
            L.append("pub %s E%s %s;" % (d.kind, d.generics, d.where))
        elif v.shape == "named":
            L.append("pub %s E%s %s {" % (d.kind, d.generics, d.where))
            fields(v)
            L.append("}")
        else:
            L.append("pub struct E%s(" % d.generics)
            fields(v)
            L.append(") %s;" % d.where)
    else:
        L.append("pub enum E%s %s {" % (d.generics, d.where))
        for v in d.variants:
            f0 = len(L)
            for a in v.attrs:
                spans[id(a)] = (len(L), len(L))
                L.append(a.text)
            if v.shape == "unit":
                L.append(v.name + ",")
            else:
                o, c = ("{", "}") if v.shape == "named" else ("(", ")")
                L.append(v.name + o)
                fields(v)
                L.append(c + ",")
            spans[id(v)] = (f0, len(L) - 1)
        L.append("}")
    spans[id(d)] = (first, len(L) - 1)
    return L


def build_case(r, cid, opname):
    for _ in range(300):
        d = valid(r)
        # A struct carries the attributes of its only "variant".
        if d.kind == "struct":
            d.attrs += d.variants[0].attrs
            d.variants[0].attrs = []
        exact = True
        allowed = None
        if opname:
            f, exact = OPS[opname]
            if d.kind == "struct":
                d.variants[0].attrs = d.attrs
            allowed = f(r, d)
            if d.kind in ("struct", "union"):
                d.variants[0].attrs = []
            if not allowed:
                continue
            if exact and opname not in ("union", "from_with_more", "from_with_backtraces", "non_static_source") and r.random() < (0.7 if "backtrace" in opname else 0.2):
                # Types which mean something to the derive.
                for f in [f for v in d.variants for f in v.fields if f.ty in PLAIN and f.name != "source" and not any(a.kind in ("from", "source") for a in f.attrs)]:
                    if r.random() < 0.7:
                        f.ty = r.choice(BACKTRACES)
        spans = {}
        L = emit(d, spans)
        pre = ["#[derive(thiserror::Error)]"]
        if getattr(d, "derived", False) and d.generics:
            pre.append("#[derive(Debug)]")
        hand = []
        ge, inst = d.generics, d.inst
        ga = "<%s>" % ", ".join(x.split(":")[0].replace("const ", "") for x in ge[1:-1].split(", ")) if ge else ""
        # Debug and, if there are no messages, Display are written by hand.
        if len(pre) == 1:
            hand.append("impl%s std::fmt::Debug for E%s %s { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(\"E\") } }" % (ge, ga, d.where))
        if not d.display and getattr(d, "handwritten", True):
            # Not in the cases where the fallback provides Display.
            if opname is None:
                hand.append("impl%s std::fmt::Display for E%s %s { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(\"E\") } }" % (ge, ga, d.where))
            elif not OPS[opname][1]:
                continue
        use = ["pub fn use_it(e: &E%s) -> String { crate::is_error(e); crate::is_display(e); let d: &dyn std::error::Error = e; let _ = std::error::Error::source(e); format!(\"{e}{d}{}\", e.to_string()) }" % inst,
               "pub fn boxed(e: E%s) -> Result<(), Box<dyn std::error::Error>> { Err(e)?; Ok(()) }" % inst]
        lines = pre + L + hand + d.fns + use
        allow = set()
        for a in allowed or []:
            key = ("type", id(a[1])) if isinstance(a, tuple) else id(a)
            if key not in spans and d.kind in ("struct", "union"):
                key = id(d)
            lo, hi = spans[key]
            allow |= set(range(lo + len(pre), hi + len(pre) + 1))
        if opname == "union" or (allowed and d in allowed):
            allow.add(0)
        whole = set(range(0, len(pre) + len(L)))
        sig = (opname, d.kind, bool(d.generics), bool(d.where), tuple((v.shape, v.role, len(v.fields)) for v in d.variants),
               tuple(sorted(a.text for a in allowed or [] if isinstance(a, A))))
        return {"case": Case(cid, "\n".join(lines), desc=opname or "valid"), "op": opname, "exact": exact, "allow": allow, "whole": whole, "sig": sig}
    return None


def run(ctx):
    ctx.rule = ("one case = one generated definition, valid or with exactly one mistake planted at a random place, next to code using the type "
                "as Error and Display; all diagnostics the compiler gives for it are recorded; non-trivial = distinct (mistake, definition shape, attribute texts)")
    ctx.assumptions = ["where the compiler itself, not the derive, finds the mistake (unknown placeholder, field without the needed trait, no message at all), "
                       "only rejection inside the definition is required, not the number of errors"]
    cases = []
    per = ctx.scale(40, 350)
    for o in sorted(OPS):
        for i in range(per):
            c = build_case(ctx.sub_rng("%s%d" % (o, i)), "%s_%d" % (o, i), o)
            if c:
                cases.append(c)
    for i in range(ctx.scale(400, 4000)):
        cases.append(build_case(ctx.sub_rng("valid%d" % i), "valid_%d" % i, None))
    for o in list(OPS) + [None]:
        n = sum(1 for c in cases if c["op"] == o)
        ctx.count("cases_" + (o or "valid"), n)
        if n == 0:
            raise Inconclusive("no case of %s could be made" % o)
    ctx.log("generated", len(cases))
    ctx.rng.shuffle(cases)
    # Mistakes found by rustc itself can keep it from going on: they are apart.
    strict = [c for c in cases if c["exact"] and c["op"]]
    late = [c for c in cases if not c["exact"]]
    good = [c for c in cases if not c["op"]]
    size = 120
    chunks = [("s", strict[i:i + size]) for i in range(0, len(strict), size)]
    chunks += [("l", [c]) for c in ()]
    chunks += [("l", late[i:i + size]) for i in range(0, len(late), size)]
    chunks += [("v", good[i:i + size]) for i in range(0, len(good), size)]
    cfg = Config()
    ctx.configs.append(cfg.name())
    files, tables, who = {}, {}, {}
    for n, (k, cs) in enumerate(chunks):
        b = "%s%02d" % (k, n)
        L = ["#![allow(warnings)]"] + HEADER.splitlines()
        table = []
        for c in cs:
            L.append("pub mod %s {" % c["case"].id)
            first = len(L) + 1
            L += c["case"].code.splitlines()
            table.append((first, len(L), c["case"].id))
            L.append("}")
        # Shows that the compiler got as far as checking the uses.
        canary = None
        if k == "s":
            L.append("pub mod canary { #[derive(Debug)] pub struct N;")
            L.append("pub fn f() { crate::is_error(&N); } }")
            canary = len(L)
        L.append("fn main() {}")
        files["src/%s.rs" % b] = "\n".join(L) + "\n"
        tables[b] = (table, canary)
        who.update({c["case"].id: c for c in cs})
    d = ctx.crate("diag", cfg, sorted(tables), files)
    ok, msgs, exes, err = ctx.build(cfg, d)
    seen = {}
    alive = set()
    for j in msgs:
        m = j["message"]
        b = j["target"]["name"]
        if not m["level"].startswith("error") or "aborting due to" in m["message"]:
            continue
        if "internal compiler error" in m["level"] + m["message"]:
            raise Inconclusive("compiler crashed: " + m["message"][:300])
        if b not in tables:
            raise Inconclusive("error outside the workload: " + (m["rendered"] or m["message"])[:1000])
        table, canary = tables[b]
        prim = [s for s in m["spans"] if s["is_primary"] and s["file_name"].endswith("src/%s.rs" % b)]
        if canary and any(s["line_start"] == canary for s in prim):
            alive.add(b)
            continue
        cid = core.blame(m, table, "src/%s.rs" % b)
        if cid is None:
            raise Inconclusive("error outside any case: " + (m["rendered"] or m["message"])[:1500])
        seen.setdefault(cid, []).append((m, b))
    dead = [b for b, (t, canary) in tables.items() if canary and b not in alive]
    lines_of = {cid: (b, first, last) for b, (t, _) in tables.items() for first, last, cid in t}
    for c in cases:
        cid = c["case"].id
        b, first, last = lines_of[cid]
        got = seen.get(cid, [])
        ctx.evaluations += 1
        ctx.traces.add(repr(c["sig"]))
        ctx.count("errors_observed", len(got))
        text = "\n".join((m["rendered"] or m["message"]) for m, _ in got)

        def bad(kind):
            ctx.violation(Violation(c["case"], kind, text or "(no error)", cfg))

        if c["op"] is None:
            if got:
                bad("a definition breaking no rule is rejected")
            continue
        if not got:
            if b in dead:
                continue
            bad("misuse (%s) is accepted" % c["op"])
            continue
        places = []
        for m, _ in got:
            ls = set()
            for s in m["spans"]:
                # The outermost place in the workload this span comes from.
                e = s
                while e.get("expansion") and not e["file_name"].endswith("src/%s.rs" % b):
                    e = e["expansion"]["span"]
                if s["is_primary"]:
                    ls |= {e["line_start"] - first}
            places.append(ls)
        if c["exact"]:
            if len(got) != 1:
                bad("misuse (%s) gives %d errors" % (c["op"], len(got)))
            elif not places[0] & c["allow"]:
                bad("misuse (%s) is reported at line %s, the mistake is at %s" % (c["op"], sorted(x + 1 for x in places[0]), sorted(x + 1 for x in c["allow"])))
        elif not any(p & c["whole"] for p in places):
            bad("misuse (%s) is not reported inside the definition" % c["op"])
        if len(ctx.samples) < 6 and got and ctx.evaluations % 97 == 0:
            ctx.samples.append("%s: %s at line %s" % (c["op"], got[0][0]["message"], sorted(x + 1 for x in places[0])))
    if dead:
        # Something kept the compiler from going on to check the uses, which
        # would hide secondary errors.
        raise Inconclusive("the compiler did not get to the uses in %s" % dead)
