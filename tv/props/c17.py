"""C17: path fields display losslessly, as Path::display does."""
from tv import gen
from tv.core import Case, Config

HEADER = r'''
use std::borrow::Cow;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::Arc;
pub fn buf(b: &[u8]) -> PathBuf { PathBuf::from(OsString::from_vec(b.to_vec())) }
pub fn leak(b: &[u8]) -> &'static Path { Box::leak(buf(b).into_boxed_path()) }
pub fn leakbuf(b: &[u8]) -> &'static PathBuf { Box::leak(Box::new(buf(b))) }
/// Derefs to a path, but displays in its own way (as camino's Utf8PathBuf).
#[derive(Debug, Clone)]
pub struct Shown(pub PathBuf);
impl std::ops::Deref for Shown { type Target = Path; fn deref(&self) -> &Path { vs::event("deref".into()); &self.0 } }
impl std::fmt::Display for Shown { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { vs::event("own".into()); f.pad("own:")?; write!(f, "{}", self.0.as_os_str().len()) } }
/// Displays in its own way and derefs to an owned path.
#[derive(Debug, Clone)]
pub struct ShownBuf(pub PathBuf);
impl std::ops::Deref for ShownBuf { type Target = PathBuf; fn deref(&self) -> &PathBuf { vs::event("deref".into()); &self.0 } }
impl std::fmt::Display for ShownBuf { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.pad("buf") } }
/// A path type whose inherent `display` must not be used.
#[derive(Debug, Clone)]
pub struct Inherent(pub String);
impl Inherent { pub fn display(&self) -> &'static str { "inherent display" } }
impl std::ops::Deref for Inherent { type Target = Path; fn deref(&self) -> &Path { Path::new(&self.0) } }
impl std::fmt::Display for Inherent { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("inherent Display") } }
/// A user-defined pointer without a Display of its own.
#[derive(Debug)]
pub struct Ptr<T: ?Sized>(pub Box<T>);
impl<T: ?Sized> std::ops::Deref for Ptr<T> { type Target = T; fn deref(&self) -> &T { &self.0 } }
'''

# (type, value from bytes, expression of something displaying as the field must; {f} is a `&field type`)
PATHS = [
    ("PathBuf", "crate::buf({b})", "{f}.display()"),
    ("std::path::PathBuf", "crate::buf({b})", "{f}.display()"),
    ("&'static Path", "crate::leak({b})", "{f}.display()"),
    ("&'static std::path::Path", "crate::leak({b})", "{f}.display()"),
    ("Box<Path>", "crate::buf({b}).into_boxed_path()", "{f}.display()"),
    ("Rc<Path>", "Rc::from(crate::buf({b}))", "{f}.display()"),
    ("Arc<Path>", "Arc::from(crate::buf({b}))", "{f}.display()"),
    ("Cow<'static, Path>", "Cow::Owned(crate::buf({b}))", "{f}.display()"),
    ("Cow<'static, Path>", "Cow::Borrowed(crate::leak({b}))", "{f}.display()"),
    ("&'static PathBuf", "crate::leakbuf({b})", "{f}.display()"),
    ("&'static mut PathBuf", "Box::leak(Box::new(crate::buf({b})))", "{f}.display()"),
    ("&'static mut Path", "Box::leak(crate::buf({b}).into_boxed_path())", "{f}.display()"),
    ("&'static &'static Path", "Box::leak(Box::new(crate::leak({b})))", "{f}.display()"),
    ("Box<PathBuf>", "Box::new(crate::buf({b}))", "{f}.display()"),
    ("Rc<PathBuf>", "Rc::new(crate::buf({b}))", "{f}.display()"),
    ("Arc<PathBuf>", "Arc::new(crate::buf({b}))", "{f}.display()"),
    ("Box<Box<Path>>", "Box::new(crate::buf({b}).into_boxed_path())", "{f}.display()"),
    ("Arc<Box<PathBuf>>", "Arc::new(Box::new(crate::buf({b})))", "{f}.display()"),
    ("Box<Cow<'static, Path>>", "Box::new(Cow::Owned(crate::buf({b})))", "{f}.display()"),
    ("crate::Ptr<Path>", "crate::Ptr(crate::buf({b}).into_boxed_path())", "{f}.display()"),
    ("crate::Ptr<PathBuf>", "crate::Ptr(Box::new(crate::buf({b})))", "{f}.display()"),
    ("std::pin::Pin<Box<PathBuf>>", "Box::pin(crate::buf({b}))", "{f}.display()"),
    ("std::mem::ManuallyDrop<PathBuf>", "std::mem::ManuallyDrop::new(crate::buf({b}))", "{f}.display()"),
    ("std::panic::AssertUnwindSafe<PathBuf>", "std::panic::AssertUnwindSafe(crate::buf({b}))", "{f}.display()"),
    ("Alias", "crate::buf({b})", "{f}.display()"),
]
OTHERS = [
    ("crate::Shown", "crate::Shown(crate::buf({b}))", "{f}"),
    ("crate::ShownBuf", "crate::ShownBuf(crate::buf({b}))", "{f}"),
    ("crate::Inherent", "crate::Inherent(String::from(\"i\"))", "{f}"),
    ("Box<crate::Shown>", "Box::new(crate::Shown(crate::buf({b})))", "{f}"),
    ("Arc<crate::Shown>", "Arc::new(crate::Shown(crate::buf({b})))", "{f}"),
    ("Cow<'static, crate::Shown>", "Cow::Owned(crate::Shown(crate::buf({b})))", "{f}"),
    ("&'static crate::Shown", "Box::leak(Box::new(crate::Shown(crate::buf({b}))))", "{f}"),
    ("String", "String::from_utf8_lossy({b}).into_owned()", "{f}"),
    ("&'static str", "Box::leak(String::from_utf8_lossy({b}).into_owned().into_boxed_str())", "{f}"),
    ("Cow<'static, str>", "Cow::Owned(String::from_utf8_lossy({b}).into_owned())", "{f}"),
    ("Box<dyn std::fmt::Display>", "Box::new(String::from_utf8_lossy({b}).into_owned())", "{f}"),
    ("vs::Probe", "vs::Probe::new(4)", "{f}"),
    ("std::path::Display<'static>", "crate::leak({b}).display()", "{f}"),
    ("i32", "-5", "{f}"),
]
NO_DEBUG = {"Box<dyn std::fmt::Display>"}


def raw(r):
    k = r.randrange(16)
    if k == 0:
        return b""
    if k == 1:
        return bytes(r.randrange(256) for _ in range(r.choice([1, 2, 3, 8, 40])))
    if k == 2:
        return r.choice([b"/", b"//", b"/a/", b"a//b/./c/..", b".", b"..", b"./", b"~", b"-", b" ", b"\n", b"\0", b"C:\\x\\y"])
    if k == 3:
        return b"/" + r.choice([b"\xff", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xf0\x9f\x92", b"\xc0\x80", b"\x80\x81\x82"]) + r.choice([b"", b"/z", b"\xc3\xa9"])
    if k == 4:
        return "/é/日本/😀/ŭ".encode() + r.choice([b"", b"\xff"])
    if k == 5:
        return r.choice([b"{}", b"/{0}/{{x}}", b"%s%d", b"{:?}", b"\"quoted\"", b"a\\nb", b"\x1b[31m", b"a\tb\rc"])
    if k == 6:
        return b"/".join([r.choice([b"long", b"\xff\xfe", "ß".encode()])] * r.choice([50, 700]))
    if k == 7:
        return b"x" * r.choice([1, 127, 128, 129, 1023, 1024, 1025, 4096, 5000]) + r.choice([b"", b"\xe2\x82"])
    return b"/" + b"/".join(r.choice([b"usr", b"tmp", b"a b", b".hidden", b"\xc3\xa9", b"\xe9", b"file.txt", b"..", b"", b"\xf0\x9f\x98\x80", b"x\xffy"]) for _ in range(r.choice([1, 2, 3, 5])))


def blit(b):
    return 'b"%s"' % "".join("\\x%02x" % x if x < 32 or x > 126 or x in (34, 92) else chr(x) for x in b)


NAMES = ["path", "p", "file", "r#type", "dir", "source_", "display", "as_display", "PathBuf", "Path", "é", "__field", "f", "self_", "_0", "other", "r#fn", "std", "core"]


def case(r, cid, body=None, raw=raw):
    kind = r.choice(["struct", "enum", "enum"])
    nv, busy = gen.crowd(r, [1, 2, 3, 5]) if kind == "enum" else (1, {0})
    vnames = ["E"] if kind == "struct" else gen.variant_names(r, nv)
    decls, arms, vals = [], [], []
    used = set()
    # A message of the enum itself over path fields of every variant.
    level = None
    if kind == "enum" and r.random() < 0.25:
        level = r.choice([("named", "{path} / {path:?}"), ("named", "<{path}>"), ("tuple", "{0}|{0:?}"), ("tuple", "{0}")])
    for vi, name in enumerate(vnames):
        shape = r.choice(["named", "tuple"])
        inherit = level and r.random() < 0.7 and vi in busy
        if inherit:
            shape = level[0]
        nf = r.choice([1, 1, 2, 3, 4])
        tys = [r.choice(PATHS if r.random() < 0.7 else OTHERS) for _ in range(nf)]
        if inherit and tys[0][0] in NO_DEBUG:
            tys[0] = PATHS[0]
        fns = r.sample(NAMES, nf)
        if inherit:
            fns = ["path"] + [n for n in fns if n != "path"][:nf - 1]
            fns += ["x%d" % i for i in range(nf - len(fns))]
        used |= {t[0] for t in tys}
        text, args, targs, ttext = [], [], [], []
        refs = [gen.unraw(n) if shape == "named" else str(i) for i, n in enumerate(fns)]
        if inherit:
            text = [level[1]]
            ttext = [level[1].replace("{path", "{0").replace("{0:?}", "{1:?}")]
            targs = [tys[0][2].format(f="b0")] + (["b0"] if ":?" in level[1] else [])
        else:
            shadowed = None
            for _ in range(r.choice([1, 1, 2, 3, 5]) if vi in busy else 0):
                i = r.randrange(nf)
                lit = r.choice(["", " ", "at ", "{{", "}}", ":", "é"])
                text.append(lit)
                ttext.append(lit)
                q = r.random()
                ispath = tys[i][2] != "{f}"
                if q < 0.6:
                    text.append("{%s}" % refs[i] if r.random() < 0.9 else "{%s }" % refs[i])
                    ttext.append("{}")
                    targs.append(tys[i][2].format(f="b%d" % i))
                elif q < 0.85 and tys[i][0] not in NO_DEBUG:
                    sp = r.choice(["?", "#?", ">20?", "-^9?", "02?"])
                    text.append("{%s:%s}" % (refs[i], sp))
                    ttext.append("{:%s}" % sp)
                    targs.append("b%d" % i)
                elif not ispath and shape == "named":
                    text.append("{%s:>9}" % refs[i])
                    ttext.append("{:>9}")
                    targs.append("b%d" % i)
                elif ispath and shape == "named":
                    # The path's display as an ordinary argument, with a spec.
                    sp = r.choice(["", ":>12", ":.3", ":?"])
                    text.append("{%s}" % sp)
                    ttext.append("{%s}" % sp)
                    a = "%s.display()" % "b%d"
                    args.append(".%s.display()" % fns[i])
                    targs.append("b%d.display()" % i)
        attr = "" if inherit else "#[error(%s)]" % ", ".join([gen.rs("".join(text))] + args)
        fl = ["%s: %s" % (fns[i], tys[i][0]) if shape == "named" else tys[i][0] for i in range(nf)]
        decls.append((attr, name, "{ %s }" % ", ".join(fl) if shape == "named" else "(%s)" % ", ".join(fl), shape))
        memb = fns if shape == "named" else [str(i) for i in range(nf)]
        path = "E" if kind == "struct" else "E::" + name
        arms.append("%s { %s } => write!(f, %s)," % (path, ", ".join("%s: b%d" % (m, i) for i, m in enumerate(memb)), ", ".join([gen.rs("".join(ttext))] + targs)))
        for _ in range(6):
            vals.append("%s { %s }" % (path, ", ".join("%s: %s" % (m, t[1].format(b=blit(raw(r)))) for m, t in zip(memb, tys))))
    nodebug = used & NO_DEBUG
    L = ["use crate::*; type Alias = PathBuf;", "#[derive(%sthiserror::Error)]" % ("" if nodebug else "Debug, ")]
    if kind == "struct":
        a, n, d, s = decls[0]
        L.append("%s pub struct E%s%s" % (a, d, ";" if s == "tuple" else ""))
    else:
        if level and any(not d[0] for d in decls):
            L.append("#[error(%s)]" % gen.rs(level[1]))
        L.append("pub enum E {")
        L += ["    %s %s%s," % (a, n, d) for a, n, d, _ in decls]
        L.append("}")
    if nodebug:
        L.append(gen.manual_debug("E"))
    L.append("struct R<'a>(&'a E);")
    L.append("impl std::fmt::Display for R<'_> { #[allow(unused_variables)] fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self.0 {")
    L += arms
    L.append("} } }")
    if body:
        return Case(cid, "\n".join(L + [body(vals)]))
    L.append("pub fn run(m: &mut vs::Mon) {")
    L.append("    let vals: Vec<E> = vec![%s];" % ",\n        ".join(vals))
    L.append("    for (i, e) in vals.iter().enumerate() { m.display(&format!(\"value {i}\"), e, &R(e)); m.count(\"paths_shown\", 1); }")
    L.append("}")
    return Case(cid, "\n".join(L))


def every(r):
    """Every type alone, as {0}, {x} and together with {x:?}, over many paths."""
    out = []
    for k, (ty, val, shown) in enumerate(PATHS + OTHERS):
        vals = ["E { x: %s }" % val.format(b=blit(raw(r))) for _ in range(24)]
        dbg = ty not in NO_DEBUG
        code = ["use crate::*; #[allow(unused)] type Alias = PathBuf;", "#[derive(%sthiserror::Error)] #[error(\"{x}%s {x}\")] pub struct E { x: %s }" % ("Debug, " if dbg else "", " {x:?}" if dbg else "", ty),
                "" if dbg else gen.manual_debug("E"),
                "#[derive(%sthiserror::Error)] pub enum F { #[error(\"{0}\")] A(%s), #[error(\"b\")] B }" % ("Debug, " if dbg else "", ty), "" if dbg else gen.manual_debug("F"),
                "struct R<'a>(&'a E); impl std::fmt::Display for R<'_> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { let b = &self.0.x; write!(f, %s) } }" % (
                    '"{} {:?} {}", %s, b, %s' % (shown.format(f="b"), shown.format(f="b")) if dbg else '"{} {}", %s, %s' % (shown.format(f="b"), shown.format(f="b"))),
                "struct Q<'a>(&'a F); impl std::fmt::Display for Q<'_> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self.0 { F::A(b) => write!(f, \"{}\", %s), F::B => write!(f, \"b\") } } }" % shown.format(f="b"),
                "pub fn run(m: &mut vs::Mon) {", "    m.display(\"B\", &F::B, &Q(&F::B));",
                "    for (i, e) in vec![%s].into_iter().enumerate() { m.display(&format!(\"value {i}\"), &e, &R(&e)); let f = F::A(e.x); m.display(&format!(\"variant {i}\"), &f, &Q(&f)); m.count(\"paths_shown\", 2); }" % ",\n ".join(vals), "}"]
        out.append(Case("t%02d" % k, "\n".join(code)))
    return out


def run(ctx):
    ctx.rule = ("one case = one definition with fields of %d path-like and %d other types, with values made of arbitrary bytes; the text, and the calls of "
                "own Display and Deref impls, are compared with a twin writing path.display(); non-trivial = distinct (text, result, event log)" % (len(PATHS), len(OTHERS)))
    cases = every(ctx.sub_rng("every"))
    for i in range(ctx.scale(900, 8000)):
        cases.append(case(ctx.sub_rng("r%d" % i), "r%04d" % i))
    for k in range(0, len(cases), 2000):
        ctx.run_cases(Config(), cases[k:k + 2000], name="m%d" % (k // 2000), header=HEADER, bins=16)
