"""C06: anything that is or derefs to an error works as a source."""
from tv import errs, gen
from tv.core import NIGHTLY_PROVIDE, Case, Config

DEPS = ['anyhow = "1"']

# Other ways of writing the same types.
ALIASES = '''
pub trait Tr { type E; }
pub struct X;
impl Tr for X { type E = %(base)s; }
pub struct Y;
impl Tr for Y { type E = Box<dyn std::error::Error + Send + Sync>; }
pub type Alias = Box<dyn std::error::Error + Send + Sync + 'static>;
pub type AliasOf<T> = std::rc::Rc<T>;
pub use std::error::Error as StdErr;
macro_rules! ty { ($t:ty) => { $t } }
pub(crate) use ty;
'''


def more(base):
    lv = errs.leaf_val(base)
    S = errs.Src
    dyn = "(&**{b} as &(dyn std::error::Error + 'static))"
    want = ["vs::want_dyn::<%s>(&**{b})" % base]
    out = [
        S("(%s)" % base, lv, ["vs::want::<%s>({b})" % base], ref="{b}"),
        S("<crate::X as crate::Tr>::E", lv, ["vs::want::<%s>({b})" % base], ref="{b}"),
        S("<crate::Y as crate::Tr>::E", lambda r, c: "Box::new(%s)" % lv(r, c), want, ref=dyn),
        S("crate::Alias", lambda r, c: "Box::new(%s)" % lv(r, c), want, ref=dyn),
        S("crate::AliasOf<dyn std::error::Error>", lambda r, c: "std::rc::Rc::new(%s)" % lv(r, c), want, ref=dyn),
        S("Box<dyn crate::StdErr + Sync + Send>", lambda r, c: "Box::new(%s)" % lv(r, c), want, ref=dyn),
        S("Box<dyn Send + crate::StdErr + 'static>", lambda r, c: "Box::new(%s)" % lv(r, c), want, ref=dyn),
        S("Box<(dyn crate::StdErr)>", lambda r, c: "Box::new(%s)" % lv(r, c), want, ref=dyn),
        S("crate::ty!(Box<dyn crate::StdErr>)", lambda r, c: "Box::new(%s)" % lv(r, c), want, ref=dyn),
        S("crate::ty!(%s)" % base, lv, ["vs::want::<%s>({b})" % base], ref="{b}"),
        S("crate::OwnPtr", lambda r, c: "crate::OwnPtr(Box::new(%s))" % lv(r, c), want, ref=dyn),
        S("crate::OwnErr", lambda r, c: "crate::OwnErr(Box::new(%s))" % lv(r, c), ["vs::want::<crate::OwnErr>({b})"], ref="{b}"),
        S("crate::GenPtr<%s>" % base, lambda r, c: "crate::GenPtr(%s)" % lv(r, c), ["vs::want::<%s>(&**{b})" % base], ref="&**{b}"),
        S("crate::GenPtr<crate::OwnPtr>", lambda r, c: "crate::GenPtr(crate::OwnPtr(Box::new(%s)))" % lv(r, c), ["vs::want_dyn::<%s>(&***{b})" % base],
          ref="(&***{b} as &(dyn std::error::Error + 'static))"),
    ]
    return out


OWN = r'''
/// Not an error; dereferences to one, and has methods named like those of the derive's helpers' targets.
pub struct OwnPtr(pub Box<dyn std::error::Error + Send + Sync>);
impl OwnPtr { pub fn as_ref(&self) -> u8 { 1 } pub fn source(&self) -> Option<u8> { None } pub fn as_error(&self) {} }
impl std::ops::Deref for OwnPtr { type Target = dyn std::error::Error + Send + Sync; fn deref(&self) -> &Self::Target { &*self.0 } }
impl std::fmt::Debug for OwnPtr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(&self.0, f) } }
impl std::fmt::Display for OwnPtr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(&self.0, f) } }
/// An error which also dereferences to another one, and has an inherent `source`.
pub struct OwnErr(pub Box<dyn std::error::Error + Send + Sync>);
impl OwnErr { pub fn source(&self) -> u8 { 1 } pub fn provide(&self) -> u8 { 1 } }
impl std::ops::Deref for OwnErr { type Target = dyn std::error::Error + Send + Sync; fn deref(&self) -> &Self::Target { &*self.0 } }
impl std::fmt::Debug for OwnErr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("OwnErr") } }
impl std::fmt::Display for OwnErr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("own") } }
impl std::error::Error for OwnErr { fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { Some(&*self.0) } }
pub struct GenPtr<T>(pub T);
impl<T> std::ops::Deref for GenPtr<T> { type Target = T; fn deref(&self) -> &T { &self.0 } }
impl<T: std::fmt::Debug> std::fmt::Debug for GenPtr<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
impl<T: std::fmt::Display> std::fmt::Display for GenPtr<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
'''


def positions(nightly):
    """(kind, marked #[backtrace], own Backtrace field)"""
    out = []
    for kind in ("named", "attr", "from", "attr-raw", "attr-over"):
        out.append((kind, False, False))
        if nightly:
            out.append((kind, True, False))
            out.append((kind, False, True))
    out.append(("transparent", False, False))
    return out


def type_case(r, cid, src, container, shape, nightly):
    """All the positions of one source type in one container."""
    c = gen.Ctr()
    items, body = [], []
    n = 0
    enums = []
    for kind, marked, own in positions(nightly):
        for optional in ((False, True) if kind != "transparent" else (False,)):
            if shape == "tuple" and kind in ("named", "attr-raw", "attr-over"):
                continue
            ty = r.choice(errs.OPTIONS) % src.text if optional else src.text
            name = "source"
            attrs = {"named": "", "attr": "#[source] ", "from": "#[from] ", "attr-raw": "#[source] ", "attr-over": "#[source] ", "transparent": ""}[kind]
            if kind == "attr-raw":
                name = "r#source"
            elif kind in ("attr-over", "attr", "from", "transparent"):
                name = r.choice(["source" if kind != "attr-over" else "s", "inner", "e", "r#type"])
            if marked:
                attrs = r.choice(["#[backtrace] " + attrs, attrs + "#[backtrace] "])
            fs = [(name, ty, attrs, "source")]
            if own:
                fs.append(("backtrace", "std::backtrace::Backtrace", r.choice(["", "#[backtrace] "]), "own"))
            if kind in ("named", "attr", "attr-raw") and r.random() < 0.5:
                fs.append(("decoy", "vs::Leaf2", "", "decoy"))
            if kind == "attr-over":
                fs.append(("source", "vs::Leaf2", "", "decoy"))
            r.shuffle(fs)
            memb = [f[0] if shape == "named" else str(i) for i, f in enumerate(fs)]
            if shape == "named":
                decl = " { %s }" % ", ".join("%s%s: %s" % (a, nm, t) for nm, t, a, _ in fs)
            else:
                decl = "(%s)" % ", ".join("%s%s" % (a, t) for _, t, a, _ in fs)
            attr = "#[error(transparent)]" if kind == "transparent" else "#[error(\"msg\")]"
            nm = "T%d" % n
            if container == "struct":
                items.append("#[derive(Debug, thiserror::Error)] %s pub struct %s%s%s" % (attr, nm, decl, ";" if shape == "tuple" else ""))
                path = nm
            else:
                if kind == "from":
                    # Each enum of its own: From impls would overlap.
                    items.append("#[derive(Debug, thiserror::Error)] pub enum %s { %s V%s, #[error(\"w\")] W }" % (nm, attr, decl))
                    path = nm + "::V"
                else:
                    enums.append("    %s %s%s," % (attr, nm, decl))
                    path = "E::" + nm
            for vk in range(2 if not optional else 3):
                val = src.val(r, c)
                if optional:
                    val = "None" if vk == 2 else "Some(%s)" % val
                vals = {"source": val, "own": "std::backtrace::Backtrace::disabled()", "decoy": "vs::Leaf2::new(%d)" % c()}
                body.append("    { let e = %s { %s };" % (path, ", ".join("%s: %s" % (m, vals[f[3]]) for m, f in zip(memb, fs))))
                pat = "%s { %s }" % (path, ", ".join("%s: %s" % (m, {"source": "b", "own": "o", "decoy": "_"}[f[3]]) for m, f in zip(memb, fs)))
                label = "%s %s%s%s" % (path, kind, " marked" if marked else "", " own" if own else "")
                if kind == "transparent":
                    act = "m.same_source(\"%s\", &e, %s); m.display(\"%s\", &e, b);" % (label, src.ref.format(b="b"), label)
                else:
                    act = "m.source(\"%s\", &e, %s);" % (label, errs.wants_expr(src, "b", optional))
                if nightly:
                    fwd = marked or own
                    ref = src.ref.format(b="b")
                    s = "None" if not fwd else ("b.as_ref().map(|b| %s as &(dyn std::error::Error + 'static))" % ref if optional
                                                else "Some(%s as &(dyn std::error::Error + 'static))" % ref)
                    act += " crate::forwards(m, \"%s\", &e, %s, %s);" % (label, s, "Some(o)" if own else "None")
                body.append("      if let %s = &e { %s } }" % (pat, act))
            n += 1
    if enums:
        items.append("#[derive(Debug, thiserror::Error)] pub enum E {\n%s\n    #[error(\"unit\")] Unit }" % "\n".join(enums))
    return Case(cid, "\n".join(items) + "\npub fn run(m: &mut vs::Mon) {\n" + "\n".join(body) + "\n}", src.text)


def run(ctx):
    ctx.rule = ("one case = one source type in every position (named/attribute/from/raw/over a decoy, optional or not, "
                "with the source or an own field giving the backtrace, transparent) of a struct or enum; non-trivial = distinct "
                "(case, label, answers)")
    for tc, base, nightly in (("stable", "vs::Leaf", False), (NIGHTLY_PROVIDE, "crate::PErr", True)):
        srcs = errs.sources(base) + more(base)
        cases = []
        reps = ctx.scale(2, 12)
        for k, s in enumerate(srcs):
            for container in ("struct", "enum"):
                for shape in ("named", "tuple"):
                    for rep in range(reps):
                        cid = "t%03d_%s_%s_%d" % (k, container, shape, rep)
                        cases.append(type_case(ctx.sub_rng(cid), cid, s, container, shape, nightly))
        header = ALIASES % {"base": base} + OWN + (errs.PROVIDER + errs.FORWARDS if nightly else "")
        ctx.log(tc, len(srcs), "types", len(cases), "cases")
        ctx.extra.setdefault("source_types", {})[tc] = len(srcs)
        ctx.run_cases(Config(toolchain=tc, deps=DEPS, attrs=["#![feature(error_generic_member_access)]"] if nightly else []),
                      cases, name=tc, header=header, bins=16)
