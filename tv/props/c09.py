"""C09: backtrace requests get the error's own or its source's backtrace."""
from tv import defs, errs, gen
from tv.core import NIGHTLY_PROVIDE, Case, Config
from tv.props import c05

HEADER = r'''
pub mod bt { pub mod deep { pub mod er { pub use std::backtrace::Backtrace; pub use super::super::{gen, own}; } } pub use std::backtrace::Backtrace; pub type Aliased = std::backtrace::Backtrace; pub mod own { #[derive(Debug)] pub struct Backtrace; } pub mod gen { #[derive(Debug)] pub struct Backtrace<T>(pub T); } }
#[derive(Debug)]
pub struct Holder(pub std::backtrace::Backtrace);
impl std::ops::Deref for Holder { type Target = std::backtrace::Backtrace; fn deref(&self) -> &std::backtrace::Backtrace { &self.0 } }
impl From<std::backtrace::Backtrace> for Holder { fn from(b: std::backtrace::Backtrace) -> Self { Holder(b) } }
pub fn bt0() -> std::backtrace::Backtrace { std::backtrace::Backtrace::disabled() }
'''

# (type, must be marked?, value, None value?, expression for Option<&Backtrace> given `o: &T`)
OWN = [
    ("std::backtrace::Backtrace", False, "crate::bt0()", None, "Some(o)"),
    ("::std::backtrace::Backtrace", False, "crate::bt0()", None, "Some(o)"),
    ("Backtrace", False, "crate::bt0()", None, "Some(o)"),
    ("crate::bt::Backtrace", False, "crate::bt0()", None, "Some(o)"),
    ("crate::bt::deep::er::Backtrace", False, "crate::bt0()", None, "Some(o)"),
    ("std::backtrace::Backtrace", True, "crate::bt0()", None, "Some(o)"),
    ("crate::bt::Aliased", True, "crate::bt0()", None, "Some(o)"),
    ("Option<std::backtrace::Backtrace>", True, "Some(crate::bt0())", "None", "o.as_ref()"),
    ("std::option::Option<Backtrace>", True, "Some(crate::bt0())", "None", "o.as_ref()"),
    ("std::sync::Arc<Backtrace>", True, "std::sync::Arc::new(crate::bt0())", None, "Some(&**o)"),
    ("Box<Backtrace>", True, "Box::new(crate::bt0())", None, "Some(&**o)"),
    ("std::rc::Rc<Backtrace>", True, "std::rc::Rc::new(crate::bt0())", None, "Some(&**o)"),
    ("&'static Backtrace", True, "Box::leak(Box::new(crate::bt0()))", None, "Some(*o)"),
    ("crate::Holder", True, "crate::Holder(crate::bt0())", None, "Some(&o.0)"),
    ("Option<std::sync::Arc<Backtrace>>", True, "Some(std::sync::Arc::new(crate::bt0()))", "None", "o.as_deref()"),
    ("Option<Box<crate::bt::Aliased>>", True, "Some(Box::new(crate::bt0()))", "None", "o.as_deref()"),
    ("std::sync::Arc<crate::Holder>", True, "std::sync::Arc::new(crate::Holder(crate::bt0()))", None, "Some(&o.0)"),
]
# Not backtrace fields.
NOT = [("Option<Backtrace>", "Some(crate::bt0())"), ("std::sync::Arc<Backtrace>", "std::sync::Arc::new(crate::bt0())"),
       ("crate::bt::Aliased", "crate::bt0()"), ("crate::bt::own::r#Backtrace", "crate::bt::own::Backtrace"), ("u8", "1"),
       ("crate::bt::gen::Backtrace<u8>", "crate::bt::gen::Backtrace(1)"), ("crate::bt::deep::er::gen::Backtrace<u8>", "crate::bt::gen::Backtrace(1)"),
       ("Vec<Backtrace>", "vec![crate::bt0()]"), ("(Backtrace,)", "(crate::bt0(),)"), ("vs::Leaf2", "vs::Leaf2::new(3)"),
       ("crate::PErr", "crate::PErr::with_bt(77)"), ("Box<dyn std::error::Error + Send + Sync>", "Box::new(crate::PErr::with_bt(78))")]
NAMES = ["backtrace", "bt", "r#type", "source_", "request", "backtrace_", "trace", "provide", "é", "e", "x", "inner", "r#source"]


class V:
    pass


def variant(r, c, srcs, name, used_from, busy=True):
    v = V()
    v.name = name
    skind = r.choice(["none", "none", "named", "named", "attr", "attr", "from", "transparent"])
    okind = r.choice(["none", "own", "own", "own", "marked-source", "marked-source"])
    if skind == "none" and okind == "marked-source":
        okind = "own"
    if not busy:
        # Anything but a backtrace.
        skind, okind = r.choice([skind, "none", "none"]), "none"
    if skind == "transparent":
        okind = r.choice(["none", "marked-source"])
    v.shape = r.choice(["named", "tuple"])
    if skind == "named":
        v.shape = "named"
    if skind == "none" and okind == "none" and r.random() < 0.3:
        v.shape = "unit"
    v.src = r.choice(srcs) if skind != "none" else None
    if skind == "from" and v.src.text in used_from:
        skind = "attr"
    v.opt = skind in ("named", "attr", "from") and r.random() < 0.35
    names = r.sample([n for n in NAMES if n != "r#source" or skind == "attr"], 8)
    if skind == "attr":
        names = [n for n in names if n != "r#source"] + (["r#source"] if "r#source" in names else [])
    fs = []
    if v.src:
        ty = r.choice(errs.OPTIONS) % v.src.text if v.opt else v.src.text
        attrs = {"named": [], "attr": ["#[source]"], "from": ["#[from]"], "transparent": []}[skind]
        nm = "source" if skind == "named" else names[0]
        if skind == "transparent" and okind == "marked-source":
            # Forwarding needs the field to be known as the source.
            if v.shape == "named" and r.random() < 0.5:
                nm = "source"
            elif v.src.text not in used_from:
                attrs.append("#[from]")
            else:
                okind = "none"
        if "#[from]" in attrs:
            used_from.add(v.src.text)
        if okind == "marked-source":
            attrs.append("#[backtrace]")
        r.shuffle(attrs)
        fs.append(["src", nm, " ".join(attrs), ty])
    v.own = None
    if okind == "own":
        v.own = r.choice(OWN)
        marked = v.own[1] or r.random() < 0.3
        if "Option" not in v.own[0] and "#[from]" in str(fs) and v.own[0].startswith(("&",)):
            v.own = OWN[0]
            marked = r.random() < 0.3
        if "#[from]" in str(fs) and v.own[0] in ("Option<std::sync::Arc<Backtrace>>", "Option<Box<crate::bt::Aliased>>", "std::sync::Arc<crate::Holder>"):
            v.own = OWN[9]      # From<Backtrace> is needed
            marked = True
        fs.append(["own", names[1], "#[backtrace]" if marked else "", v.own[0]])
    v.extra = []
    if v.shape != "unit" and skind not in ("from", "transparent"):
        for i in range(r.choice([0, 0, 1, 2] if r.random() < 0.93 else [7, 14, 30])):
            t, val = r.choice(NOT)
            fs.append(["n%d" % i, names[2 + i] if i < 3 else "more%d" % i, "", t])
            v.extra.append(("n%d" % i, val))
    r.shuffle(fs)
    v.fs = fs
    v.memb = {f[0]: (f[1] if v.shape == "named" else str(i)) for i, f in enumerate(fs)}
    if v.shape == "named":
        v.decl = " { %s }" % ", ".join("%s %s: %s" % (f[2], f[1], f[3]) for f in fs)
    elif v.shape == "tuple":
        v.decl = "(%s)" % ", ".join("%s %s" % (f[2], f[3]) for f in fs)
    else:
        v.decl = ""
    v.attr = "#[error(transparent)]" if skind == "transparent" else r.choice(["#[error(\"m\")]", "#[error(\"m\")]", "#[error(fmt = nofmt%d)]" % len(fs)])
    v.forward = v.src is not None and okind != "none"
    v.combo = "%s/%s/%s" % (skind, okind, v.shape)
    return v


def values(v, r, c, path):
    out = []
    for k in range(4):
        m = {}
        if v.src:
            x = v.src.val(r, c)
            m["src"] = x if not v.opt else ("None" if r.random() < 0.3 else "Some(%s)" % x)
        if v.own:
            m["own"] = v.own[3] if v.own[3] and k % 2 else v.own[2]
        m.update(dict(v.extra))
        out.append("%s { %s }" % (path, ", ".join("%s: %s" % (v.memb[f[0]], m[f[0]]) for f in v.fs)))
        if v.shape == "unit":
            break
    return out


def arm(v, path):
    pat = "%s { %s }" % (path, ", ".join("%s: %s" % (v.memb[f[0]], {"src": "b", "own": "o"}.get(f[0], "_")) for f in v.fs))
    s = "None"
    if v.forward:
        ref = v.src.ref
        if v.opt:
            s = "b.as_ref().map(|b| %s as &(dyn std::error::Error + 'static))" % ref.format(b="b")
        else:
            s = "Some(%s as &(dyn std::error::Error + 'static))" % ref.format(b="b")
    own = v.own[4] if v.own else "None"
    use = ""
    if v.src and not v.forward:
        use = "let _ = b; "
    return "%s => { %scrate::forwards(m, &format!(\"%s {i}\"), e, %s, %s) }" % (pat, use, v.combo, s, own)


def case(r, cid, srcs, body=None):
    c = gen.Ctr()
    kind = r.choice(["struct", "enum", "enum"])
    used = set()
    n, busy = gen.crowd(r, [1, 2, 3, 5, 8], 0.12) if kind == "enum" else (1, {0})
    names = ["E"] if kind == "struct" else gen.variant_names(r, n)
    vs_ = [variant(r, c, srcs, nm, used, k in busy) for k, nm in enumerate(names)]
    L = ["use std::backtrace::Backtrace;"]
    for v in vs_:
        if "fmt" in v.attr:
            if kind == "struct":
                v.attr = "#[error(\"m\")]"
                continue
            fn = "f_%s" % gen.unraw(v.name)
            v.attr = "#[error(fmt = %s)]" % fn
            L.append("fn %s(%sf: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(\"fn\") }" % (fn, "".join("_: &%s, " % f[3] for f in v.fs)))
    L.append("#[derive(Debug, thiserror::Error)]")
    if kind == "struct":
        v = vs_[0]
        L.append("%s pub struct E%s%s" % (v.attr, v.decl, "" if v.shape == "named" else ";"))
    else:
        L.append("pub enum E {")
        L += ["    %s%s %s%s," % (defs.noise(r, False), v.attr, v.name, v.decl) for v in vs_]
        L.append("}")
    path = (lambda v: "E") if kind == "struct" else (lambda v: "E::" + v.name)
    vals = [x for v in vs_ for x in values(v, r, c, path(v))]
    r.shuffle(vals)
    if body:
        return Case(cid, "\n".join(L + [body(vals)]))
    L += ["pub fn run(m: &mut vs::Mon) {", "    let vals: Vec<E> = vec![%s];" % ",\n        ".join(vals),
          "    for (i, e) in vals.iter().enumerate() {", "        match e {"]
    L += ["            " + arm(v, path(v)) for v in vs_]
    L += ["        }", "    }", "}"]
    return Case(cid, "\n".join(L))


# Layers whose requests are answered somewhere below, with a handwritten
# notion of where.
CHAIN = r'''
use std::backtrace::Backtrace;
use std::error::{request_ref, request_value, Error as _};
#[derive(Debug, thiserror::Error)]
pub enum L {
    #[error("stop")] Stop(#[source] Box<L>),
    #[error("own")] Own { backtrace: Backtrace },
    #[error("ownsrc")] OwnSrc { backtrace: Backtrace, source: Box<L> },
    #[error("marked")] Marked { #[backtrace] trace: std::sync::Arc<Backtrace>, #[source] l: Option<Box<L>> },
    #[error("fwd")] Fwd(#[backtrace] #[from] std::sync::Arc<L>),
    #[error("opt")] Opt { #[source] #[backtrace] s: Option<Box<dyn std::error::Error + Send + Sync>> },
    #[error(transparent)] Trans(#[from] #[backtrace] Box<L>),
    #[error("p")] P { #[backtrace] source: crate::PErr },
    #[error("s")] S(#[backtrace] #[source] S),
    #[error("any")] Dyn(#[source] #[backtrace] Box<dyn std::error::Error + Sync + Send>),
    #[error("none")] None,
}
#[derive(Debug, thiserror::Error)]
#[error("s")]
pub struct S { #[source] below: Box<L>, #[backtrace] own: Option<Backtrace> }
/// The backtraces offered from here, in order, and the providers asked.
fn walk<'a>(l: &'a L, bts: &mut Vec<&'a Backtrace>, asked: &mut Vec<u32>) {
    match l {
        L::Stop(_) | L::None => {}
        L::Own { backtrace } => bts.push(backtrace),
        L::OwnSrc { backtrace, source } => { walk(source, bts, asked); bts.push(backtrace) }
        L::Marked { trace, l } => { if let Some(l) = l { walk(l, bts, asked) } bts.push(trace) }
        L::Fwd(l) => walk(l, bts, asked),
        L::Opt { s } => if let Some(s) = s { walk((&**s as &(dyn std::error::Error + 'static)).downcast_ref::<L>().unwrap(), bts, asked) },
        L::Trans(l) => walk(l, bts, asked),
        L::P { source } => { asked.push(source.id); bts.extend(&source.bt) }
        L::S(s) => { walk(&s.below, bts, asked); bts.extend(&s.own) }
        L::Dyn(s) => walk((&**s as &(dyn std::error::Error + 'static)).downcast_ref::<L>().unwrap(), bts, asked),
    }
}
'''


def chain(r, cid):
    c = gen.Ctr()

    def build(depth):
        if depth == 0:
            return r.choice(["L::Own { backtrace: crate::bt0() }", "L::P { source: crate::PErr::new(%d) }" % c(), "L::P { source: crate::PErr::with_bt(%d) }" % c(),
                             "L::P { source: crate::PErr::with_bt(%d) }" % c(), "L::None", "L::Marked { trace: std::sync::Arc::new(crate::bt0()), l: None }", "L::Opt { s: None }"])
        x = build(depth - 1)
        return r.choice(["L::Stop(Box::new(%s))" % x if r.random() < 0.3 else "L::Trans(Box::new(%s))" % x,
                         "L::OwnSrc { backtrace: crate::bt0(), source: Box::new(%s) }" % x,
                         "L::Marked { trace: std::sync::Arc::new(crate::bt0()), l: Some(Box::new(%s)) }" % x,
                         "L::Fwd(std::sync::Arc::new(%s))" % x, "L::Opt { s: Some(Box::new(%s)) }" % x, "L::Trans(Box::new(%s))" % x,
                         "L::S(S { below: Box::new(%s), own: None })" % x, "L::S(S { below: Box::new(%s), own: Some(crate::bt0()) })" % x,
                         "L::Dyn(Box::new(%s))" % x])
    vals = [build(r.choice([0, 1, 2, 3, 5, 8, 20])) for _ in range(5)]
    return Case(cid, CHAIN + "pub fn run(m: &mut vs::Mon) {\n    let vals: Vec<L> = vec![%s];" % ",\n        ".join(vals) + r'''
    for (i, e) in vals.iter().enumerate() {
        let (mut bts, mut asked) = (vec![], vec![]);
        walk(e, &mut bts, &mut asked);
        vs::take_log();
        let got = request_ref::<Backtrace>(e).map(|b| vs::addr_of(b));
        let log = vs::take_log();
        m.count("requests", 1);
        m.trace(&(bts.len(), &log, got.is_some()));
        m.eq(&format!("chain {i}"), got, bts.first().map(|b| vs::addr_of(*b)));
        m.eq(&format!("chain {i} providers asked"), log, asked.iter().map(|id| format!("provide#{id}")).collect::<Vec<_>>());
        m.eq(&format!("chain {i} Num"), request_value::<crate::Num>(e), asked.first().map(|id| crate::Num(*id)));
        vs::take_log();
    }
}''')


def run(ctx):
    ctx.rule = ("one case = one struct or enum mixing own backtrace fields (16 forms), look-alikes, sources of every type, marked or not; "
                "every value is asked for Backtrace, a reference and a value the source may provide, and 6 other types, and the providers "
                "reached are logged; non-trivial = distinct (source/own combination, answers, providers asked)")
    srcs = errs.sources("crate::PErr")
    cases = [case(ctx.sub_rng("r%d" % i), "r%04d" % i, srcs) for i in range(ctx.scale(1000, 8000))]
    cases += [chain(ctx.sub_rng("c%d" % i), "c%03d" % i) for i in range(ctx.scale(60, 500))]
    ctx.log("generated", len(cases))
    for k in range(0, len(cases), 3000):
        ctx.run_cases(Config(toolchain=NIGHTLY_PROVIDE, deps=c05.DEPS, attrs=["#![feature(error_generic_member_access)]"]), cases[k:k + 3000],
                      name="m%d" % (k // 3000), header=errs.PROVIDER + errs.FORWARDS + HEADER, bins=16)
    combos = sorted({"%s" % x for x in ctx.extra.get("combos", [])})
    ctx.assumptions.append("requests are observed on nightly-2025-05-01, the installed compiler whose unstable API the probe accepts")
