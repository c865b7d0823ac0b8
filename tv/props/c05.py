"""C05: source() is exactly the designated field."""
from tv import errs, gen
from tv.core import NIGHTLY_PROVIDE, Case, Config

DEPS = ['anyhow = "1"']


def case(r, cid, srcs, bt=None):
    c = gen.Ctr()
    kind = r.choice(["struct", "enum", "enum"])
    if kind == "struct":
        vs = [errs.source_variant(r, c, srcs, "E", backtrace=bt)]
    else:
        n, busy = gen.crowd(r, [r.choice([1, 2, 3, 5, 8, 12, 12, 40]) if r.random() < 0.5 else r.choice([1, 2, 3, 5])])
        vs = [errs.source_variant(r, c, srcs, name, backtrace=bt if k in busy else None, kinds=None if k in busy else ["none"], max_decoys=4 if k in busy else 0) for k, name in enumerate(gen.variant_names(r, n))]
    errs.dedupe_from(vs)
    path = (lambda v: "E") if kind == "struct" else (lambda v: "E::" + v.name)
    vals = [errs.value(v, r, c, path(v)) for v in vs for _ in range(2)]
    r.shuffle(vals)
    L = errs.definition(vs, kind, r)
    L += ["pub fn run(m: &mut vs::Mon) {", "    let vals: Vec<E> = vec![%s];" % ",\n        ".join(vals),
          "    for (i, e) in vals.iter().enumerate() {", "        let label = format!(\"value {i}\");", "        match e {"]
    L += ["            " + errs.arm(v, path(v)) for v in vs]
    L += ["        }", "    }", "}"]
    return Case(cid, "\n".join(L))


# Layers of derived errors, with a handwritten notion of the next layer.
CHAIN = r'''
use std::error::Error as _;
#[derive(Debug, thiserror::Error)]
#[error("layer {id}")]
pub struct S { id: u32, source: Option<Box<L>> }
#[derive(Debug, thiserror::Error)]
pub enum L {
    #[error("a{0}")] A(u32, #[source] Box<L>),
    #[error("b")] B(#[from] std::sync::Arc<L>),
    #[error("c{id}")] C { id: u32, source: Option<Box<L>>, cause: vs::Leaf },
    #[error("d")] D { before: vs::Leaf, #[source] it: Box<dyn std::error::Error + Send + Sync>, source: vs::Leaf2 },
    #[error(transparent)] T(Box<L>),
    #[error("s")] S(#[source] S),
    #[error("end{0}")] End(u32),
    #[error("r")] R { r#source: Box<L> },
    #[error("f")] F { #[from] inner: anyhow::Error },
}
impl L {
    /// The layers source() must visit from here, outermost first.
    fn below(&self, out: &mut Vec<String>) {
        match self {
            L::A(_, l) => l.layers(out),
            L::B(l) => l.layers(out),
            L::C { source, .. } => if let Some(l) = source { l.layers(out) },
            L::D { it, .. } => any(&**it, out),
            L::T(l) => l.below(out),
            L::S(s) => { out.push(format!("S{}", s.id)); if let Some(l) = &s.source { l.layers(out) } }
            L::End(_) | L::R { .. } => {}
            L::F { inner } => any(&**inner, out),
        }
    }
    fn layers(&self, out: &mut Vec<String>) { out.push(self.name()); self.below(out) }
    fn name(&self) -> String {
        match self {
            L::A(n, _) => format!("A{n}"), L::B(_) => "B".into(), L::C { id, .. } => format!("C{id}"), L::D { .. } => "D".into(),
            L::T(l) => format!("T:{}", l.name()), L::S(_) => "S".into(), L::End(n) => format!("End{n}"), L::R { .. } => "R".into(), L::F { .. } => "F".into(),
        }
    }
}
fn any(e: &(dyn std::error::Error + 'static), out: &mut Vec<String>) { e.downcast_ref::<L>().unwrap().layers(out) }
fn shown(e: &(dyn std::error::Error + 'static)) -> String {
    if let Some(l) = e.downcast_ref::<L>() { return l.name(); }
    if let Some(l) = e.downcast_ref::<Box<L>>() { return l.name(); }
    if let Some(l) = e.downcast_ref::<std::sync::Arc<L>>() { return l.name(); }
    if let Some(s) = e.downcast_ref::<S>() { return format!("S{}", s.id); }
    format!("other {e:?}")
}
'''


def chain(r, cid):
    c = gen.Ctr()

    def build(depth):
        if depth == 0:
            return r.choice(["L::End(%d)" % c(), "L::C { id: %d, source: None, cause: vs::Leaf::new(1) }" % c(), "L::S(S { id: %d, source: None })" % c(),
                             "L::R { r#source: Box::new(L::End(%d)) }" % c()])
        x = build(depth - 1)
        return r.choice(["L::A(%d, Box::new(%s))" % (c(), x), "L::B(std::sync::Arc::new(%s))" % x,
                         "L::C { id: %d, source: Some(Box::new(%s)), cause: vs::Leaf::over(1, vs::Leaf::new(2)) }" % (c(), x),
                         "L::D { before: vs::Leaf::new(1), it: Box::new(%s), source: vs::Leaf2::new(2) }" % x,
                         "L::T(Box::new(%s))" % x, "L::S(S { id: %d, source: Some(Box::new(%s)) })" % (c(), x),
                         "L::F { inner: anyhow::Error::new(%s) }" % x])
    vals = [build(r.choice([0, 1, 2, 3, 5, 8, 13])) for _ in range(4)]
    L = [CHAIN, "pub fn run(m: &mut vs::Mon) {", "    let vals: Vec<L> = vec![%s];" % ",\n        ".join(vals), r'''
    for (i, e) in vals.iter().enumerate() {
        let mut want = vec![];
        e.below(&mut want);
        let mut got = vec![];
        let mut at = e.source();
        while let Some(s) = at { got.push(shown(s)); at = s.source(); if got.len() > 1000 { break } }
        m.count("layers_visited", got.len() as u64);
        m.trace(&want);
        m.eq(&format!("chain {i}"), got, want);
    }
}''']
    return Case(cid, "\n".join(L))


def fixed(srcs):
    """Every source type in every position, once."""
    out = []

    class R:
        pass

    import random
    for k, s in enumerate(srcs):
        r = random.Random("fixed/%d" % k)
        vs = []
        c = gen.Ctr()
        for j, kind in enumerate(["named", "attr", "from", "attr-raw", "attr-over", "transparent", "none", "raw"]):
            for opt in (False, True):
                while True:
                    v = errs.source_variant(r, c, [s], "V%d%d" % (j, opt), kinds=[kind], max_decoys=2)
                    if v.optional == opt or kind in ("transparent", "none", "raw"):
                        break
                vs.append(v)
        errs.dedupe_from(vs)
        for st in [None] + vs:
            if st is None:
                kind, use = "enum", vs
            else:
                kind, use = "struct", [st]
            path = (lambda v: "E") if kind == "struct" else (lambda v: "E::" + v.name)
            vals = [errs.value(v, r, c, path(v)) for v in use for _ in range(2)]
            L = errs.definition(use, kind, r)
            L += ["pub fn run(m: &mut vs::Mon) {", "    let vals: Vec<E> = vec![%s];" % ",\n        ".join(vals),
                  "    for (i, e) in vals.iter().enumerate() {", "        let label = format!(\"value {i}\");", "        match e {"]
            L += ["            " + errs.arm(v, path(v)) for v in use]
            L += ["        }", "    }", "}"]
            out.append(Case("f%03d_%s" % (k, st.name.lower() if st else "all"), "\n".join(L), s.text))
    return out


def run(ctx):
    ctx.rule = ("one case = one generated struct or enum; every variant designates a source of one of %d types in one of 13 ways "
                "among decoy fields; source() of every value must be the very object (address and concrete type) or None; "
                "non-trivial = distinct (case, value, expected answer), plus distinct chains of derived layers")
    srcs = errs.sources()
    ctx.rule = ctx.rule % len(srcs)
    cases = fixed(srcs)
    for i in range(ctx.scale(700, 7000)):
        cases.append(case(ctx.sub_rng("r%d" % i), "r%04d" % i, srcs))
    for i in range(ctx.scale(40, 400)):
        cases.append(chain(ctx.sub_rng("c%d" % i), "c%03d" % i))
    ctx.log("generated", len(cases))
    # Backtrace fields are supported on nightly only.
    bt = [case(ctx.sub_rng("b%d" % i), "b%04d" % i, srcs, "std::backtrace::Backtrace") for i in range(ctx.scale(300, 3000))]
    ctx.run_cases(Config(toolchain=NIGHTLY_PROVIDE, edition="2021", deps=DEPS, attrs=["#![feature(error_generic_member_access)]"]), bt,
                  name="bt", bins=16)
    for k in range(0, len(cases), 3000):
        ctx.run_cases(Config(edition="2021", deps=DEPS), cases[k:k + 3000], name="m%d" % (k // 3000), bins=16)
