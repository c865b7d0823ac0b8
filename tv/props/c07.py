"""C07: transparent errors are indistinguishable from their inner error."""
from tv import defs, errs, gen
from tv.core import NIGHTLY_PROVIDE, Case, Config
from tv.props import c05, c06

NAMES = ["inner", "source", "r#source", "e", "r#type", "error", "self_", "f", "__formatter_", "transparent", "é", "backtrace_"]


def checks(label, got, ref, req=False):
    s = "m.same_source(&{l}, {g}, {r}); m.display(&{l}, {g}, b); m.faults(&{l}, {g}, b);".format(l=label, g=got, r=ref)
    if req:
        s += " crate::forwards(m, &%s, %s, None, None);" % (label, got)
    return s


def mixed(r, cid, srcs, nightly=False):
    """Transparent variants among siblings of every other kind, with the
    attribute on the variant or on the enum."""
    c = gen.Ctr()
    level = r.random() < 0.4
    n = r.choice([1, 2, 3, 5, 8, 8, 25])
    names = gen.variant_names(r, n)
    L = [c05_pre(), "#[derive(Debug, thiserror::Error)]"]
    decl, arms, vals, items = [], [], [], []
    seen = set()
    for k, name in enumerate(names):
        trans = r.random() < 0.6 or (level and k == 0)
        if trans:
            s = r.choice(srcs)
            shape = r.choice(["named", "tuple"])
            nm = r.choice(NAMES)
            attrs = ""
            if s.text not in seen and not alias(s) and r.random() < 0.3:
                seen.add(s.text)
                attrs += "#[from] "
            noise = defs.noise(r, False)
            if shape == "named":
                d = "{ %s%s: %s }" % (attrs, nm, s.text)
                memb = nm
            else:
                d = "(%s%s)" % (attrs, s.text)
                memb = "0"
            a = "" if level and r.random() < 0.8 else "#[error(transparent)]"
            decl.append("    %s%s %s%s," % (noise, a, name, d))
            arms.append("E::%s { %s: b } => { %s }" % (name, memb, checks("label", "e", s.ref.format(b="b"), nightly)))
            for _ in range(2):
                vals.append("E::%s { %s: %s }" % (name, memb, s.val(r, c)))
        else:
            # A sibling with a message (possibly quoting its source) and a source.
            v = errs.source_variant(r, c, srcs, name, kinds=["none", "named", "attr", "from"])
            if "#[from]" in str([f.attrs for f in v.fields]):
                for f in v.fields:
                    if "#[from]" in f.attrs and (v.src.text in seen or alias(v.src)):
                        f.attrs[:] = ["#[source]"]
                seen.add(v.src.text)
            shown = [f for f, role in zip(v.fields, v.roles) if role == "decoy" and "d" in f.ty.traits]
            if shown and r.random() < 0.6:
                f = r.choice(shown)
                msg, twin = '#[error("sib %d {%s}")]' % (k, f.ref), 'format_args!("sib %d {}", b%d)' % (k, f.index)
            elif r.random() < 0.4:
                # A message which is only the field, still not transparent.
                if v.source_index is not None and not v.optional:
                    f = v.fields[v.source_index]
                    msg, twin = '#[error("{%s}")]' % f.ref, 'format_args!("{}", b%d)' % f.index
                else:
                    msg, twin = '#[error("")]', 'format_args!("")'
            else:
                msg, twin = '#[error("transparent")]', 'format_args!("transparent")'
            if r.random() < 0.15:
                fn = "sibling%d" % k
                items.append("fn %s(%sf: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.pad(\"%s\") }" % (
                    fn, "".join("_: &%s, " % f.ty.text for f in v.fields), fn))
                msg = "#[error(fmt = %s)]" % fn
                twin = "Pad(\"%s\")" % fn
            decl.append("    %s%s %s%s," % (defs.noise(r, False), msg, name, v.var.body()))
            pat = v.var.pattern("E::" + name)
            want = "None" if v.source_index is None else errs.wants_expr(v.src, "b%d" % v.source_index, v.optional)
            arms.append("%s => { m.source(&label, e, %s); m.display(&label, e, &%s); }" % (pat, want, twin))
            for _ in range(2):
                vals.append(errs.value(v, r, c, "E::" + name))
    L += ["#[error(transparent)]"] if level else []
    L.append("pub enum E {")
    L += decl + ["}"] + items
    r.shuffle(vals)
    L += ["pub fn run(m: &mut vs::Mon) {", "    let vals: Vec<E> = vec![%s];" % ",\n        ".join(vals),
          "    for (i, e) in vals.iter().enumerate() {", "        let label = format!(\"value {i}\");", "        match e {"]
    L += ["            " + a for a in arms]
    L += ["        }", "    }", "}"]
    return Case(cid, "\n".join(L))


def alias(s):
    """Another spelling of a type: its From impls could overlap."""
    return s.text.startswith(("(", "<", "crate::")) or "StdErr" in s.text


def c05_pre():
    return ("struct Pad(&'static str);\nimpl std::fmt::Display for Pad { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.pad(self.0) } }")


def structs(r, cid, s, nightly=False):
    c = gen.Ctr()
    items, body = [], []
    k = 0
    for shape in ("named", "tuple"):
        for attrs in ("", "#[from] "):
            nm = "S%d" % k
            k += 1
            f = r.choice(NAMES)
            d = " { %s%s: %s }" % (attrs, f, s.text) if shape == "named" else "(%s%s);" % (attrs, s.text)
            memb = f if shape == "named" else "0"
            items.append("#[derive(Debug, thiserror::Error)] #[error(transparent)] pub struct %s%s" % (nm, d))
            for _ in range(2):
                body.append("{ let e = &%s { %s: %s }; let b = &e.%s; let label = \"%s\"; %s }" % (
                    nm, memb, s.val(r, c), memb, nm, checks("label", "e", s.ref.format(b="b"), nightly)))
            if attrs:
                body.append("{ let v: %s = %s; let e: &%s = &From::from(v); let b = &e.%s; let label = \"%s from\"; %s }" % (
                    s.text, s.val(r, c), nm, memb, nm, checks("label", "e", s.ref.format(b="b"), nightly)))
    return Case(cid, "\n".join(items) + "\npub fn run(m: &mut vs::Mon) {\n" + "\n".join(body) + "\n}", s.text)


NEST = r'''
#[derive(Debug, thiserror::Error)] #[error(transparent)] pub struct G<E>(E);
#[derive(Debug, thiserror::Error)] #[error(transparent)] pub struct GB<E: std::error::Error> { inner: Box<E> }
#[derive(Debug, thiserror::Error)] #[error(transparent)] pub struct GW<E>(#[from] std::sync::Arc<E>) where E: std::fmt::Debug;
#[derive(Debug, thiserror::Error)] #[error(transparent)] pub enum GE<E, F = E> { L(E), R { r: F }, #[error("own {0}")] Own(u8), #[error("src")] Src { source: vs::Leaf2 } }
#[derive(Debug, thiserror::Error)] pub enum GV<E> { #[error(transparent)] V(E), #[error("other")] Other }
#[derive(Debug, thiserror::Error)] #[error(transparent)] pub struct D(Box<dyn std::error::Error + Send + Sync>);
#[derive(Debug, thiserror::Error)] #[error(transparent)] pub struct Ref<'a, E: std::error::Error>(&'a E);
#[derive(Debug, thiserror::Error)] #[error(transparent)] pub struct DA { #[from] e: std::sync::Arc<dyn std::error::Error + Send + Sync> }
'''


def nest(r, cid, depth):
    c = gen.Ctr()
    base = r.choice(["vs::Leaf::new(%d)" % c(), "vs::Leaf::over(%d, vs::Leaf::over(%d, vs::Leaf2::new(%d)))" % (c(), c(), c()),
                     "std::io::Error::new(std::io::ErrorKind::Other, vs::Leaf::over(%d, vs::Leaf::new(%d)))" % (c(), c())])
    x = "mk()"
    ty = "vs::Leaf" if "io::" not in base else "std::io::Error"
    rest = ty
    # Erasing layers make the reference point unreachable: keep a copy of the
    # path instead, and compare with an identically built inner error.
    path = []
    for _ in range(depth):
        k = r.randrange(8)
        if k == 0:
            ty, x = "G<%s>" % ty, "G(%s)" % x
        elif k == 1:
            ty, x = "GB<%s>" % ty, "GB { inner: Box::new(%s) }" % x
        elif k == 2:
            ty, x = "GW<%s>" % ty, "GW(std::sync::Arc::new(%s))" % x
        elif k == 3:
            ty, x = "GE<%s>" % ty, "GE::<%s>::L(%s)" % (ty, x)
        elif k == 4:
            ty, x = "GE<vs::Unit, %s>" % ty, "GE::<vs::Unit, %s>::R { r: %s }" % (ty, x)
        elif k == 5:
            ty, x = "GV<%s>" % ty, "GV::V(%s)" % x
        elif k == 6:
            ty, x = "D", "D(Box::new(%s))" % x
        else:
            ty, x = "DA", "DA { e: std::sync::Arc::new(%s) }" % x
    return Case(cid, NEST + '''
fn mk() -> %s { %s }
pub fn run(m: &mut vs::Mon) {
    let e: %s = %s;
    let want = mk();
    m.display("nest", &e, &want);
    m.faults("nest", &e, &want);
    // The sources below, by text: the inner error's, whatever the layers.
    let texts = |e: &dyn std::error::Error| { let mut v = vec![]; let mut at = e.source(); while let Some(s) = at { v.push(s.to_string()); at = s.source(); } vs::take_log(); v };
    let (got, wanted) = (texts(&e), texts(&want));
    m.trace(&(%d, &wanted));
    m.eq("sources below", got, wanted);
    let r = Ref(&want);
    m.display("borrowed", &r, &want);
    let g: GE<Ref<'_, %s>, u8> = GE::Own(7);
    m.display("sibling", &g, &format_args!("own {}", 7));
}
''' % (rest, base, ty, x, depth, rest))


def run(ctx):
    ctx.rule = ("one case = one definition with transparent structs or variants over one of the source types (all types are covered), "
                "compared with displaying the inner value itself under 12 outer options, with every injected fault, and with the inner "
                "error's own source(); non-trivial = distinct (text, result, events) or (case, value, source)")
    srcs = errs.sources() + c06.more("vs::Leaf")
    cases = []
    for k, s in enumerate(srcs):
        cases.append(structs(ctx.sub_rng("s%d" % k), "s%03d" % k, s))
    for i in range(ctx.scale(1200, 9000)):
        cases.append(mixed(ctx.sub_rng("m%d" % i), "m%04d" % i, srcs))
    for i in range(ctx.scale(120, 1200)):
        r = ctx.sub_rng("n%d" % i)
        cases.append(nest(r, "n%04d" % i, r.choice([1, 2, 3, 4, 6, 9])))
    ctx.log("generated", len(cases))
    header = c06.ALIASES % {"base": "vs::Leaf"} + c06.OWN
    for k in range(0, len(cases), 3000):
        ctx.run_cases(Config(deps=c05.DEPS), cases[k:k + 3000], name="m%d" % (k // 3000), bins=16, header=header)
