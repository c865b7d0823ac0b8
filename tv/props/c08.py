"""C08: #[from] conversions build exactly the right value."""
from tv import defs, errs, gen
from tv.core import NIGHTLY_PROVIDE, Case, Config
from tv.props import c05

HEADER = r'''
use std::backtrace::{Backtrace as StdBacktrace, BacktraceStatus};
/// Convertible from a Backtrace, and remembers that it was.
#[derive(Debug)]
pub struct MyBt { pub text: String, pub captured: bool, pub n: u32 }
impl From<StdBacktrace> for MyBt { fn from(b: StdBacktrace) -> Self { vs::event("mybt".to_owned()); MyBt { captured: b.status() == BacktraceStatus::Captured, text: b.to_string(), n: 1 } } }
impl std::ops::Deref for MyBt { type Target = StdBacktrace; fn deref(&self) -> &StdBacktrace { static D: StdBacktrace = StdBacktrace::disabled(); &D } }
#[inline(never)]
pub fn converting_frame<T, E: From<T>>(t: T) -> E { let e = E::from(t); std::hint::black_box(&e); e }
#[inline(never)]
pub fn question<T, E: From<T>>(t: T) -> Result<u8, E> { Err(t)? }
pub fn captured(b: &StdBacktrace) -> Result<(), String> {
    // What capture() gives in this process: captured or disabled.
    let want = StdBacktrace::capture().status();
    if b.status() != want { return Err(format!("backtrace status {:?} instead of {:?}", b.status(), want)); }
    if want == BacktraceStatus::Disabled { return Ok(()); }
    let t = b.to_string();
    if t.contains("converting_frame") || t.contains("question") { Ok(()) } else { Err(format!("the backtrace does not lead through the conversion:\n{t}")) }
}
'''

# Types a #[from] field may have: unique per use, tracked.
SHAPES = [
    ("vs::Tracked<%d>", "{t}", "{b}"),
    ("vs::Tracked<%d>", "{t}", "{b}"),
    ("Box<vs::Tracked<%d>>", "Box::new({t})", "&**{b}"),
    ("std::sync::Arc<vs::Tracked<%d>>", "std::sync::Arc::new({t})", "&**{b}"),
    ("std::rc::Rc<vs::Tracked<%d>>", "std::rc::Rc::new({t})", "&**{b}"),
    ("vs::Smart<vs::Tracked<%d>>", "vs::Smart(Box::new({t}))", "&*{b}.0"),
    ("crate::Wrap<[vs::Tracked<%d>; 1]>", "crate::Wrap([{t}])", "&{b}.0[0]"),
    ("crate::Wrap<(vs::Tracked<%d>, u8)>", "crate::Wrap(({t}, 1))", "&{b}.0.0"),
]
WRAP = r'''
pub struct Wrap<T>(pub T);
impl<T> std::fmt::Debug for Wrap<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Wrap") } }
impl<T> std::fmt::Display for Wrap<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("wrap") } }
impl<T> std::error::Error for Wrap<T> {}
'''

BTS = [
    # type, marked?, expression over `k: &T` giving Result<(), String>
    ("std::backtrace::Backtrace", False, "crate::captured(k)"),
    ("std::backtrace::Backtrace", True, "crate::captured(k)"),
    ("Option<std::backtrace::Backtrace>", True, "k.as_ref().ok_or(\"None\".to_owned()).and_then(crate::captured)"),
    ("std::option::Option<std::backtrace::Backtrace>", True, "k.as_ref().ok_or(\"None\".to_owned()).and_then(crate::captured)"),
    ("std::sync::Arc<std::backtrace::Backtrace>", True, "crate::captured(k)"),
    ("Box<std::backtrace::Backtrace>", True, "crate::captured(k)"),
    ("std::rc::Rc<std::backtrace::Backtrace>", True, "crate::captured(k)"),
    ("crate::MyBt", True, "if std::backtrace::Backtrace::capture().status() == std::backtrace::BacktraceStatus::Disabled { if k.n == 1 && !k.captured { Ok(()) } else { Err(format!(\"{k:?}\")) } } else if k.captured && k.n == 1 && (k.text.contains(\"converting_frame\") || k.text.contains(\"question\")) { Ok(()) } else { Err(format!(\"{k:?}\")) }"),
]


def variant(r, c, k, name, bts):
    """(declaration, checks) of one variant with a #[from] field."""
    n = k
    tmpl, make, at = r.choice(SHAPES)
    ty = tmpl % n
    opt = r.random() < 0.3
    shape = r.choice(["named", "tuple"])
    fty = r.choice(errs.OPTIONS) % ty if opt else ty
    names = r.choice([("source", "backtrace"), ("inner", "bt"), ("r#source", "r#type"), ("e", "backtrace_"), ("r#fn", "trace"),
                      ("from", "source_"), ("backtrace", "b"), ("Some", "None") if False else ("some", "none"), ("value", "self_")])
    attrs = r.choice(["#[from]", "#[from]", "#[from]", "#[source] #[from]", "#[from] #[source]"])
    trans = False
    bt = None
    if bts and r.random() < 0.6:
        bt = r.choice(bts)
    elif not opt and r.random() < 0.2 and "Option" not in fty:
        trans = True
        attrs = "#[from]"
    fs = [("src", names[0], attrs + " " + defs.noise(r, False), fty)]
    if bt:
        fs.append(("bt", names[1], "#[backtrace] " if bt[1] else "", bt[0]))
    if r.random() < 0.5:
        fs.reverse()
    memb = {f[0]: (f[1] if shape == "named" else str(i)) for i, f in enumerate(fs)}
    if shape == "named":
        d = " { %s }" % ", ".join("%s%s: %s" % (a, nm, t) for _, nm, a, t in fs)
    else:
        d = "(%s)" % ", ".join("%s%s" % (a, t) for _, _, a, t in fs)
    attr = "#[error(transparent)]" if trans else "#[error(\"v\")]"
    return {"name": name, "ty": ty, "opt": opt, "fty": fty, "make": make, "at": at, "bt": bt, "memb": memb, "decl": d, "attr": attr,
            "shape": shape, "trans": trans, "n": n}


def check_variant(v, path, c, m="m"):
    """Statements converting by from, into and `?` and looking at the result."""
    out = []
    for how in ("E::from(t)", "Into::<E>::into(t)", "crate::converting_frame::<T, E>(t)", "crate::question::<T, E>(t).unwrap_err()",
                "(|| -> Result<(), E> { Err::<(), T>(t)?; Ok(()) })().unwrap_err()",
                "(|| -> Result<(), E> { Err::<(), T>(t).map_err(E::from) })().unwrap_err()"):
        ident = c()
        binding = "Some(b)" if v["opt"] else "b"
        pat = "%s { %s: %s%s }" % (path, v["memb"]["src"], binding, ", %s: k" % v["memb"]["bt"] if v["bt"] else "")
        want = v["at"].format(b="b")
        checks = ["m.check(\"identity\", vs::addr_of(&*x.heap) == heap && x.id == %d && x.intact(), || \"the converted error is not the given one\".to_owned());" % ident]
        if v["bt"] and ("frame" in how or "question" in how):
            checks.append("m.count(\"backtraces_filled\", 1); let r: Result<(), String> = %s; m.check(\"backtrace\", r.is_ok(), || r.unwrap_err());" % v["bt"][2])
        elif v["bt"]:
            checks.append("let _ = k;")
        out.append('''{ type T = %(ty)s; vs::take_log(); let inner = vs::Tracked::<%(n)d>::new(%(id)d); let heap = vs::addr_of(&*inner.heap); let t: T = %(mk)s;
        let e: E = %(how)s;
        let log: Vec<_> = vs::take_log().into_iter().filter(|l| l != "mybt").collect();
        m.check("conversion", log.is_empty() && vs::drops(%(id)d) == 0, || format!("the conversion caused {log:?}"));
        m.count("conversions", 1); m.trace(&(%(id)d, "%(how)s", "%(fty)s"));
        match &e { %(pat)s => { let x: &vs::Tracked<%(n)d> = %(want)s; %(checks)s }
            #[allow(unreachable_patterns)] _ => m.fail("variant", "wrong variant, or no error inside".to_owned()) }
        %(source)s
        drop(e);
        m.eq("drops", vs::drops(%(id)d), 1); }''' % {
            "ty": v["ty"], "n": v["n"], "id": ident, "mk": v["make"].format(t="inner"), "how": how, "fty": v["fty"].replace('"', ""), "pat": pat,
            "want": want, "checks": " ".join(checks),
            "source": "" if v["trans"] else "{ let s = std::error::Error::source(&e); m.check(\"source\", s.is_some(), || \"source() is None\".to_owned()); }"})
    return out


# What a parameter can be asked for, as (where-predicate, type only usable if it holds).
NEEDS = [("%s: crate::Na", "crate::NeedA<%s>"), ("%s: Clone + Send", "crate::NeedB<%s>"), ("Vec<%s>: std::fmt::Debug", "crate::NeedC<%s>"),
         ("for<'q> &'q %s: crate::Nb", "crate::NeedD<%s>"), ("%s: 'static", "crate::NeedE<%s>"), ("[%s; 3]: Sized + crate::Nb", "crate::NeedF<%s>")]
NEEDS_RS = r'''
pub trait Na {} impl Na for u8 {} impl Na for char {} impl Na for &'static str {}
pub trait Nb {} impl<T: ?Sized> Nb for T {}
#[derive(Debug)] pub struct NeedA<T: Na>(pub std::marker::PhantomData<T>);
#[derive(Debug)] pub struct NeedB<T: Clone + Send>(pub std::marker::PhantomData<T>);
#[derive(Debug)] pub struct NeedC<T>(pub std::marker::PhantomData<T>) where Vec<T>: std::fmt::Debug;
#[derive(Debug)] pub struct NeedD<T>(pub std::marker::PhantomData<T>) where for<'q> &'q T: Nb;
#[derive(Debug)] pub struct NeedE<T: 'static>(pub std::marker::PhantomData<T>);
#[derive(Debug)] pub struct NeedF<T>(pub std::marker::PhantomData<T>) where [T; 3]: Sized + Nb;
'''


def generics(r):
    """(declaration, where-clause, arguments, extra variants) of a generic enum."""
    nl, nt, nc = r.choice([(0, 1, 0), (1, 1, 0), (0, 2, 0), (1, 2, 1), (2, 1, 0), (2, 2, 2), (0, 3, 1), (1, 0, 0), (0, 0, 2), (1, 3, 0), (3, 4, 3)])
    lts = r.sample(["'a", "'b", "'src", "'de"], nl)
    tys = r.sample(["T", "U", "V", "E_", "Source", "From_", "Error_", "S"], nt)
    cs = r.sample(["N", "M", "LEN", "K"], nc)
    decl, where, extra, args = [], [], [], []
    for i, l in enumerate(lts):
        decl.append(l + (": " + lts[0] if i and r.random() < 0.4 else ""))
        args.append("'static")
        extra.append("&%s str" % l)
        if i and r.random() < 0.4:
            where.append("%s: %s" % (l, lts[0]))
            extra.append("std::marker::PhantomData<&%s &%s u8>" % (lts[0], l))
    for t in tys:
        bs = []
        extra.append("std::marker::PhantomData<%s>" % t)
        for w, ty in r.sample(NEEDS, r.choice([0, 1, 1, 2, 3])):
            if r.random() < 0.3 and w.startswith("%s: "):
                bs.append(w[4:])
            else:
                where.append(w % t)
            extra.append(ty % t)
        decl.append(t + (": " + " + ".join(bs) if bs else ""))
        args.append(r.choice(["u8", "char", "&'static str"]))
    for n in cs:
        decl.append("const %s: usize" % n)
        args.append(r.choice(["0", "3", "{ 1 + 1 }"]))
        extra.append("[u8; %s]" % n)
    r.shuffle(where)
    r.shuffle(extra)
    return "<%s>" % ", ".join(decl), " where %s%s" % (", ".join(where), r.choice(["", ","])) if where else "", "<%s>" % ", ".join(args), extra


def case(r, cid, nightly):
    c = gen.Ctr()
    bts = BTS if nightly else []
    kind = r.choice(["struct", "enum", "enum"])
    items, body = [], []
    g = generics(r) if kind == "enum" and r.random() < 0.5 else None
    if kind == "struct":
        v = variant(r, c, 1, "E", bts)
        items.append("#[derive(Debug, thiserror::Error)] %s pub struct E%s%s" % (v["attr"], v["decl"], ";" if v["shape"] == "tuple" else ""))
        body += check_variant(v, "E", c)
        vs_ = [v]
        others = []
    else:
        n = r.choice([1, 2, 3, 5, 7] if r.random() < 0.95 else [16, 24])
        names = gen.variant_names(r, n + 26)
        vs_ = [variant(r, c, i + 1, names[i], bts) for i in range(n)]
        others = []
        rows = ["    %s%s %s%s," % (defs.noise(r, False), v["attr"], v["name"], v["decl"]) for v in vs_]
        sparse = r.random() < 0.06
        if sparse:
            # A single conversion, among many variants without.
            vs_, rows = vs_[:1], rows[:1]
        for i in range(r.choice([6, 12, 25]) if sparse else r.choice([0, 1, 3])):
            k = 50 + i
            others.append("vs::Tracked<%d>" % k)
            rows.append("    #[error(\"o\")] %s%s," % (names[n + i], r.choice([
                "(#[source] vs::Tracked<%d>)", "{ source: vs::Tracked<%d> }", "(vs::Tracked<%d>)", "{ x: vs::Tracked<%d>, y: u8 }",
                "{ #[source] from: vs::Tracked<%d> }", "(#[source] Option<vs::Tracked<%d>>, u8)"]) % k))
        if g:
            # The variants that use the parameters, in one or several pieces.
            for i in range(0, len(g[3]), 4):
                part = g[3][i:i + 4]
                rows.append("    #[error(\"g\")] Generic%d%s," % (i, "(%s)" % ", ".join(part) if r.random() < 0.5 else " { %s }" % ", ".join("g%d: %s" % x for x in enumerate(part))))
        r.shuffle(rows)
        items.append("#[derive(Debug, thiserror::Error)]\npub enum %s {\n%s\n}" % ("Eg%s%s" % (g[0], g[1]) if g else "E", "\n".join(rows)))
        if g:
            items.append("pub type E = Eg%s;" % g[2])
        for v in vs_:
            body += check_variant(v, "E::" + v["name"], c)
    # Only these conversions exist.
    neg = []
    for o in others:
        neg.append("!vs::impls!(E: From<%s>)" % o)
    for v in vs_:
        neg.append("vs::impls!(E: From<%s>)" % v["ty"])
        if v["opt"]:
            neg.append("!vs::impls!(E: From<Option<%s>>)" % v["ty"])
        inner = "vs::Tracked<%d>" % v["n"]
        if v["ty"] != inner:
            neg.append("!vs::impls!(E: From<%s>)" % inner)
        neg.append("!vs::impls!(%s: From<E>)" % v["ty"] if "vs::Tracked" == v["ty"][:11] else "true")
    neg += ["!vs::impls!(E: From<std::backtrace::Backtrace>)", "!vs::impls!(E: From<()>)", "!vs::impls!(E: From<(%s,)>)" % vs_[0]["ty"],
            "!vs::impls!(E: From<&'static %s>)" % vs_[0]["ty"], "!vs::impls!(E: Default)"]
    for i, n in enumerate(neg):
        body.append("m.check(\"impls\", %s, || %s.to_owned());" % (n, gen.rs(n)))
    return Case(cid, "\n".join(items) + "\npub fn run(m: &mut vs::Mon) {\n" + "\n".join(body) + "\n}")


ODD_RS = r'''
thread_local! { pub static ODD_DROPS: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
pub trait Odd { fn mk(k: u8) -> Self; fn ok(&self, k: u8) -> bool; }
macro_rules! odd { ($n:ident, $decl:item, $mk:expr, $ok:expr) => {
    #[derive(Debug)] $decl
    impl Odd for $n { fn mk(k: u8) -> Self { let f: fn(u8) -> $n = $mk; f(k) } fn ok(&self, k: u8) -> bool { let f: fn(&$n, u8) -> bool = $ok; f(self, k) } }
    impl Drop for $n { fn drop(&mut self) { ODD_DROPS.with(|d| d.set(d.get() + 1)); } }
    impl std::fmt::Display for $n { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("odd") } }
    impl std::error::Error for $n {}
} }
odd!(Zero, pub struct Zero;, |_| Zero, |_, _| true);
odd!(ZeroAligned, #[repr(align(32))] pub struct ZeroAligned([u64; 0]);, |_| ZeroAligned([]), |z, _| z as *const _ as usize % 32 == 0);
odd!(One, pub struct One(u8);, |k| One(k), |x, k| x.0 == k);
odd!(Flag, pub struct Flag(bool);, |k| Flag(k % 2 == 1), |x, k| x.0 == (k % 2 == 1));
odd!(Niche, pub struct Niche(Option<std::num::NonZeroU8>);, |k| Niche(std::num::NonZeroU8::new(k)), |x, k| x.0 == std::num::NonZeroU8::new(k));
odd!(Aligned, #[repr(align(64))] pub struct Aligned(u8, [u16; 77]);, |k| Aligned(k, [k as u16 * 3; 77]), |x, k| x.0 == k && x.1.iter().all(|y| *y == k as u16 * 3) && x as *const _ as usize % 64 == 0);
odd!(Big, pub struct Big([u8; 9000]);, |k| Big([k; 9000]), |x, k| x.0.iter().all(|y| *y == k));
odd!(Nested, pub struct Nested(Option<Option<Option<u8>>>);, |k| Nested(match k % 4 { 0 => None, 1 => Some(None), 2 => Some(Some(None)), _ => Some(Some(Some(k))) }), |x, k| x.0 == match k % 4 { 0 => None, 1 => Some(None), 2 => Some(Some(None)), _ => Some(Some(Some(k))) });
odd!(Never, pub enum Never { #[allow(dead_code)] No(std::convert::Infallible), Yes };, |_| Never::Yes, |x, _| matches!(x, Never::Yes));
'''.replace("pub enum Never { #[allow(dead_code)] No(std::convert::Infallible), Yes };", "pub enum Never { #[allow(dead_code)] No(std::convert::Infallible), Yes }")
ODD = ["Zero", "ZeroAligned", "One", "Flag", "Niche", "Aligned", "Big", "Nested", "Never"]

FULL = WRAP + NEEDS_RS + HEADER


def odd(r, cid, nightly):
    """Sources of every layout: nothing, a niche, aligned, large."""
    kind = r.choice(["struct", "enum"])
    tys = r.sample(ODD, 1 if kind == "struct" else r.randint(2, len(ODD)))
    rows, body = [], []
    for n, t in enumerate(tys):
        t = "crate::" + t
        w, mk, at = r.choice([("%s", "%s", "b"), ("%s", "%s", "b"), ("Box<%s>", "Box::new(%s)", "&**b"), ("std::sync::Arc<%s>", "std::sync::Arc::new(%s)", "&**b"), ("vs::Smart<%s>", "vs::Smart(Box::new(%s))", "&*b.0")])
        ty = w % t
        opt = r.random() < 0.5
        bt = r.choice(BTS) if nightly and r.random() < 0.5 else None
        named = r.random() < 0.5
        fs = [("src", r.choice(["source", "inner", "e"]), "#[from] ", r.choice(errs.OPTIONS) % ty if opt else ty)]
        if bt:
            fs.append(("bt", "b_t", "#[backtrace] " if bt[1] else "", bt[0]))
        r.shuffle(fs)
        memb = {f[0]: (f[1] if named else str(i)) for i, f in enumerate(fs)}
        d = " { %s }" % ", ".join("%s%s: %s" % (a, x, y) for _, x, a, y in fs) if named else "(%s)" % ", ".join(a + y for _, _, a, y in fs)
        rows.append(d)
        path = "E" if kind == "struct" else "E::V%d" % n
        for how in ("E::from(t)", "Into::<E>::into(t)", "crate::converting_frame::<T, E>(t)", "crate::question::<T, E>(t).unwrap_err()"):
            for k in r.sample(range(256), 2) + [0]:
                body.append("""{ type T = %s; use crate::Odd as _; crate::ODD_DROPS.with(|d| d.set(0)); let t: T = %s; let e: E = %s; let drops = || crate::ODD_DROPS.with(|d| d.get());
                m.check("layout", matches!(&e, %s { %s: %s, .. } if (%s).ok(%d)), || "the error inside is not the one given".to_owned()); m.check("source", std::error::Error::source(&e).is_some(), || "source() is None".to_owned());
                m.eq("early drops", drops(), 0); drop(e); m.eq("drops", drops(), 1); m.trace(&(%s, %d)); m.count("conversions", 1); }""" % (
                    ty, mk % ("<%s as crate::Odd>::mk(%d)" % (t, k)), how, path, memb["src"], "Some(b)" if opt else "b", at, k, gen.rs(cid + ty + how), k))
    if kind == "struct":
        items = '#[derive(Debug, thiserror::Error)] #[error("v")] pub struct E%s%s' % (rows[0], "" if rows[0].startswith(" ") else ";")
    else:
        items = "#[derive(Debug, thiserror::Error)] pub enum E { %s }" % " ".join('#[error("v")] V%d%s,' % x for x in enumerate(rows))
    return Case(cid, items + "\npub fn run(m: &mut vs::Mon) {\n" + "\n".join(body) + "\n}")


def fixed():
    out = []

    def add(items, body):
        out.append(Case("f%03d" % len(out), items + "\npub fn run(m: &mut vs::Mon) {\n" + body + "\nm.trace(&%d); }" % len(out)))

    D = "#[derive(Debug, thiserror::Error)] "
    # Generic sources.
    add(D + '#[error("g")] pub struct G<T>(#[from] vs::Smart<T>) where vs::Smart<T>: std::error::Error;', 'let _ = 0;') if False else None
    add(D + '#[error("g")] pub struct G<T: std::error::Error + \'static>(#[from] T2<T>);' + D + '#[error("t")] pub struct T2<T: std::error::Error + \'static>(#[source] T);',
        'let t = vs::Tracked::<1>::new(5); let h = vs::addr_of(&*t.heap); let g = G::from(T2(t)); m.check("kept", vs::addr_of(&*g.0.0.heap) == h && vs::drops(5) == 0, || "moved badly".into()); drop(g); m.eq("drops", vs::drops(5), 1);')
    add(D + 'pub enum E<T: std::fmt::Debug, const N: usize> { #[error("a")] A(#[from] vs::Tracked<1>), #[error("b")] B { #[from] b: Option<vs::Tracked<2>> }, #[error("c {0:?}")] C([T; N]) }',
        '''let e: E<Vec<u8>, 3> = vs::Tracked::<1>::new(1).into(); m.check("a", matches!(&e, E::A(t) if t.id == 1), || "not A".into());
        let e: E<String, 0> = vs::Tracked::<2>::new(2).into(); m.check("b", matches!(&e, E::B { b: Some(t) } if t.id == 2), || "not B".into());
        m.eq("drops", vs::drops(1), 0);''')
    # The doc example: `?` on different sources reaches the right variants.
    add(D + 'pub enum E { #[error("io")] Io(#[from] std::io::Error), #[error("int")] Int { #[from] source: std::num::ParseIntError }, #[error(transparent)] Any(#[from] Box<dyn std::error::Error + Send + Sync>), #[error("utf")] Utf(#[from] std::str::Utf8Error) }'
        ' fn f(i: u8) -> Result<(), E> { match i { 0 => { Err(std::io::Error::from(std::io::ErrorKind::NotFound))?; } 1 => { "x".parse::<i32>()?; } 2 => { Err::<(), Box<dyn std::error::Error + Send + Sync>>("s".into())?; } 3 => { let b = vec![255u8]; std::str::from_utf8(&b)?; } _ => {} } Ok(()) }',
        'm.check("io", matches!(f(0), Err(E::Io(e)) if e.kind() == std::io::ErrorKind::NotFound), || "0".into()); m.check("int", matches!(f(1), Err(E::Int { .. })), || "1".into());'
        'm.check("any", matches!(f(2), Err(E::Any(e)) if e.to_string() == "s"), || "2".into()); m.check("utf", matches!(f(3), Err(E::Utf(_))), || "3".into()); m.check("ok", f(9).is_ok(), || "4".into());')
    # Sources whose types differ in the path only, or in an argument only.
    add('pub mod m1 { #[derive(Debug)] pub struct Error; impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<\'_>) -> std::fmt::Result { Ok(()) } } impl std::error::Error for Error {} pub mod m2 { #[derive(Debug)] pub struct Error; impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<\'_>) -> std::fmt::Result { Ok(()) } } impl std::error::Error for Error {} } }'
        + D + 'pub enum E { #[error("io")] Io(#[from] std::io::Error), #[error("fmt")] Fmt { #[from] source: std::fmt::Error }, #[error("a")] A(#[from] m1::Error), #[error("b")] B(#[from] m1::m2::Error), #[error("c")] C(#[from] Box<m1::Error>), #[error("d")] D(#[from] Box<m1::m2::Error>),'
        ' #[error("e")] E(#[from] Option<std::sync::Arc<m1::Error>>), #[error("f")] F(#[from] std::sync::Arc<m1::m2::Error>), #[error("g")] G(#[from] vs::Nth<1>), #[error("h")] H(#[from] vs::Nth<2>), #[error("i")] I(#[from] Box<dyn std::error::Error>), #[error("j")] J(#[from] Box<dyn std::error::Error + Send + Sync>), #[error("k")] K(#[from] Box<dyn std::error::Error + Send>), }',
        " ".join('m.check("%s", matches!(%s.into(), E::%s { .. }), || "wrong variant".into());' % (v, x, v) for v, x in [
            ("Io", "std::io::Error::from(std::io::ErrorKind::NotFound)"), ("Fmt", "std::fmt::Error"), ("A", "m1::Error"), ("B", "m1::m2::Error"), ("C", "Box::new(m1::Error)"), ("D", "Box::new(m1::m2::Error)"),
            ("E", "std::sync::Arc::new(m1::Error)"), ("F", "std::sync::Arc::new(m1::m2::Error)"), ("G", "vs::Nth::<1>::new(1)"), ("H", "vs::Nth::<2>::new(1)"),
            ("I", "(Box::new(m1::Error) as Box<dyn std::error::Error>)"), ("J", "(Box::new(m1::Error) as Box<dyn std::error::Error + Send + Sync>)"), ("K", "(Box::new(m1::Error) as Box<dyn std::error::Error + Send>)")]))
    # A lifetime, and a conversion through two layers.
    add(D + '#[error("o")] pub struct O(#[from] M);' + D + '#[error("m")] pub enum M { #[error("x")] X(#[from] vs::Tracked<1>) }'
        ' fn inner(t: vs::Tracked<1>) -> Result<(), M> { Err(t)? } fn outer(t: vs::Tracked<1>) -> Result<(), O> { Ok(inner(t)?) }',
        'let t = vs::Tracked::<1>::new(3); let h = vs::addr_of(&*t.heap); let e = outer(t).unwrap_err(); match &e { O(M::X(t)) => m.check("kept", vs::addr_of(&*t.heap) == h, || "moved badly".into()) } m.eq("drops", vs::drops(3), 0); drop(e); m.eq("drops", vs::drops(3), 1);')
    # Zero-sized, over-aligned, large and never-valued sources.
    add('#[derive(Debug)] #[repr(align(64))] pub struct Al([u8; 300]); impl std::fmt::Display for Al { fn fmt(&self, f: &mut std::fmt::Formatter<\'_>) -> std::fmt::Result { Ok(()) } } impl std::error::Error for Al {}' + D +
        'pub enum E { #[error("u")] U(#[from] vs::Unit), #[error("a")] A(#[from] Al), #[error("n")] N(#[from] std::convert::Infallible), #[error("f")] F(#[from] std::fmt::Error) }',
        'm.check("u", matches!(E::from(vs::Unit), E::U(vs::Unit)), || "u".into()); let mut a = Al([7; 300]); a.0[299] = 9; let e = E::from(a); m.check("a", matches!(&e, E::A(a) if a.0[299] == 9 && a.0[..299].iter().all(|b| *b == 7) && vs::addr_of(a) % 64 == 0), || "a".into()); m.check("f", matches!(E::from(std::fmt::Error), E::F(_)), || "f".into()); m.check("n", vs::impls!(E: From<std::convert::Infallible>), || "n".into());')
    # A conversion that takes ownership in a panic-free way even when unwinding.
    add(D + '#[error("p")] pub struct P(#[from] vs::Tracked<1>);',
        'let t = vs::Tracked::<1>::new(8); let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { let p = P::from(t); if p.0.id == 8 { panic!("x") } })); m.eq("drops", vs::drops(8), 1);')
    return [c for c in out if c]


def run(ctx):
    ctx.rule = ("one case = one struct or enum with #[from] fields of distinct tracked types; each conversion is made by from, into, `?` "
                "and generically, and the moved object's identity, its drops, the variant and the captured backtrace are observed, as are the "
                "conversions that exist; non-trivial = distinct (value, route, field type)")
    cases = fixed() + [case(ctx.sub_rng("r%d" % i), "r%04d" % i, False) for i in range(ctx.scale(400, 4000))] + [odd(ctx.sub_rng("o%d" % i), "o%04d" % i, False) for i in range(ctx.scale(30, 300))]
    for k in range(0, len(cases), 2000):
        ctx.run_cases(Config(deps=c05.DEPS), cases[k:k + 2000], name="s%d" % (k // 2000), header=FULL + ODD_RS, bins=16, run_env={"RUST_LIB_BACKTRACE": "1"})
    ctx.log("stable done")
    cases = fixed() + [case(ctx.sub_rng("n%d" % i), "n%04d" % i, True) for i in range(ctx.scale(400, 4000))] + [odd(ctx.sub_rng("p%d" % i), "p%04d" % i, True) for i in range(ctx.scale(40, 400))]
    for k in range(0, len(cases), 2000):
        ctx.run_cases(Config(toolchain=NIGHTLY_PROVIDE, deps=c05.DEPS, attrs=["#![feature(error_generic_member_access)]"]), cases[k:k + 2000],
                      name="n%d" % (k // 2000), header=FULL + ODD_RS, bins=16, run_env={"RUST_LIB_BACKTRACE": "1"},
                      again=[{"RUST_LIB_BACKTRACE": "0", "RUST_BACKTRACE": "1"}, {}, {"RUST_BACKTRACE": "full"}])
