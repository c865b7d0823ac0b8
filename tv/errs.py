"""Types usable as the source of an error, and definitions whose variants
designate their source in every supported way."""
from tv import gen
from tv.gen import Field, Ty, Variant

PROVIDER = r'''
pub struct Mark(pub u32);
#[derive(PartialEq, Debug)]
pub struct Num(pub u32);
/// An error which provides a reference, a value and perhaps a backtrace.
pub struct PErr { pub id: u32, pub mark: Mark, pub bt: Option<std::backtrace::Backtrace>, pub inner: Option<Box<dyn std::error::Error + Send + Sync>> }
impl PErr {
    pub fn new(id: u32) -> Self { PErr { id, mark: Mark(id), bt: None, inner: None } }
    pub fn with_bt(id: u32) -> Self { PErr { id, mark: Mark(id), bt: Some(std::backtrace::Backtrace::disabled()), inner: None } }
    pub fn over(id: u32, inner: impl std::error::Error + Send + Sync + 'static) -> Self { PErr { inner: Some(Box::new(inner)), ..PErr::new(id) } }
}
impl std::fmt::Display for PErr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { vs::call("d", self.id, f) } }
impl std::fmt::Debug for PErr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { vs::call("?", self.id, f) } }
impl std::error::Error for PErr {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { vs::touch(self.id); match &self.inner { Some(e) => Some(&**e), None => None } }
    fn provide<'a>(&'a self, request: &mut std::error::Request<'a>) {
        vs::event(format!("provide#{}", self.id));
        vs::touch(self.id);
        request.provide_ref::<Mark>(&self.mark);
        request.provide_value::<Num>(Num(self.id));
        if let Some(bt) = &self.bt { request.provide_ref::<std::backtrace::Backtrace>(bt); }
    }
}
/// Provides the same, but has no size.
pub struct ZErr;
impl std::fmt::Display for ZErr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { vs::call("d", 0, f) } }
impl std::fmt::Debug for ZErr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { vs::call("?", 0, f) } }
impl std::error::Error for ZErr {
    fn provide<'a>(&'a self, request: &mut std::error::Request<'a>) {
        static M: Mark = Mark(9);
        static B: std::backtrace::Backtrace = std::backtrace::Backtrace::disabled();
        vs::event("provide#z".to_owned());
        request.provide_ref::<Mark>(&M).provide_value::<Num>(Num(99)).provide_ref::<std::backtrace::Backtrace>(&B);
    }
}
'''


class Src:
    """A source type. `wants` are the objects source() may return, given a
    binding `b: &T`, each written as a call of vs::want."""

    def __init__(self, text, val, wants, base="Leaf", anyhow=False, clone=None, sendsync=True, ref=None):
        self.text, self.val, self.wants, self.base, self.anyhow = text, val, wants, base, anyhow
        # An expression of type &(dyn Error + 'static) for the error meant.
        self.ref = ref
        self.sendsync = sendsync


AUTOS = ["", " + Send", " + Send + Sync", " + Send + Sync + std::panic::UnwindSafe"]


def leaf_val(base):
    def v(r, c):
        if base.startswith("vs::Leaf") and base != "vs::Leaf":
            return "%s::new(%d)" % (base, c())
        k = r.random()
        if base == "crate::PErr" and k < 0.35:
            return "%s::with_bt(%d)" % (base, c())
        if k < 0.6:
            return "%s::new(%d)" % (base, c())
        return "%s::over(%d, %s::new(%d))" % (base, c(), base, c())
    return v


def sources(base="vs::Leaf", anyhow=True):
    """All the source types, over a base error with new() and over()."""
    lv = leaf_val(base)
    out = []

    def conc(text, val, **kw):
        out.append(Src(text, val, ["vs::want::<%s>({b})" % text], ref="{b}", **kw))

    conc(base, lv)
    if base == "crate::PErr":
        conc("crate::ZErr", lambda r, c: "crate::ZErr")
        conc("Box<crate::ZErr>", lambda r, c: "Box::new(crate::ZErr)")
    conc("vs::Leaf2", lambda r, c: "vs::Leaf2::new(%d)" % c())
    conc("vs::Unit", lambda r, c: "vs::Unit")
    conc("vs::Nth<7>", lambda r, c: "vs::Nth::<7>::new(%d)" % c())
    conc("std::io::Error", lambda r, c: r.choice([
        "std::io::Error::new(std::io::ErrorKind::Other, %s)" % lv(r, c), "std::io::Error::from_raw_os_error(2)",
        "std::io::Error::from(std::io::ErrorKind::NotFound)"]))
    conc("std::num::ParseIntError", lambda r, c: "\"%s\".parse::<u8>().unwrap_err()" % r.choice(["", "x", "999"]))
    conc("std::fmt::Error", lambda r, c: "std::fmt::Error")
    conc("std::str::Utf8Error", lambda r, c: "std::str::from_utf8(&std::hint::black_box([255u8])).unwrap_err()")
    conc("vs::DerefErr", lambda r, c: "vs::DerefErr::new(%d)" % c())
    conc("Box<%s>" % base, lambda r, c: "Box::new(%s)" % lv(r, c))
    conc("Box<Box<%s>>" % base, lambda r, c: "Box::new(Box::new(%s))" % lv(r, c))
    conc("std::sync::Arc<%s>" % base, lambda r, c: "std::sync::Arc::new(%s)" % lv(r, c))
    conc("std::sync::Arc<Box<%s>>" % base, lambda r, c: "std::sync::Arc::new(Box::new(%s))" % lv(r, c))
    # References are errors themselves; the referent is an answer as good.
    out.append(Src("&'static %s" % base, lambda r, c: "Box::leak(Box::new(%s))" % lv(r, c),
                   ["vs::want::<%s>(*{b})" % base, "vs::want::<&'static %s>({b})" % base], ref="*{b}"))
    out.append(Src("&'static Box<%s>" % base, lambda r, c: "Box::leak(Box::new(Box::new(%s)))" % lv(r, c),
                   ["vs::want::<Box<%s>>(*{b})" % base, "vs::want::<&'static Box<%s>>({b})" % base], ref="*{b}"))
    # Not errors, but dereference to one.
    for w, mk in [("std::rc::Rc<%s>", "std::rc::Rc::new(%s)"), ("vs::Smart<%s>", "vs::Smart(Box::new(%s))"),
                  ("std::pin::Pin<Box<%s>>", "Box::pin(%s)")]:
        out.append(Src(w % base, lambda r, c, mk=mk: mk % lv(r, c), ["vs::want::<%s>(&**{b})" % base], ref="&**{b}", sendsync=False))
    for a in AUTOS:
        dyn = "dyn std::error::Error" + a
        for w, mk, send in [
                ("Box<%s>", "Box::new(%s)", 1), ("std::rc::Rc<%s>", "std::rc::Rc::new(%s)", 0),
                ("std::sync::Arc<%s>", "std::sync::Arc::new(%s)", 1), ("vs::Smart<%s>", "vs::Smart(Box::new(%s))", 1),
                ("std::pin::Pin<Box<%s>>", "Box::pin(%s)", 1)]:
            b = base
            if "UnwindSafe" in a:
                b = "vs::Leaf2"      # the others hold trait objects
                v = lambda r, c, mk=mk: mk % ("vs::Leaf2::new(%d)" % c())
            else:
                v = lambda r, c, mk=mk: mk % lv(r, c)
            out.append(Src(w % dyn, v, ["vs::want::<%s>({b})" % (w % dyn)] if "Arc" in w else ["vs::want_dyn::<%s>(&**{b})" % b],
                           ref="(&**{b} as &(dyn std::error::Error + 'static))", base=b,
                           sendsync=send and "Sync" in a))
        if True:
            b = "vs::Leaf2" if "UnwindSafe" in a else base
            v = (lambda r, c: "Box::leak(Box::new(vs::Leaf2::new(%d)))" % c()) if "UnwindSafe" in a else (
                lambda r, c: "Box::leak(Box::new(%s))" % lv(r, c))
            t = "&'static (%s + 'static)" % dyn
            if a == "":
                wants = ["vs::want_dyn::<%s>(*{b})" % b, "vs::want::<%s>({b})" % t]
            else:
                wants = ["vs::want_dyn::<%s>(*{b})" % b]
            # &dyn Error + Send is an error itself too.
            wants = ["vs::want_dyn::<%s>(*{b})" % b, "vs::want::<%s>({b})" % t]
            out.append(Src(t, v, wants, ref="(*{b} as &(dyn std::error::Error + 'static))", base=b, sendsync="Sync" in a))
    # Two levels of dereferencing.
    out.append(Src("Box<Box<dyn std::error::Error>>", lambda r, c: "Box::new(Box::new(%s))" % lv(r, c),
                   ["vs::want_dyn::<%s>(&***{b})" % base], ref="(&***{b} as &(dyn std::error::Error + 'static))", sendsync=False))
    out.append(Src("std::sync::Arc<Box<dyn std::error::Error + Send + Sync>>", lambda r, c: "std::sync::Arc::new(Box::new(%s))" % lv(r, c),
                   ["vs::want_dyn::<%s>(&***{b})" % base], ref="(&***{b} as &(dyn std::error::Error + 'static))"))
    out.append(Src("vs::Smart<std::rc::Rc<dyn std::error::Error>>", lambda r, c: "vs::Smart(Box::new(std::rc::Rc::new(%s)))" % lv(r, c),
                   ["vs::want_dyn::<%s>(&***{b})" % base], ref="(&***{b} as &(dyn std::error::Error + 'static))", sendsync=False))
    if anyhow:
        # anyhow::Error answers with a backtrace of its own if its error has none.
        av = (lambda r, c: "crate::PErr::with_bt(%d)" % c()) if base == "crate::PErr" else lv
        out.append(Src("anyhow::Error", lambda r, c: "anyhow::Error::new(%s)" % av(r, c),
                       ["vs::want_dyn::<%s>(&**{b})" % base], ref="(&**{b} as &(dyn std::error::Error + 'static))", anyhow=True))
        out.append(Src("Box<anyhow::Error>", lambda r, c: "Box::new(anyhow::Error::new(%s))" % av(r, c),
                       ["vs::want_dyn::<%s>(&***{b})" % base], ref="(&***{b} as &(dyn std::error::Error + 'static))", anyhow=True))
    return out


OPTIONS = ["Option<%s>", "Option<%s>", "std::option::Option<%s>", "core::option::Option<%s>", "::std::option::Option<%s>",
           "::core::option::Option<%s>", "std :: option :: Option < %s >"]


def wants_expr(src, b, optional):
    """Option<Vec<Want>> for a binding b: &T or &Option<T>."""
    if optional:
        return "%s.as_ref().map(|b| vec![%s])" % (b, ", ".join(w.format(b="b") for w in src.wants))
    return "Some(vec![%s])" % ", ".join(w.format(b=b) for w in src.wants)


# Fields which are not the source whatever they look like.
def decoy_types(base="vs::Leaf"):
    return [
        Ty(base, "d?", lambda r, c: "%s::new(%d)" % (base, c())),
        Ty("Box<dyn std::error::Error + Send + Sync>", "d?", lambda r, c: "Box::new(%s::new(%d))" % (base, c())),
        Ty("Option<%s>" % base, "?", lambda r, c: r.choice(["None", "Some(%s::new(%d))" % (base, c())])),
        Ty("vs::Leaf2", "d?", lambda r, c: "vs::Leaf2::new(%d)" % c()),
        Ty("vs::Unit", "d?", lambda r, c: "vs::Unit"),
        Ty("i32", gen.INT, lambda r, c: str(r.randint(0, 9))),
        Ty("String", "d?", lambda r, c: "String::from(\"t\")"),
        Ty("vs::Probe", gen.ALL, lambda r, c: "vs::Probe::new(%d)" % c()),
    ]


DECOY_NAMES = ["source_", "sources", "Source", "_source", "source1", "cause", "error", "err", "inner", "from", "backtrace_", "SOURCE",
               "src", "e", "transparent", "this", "varsource", "request", "x", "y", "r#type", "r#fn", "r#dyn", "souce", "source_error", "sourc"]


class SVar:
    """A variant together with what its source is."""


def source_variant(r, c, srcs, name, base="vs::Leaf", kinds=None, backtrace=None, max_decoys=4):
    """`backtrace`: the text of a backtrace field type to add sometimes."""
    decoys = decoy_types(base)
    kind = r.choice(kinds or ["none", "none", "named", "named", "attr", "attr", "from", "from+source", "raw", "attr-raw", "attr-over",
                              "transparent", "transparent+from"])
    v = SVar()
    v.kind = kind
    shape = r.choice(["named", "tuple"])
    if kind in ("named", "raw", "attr-raw", "attr-over"):
        shape = "named"
    if kind == "none" and r.random() < 0.3:
        shape = "unit"
    src = r.choice(srcs)
    optional = kind not in ("transparent", "transparent+from", "none", "raw") and r.random() < 0.3
    v.src, v.optional = src, optional
    ty = src.text
    if optional:
        ty = r.choice(OPTIONS) % ty
    lone = kind in ("from", "from+source", "transparent", "transparent+from")
    nd = 0 if lone or shape == "unit" else r.randint(0, max_decoys)
    names = r.sample(DECOY_NAMES, nd)
    if nd and r.random() < 0.1:
        names += ["more%d" % i for i in range(r.choice([3, 5, 9, 12, 17, 33]))]
    fields = []     # (name, Ty, attrs, role)
    for n in names:
        fields.append([n, r.choice(decoys), [], "decoy"])
    if kind == "attr-over":
        fields.append(["source", r.choice(decoys[:4]), [], "decoy"])
    if kind == "raw":
        fields.append(["r#source", r.choice(decoys), [], "decoy"])
    if kind not in ("none", "raw"):
        attrs = {"named": [], "attr": ["#[source]"], "from": ["#[from]"], "from+source": r.choice([["#[from]", "#[source]"], ["#[source]", "#[from]"]]),
                 "attr-raw": ["#[source]"], "attr-over": ["#[source]"], "transparent": [], "transparent+from": ["#[from]"]}[kind]
        n = "source"
        if kind == "attr-raw":
            n = "r#source"
        elif kind == "attr-over":
            n = r.choice([x for x in DECOY_NAMES if x not in names])
        elif kind != "named" and r.random() < 0.6:
            n = r.choice([x for x in DECOY_NAMES if x not in names])
        if kind in ("from", "from+source") and r.random() < 0.2:
            n = "r#source"
        fields.append([n, Ty(ty, "", None), attrs, "source"])
    bt = backtrace and kind not in ("transparent", "transparent+from") and shape != "unit" and r.random() < 0.4
    marked = bt and r.random() < 0.4 and [f for f in fields if f[3] == "source"]
    if marked:
        # The source is also where the backtrace is.
        marked[0][2].insert(r.randint(0, len(marked[0][2])), "#[backtrace]")
    elif bt:
        val = "std::backtrace::Backtrace::disabled()"
        text, val, attrs = r.choice([(backtrace, val, []), (backtrace, val, ["#[backtrace]"]), ("Option<%s>" % backtrace, "Some(%s)" % val, ["#[backtrace]"]),
                                     ("Option<%s>" % backtrace, "None", ["#[backtrace]"]), ("std::sync::Arc<%s>" % backtrace, "std::sync::Arc::new(%s)" % val, ["#[backtrace]"])])
        fields.append([r.choice(["backtrace", "bt", "r#async"]), Ty(text, "", lambda r, c: val), attrs, "backtrace"])
    r.shuffle(fields)
    v.fields = [Field(i, f[0] if shape == "named" else None, f[1], f[2]) for i, f in enumerate(fields)]
    v.roles = [f[3] for f in fields]
    v.shape = shape
    v.name = name
    v.var = Variant(name, shape, v.fields)
    if kind.startswith("transparent"):
        v.attr = "#[error(transparent)]"
    else:
        shown = [f for f, role in zip(v.fields, v.roles) if role == "decoy" and "d" in f.ty.traits]
        if shown and r.random() < 0.3:
            f = r.choice(shown)
            v.attr = "#[error(\"v {%s}\")]" % f.ref
        elif r.random() < 0.15:
            v.attr = "#[error(\"v {}\", 1 + 1)]"
        else:
            v.attr = "#[error(\"v\")]"
    v.source_index = next((i for i, role in enumerate(v.roles) if role == "source"), None)
    return v


def value(v, r, c, path):
    over = {}
    if v.source_index is not None:
        x = v.src.val(r, c)
        if v.optional:
            v.last_none = r.random() < 0.35
            x = "None" if v.last_none else "Some(%s)" % x
        over[v.source_index] = x
    return v.var.value(path, r, c, over)


def arm(v, path, m="m"):
    """A match arm checking source() of the value `e`."""
    pat = "%s { %s }" % (path, ", ".join(
        "%s: b%d" % (f.member, f.index) if i == v.source_index else "%s: _" % f.member for i, f in enumerate(v.fields)))
    if v.kind.startswith("transparent"):
        return "%s => %s.same_source(&label, e, %s)," % (pat, m, v.src.ref.format(b="b%d" % v.source_index))
    if v.source_index is None:
        return "%s => %s.source(&label, e, None)," % (pat, m)
    return "%s => %s.source(&label, e, %s)," % (pat, m, wants_expr(v.src, "b%d" % v.source_index, v.optional))


def dedupe_from(vs):
    """Two variants cannot both be From of overlapping types: drops the later
    ones' #[from]."""
    seen = set()
    for v in vs:
        for f in v.fields:
            if "#[from]" in f.attrs:
                if v.src.text in seen:
                    f.attrs = [a for a in f.attrs if a not in ("#[from]",)]
                    if not v.kind.startswith("transparent") and "#[source]" not in f.attrs:
                        f.attrs.append("#[source]")
                seen.add(v.src.text)


def definition(vs, kind, r, debug="Debug, "):
    from tv import defs
    L = ["#[derive(%sthiserror::Error)]" % debug]
    if kind == "struct":
        v = vs[0]
        L.append(defs.noise(r, False) + v.attr)
        L.append("pub struct E%s%s" % (v.var.body(), ";" if v.shape != "named" else ""))
    else:
        L.append(defs.noise(r, False))
        L.append("pub enum E {")
        for v in vs:
            L.append("    " + defs.noise(r, False) + v.attr)
            L.append("    %s%s," % (v.name, v.var.body()))
        L.append("}")
    return L


# Observes requests on nightly: the answer must be that of the source (if the
# request is to be forwarded) or else the own backtrace.
FORWARDS = r'''
use std::backtrace::Backtrace as StdBacktrace;
use std::error::{request_ref, request_value};
pub fn forwards(m: &mut vs::Mon, label: &str, e: &(dyn std::error::Error + 'static), source: Option<&(dyn std::error::Error + 'static)>, own: Option<&StdBacktrace>) {
    m.count("requests", 6);
    let at = |b: Option<&StdBacktrace>| b.map(|b| vs::addr_of(b));
    vs::take_log();
    let from_source = source.and_then(|s| request_ref::<StdBacktrace>(s));
    let want_log = vs::take_log();
    let got = request_ref::<StdBacktrace>(e);
    let got_log = vs::take_log();
    let want = from_source.or(own);
    m.check(label, at(got) == at(want), || format!("request for Backtrace answered {:x?}, wanted {:x?} (source's {:x?}, own {:x?})", at(got), at(want), at(from_source), at(own)));
    m.check(label, got_log == want_log, || format!("request for Backtrace was offered {got_log:?}, wanted {want_log:?}"));
    let want = source.and_then(|s| request_ref::<Mark>(s)).map(|x| vs::addr_of(x));
    let got = request_ref::<Mark>(e).map(|x| vs::addr_of(x));
    m.check(label, got == want, || format!("request for Mark answered {got:x?}, wanted {want:x?}"));
    vs::take_log();
    let want = source.and_then(|s| request_value::<Num>(s));
    let got = request_value::<Num>(e);
    m.check(label, got == want, || format!("request for Num answered {got:?}, wanted {want:?}"));
    vs::take_log();
    m.check(label, request_ref::<u8>(e).is_none() && request_value::<StdBacktrace>(e).is_none() && request_value::<&'static StdBacktrace>(e).is_none()
        && request_ref::<Option<StdBacktrace>>(e).is_none() && request_ref::<std::sync::Arc<StdBacktrace>>(e).is_none() && request_value::<String>(e).is_none(),
        || "a request of another type was answered".to_owned());
    vs::take_log();
    let t = (label.to_owned(), source.is_some(), from_source.is_some(), own.is_some(), want_log.len());
    m.trace(&t);
    m.count("backtrace_from_source", from_source.is_some() as u64);
    m.count("backtrace_own", (from_source.is_none() && own.is_some()) as u64);
    m.count("backtrace_none", (from_source.is_none() && own.is_none()) as u64);
    if m.samples.len() < 3 { m.samples.push(format!("{t:?}")); }
}
'''
