"""C15: the derive adds nothing to a type but Error, Display and From."""
import json
import os
import re

from tv import core, gen
from tv.core import NIGHTLY_PROVIDE, Case, Config

# Traits whose membership is compared between derived and handwritten.
TRAITS = """Send Sync Unpin std::panic::UnwindSafe std::panic::RefUnwindSafe Copy Clone PartialEq Eq PartialOrd Ord std::hash::Hash Default
std::fmt::Display std::fmt::Debug std::fmt::LowerHex std::fmt::UpperHex std::fmt::Octal std::fmt::Binary std::fmt::LowerExp std::fmt::UpperExp
std::fmt::Pointer std::fmt::Write std::error::Error Drop Iterator IntoIterator ToString ToOwned std::str::FromStr std::any::Any
std::io::Read std::io::Write std::io::Seek std::io::BufRead std::future::Future std::future::IntoFuture std::process::Termination
AsRef<str> AsRef<[u8]> AsRef<dyn~std::error::Error> AsMut<[u8]> std::ops::Deref std::ops::DerefMut std::borrow::Borrow<str> std::borrow::BorrowMut<[u8]>
From<String> From<&'static~str> From<u8> From<()> From<char> From<std::convert::Infallible> From<vs::Leaf> From<Option<vs::Leaf>> From<Box<vs::Leaf>>
From<vs::Tracked<1>> From<vs::Tracked<2>> From<vs::Tracked<3>> From<Option<vs::Tracked<1>>> From<&'static~vs::Tracked<1>> From<Box<dyn~std::error::Error>>
From<std::io::Error> From<std::fmt::Error> From<Box<vs::Tracked<2>>> From<std::rc::Rc<u8>> From<i32> TryFrom<u8> TryFrom<String> TryFrom<vs::Tracked<1>> Into<String> Into<u8>
Into<vs::Tracked<1>> Into<vs::Leaf> Into<Box<dyn~std::error::Error>> Into<Box<dyn~std::error::Error+Send+Sync>> Into<std::io::Error> TryInto<u8> Into<Option<vs::Leaf>>
PartialEq<str> PartialEq<String> PartialEq<u8> std::ops::Add std::ops::Neg std::ops::Not std::ops::Index<usize> std::ops::AddAssign std::ops::RangeBounds<u8>
Extend<u8> FromIterator<u8> std::iter::Sum std::net::ToSocketAddrs Fn() FnOnce()->u8 DoubleEndedIterator ExactSizeIterator
crate::HasAsDisplay crate::HasAsDynError std::alloc::GlobalAlloc std::hash::Hasher std::error::Error+Send std::error::Error+Send+Sync+'static crate::Anyhow""".split()

HEADER = r'''
pub trait HasAsDisplay {} impl<'a, T: ?Sized> HasAsDisplay for T where T: thiserror::__private::AsDisplay<'a> {}
pub trait HasAsDynError {} impl<T: ?Sized> HasAsDynError for T where T: thiserror::__private::AsDynError<'static> {}
pub trait Anyhow {} impl<T: Into<anyhow::Error>> Anyhow for T {}
pub struct NotAField; pub struct NoTraits;
macro_rules! has { ($t:ty : $($tr:tt)+) => {{
    trait No { const V: bool = false; } impl<T> No for T {}
    struct W<T>(std::marker::PhantomData<T>); impl<T: $($tr)+> W<T> { const V: bool = true; }
    <W<$t>>::V
}} }
macro_rules! facts { ($m:expr, $what:expr, $a:ty, $b:ty) => {{
    let (a, b): (Vec<bool>, Vec<bool>) = (vec![FACTS_A], vec![FACTS_B]);
    const NAMES: &[&str] = &[FACTS_N];
    for i in 0..a.len() {
        $m.count("trait_facts", 1); $m.trace(&(stringify!($a), i, a[i]));
        if a[i] != b[i] { $m.fail($what, format!("{}: {} implements {} = {}, the handwritten one {}", stringify!($a), $what, NAMES[i], a[i], b[i])); }
    }
    use std::mem::*;
    $m.eq(concat!(stringify!($a), " layout"), (size_of::<$a>(), align_of::<$a>(), needs_drop::<$a>(), size_of::<Option<$a>>(), size_of::<[$a; 3]>()),
        (size_of::<$b>(), align_of::<$b>(), needs_drop::<$b>(), size_of::<Option<$b>>(), size_of::<[$b; 3]>()));
}} }
/// What a user may still implement for the type.
macro_rules! own { ([$($g:tt)*] $t:ty) => {
    impl<$($g)*> Clone for $t { fn clone(&self) -> Self { panic!() } }
    impl<$($g)*> PartialEq for $t { fn eq(&self, _: &Self) -> bool { true } }
    impl<$($g)*> PartialEq<str> for $t { fn eq(&self, _: &str) -> bool { true } }
    impl<$($g)*> Eq for $t {}
    impl<$($g)*> PartialOrd for $t { fn partial_cmp(&self, _: &Self) -> Option<std::cmp::Ordering> { None } }
    impl<$($g)*> Ord for $t { fn cmp(&self, _: &Self) -> std::cmp::Ordering { panic!() } }
    impl<$($g)*> std::hash::Hash for $t { fn hash<H: std::hash::Hasher>(&self, _: &mut H) {} }
    impl<$($g)*> Default for $t { fn default() -> Self { panic!() } }
    impl<$($g)*> std::ops::Deref for $t { type Target = u8; fn deref(&self) -> &u8 { &0 } }
    impl<$($g)*> std::ops::DerefMut for $t { fn deref_mut(&mut self) -> &mut u8 { panic!() } }
    impl<$($g)*> AsRef<str> for $t { fn as_ref(&self) -> &str { "" } }
    impl<$($g)*> AsRef<dyn std::error::Error> for $t { fn as_ref(&self) -> &(dyn std::error::Error + 'static) { panic!() } }
    impl<$($g)*> std::borrow::Borrow<str> for $t { fn borrow(&self) -> &str { "" } }
    impl<$($g)*> std::str::FromStr for $t { type Err = (); fn from_str(_: &str) -> Result<Self, ()> { Err(()) } }
    impl<$($g)*> Iterator for $t { type Item = u8; fn next(&mut self) -> Option<u8> { None } }
    impl<$($g)*> Extend<u8> for $t { fn extend<I: IntoIterator<Item = u8>>(&mut self, _: I) {} }
    impl<$($g)*> FromIterator<u8> for $t { fn from_iter<I: IntoIterator<Item = u8>>(_: I) -> Self { panic!() } }
    impl<$($g)*> std::ops::Add for $t { type Output = u8; fn add(self, _: Self) -> u8 { 0 } }
    impl<$($g)*> std::ops::Neg for $t { type Output = u8; fn neg(self) -> u8 { 0 } }
    impl<$($g)*> std::ops::Not for $t { type Output = u8; fn not(self) -> u8 { 0 } }
    impl<$($g)*> std::ops::Index<usize> for $t { type Output = u8; fn index(&self, _: usize) -> &u8 { &0 } }
    impl<$($g)*> std::fmt::LowerHex for $t { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
    impl<$($g)*> std::fmt::UpperHex for $t { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
    impl<$($g)*> std::fmt::Octal for $t { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
    impl<$($g)*> std::fmt::Binary for $t { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
    impl<$($g)*> std::fmt::LowerExp for $t { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
    impl<$($g)*> std::fmt::UpperExp for $t { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
    impl<$($g)*> std::fmt::Pointer for $t { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
    impl<$($g)*> std::io::Write for $t { fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Ok(0) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
    impl<$($g)*> std::io::Read for $t { fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> { Ok(0) } }
    impl<$($g)*> std::process::Termination for $t { fn report(self) -> std::process::ExitCode { panic!() } }
    impl<$($g)*> From<crate::NotAField> for $t { fn from(_: crate::NotAField) -> Self { panic!() } }
    impl<$($g)*> From<String> for $t { fn from(_: String) -> Self { panic!() } }
    impl<$($g)*> From<&str> for $t { fn from(_: &str) -> Self { panic!() } }
    impl<$($g)*> From<u8> for $t { fn from(_: u8) -> Self { panic!() } }
    impl<$($g)*> From<()> for $t { fn from(_: ()) -> Self { panic!() } }
    impl<$($g)*> From<vs::Leaf> for $t { fn from(_: vs::Leaf) -> Self { panic!() } }
    impl<$($g)*> From<Box<dyn std::error::Error>> for $t { fn from(_: Box<dyn std::error::Error>) -> Self { panic!() } }
    impl<$($g)*> From<Option<vs::Tracked<1>>> for $t { fn from(_: Option<vs::Tracked<1>>) -> Self { panic!() } }
    impl<$($g)*> From<std::convert::Infallible> for $t { fn from(_: std::convert::Infallible) -> Self { panic!() } }
    impl<$($g)*> From<$t> for String { fn from(_: $t) -> Self { panic!() } }
    impl<$($g)*> From<$t> for std::io::Error { fn from(_: $t) -> Self { panic!() } }
    impl<$($g)*> From<$t> for u8 { fn from(_: $t) -> Self { panic!() } }
    impl<$($g)*> TryFrom<char> for $t { type Error = (); fn try_from(_: char) -> Result<Self, ()> { Err(()) } }
    impl<$($g)*> $t {
        pub fn fmt(&self) -> u8 { 1 } pub fn source(&self) -> u8 { 2 } pub fn from() -> u8 { 3 } pub fn provide(&self) -> u8 { 4 } pub fn description(&self) -> u8 { 5 }
        pub fn cause(&self) -> u8 { 6 } pub fn as_display(&self) -> u8 { 7 } pub fn as_dyn_error(&self) -> u8 { 8 } pub fn thiserror_provide(&self) -> u8 { 9 }
        pub fn to_string(&self) -> u8 { 10 } pub fn new() -> u8 { 11 } pub fn into(self) -> u8 { 12 } pub fn kind(&self) -> u8 { 13 } pub fn backtrace(&self) -> u8 { 14 }
        pub fn is(&self) -> u8 { 15 } pub fn downcast(&self) -> u8 { 16 } pub fn display(&self) -> u8 { 17 } pub fn error(&self) -> u8 { 18 } pub fn message(&self) -> u8 { 19 }
        pub fn inner(&self) -> u8 { 20 } pub fn get(&self) -> u8 { 21 } pub fn as_error(&self) -> u8 { 22 } pub fn write(&self) -> u8 { 23 } pub fn _fmt(&self) -> u8 { 24 }
        pub fn __fmt(&self) -> u8 { 25 } pub fn type_id(&self) -> u8 { 26 } pub fn source_field(&self) -> u8 { 27 } pub fn variant(&self) -> u8 { 28 }
        pub const MESSAGE: u8 = 0; pub const ERROR: u8 = 0; pub const NAME: u8 = 0; pub const VARIANTS: u8 = 0;
    }
} }
pub trait Method { fn as_display(&self) -> &'static str { "mine" } fn as_dyn_error(&self) -> &'static str { "mine" } fn thiserror_provide(&self) -> &'static str { "mine" } fn source(&self) -> &'static str { "mine" } fn provide(&self) -> &'static str { "mine" } }
impl Method for vs::Leaf {} impl Method for &u8 {} impl Method for u8 {}
/// In the same scope as a definition nothing but its name is new.
macro_rules! scope { () => {
    pub mod __private {} pub trait AsDisplay {} pub trait AsDynError {} pub trait ThiserrorProvide {} pub struct Var; pub fn source() {} pub struct Placeholder; pub mod thiserror_impl {}
    pub fn fmt() {} pub struct Formatter; pub struct Display; pub trait Debug {} pub trait From {} pub struct Request; pub struct Backtrace; pub struct Option; pub struct Some; pub enum Result {}
    pub const _fmt: u8 = 0; pub fn provide() {} pub fn from() {} pub static __formatter: u8 = 0; pub mod core {} pub mod std {} pub mod thiserror {} pub struct Error; pub trait Pointer {} pub mod fmt {} pub mod error {}
    pub trait Sealed {} pub type Target = u8; pub struct Err; pub struct Ok; pub fn drop() {} pub fn _assert() {} pub struct __Impl; pub fn __fmt() {} pub const IMPL: u8 = 0;
} }
'''.replace("FACTS_A", ", ".join("has!($a: %s)" % t.replace("~", " ") for t in TRAITS)) \
   .replace("FACTS_B", ", ".join("has!($b: %s)" % t.replace("~", " ") for t in TRAITS)) \
   .replace("FACTS_N", ", ".join("\"%s\"" % t.replace("~", " ") for t in TRAITS))

# (text, value with T = i32, 'a = 'static, N = 2, shown with {}, co, contra). {i} a number.
CONC = [
    ("u8", "{i}u8", True), ("String", "String::from(\"s{i}\")", True), ("vs::Tracked<9>", "vs::Tracked::new({i})", True), ("Vec<vs::Tracked<8>>", "vec![vs::Tracked::new({i}), vs::Tracked::new({i} + 100)]", False),
    ("std::rc::Rc<u8>", "std::rc::Rc::new({i})", True), ("std::cell::Cell<u8>", "std::cell::Cell::new({i})", False), ("*const u8", "std::ptr::null()", False), ("fn(u8)", "(|_| ()) as fn(u8)", False),
    ("Option<Box<u8>>", "Some(Box::new({i}))", False), ("std::num::NonZeroU8", "std::num::NonZeroU8::MIN", True), ("[u16; 3]", "[{i}; 3]", False), ("&'static str", "\"x\"", True), ("()", "()", False),
    ("bool", "true", True), ("char", "'c'", True), ("std::marker::PhantomPinned", "std::marker::PhantomPinned", False), ("std::marker::PhantomData<std::rc::Rc<()>>", "std::marker::PhantomData", False),
    ("Box<dyn Fn() + Send>", "Box::new(|| ())", False), ("std::sync::Mutex<vs::Tracked<7>>", "std::sync::Mutex::new(vs::Tracked::new({i}))", False), ("u64", "{i}", True), ("i128", "-{i}", True),
    ("std::mem::ManuallyDrop<vs::Tracked<6>>", "std::mem::ManuallyDrop::new(vs::Tracked::new({i}))", False), ("Option<vs::Tracked<5>>", "Some(vs::Tracked::new({i}))", False),
]
LIFE = [("&'a str", "\"lt\"", True, 1, 0), ("std::cell::Cell<&'a str>", "std::cell::Cell::new(\"\")", False, 0, 0), ("fn(&'a str)", "(|_| ()) as fn(&'static str)", False, 0, 1), ("Option<&'a u8>", "None", False, 1, 0),
        ("std::marker::PhantomData<fn(&'a ())>", "std::marker::PhantomData", False, 0, 1), ("std::marker::PhantomData<&'a ()>", "std::marker::PhantomData", False, 1, 0)]
TY = [("T", "7", True), ("Option<T>", "Some(7)", False), ("Vec<T>", "vec![]", False), ("std::marker::PhantomData<T>", "std::marker::PhantomData", False), ("Box<T>", "Box::new(7)", False),
      ("std::cell::Cell<T>", "std::cell::Cell::new(7)", False), ("fn(T)", "(|_| ()) as fn(i32)", False), ("*const T", "std::ptr::null()", False), ("std::sync::Arc<T>", "std::sync::Arc::new(7)", False)]
INST = ["i32", "std::rc::Rc<u8>", "std::cell::Cell<u8>", "crate::NoTraits", "&'static mut u8", "String", "*const u8", "vs::Tracked<4>"]
SRC = [("vs::Leaf", "vs::Leaf::new({i})", "{b}"), ("Box<dyn std::error::Error>", "Box::new(vs::Leaf::new({i}))", "&**{b}"), ("std::rc::Rc<dyn std::error::Error + Send>", "std::rc::Rc::new(vs::Leaf::new({i}))", "&**{b}"),
       ("Box<dyn std::error::Error + Send + Sync>", "Box::new(vs::Leaf::new({i}))", "&**{b}"), ("vs::Leaf2", "vs::Leaf2::new({i})", "{b}")]


class Def:
    pass


def definition(r, k, prov=False):
    d = Def()
    c = gen.Ctr()
    d.kind = r.choice(["struct", "enum", "enum"])
    d.life = r.random() < 0.35
    d.ty = r.random() < 0.45
    d.const = r.random() < 0.2
    nv = 1 if d.kind == "struct" else r.choice([1, 2, 3, 5])
    d.message = r.random() < 0.88
    d.variants = []
    used_from = set()
    used = {"a": False, "T": False}
    for vn in (["E"] if d.kind == "struct" else gen.variant_names(r, nv)):
        v = Def()
        v.name = vn
        v.shape = r.choice(["named", "tuple", "unit"])
        v.fields = []     # (member, type, value, shown, role, attrs, co, contra, wanted)
        v.kind = r.choice(["plain", "plain", "plain", "source", "from", "transparent"])
        if v.kind == "transparent" and not d.message:
            v.kind = "from"
        if v.kind in ("source", "from", "transparent") and v.shape == "unit":
            v.shape = "tuple"
        v.msg = []
        if v.kind == "plain" or v.kind == "source":
            n = 0 if v.shape == "unit" else r.choice([0, 1, 2, 3, 5])
            for _ in range(n):
                q = r.random()
                co = contra = 1
                if d.life and q < 0.3:
                    t, val, shown, co, contra = r.choice(LIFE)
                    used["a"] = True
                elif d.ty and q < 0.6:
                    t, val, shown = r.choice(TY)
                    used["T"] = True
                elif d.const and q < 0.7:
                    t, val, shown = "[u8; N]", "[1; 2]", False
                else:
                    t, val, shown = r.choice(CONC)
                v.fields.append([None, t, val.format(i=c()), shown, "field", "", co, contra, None])
        if v.kind == "source":
            t, val, want = r.choice(SRC)
            opt = r.random() < 0.3
            v.fields.insert(r.randint(0, len(v.fields)), [None, "Option<%s>" % t if opt else t, ("Some(%s)" if opt else "%s") % val.format(i=c()), False, "source",
                                                           "#[source] ", 1, 1, ("opt" if opt else "", want)])
        if v.kind in ("from", "transparent"):
            t = r.choice([x for x in ("vs::Tracked<1>", "vs::Tracked<2>", "vs::Tracked<3>", "std::io::Error", "std::fmt::Error", "Box<vs::Tracked<2>>") if x not in used_from] or ["vs::Unit"])
            val = {"std::io::Error": "std::io::Error::from_raw_os_error(2)", "std::fmt::Error": "std::fmt::Error", "vs::Unit": "vs::Unit", "Box<vs::Tracked<2>>": "Box::new(vs::Tracked::new({i}))"}.get(t, "vs::Tracked::new({i})").format(i=c())
            opt = v.kind == "from" and r.random() < 0.2 and not t.startswith("Box")
            frm = t not in used_from and (v.kind == "from" or r.random() < 0.6)
            if frm:
                used_from.add(t)
            v.fields.append([None, "Option<%s>" % t if opt else t, "Some(%s)" % val if opt else val, False, "from" if frm else "source", "#[from] " if frm else ("" if v.kind == "transparent" else "#[source] "),
                             1, 1, ("opt" if opt else "", "{b}")])
        if prov:
            # Backtraces: forwarded from the source, or one of its own.
            last = v.fields[-1:] if v.kind in ("from", "transparent") else [f for f in v.fields if f[4] == "source"]
            q = r.random()
            if last and q < 0.45 and ("#[from]" in last[0][5] or v.kind != "transparent"):
                last[0][5] = r.choice(["#[backtrace] " + last[0][5], last[0][5] + "#[backtrace] "])
            elif v.kind != "transparent" and v.shape != "unit" and q < 0.8:
                own = r.choice([("std::backtrace::Backtrace", "std::backtrace::Backtrace::disabled()", ""), ("std::backtrace::Backtrace", "std::backtrace::Backtrace::disabled()", "#[backtrace] "),
                                ("Option<std::backtrace::Backtrace>", "None", "#[backtrace] "), ("std::sync::Arc<std::backtrace::Backtrace>", "std::sync::Arc::new(std::backtrace::Backtrace::disabled())", "#[backtrace] ")])
                v.fields.insert(r.randint(0, len(v.fields)), [None, own[0], own[1], False, "backtrace", own[2], 1, 1, None])
        names = r.sample(["x", "y", "kind", "inner", "cause", "code", "r#type", "value", "fmt", "data", "é", "w"], 12)
        for i, f in enumerate(v.fields):
            f[0] = names[i] if v.shape == "named" else str(i)
        # Messages of shown fields.
        shown = [f for f in v.fields if f[3]]
        v.msg = [(r.choice(["", " ", "m ", "{{", "é"]), f) for f in r.sample(shown, r.randint(0, len(shown)))] if d.message else []
        d.variants.append(v)
    # Parameters must be used.
    last = d.variants[0]
    for on, key, t in ((d.life, "a", "std::marker::PhantomData<&'a ()>"), (d.ty, "T", "std::marker::PhantomData<T>")):
        if on and not used[key]:
            v = next((v for v in d.variants if v.kind in ("plain", "source") and v.shape != "unit"), None)
            if v is None:
                if d.kind == "struct":
                    if key == "a":
                        d.life = False
                    else:
                        d.ty = False
                    continue
                v = Def()
                v.name, v.shape, v.fields, v.kind, v.msg = "Used" + key, "tuple", [], "plain", []
                d.variants.append(v)
            v.fields.append(["w_" + key if v.shape == "named" else str(len(v.fields)), t, "std::marker::PhantomData", False, "field", "", 1, 0, None])
    params = (["'a"] if d.life else []) + (["T"] if d.ty else []) + (["const N: usize"] if d.const else [])
    args = (["'a"] if d.life else []) + (["T"] if d.ty else []) + (["N"] if d.const else [])
    d.tshown = any(f[1] == "T" for v in d.variants for _, f in v.msg)
    d.params = "<%s>" % ", ".join(params) if params else ""
    d.args = "<%s>" % ", ".join(args) if args else ""
    d.raw = ", ".join(params)
    d.inst = lambda t="i32": ("<%s>" % ", ".join((["'static"] if d.life else []) + ([t] if d.ty else []) + (["2"] if d.const else []))) if args else ""
    return d


def path(d, v):
    return "E" if d.kind == "struct" else "E::" + v.name


def pat(v, p):
    return "%s { %s }" % (p, ", ".join("%s: b%d" % (f[0], i) for i, f in enumerate(v.fields)))


def body(v, attrs):
    if v.shape == "unit":
        return ""
    fs = ["%spub %s%s" % (f[5] if attrs else "", f[0] + ": " if v.shape == "named" else "", f[1]) for f in v.fields]
    return " { %s }" % ", ".join(fs) if v.shape == "named" else "(%s)" % ", ".join(fs)


def text(d, derive):
    """The definition, derived or with handwritten impls."""
    L = []
    if derive:
        L.append("#[derive(thiserror::Error)]")

    def attr(v):
        if not derive or not d.message:
            return ""
        if v.kind == "transparent":
            return "#[error(transparent)] "
        return "#[error(%s)] " % gen.rs("".join(l + "{%s}" % gen.unraw(f[0]) for l, f in v.msg) + "!")
    if d.kind == "struct":
        v = d.variants[0]
        L.append("%spub struct E%s%s%s" % (attr(v), d.params, body(v, derive), "" if v.shape == "named" else ";"))
    else:
        L.append("pub enum E%s {" % d.params)
        for v in d.variants:
            L.append("    %s%s%s," % (attr(v), v.name, body(v, derive).replace("pub ", "")))
        L.append("}")
    L.append("impl%s std::fmt::Debug for E%s { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(\"E debug\") } }" % (d.params, d.args))
    if derive and d.message:
        return "\n".join(L)
    where = " where T: std::fmt::Display" if d.tshown else ""
    L.append("impl%s std::fmt::Display for E%s%s { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self {" % (d.params, d.args, where))
    for v in d.variants:
        if v.kind == "transparent":
            t = "std::fmt::Display::fmt(b0, f)"
        else:
            t = "write!(f, %s)" % ", ".join([gen.rs("".join(l + "{}" for l, f in v.msg) + "!")] + ["b%d" % v.fields.index(f) for _, f in v.msg])
        L.append("    %s => %s," % (pat(v, path(d, v)), t))
    L.append("} } }")
    if derive:
        return "\n".join(L)
    L.append("impl%s std::error::Error for E%s%s {" % (d.params, d.args, " where Self: std::fmt::Debug + std::fmt::Display" if d.ty else ""))
    L.append("    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { match self {")
    for v in d.variants:
        i = next((i for i, f in enumerate(v.fields) if f[4] in ("source", "from")), None)
        if i is None:
            t = "None"
        elif v.kind == "transparent":
            t = "std::error::Error::source(b%d)" % i
        else:
            opt, want = v.fields[i][8]
            t = "match b%d { Some(s) => Some(%s), None => None }" % (i, want.format(b="s")) if opt else "Some(%s)" % want.format(b="b%d" % i)
        L.append("    %s => %s," % (pat(v, path(d, v)), t))
    L.append("} } }")
    for v in d.variants:
        for f in v.fields:
            if f[4] == "from":
                t = f[1][7:-1] if f[8][0] else f[1]
                bt = "".join(", %s: %s" % (b[0], "From::from(std::backtrace::Backtrace::capture())") for b in v.fields if b[4] == "backtrace")
                L.append("impl%s From<%s> for E%s { fn from(x: %s) -> Self { %s { %s: %s%s } } }" % (d.params, t, d.args, t, path(d, v), f[0], "Some(x)" if f[8][0] else "x", bt))
    return "\n".join(L)


def value(d, v, mod):
    ctor = "%s::E" % mod if d.kind == "struct" else "%s::E::%s" % (mod, v.name)
    if d.inst():
        return "{ type Inst = %s::E%s; Inst%s { %s } }" % (mod, d.inst(), "" if d.kind == "struct" else "::" + v.name, ", ".join("%s: %s" % (f[0], f[2]) for f in v.fields))
    return "(%s { %s })" % (ctor, ", ".join("%s: %s" % (f[0], f[2]) for f in v.fields))


def case(r, cid, prov=False):
    d = definition(r, cid, prov)
    der, hand = text(d, True), text(d, False)
    fr = [f[1] for v in d.variants for f in v.fields if f[4] == "from"]
    x = der
    L = ["pub mod d {\n%s\n}" % der, "pub mod h {\n%s\n}" % hand]
    # The same definition with everything a user may add.
    L.append("pub mod x {\n%s\nown!([%s] E%s);\n}" % (x, d.raw, d.args))
    L.append("pub mod dr {\n%s\nimpl%s Drop for E%s { fn drop(&mut self) {} }\nunsafe impl%s Send for E%s {}\nunsafe impl%s Sync for E%s {}\nimpl%s Unpin for E%s {}\nimpl%s std::panic::UnwindSafe for E%s {}\n}" % (
        (x,) + (d.params, d.args) * 5))
    # The same with a user's module-level names which the derive must not introduce itself.
    L.append("pub mod sc {\npub mod inner {\n%s\n" % x)
    L.append("pub fn methods() -> Vec<&'static str> { use crate::Method; let l = vs::Leaf::new(1); vec![l.as_display(), l.as_dyn_error(), l.thiserror_provide(), l.source(), l.provide(), 1u8.as_display(), (&1u8).as_display()] } }")
    L.append("pub use self::inner::*; pub mod g { pub use super::inner::*; scope_names!(); } }".replace("scope_names!();", ""))
    if d.life:
        co = all(f[6] for v in d.variants for f in v.fields)
        contra = all(f[7] for v in d.variants for f in v.fields if "'a" in f[1])
        a2 = d.args.replace("'a", "'static")
        p2 = d.params
        L.append("pub mod va { use super::d::E;")
        if co:
            L.append("pub fn co%s(x: E%s) -> E%s { x }" % (p2, a2, d.args))
        if contra:
            L.append("pub fn contra%s(x: E%s) -> E%s { x }" % (p2, d.args, a2))
        L.append("}")
    L.append("#[allow(undropped_manually_drops, bindings_with_variant_name)] pub fn run(m: &mut vs::Mon) {")
    for t in (INST if d.ty else ["i32"]):
        L.append("    facts!(m, \"type\", d::E%s, h::E%s);" % (d.inst(t), d.inst(t)))
    L.append("    m.eq(\"methods in scope\", sc::inner::methods(), vec![\"mine\"; 7]);")
    for k, v in enumerate(d.variants):
        L.append("    { let (a, b) = (%s, %s);" % (value(d, v, "d"), value(d, v, "h")))
        L.append("      vs::take_log(); let s = (std::mem::size_of_val(&a), format!(\"{:?}\", a)); let t = (std::mem::size_of_val(&b), format!(\"{:?}\", b)); m.eq(\"size and Debug\", s, t);")
        L.append("      m.display(\"display %d\", &a, &b); vs::take_log();" % k)
        L.append("      { use std::error::Error as _; #[allow(deprecated)] { m.eq(\"description\", a.description().to_owned(), b.description().to_owned()); m.eq(\"cause\", a.cause().is_some(), b.cause().is_some()); }")
        L.append("        m.eq(\"source\", a.source().map(|e| e.to_string()), b.source().map(|e| e.to_string())); }")
        L.append("      vs::take_log(); drop(a); let la = vs::take_log(); drop(b); let lb = vs::take_log(); m.count(\"drop_events\", la.len() as u64); m.eq(\"drop events\", la, lb); }")
        if d.kind == "struct" and v.fields:
            pa = "d::" + pat(v, "E")
            L.append("    { let %s = %s; vs::take_log();" % (pa, value(d, v, "d")))
            order = list(range(len(v.fields)))
            r.shuffle(order)
            L.append("      %s m.count(\"moved_apart\", 1); vs::take_log(); }" % " ".join("drop(b%d);" % i for i in order))
            L.append("    m.eq(\"offsets\", vec![%s], vec![%s]);" % tuple(
                ", ".join("std::mem::offset_of!(%s::E%s, %s)" % (mod, d.inst(), f[0]) for f in v.fields) for mod in ("d", "h")))
        elif v.fields:
            L.append("    let x = %s; if let d::%s = x { m.count(\"moved_apart\", 1); drop(b0); vs::take_log(); } else { m.fail(\"variant\", \"other variant\".into()) }" % (value(d, v, "d"), pat(v, "E::" + v.name)))
    L.append("}")
    c = Case(cid, "\n".join(L))
    c.d, c.h = der, hand
    return c


def scopes():
    """Definitions next to items of every name, in the same module."""
    out = []
    defs = [
        "#[derive(Debug, ::thiserror::Error)] #[error(\"{x} {y:?} {z:p}\")] pub struct E1 { pub x: ::std::string::String, pub y: u8, pub z: &'static u8 }",
        "#[derive(Debug, ::thiserror::Error)] pub enum E2 { #[error(transparent)] A(#[from] ::vs::Leaf), #[error(\"{0} {}\", .0)] B(::std::path::PathBuf) }".replace("{0} {}\", .0", "{0}\""),
        "#[derive(Debug, ::thiserror::Error)] #[error(\"{0}\")] pub struct E3<T>(pub T, #[source] ::std::boxed::Box<dyn ::std::error::Error>);",
        "#[derive(Debug, ::thiserror::Error)] pub enum E4 { #[error(fmt = ::core::fmt::Octal::fmt)] A(u8), #[error(\"b\")] B { source: ::std::option::Option<::vs::Leaf> } }",
    ]
    names = re.findall(r"pub (?:mod|trait|struct|enum|fn|const|static|type) (\w+)", HEADER.split("macro_rules! scope")[1])
    items = re.findall(r"pub (?:mod|trait|struct|enum|fn|const|static|type) [^;{}]*(?:;|\{\})", HEADER.split("macro_rules! scope")[1])
    for k, (n, item) in enumerate(zip(names, items)):
        if n in ("source", "__formatter", "_fmt") and "static" in item:
            continue
        code = "#[allow(non_upper_case_globals, non_camel_case_types)] pub mod s {\n%s\n%s\n}\n#[allow(non_upper_case_globals)] pub mod t {\n%s\n%s\n}\npub fn run(m: &mut vs::Mon) { m.count(\"scopes\", 1); m.trace(&\"%s\"); m.eq(\"shown\", s::E2::from(vs::Leaf::new(3)).to_string(), vs::Leaf::new(3).to_string()); }" % (
            "\n".join(defs), item, item, "\n".join(defs), n)
        out.append(Case("n%02d" % k, code, desc=item))
    return out


# ------------------------------------------------------------ rustdoc items

def norm(t):
    """A type of the index without ids and module prefixes."""
    if isinstance(t, dict):
        return "{%s}" % ",".join("%s:%s" % (k, norm(v)) for k, v in sorted(t.items()) if k not in ("id", "span"))
    if isinstance(t, list):
        return "[%s]" % ",".join(norm(x) for x in t)
    return str(t).split("::")[-1] if isinstance(t, str) else str(t)


def items(ctx, cases, toolchain="nightly", attrs=()):
    """What rustdoc lists in the module of the derived type and in that of the
    handwritten one must be the same."""
    cfg = Config(toolchain=toolchain, deps=['anyhow = "1"'])
    while True:
        lines, table = ["#![allow(warnings, undropped_manually_drops, bindings_with_variant_name)]"] + list(attrs), []
        for c in cases:
            for mod, t in (("d", c.d), ("h", c.h)):
                lines.append("pub mod %s_%s {" % (c.id, mod))
                a = len(lines)
                lines += t.splitlines()
                lines.append("}")
                table.append((a, len(lines), (c.id, mod)))
        d = ctx.crate("items", cfg, [], {"src/lib.rs": "\n".join(lines) + "\n"})
        rc, out, err = ctx.cargo(cfg, d, ["rustdoc", "--lib", "--message-format=json", "--", "-Zunstable-options", "--output-format", "json", "--document-private-items",
                                          "--document-hidden-items"])
        if rc == 0:
            break
        bad = {}
        for l in out.splitlines():
            try:
                j = json.loads(l)
            except ValueError:
                continue
            if j.get("reason") == "compiler-message" and j["message"]["level"].startswith("error"):
                hit = core.blame(j["message"], table, "src/lib.rs")
                if hit:
                    bad[hit[0]] = j["message"]["rendered"]
        if not bad:
            raise core.Inconclusive("rustdoc failed: " + err[-1500:])
        for c in cases:
            if c.id in bad:
                ctx.fail_case(c, "rejected by rustdoc", bad[c.id], cfg)
        cases = [c for c in cases if c.id not in bad]
    with open(os.path.join(ctx.base, "t-" + cfg.key(), "doc", "w_items.json")) as f:
        index = json.load(f)["index"]
    if cfg.name() not in ctx.configs:
        ctx.configs.append(cfg.name() + " (rustdoc)")
    inner_of = {}
    for k, v in index.items():
        kind = list(v["inner"])[0]
        if kind == "impl":
            for i in v["inner"]["impl"]["items"]:
                inner_of[str(i)] = v["inner"]["impl"]["trait"] is not None
    starts = [(a, b, w) for a, b, w in table]
    found = {w: [] for _, _, w in table}

    def where(line):
        lo, hi = 0, len(starts) - 1
        while lo <= hi:
            mid = (lo + hi) // 2
            a, b, w = starts[mid]
            if line < a:
                hi = mid - 1
            elif line > b:
                lo = mid + 1
            else:
                return w
        return None

    def sig(v):
        kind = list(v["inner"])[0]
        x = v["inner"][kind]
        if kind == "impl":
            t = x["trait"]
            return "%simpl %s %s for %s%s" % ("auto " if x["is_synthetic"] else "", "!" if x.get("is_negative") else "", norm(t["path"]) + norm(t.get("args")) if t else "",
                                              norm(x["for"]), " blanket" if x["blanket_impl"] else "") + (
                "" if t else " with " + ",".join(sorted(str(index[str(i)]["name"]) for i in x["items"])))
        if kind == "use":
            return "use %s as %s" % (x["source"], x["name"])
        return "%s %s %s" % (kind, v["name"], v["visibility"] if isinstance(v["visibility"], str) else "restricted")

    seen = set()
    for k, v in index.items():
        if v["crate_id"] != 0 or not v["span"] or not v["span"]["filename"].endswith("src/lib.rs"):
            continue
        kind = list(v["inner"])[0]
        if inner_of.get(k) or re.fullmatch(r"[ij]\d+_[dh]", str(v["name"])):
            continue
        w = where(v["span"]["begin"][0])
        if w:
            found[w].append(sig(v))
            seen.add(k)
    for k, v in index.items():
        kind = list(v["inner"])[0]
        if kind in ("struct", "enum") and v["crate_id"] == 0 and v["span"]:
            w = where(v["span"]["begin"][0])
            for i in v["inner"][kind]["impls"]:
                if w and str(i) in index and str(i) not in seen:
                    found[w].append(sig(index[str(i)]))
    byid = {c.id: c for c in cases}
    for c in cases:
        a, b = sorted(found[(c.id, "d")]), sorted(found[(c.id, "h")])
        ctx.count("items_listed", len(a))
        ctx.traces.update(core.hashlib.sha256(s.encode()).hexdigest()[:16] for s in a)
        ctx.evaluations += 1
        if a != b:
            extra = list(a)
            missing = []
            for s in b:
                if s in extra:
                    extra.remove(s)
                else:
                    missing.append(s)
            ctx.fail_case(c, "items differ from the handwritten module", "added %s; missing %s" % (extra[:6], missing[:6]), cfg)
        if len(b) < 5:
            raise core.Inconclusive("rustdoc listed hardly anything: %s" % b)


def run(ctx):
    ctx.rule = ("one case = one generated definition, derived and with handwritten impls; membership in %d traits for up to 8 instantiations, layout, drop and "
                "move behaviour, variance, everything a user may still implement or define next to it, and all the items and impls (auto, blanket, "
                "inherent, on foreign types) which rustdoc lists are compared; non-trivial = distinct facts and items" % len(TRAITS))
    cases = scopes()
    ran = [case(ctx.sub_rng("r%d" % i), "r%04d" % i) for i in range(ctx.scale(110, 900))]
    docs = [case(ctx.sub_rng("i%d" % i), "i%04d" % i) for i in range(ctx.scale(450, 5000))]
    lints = ["#![allow(undropped_manually_drops, bindings_with_variant_name)]"]
    for k in range(0, len(ran), 300):
        ctx.run_cases(Config(deps=['anyhow = "1"'], attrs=lints), cases + ran[k:k + 300], name="m%d" % (k // 300), header=HEADER, bins=16)
        cases = []
    ctx.log("facts done")
    for k in range(0, len(docs), 1000):
        items(ctx, docs[k:k + 1000])
    ctx.log("items done")
    feature = ["#![feature(error_generic_member_access)]"]
    prov = [case(ctx.sub_rng("p%d" % i), "p%04d" % i, i % 3 != 0) for i in range(ctx.scale(60, 400))]
    ctx.run_cases(Config(toolchain=NIGHTLY_PROVIDE, deps=['anyhow = "1"'], attrs=lints + feature), prov, name="p", header=HEADER, bins=16)
    docs = [case(ctx.sub_rng("j%d" % i), "j%04d" % i, True) for i in range(ctx.scale(250, 3000))]
    for k in range(0, len(docs), 1000):
        items(ctx, docs[k:k + 1000], NIGHTLY_PROVIDE, feature)
