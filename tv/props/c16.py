"""C16: the same behaviour in every supported build configuration."""
import concurrent.futures as cf
import os
import re

from tv import core, defs, errs, gen
from tv.core import NIGHTLY_PROVIDE, Case, Config, Violation
from tv.gen import Field, Ty, Variant
from tv.props import c01, c05, c06, c07, c08

ROOT2015 = "#[allow(unused_extern_crates)] extern crate thiserror; #[allow(unused_extern_crates)] extern crate vs; extern crate anyhow;\n"
NOSTD = "extern crate std as hoststd;\nextern crate alloc;\n#[allow(unused)] use hoststd::{prelude::v1::*, format, vec, println};\n"


def workload(ctx):
    """The programs: messages, enums with inherited, transparent and fmt
    messages, sources, conversions. None displays a Path directly."""
    out = []
    n = ctx.scale(48, 700)
    srcs = errs.sources()
    kinds = [
        ("d", lambda r, cid: c01.random_case(r, cid), 3),
        ("e", lambda r, cid: defs.display_enum(r, cid, nvals=1), 2),
        ("s", lambda r, cid: c05.case(r, cid, srcs), 2),
        ("c", lambda r, cid: c05.chain(r, cid), 1),
        ("t", lambda r, cid: c07.mixed(r, cid, srcs), 1),
        ("f", lambda r, cid: c08.case(r, cid, False), 1),
    ]
    for k, mk, w in kinds:
        i = 0
        have = 0
        while have < n * w // 2:
            c = mk(ctx.sub_rng("%s%d" % (k, i)), "%s%04d" % (k, i))
            i += 1
            if "PathBuf" in c.code:
                continue
            have += 1
            out.append(c)
    return out


HEADER = c08.FULL
EDITION = [
    # Identifiers which are keywords in some editions only.
    ("2015", "gen union r#async r#await r#dyn r#try r#gen"),
    ("2018", "gen r#async r#await r#dyn r#try r#gen"),
    ("2021", "gen r#async r#await r#dyn r#try r#gen"),
    ("2024", "r#gen r#async r#await r#dyn r#try union auto default"),
]


def keywords(edition):
    out = []
    for ed, names in EDITION:
        if ed != edition:
            continue
        for k, n in enumerate(names.split()):
            u = gen.unraw(n)
            out.append(Case("kw%02d" % k, '''
#[derive(Debug, thiserror::Error)] #[error("{%(u)s} {%(u)s:?} {}", .%(n)s)] pub struct E { %(n)s: vs::Probe }
#[derive(Debug, thiserror::Error)] pub enum F { #[error("v {%(u)s:>4}")] A { %(n)s: vs::Probe }, #[error("{x}", x = .%(n)s)] B { %(n)s: vs::Probe, #[source] s: vs::Leaf } }
#[derive(Debug, thiserror::Error)] #[error("{0:?} {x}", x = .0)] pub struct T%(k)s(#[from] vs::Leaf);
pub mod named { #[derive(Debug, thiserror::Error)] #[error("{0:?} {x}", x = .0)] pub struct %(n)s(#[from] vs::Leaf); }
struct R<'a>(&'a E); impl<'a> std::fmt::Display for R<'a> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { let p = &(self.0).%(n)s; write!(f, "{} {:?} {}", p, p, p) } }
struct Q<'a>(&'a F); impl<'a> std::fmt::Display for Q<'a> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { match self.0 { F::A { %(n)s: p } => write!(f, "v {:>4}", p), F::B { %(n)s: p, .. } => write!(f, "{}", p) } } }
pub fn run(m: &mut vs::Mon) {
    let e = E { %(n)s: vs::Probe::new(3) };
    m.display("struct", &e, &R(&e));
    let a = F::A { %(n)s: vs::Probe::new(4) };
    m.display("variant", &a, &Q(&a));
    let b = F::B { %(n)s: vs::Probe::new(5), s: vs::Leaf::new(6) };
    m.display("argument", &b, &Q(&b));
    if let F::B { ref s, .. } = b { m.source("source", &b, Some(vec![vs::want::<vs::Leaf>(s)])); }
    let t = named::%(n)s::from(vs::Leaf::new(9));
    m.eq("from", t.to_string().is_empty(), false);
    m.eq("from2", T%(k)s::from(vs::Leaf::new(9)).to_string(), t.to_string());
}''' % {"n": n, "u": u, "k": k}))
    return out


def attributed(lines):
    """Addresses differ between executions."""
    return [re.sub(r"0x[0-9a-f]{6,}|\b[0-9a-f]{8,}\b", "@", l) for l in lines]


def run(ctx):
    ctx.rule = ("one evaluation = one definition with its monitors in one of the configurations (toolchain, std feature, edition, optimisation, "
                "no_std crate, freestanding); it must be accepted and behave as its handwritten twin in each, and the recorded texts, events and "
                "sources must be the same in every configuration of one toolchain; non-trivial = distinct traces")
    cases = workload(ctx)
    ctx.log("generated", len(cases))
    fg = "#![feature(error_generic_member_access)]"
    confs = [
        ("base", Config(deps=c05.DEPS), ""),
        ("nostd", Config(std=False, deps=c05.DEPS), ""),
        ("e15", Config(edition="2015", deps=c05.DEPS), ROOT2015),
        ("e15n", Config(edition="2015", std=False, deps=c05.DEPS), ROOT2015),
        ("e18", Config(edition="2018", deps=c05.DEPS), ""),
        ("e24", Config(edition="2024", deps=c05.DEPS), ""),
        ("opt", Config(opt="3", overflow_checks=False, deps=c05.DEPS), ""),
        ("optn", Config(opt='"s"', std=False, deps=c05.DEPS), ""),
        ("crate", Config(std=False, deps=c05.DEPS, attrs=["#![no_std]"], host="hoststd"), NOSTD),
        ("crates", Config(edition="2024", deps=c05.DEPS, attrs=["#![no_std]"], host="hoststd"), NOSTD),
        ("night", Config(toolchain="nightly", deps=c05.DEPS), ""),
        ("nightn", Config(toolchain="nightly", std=False, edition="2018", deps=c05.DEPS), ""),
        ("prov", Config(toolchain=NIGHTLY_PROVIDE, deps=c05.DEPS, attrs=[fg]), ""),
        ("provn", Config(toolchain=NIGHTLY_PROVIDE, std=False, deps=c05.DEPS, attrs=[fg]), ""),
        ("provc", Config(toolchain=NIGHTLY_PROVIDE, std=False, edition="2018", deps=c05.DEPS, attrs=[fg, "#![no_std]"], host="hoststd"), NOSTD),
        ("boot", Config(deps=c05.DEPS, env={"RUSTC_BOOTSTRAP": "1"}), ""),
        ("old", Config(toolchain="1.98.1", deps=c05.DEPS), ""),
        ("oldn", Config(toolchain="1.98.1", std=False, edition="2024", deps=c05.DEPS), ""),
    ]
    by_tool = {}
    for name, cfg, extra in confs:
        mine = cases + keywords(cfg.edition)
        if cfg.edition == "2015":
            # There, ::core is a module of the crate.
            mine = [Case(c.id, c.code.replace("::core::option", " core::option"), c.desc) for c in mine]
        if cfg.opt != "0":
            mine = mine[::2]
        before = len(ctx.violations)
        ids, lines = ctx.run_cases(cfg, mine, name=name, header=extra + HEADER, bins=16, run_env={"VS_EMIT": "1"})
        ctx.log(name, len(ids), "cases", sum(map(len, lines.values())), "records", len(ctx.violations) - before, "violations")
        ctx.count("records", sum(map(len, lines.values())))
        by_tool.setdefault(cfg.toolchain, []).append((cfg, {k: attributed(v) for k, v in lines.items()}))
    # Addresses and places differ between executions: there the twin decides.
    byid = {c.id: c for c in cases if not re.search(r"p\s*\}|\bfn\(\)|module_path|type_name|file!|line!|column!|env!", c.code)}
    for tool, runs in by_tool.items():
        base_cfg, base = runs[0]
        for cfg, lines in runs[1:]:
            for cid in base:
                if cid not in lines or cid not in byid:
                    continue
                ctx.count("trace_comparisons")
                if base[cid] != lines[cid]:
                    d = next((a + " /// " + b for a, b in zip(base[cid], lines[cid]) if a != b), "a different number of records")
                    ctx.fail_case(byid[cid], "differs from " + base_cfg.name(), d, cfg)
    freestanding(ctx)


# ------------------------------------------------------------- freestanding

FTYPES = [t for t in gen.TYPES if t.text in ("i32", "u64", "i8", "u128", "usize", "f64", "f32", "bool", "char", "&'static str", "&'static u16")]

FREE = r'''
#![cfg_attr(not(feature = "host"), no_std)]
#![cfg_attr(not(feature = "host"), no_main)]
#![allow(warnings)]
use core::fmt::{self, Write as _};
#[cfg(not(feature = "host"))]
mod rt {
    #[panic_handler] fn panic(_: &core::panic::PanicInfo) -> ! { unsafe { super::abort() } }
    #[no_mangle] extern "C" fn rust_eh_personality() {}
    #[no_mangle] extern "C" fn _Unwind_Resume() {}
    #[no_mangle] pub extern "C" fn main(_: i32, _: *const *const u8) -> i32 { super::all(); 0 }
}
#[cfg(feature = "host")]
fn main() { all() }
#[link(name = "c")] extern "C" { fn write(fd: i32, p: *const u8, n: usize) -> isize; fn abort() -> !; }
pub struct Buf { b: [u8; 4096], n: usize }
impl Buf { pub fn new() -> Self { Buf { b: [0; 4096], n: 0 } } pub fn text(&self) -> &[u8] { &self.b[..self.n] } }
impl fmt::Write for Buf { fn write_str(&mut self, s: &str) -> fmt::Result {
    let s = s.as_bytes(); if self.n + s.len() > self.b.len() { return Err(fmt::Error); }
    self.b[self.n..self.n + s.len()].copy_from_slice(s); self.n += s.len(); Ok(()) } }
pub fn put(b: &[u8]) { let mut i = 0; while i < b.len() { let k = unsafe { write(1, b[i..].as_ptr(), b.len() - i) }; if k <= 0 { unsafe { abort() } } i += k as usize; } }
pub fn hex(b: &[u8]) { for x in b { let h = b"0123456789abcdef"; put(&[h[(x >> 4) as usize], h[(x & 15) as usize]]); } }
pub fn rec(kind: &str, case: &str, a: &[u8]) { put(kind.as_bytes()); put(b" "); put(case.as_bytes()); put(b" "); hex(a); put(b"\n"); }
pub fn compare(case: &str, got: &dyn fmt::Display, want: &dyn fmt::Display) {
    let (mut a, mut b) = (Buf::new(), Buf::new());
    let ra = write!(a, "{:>3}|{:#}", got, got); let rb = write!(b, "{:>3}|{:#}", want, want);
    rec("text", case, a.text()); rec("want", case, b.text());
    if ra.is_ok() != rb.is_ok() { rec("result", case, b"differs"); }
}
pub fn chain(case: &str, e: &(dyn core::error::Error + 'static), want: usize) {
    let mut n = 0; let mut c = e.source();
    while let Some(s) = c { n += 1; let mut b = Buf::new(); let _ = write!(b, "{}", s); rec("src", case, b.text()); c = s.source(); }
    if n != want { rec("chain", case, b"length"); }
}
'''


def free_case(r, cid):
    """A definition, its twin and its uses, with nothing but core."""
    c = gen.Ctr()
    kind = r.choice(["struct", "enum"])
    vs = []
    for name in gen.variant_names(r, 1 if kind == "struct" else r.randint(1, 4)):
        n = r.choice([0, 1, 2, 3, 5])
        shape = gen.shape_for(r, n)
        fields = gen.make_fields(r, n, shape, FTYPES)
        fields = [Field(f.index, f.name and (f.name if gen.unraw(f.name) != "source" else "sauce"), f.ty) for f in fields]
        msg = gen.field_message(r, fields)
        v = Variant(name, shape, fields, msg)
        v.src = None
        if shape == "named" and r.random() < 0.4 and "inner" not in [f.name for f in fields]:
            v.src = r.choice(["source", "inner"])
        vs.append(v)
    L = ["use core::fmt;",
         "#[derive(Debug, thiserror::Error)] #[error(\"leaf {0}\")] pub struct Leaf(pub u32);",
         "#[derive(Debug, thiserror::Error)] pub enum Mid { #[error(transparent)] T(#[from] Leaf), #[error(\"mid {x:?}\")] M { x: Option<u8>, source: Leaf }, #[error(fmt = fun)] F(&'static str) }",
         "fn fun(s: &&'static str, f: &mut fmt::Formatter) -> fmt::Result { f.pad(s) }"]
    vals, arms = [], []
    chain = []
    L.append("#[derive(Debug, thiserror::Error)]")
    if kind == "enum":
        L.append("pub enum E {")
    for v in vs:
        path = "E" if kind == "struct" else "E::" + v.name
        body = v.body()
        srcf = ""
        if v.src:
            body = body.rstrip()[:-1].rstrip().rstrip(",") + (", " if v.fields else "") + ("#[source] " if v.src == "inner" else "") + v.src + ": Mid }"
        L.append(v.msg.attr(r, v.fields))
        if kind == "struct":
            L.append("pub struct E%s%s" % (body, "" if v.shape == "named" else ";"))
        else:
            L.append("%s%s," % (v.name, body))
        pat = v.pattern(path)
        pat = pat.rstrip()[:-1] + (", .. }" if v.fields else ".. }")
        arms.append("%s => { %s }" % (pat, v.msg.twin()))
        val = v.value(path, r, c)
        if v.src:
            k = r.randrange(3)
            mid = ["Mid::from(Leaf(7))", "Mid::M { x: Some(1), source: Leaf(8) }", "Mid::F(\"fun\")"][k]
            val = val.rstrip()[:-1].rstrip() + (", " if v.fields else "") + "%s: %s }" % (v.src, mid)
            chain.append([1, 2, 1][k])
        else:
            chain.append(0)
        vals.append(val)
    if kind == "enum":
        L.append("}")
    L.append("struct R<'a>(&'a E); impl<'a> fmt::Display for R<'a> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match self.0 {")
    L += arms
    L.append("} } }")
    L.append("pub fn run() {")
    for v, n in zip(vals, chain):
        L.append("    { let e = %s; crate::compare(\"%s\", &e, &R(&e)); crate::chain(\"%s\", &e, %d); }" % (v, cid, cid, n))
    L.append("    let e: Mid = Leaf(3).into(); crate::compare(\"%s\", &e, &\"leaf 3\"); }" % cid)
    return Case(cid, "\n".join(L).replace("std::", "core::"))


def freestanding(ctx):
    """Programs without std at all: no_std, no_main, own panic handler."""
    cases = [free_case(ctx.sub_rng("free%d" % i), "x%03d" % i) for i in range(ctx.scale(120, 800))]
    # (`:#` makes `{:p}` of a field depend on nothing but the address.)
    cases = [c for c in cases if not re.search(r":[^}\"]*p\}", c.code)]
    byid = {c.id: c for c in cases}
    free = {c.id for c in cases}
    results = {}
    jobs = [("free", "stable", False, False, "0"), ("freeopt", "stable", False, False, "3"), ("freehost", "stable", True, False, "0"),
            ("freestd", "stable", True, True, "0"), ("freenight", NIGHTLY_PROVIDE, False, False, "0")]
    for name, tool, host, std, opt in jobs:
        while True:
            cfg = Config(toolchain=tool, std=std, opt=opt, panic="abort")
            text, table = [FREE], []
            line = FREE.count("\n") + 1
            for c in cases:
                body = "pub mod %s {\n%s\n}\n" % (c.id, c.code)
                table.append((line, line + body.count("\n"), c.id))
                line += body.count("\n")
                text.append(body)
            text.append("fn all() { %s put(b\"end\\n\"); }\n" % " ".join("%s::run();" % c.id for c in cases))
            d = os.path.join(ctx.base, "w-" + name)
            toml = """[package]
name = "w_%s"
version = "0.0.0"
edition = "2021"
publish = false
[features]
host = []
[[bin]]
name = "free"
path = "src/main.rs"
[dependencies]
thiserror = { path = "/repo", default-features = false%s }
[workspace]
[profile.dev]
opt-level = %s
debug = 0
panic = "abort"
incremental = false
""" % (name, ', features = ["std"]' if std else "", opt)
            core.write_if_changed(os.path.join(d, "Cargo.toml"), toml)
            core.write_if_changed(os.path.join(d, "src/main.rs"), "".join(text))
            lock = os.path.join(d, "Cargo.lock")
            if not os.path.exists(lock):
                core.shutil.copy(os.path.join(core.VERIF, "harness", "Cargo.lock.base"), lock)
            rc, out, err = ctx.cargo(cfg, d, ["build", "--message-format=json"] + (["--features", "host"] if host else []))
            exe, blamed, stray = None, {}, []
            for l in out.splitlines():
                try:
                    j = core.json.loads(l)
                except ValueError:
                    continue
                if j.get("reason") == "compiler-artifact" and j.get("executable"):
                    exe = j["executable"]
                if j.get("reason") == "compiler-message" and j["message"]["level"].startswith("error"):
                    hit = core.blame(j["message"], table, "src/main.rs")
                    if hit:
                        blamed.setdefault(hit, j["message"]["rendered"])
                    elif "aborting" not in j["message"]["message"]:
                        stray.append(j["message"]["rendered"])
            if rc == 0:
                break
            if blamed:
                for cid, t in blamed.items():
                    ctx.fail_case(byid[cid], "rejected by the compiler", t, cfg)
                cases = [c for c in cases if c.id not in blamed]
                if not cases:
                    return
                continue
            text = (stray or [err])[0]
            if "thiserror" in text or "panic_impl" in text or "duplicate lang item" in text or "can't find crate" in text:
                ctx.violation(Violation(None, "a freestanding program cannot use thiserror", text[:3000], cfg))
                return
            raise core.Inconclusive("freestanding build failed: " + text[-1500:])
        if cfg.name() not in ctx.configs:
            ctx.configs.append("freestanding " + cfg.name() if not host else "hosted " + cfg.name())
        rc, out, err = core.run_cmd([exe], timeout=120)
        if rc != 0 or not out.endswith("end\n"):
            last = [l for l in out.splitlines() if " " in l][-1:] or ["? ?"]
            cid = last[0].split()[1]
            ctx.violation(Violation(byid.get(cid), "freestanding program ended with %s" % rc, err[-500:], cfg))
            return
        got = {}
        for l in out.splitlines():
            p = l.split(" ")
            if len(p) == 3:
                got.setdefault(p[1], []).append((p[0], p[2]))
        for cid, recs in got.items():
            texts = [h for k, h in recs if k == "text"]
            wants = [h for k, h in recs if k == "want"]
            if texts != wants:
                ctx.fail_case(byid[cid], "freestanding text differs from the twin", "%r, want %r" % (
                    [bytes.fromhex(t) for t in texts], [bytes.fromhex(t) for t in wants]), cfg)
            if any(k in ("result", "chain") for k, _ in recs):
                ctx.fail_case(byid[cid], "freestanding result or source chain", repr(recs)[:500], cfg)
            ctx.count("freestanding_records", len(recs))
            for t in texts:
                ctx.traces.add("free" + cid + t)
        results[name] = got
        ctx.evaluations += len(got)
    base = results["free"]
    for name in ("freeopt", "freehost", "freestd"):
        for cid in base:
            ctx.count("trace_comparisons")
            if results[name].get(cid) != base[cid]:
                ctx.fail_case(byid[cid], "freestanding and %s records differ" % name, "%r /// %r" % (base[cid], results[name].get(cid)), None)
