"""C20: derived impls are pure, re-entrant and free of data races and UB."""
import concurrent.futures as cf
import re

from tv import defs, errs, gen
from tv.core import Case, Config, Inconclusive, emit
from tv.props import c05, c09, c17

HEADER = r'''
#[global_allocator]
static ALLOC: vs::stress::Counting = vs::stress::Counting;
pub trait Tr { type E; }
'''
REQUEST = r'''
pub fn op_request(e: &(dyn std::error::Error + 'static), at: &mut Vec<usize>) -> vs::Observed {
    use std::fmt::Write as _;
    vs::observe(usize::MAX, |w| {
        let b = std::error::request_ref::<std::backtrace::Backtrace>(e);
        at.push(b.map_or(0, |b| vs::addr_of(b)));
        write!(w, "{:?} {:?} {:?} {:?}", b.map(|b| b.status()), std::error::request_value::<crate::Num>(e), std::error::request_ref::<crate::Mark>(e).map(|m| m.0), std::error::request_value::<String>(e))
    })
}
'''


LEAK = re.compile(r"::leak(buf)?\(|ManuallyDrop::new\(")


def path_case(r, cid, b):
    """Fields shown as paths, of which some differ in little."""
    n = r.choice([3, 8, 24, 24, 300, 5000])

    def raw(r):
        k = r.random()
        if k < 0.6:
            t = bytearray(b"/" + b"p" * (n - 1))
            t[r.randrange(1, n)] = r.choice([0xff, 0x80, 0xc3])
            t[r.randrange(1, n)] = r.choice(b"abcd/")
            return bytes(t)
        return c17.raw(r)

    return c17.case(r, cid, body=b, raw=raw)


def body(r, nightly, limit=None):
    def f(vals):
        vs_ = vals if limit is None else r.sample(vals, min(limit, len(vals)))
        more = "(\"request\", crate::op_request)" if nightly else ""
        text = "\n        ".join("%d => %s," % (i, v) for i, v in enumerate(vs_[:-1])) + "\n        _ => %s," % vs_[-1]
        return """pub fn make(k: usize) -> E { match k {
        %s
    } }
pub fn run(m: &mut vs::Mon) {
    use vs::stress::NotShared as _;
    let s = vs::stress::Stress { make: |k| Box::new(vs::stress::Slot::new(make, k)), share: |k| (&vs::stress::Of::<E>(std::marker::PhantomData)).shared(make, k),
        n: %d, more: vec![%s], seed: %d, leaky: %s };
    vs::stress::watch_once();
    s.alone(m);
    s.threads(m);
}""" % (text, len(vs_), more, r.randrange(1 << 30), "true" if LEAK.search(text) else "false")
    return f


def source_case(r, cid, srcs, b, base, backtrace=None):
    c = gen.Ctr()
    kind = r.choice(["struct", "enum", "enum"])
    n = 1 if kind == "struct" else r.choice([1, 2, 3, 5])
    names = ["E"] if kind == "struct" else gen.variant_names(r, n)
    vs_ = [errs.source_variant(r, c, srcs, nm, base, backtrace=backtrace) for nm in names]
    errs.dedupe_from(vs_)
    vals = []
    for v in vs_:
        path = "E" if kind == "struct" else "E::" + v.name
        for _ in range(2):
            vals.append(errs.value(v, r, c, path))
        i = v.source_index
        if i is not None and "#[from]" in v.fields[i].attrs:
            t = v.fields[i].ty.text if not v.optional else v.src.text
            vals.append("{ let s: %s = %s; %s }" % (t, v.src.val(r, c), "E::from(s)"))
    return Case(cid, "\n".join(errs.definition(vs_, kind, r) + [b(vals)]))


def workload(ctx, label, nightly, n, leaks, nvals=2, limit=None, tiny=False):
    base = "crate::PErr" if nightly else "vs::Leaf"
    srcs = errs.sources(base)
    srcs = [s for s in srcs if s.sendsync] * 3 + srcs
    if not leaks:
        srcs = [s for s in srcs if "leak" not in s.val(ctx.sub_rng("x"), gen.Ctr())]
    if tiny:
        srcs = [s for s in srcs if not s.anyhow]
    cases = []
    i = 0
    while len(cases) < n:
        r = ctx.sub_rng("%s%d" % (label, i))
        cid = "%s%04d" % (label, i)
        i += 1
        b = body(r, nightly, limit)
        k = r.random()
        if k < 0.1 and not tiny:
            c = path_case(r, cid, b)
        elif k < 0.45:
            c = defs.display_enum(r, cid, nvals=nvals, body=b, nv=r.choice([1, 2, 3]) if tiny else None)
        elif nightly and k < 0.75:
            c = c09.case(r, cid, srcs, body=b)
        else:
            c = source_case(r, cid, srcs, b, base, "std::backtrace::Backtrace" if nightly else None)
        if not leaks and LEAK.search(c.code):
            continue
        if tiny and (":p" in c.code or "p}" in c.code):
            continue
        cases.append(c)
    return cases


REPORT = re.compile(r"(?:WARNING: ThreadSanitizer|ERROR: AddressSanitizer|ERROR: LeakSanitizer|error: Undefined Behavior|error: memory leaked|AddressSanitizer:DEADLYSIGNAL|error: the evaluated program deadlocked|HANG: no progress)[^\n]*")


def blame(err, by_id):
    """The case named first in a sanitizer's report, what it reports, and the
    report."""
    m = REPORT.search(err)
    if not m:
        return None
    text = err[m.start():]
    ids = [i for i in re.findall(r"\b([a-z]{2}\d{4})\b", text) if i in by_id]
    return (by_id[ids[0]] if ids else None), m.group(), text[:3000]


def miri(ctx, cases, header, groups, seeds):
    """Interprets the cases, each group with several schedules."""
    cfg = Config(toolchain="nightly", provide=True, edition="2021", deps=c05.DEPS, rustflags="")
    ctx.configs.append("Miri, " + cfg.name())
    by_id = {c.id: c for c in cases}
    bins = {}
    for i, c in enumerate(cases):
        bins.setdefault("b%02d" % (i % groups), []).append(c)
    d = ctx.crate("miri", cfg, sorted(bins), {"src/%s.rs" % b: emit(cfg, cs, header)[0] for b, cs in bins.items()})
    rc, out, err = ctx.cargo(cfg, d, ["miri", "run", "--bin", sorted(bins)[0], "--", "nothing"])
    if rc != 0:
        raise Inconclusive("Miri: " + err[-1500:])

    def one(job):
        b, seed = job
        flags = "-Zmiri-disable-isolation -Zmiri-seed=%d -Zmiri-preemption-rate=%s%s" % (
            seed, [0.01, 0.1, 0.3, 0.05][seed % 4], " -Zmiri-tree-borrows" if seed % 2 else "")
        c = Config(toolchain="nightly", provide=True, edition="2021", deps=c05.DEPS)
        return b, ctx.cargo(c, d, ["miri", "run", "-q", "--bin", b], env=dict(SMALL, MIRIFLAGS=flags))

    lines = {}
    with cf.ThreadPoolExecutor(8) as ex:
        for b, (rc, out, err) in ex.map(one, [(b, s) for s in range(seeds) for b in sorted(bins)]):
            ctx.absorb(b, rc, out, err, by_id, cfg, lines, lambda e: blame(e, by_id))
            ctx.count("miri_executions")
    ctx.evaluations += len(cases)


# Sanitizers slow things down.
SMALL = {"VS_ROUNDS": "12", "VS_TROUNDS": "4", "VS_THREADS": "3", "VS_REPEAT": "1", "VS_TOGETHER": "1"}
TSAN = {"TSAN_OPTIONS": "halt_on_error=1 exitcode=66 history_size=4", "VS_TROUNDS": "20", "VS_HANG": "90"}
ASAN = {"ASAN_OPTIONS": "detect_leaks=1 detect_stack_use_after_return=1 exitcode=67", "LSAN_OPTIONS": "exitcode=68", "VS_HANG": "90"}


def orders_agree(ctx, cases, lines):
    """What a use gives must not depend on which came first."""
    by_id = {c.id: c for c in cases}
    for cid, ls in sorted(lines.items()):
        seen = {}
        for line in ls:
            key, h = line.rsplit(" ", 1)
            if seen.setdefault(key, h) != h:
                ctx.fail_case(by_id[cid], "depends on what was done before", "value and use %r differ between two orders of use" % key, ctx_cfg)
                break
        ctx.count("orders_compared")


ctx_cfg = Config()


def run(ctx):
    ctx.rule = ("one case = one generated definition (messages, formatting functions, sources, conversions, backtraces); every use of every value is "
                "recorded alone, then repeated in random histories (with replacement in place, failing and panicking fields, uses nested in the "
                "formatting of fields), from several threads sharing and passing errors, and together with all other types; allocations are "
                "balanced; the same under ThreadSanitizer, AddressSanitizer with LeakSanitizer, and Miri; non-trivial = distinct results of uses alone")
    header = HEADER + c17.HEADER
    nheader = HEADER + c17.HEADER + errs.PROVIDER + c09.HEADER + REQUEST
    nattrs = ["#![feature(error_generic_member_access)]"]
    for i in range(ctx.scale(1, 4)):
        cases = workload(ctx, "n" + "abcd"[i], False, ctx.scale(800, 1600), True)
        ctx.log("native", len(cases))
        cfg = Config(edition="2021", opt=["0", "3"][(ctx.seed + i) % 2], deps=c05.DEPS)
        ok, lines = ctx.run_cases(cfg, cases, name="native%d" % i, bins=16, header=header, run_env={"VS_HANG": "90"}, again=[{"VS_ORDER": "1", "VS_HANG": "90"}],
                                reports=lambda e: blame(e, {}))
        orders_agree(ctx, [c for c in cases if c.id in set(ok)], {k: v for k, v in lines.items() if k in set(ok)})
    for i in range(ctx.scale(1, 3)):
        cases = workload(ctx, "t" + "abc"[i], True, ctx.scale(300, 600), True)
        ctx.log("thread sanitizer", len(cases))
        by_id = {c.id: c for c in cases}
        cfg = Config(toolchain="nightly", edition="2021", opt="1", provide=True, deps=c05.DEPS, attrs=nattrs, target="x86_64-unknown-linux-gnu",
                     rustflags="-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer", debug=True, build_std=True)
        ctx.run_cases(cfg, cases, name="tsan%d" % i, bins=8, header=nheader, run_env=TSAN, reports=lambda e: blame(e, by_id))
    for i in range(ctx.scale(1, 3)):
        cases = workload(ctx, "a" + "abc"[i], True, ctx.scale(300, 700), False)
        ctx.log("address sanitizer", len(cases))
        by_id2 = {c.id: c for c in cases}
        cfg = Config(toolchain="nightly", edition="2021", opt="1", provide=True, deps=c05.DEPS, attrs=nattrs, target="x86_64-unknown-linux-gnu",
                     rustflags="-Zsanitizer=address", debug=True)
        ctx.run_cases(cfg, cases, name="asan%d" % i, bins=8, header=nheader, run_env=ASAN, reports=lambda e: blame(e, by_id2))
    cases = workload(ctx, "mi", True, ctx.scale(16, 80), False, nvals=1, limit=3, tiny=True)
    ctx.log("Miri", len(cases))
    miri(ctx, cases, "\n".join(nattrs) + nheader, 8, ctx.scale(2, 8))
