"""C13: expansion depends on nothing but the definition."""
import concurrent.futures as cf
import os
import re

from tv import core, corpus, inproc
from tv.core import Case, Config, Inconclusive, Violation, run_cmd
from tv.props import c12

FULL = 'synfull = { path = "%s/harness/synfull" }' % core.VERIF


def dumps(ctx, exe, path, runs):
    """[{index: set of (hash, is an error)}] of each run."""
    def go(r):
        order, env, cwd, wrap = r
        rc, out, err = run_cmd(wrap + [exe, "dump", path, order], env=env, cwd=cwd, timeout=300)
        if rc != 0:
            raise Inconclusive("dump died: " + err[-800:])
        seen = {}
        for l in out.splitlines():
            i, rest = l.split(" ", 1)
            seen.setdefault(int(i), set()).add(rest)
        return seen
    with cf.ThreadPoolExecutor(8) as ex:
        return list(ex.map(go, runs))


def expanded(ctx, name, cfg, cases, header, pre):
    """Source text after expansion by the real compiler, per case."""
    text, _ = core.emit(cfg, cases, header)
    d = ctx.crate(name, cfg, ["main"], {"src/main.rs": pre + text})
    rc, out, err = run_unpretty(ctx, cfg, d)
    if rc != 0:
        raise Inconclusive("expansion by the compiler failed: " + err[-1500:])
    mods, cur, buf = {}, None, []
    for l in out.splitlines():
        m = re.match(r"pub mod (\w+) \{", l)
        if m and cur is None:
            if l.endswith("}"):
                mods[m.group(1)] = l
                continue
            cur, buf = m.group(1), []
        elif l == "}" and cur is not None:
            mods[cur] = "\n".join(buf)
            cur = None
        elif cur is not None:
            buf.append(l)
    return mods


def run_unpretty(ctx, cfg, d):
    env = {"CARGO_TARGET_DIR": os.path.join(ctx.base, "t-" + cfg.key()), "RUSTUP_TOOLCHAIN": cfg.toolchain}
    env.update(cfg.env)
    return run_cmd(["cargo", "rustc", "--offline", "--bin", "main", "--", "-Zunpretty=expanded"], cwd=d, env=env, timeout=600)


def run(ctx):
    ctx.rule = ("one evaluation = the traces of one definition's expansions (4 to 10 of them: other processes, orders, histories, environments; and with the real compiler "
                "in another crate, order, profile and position) compared for equality, or one definition run with the full parser enabled and compared with its handwritten twin; "
                "non-trivial = distinct outputs or behaviours")
    ctx.assumptions = ["spans and hygiene of the output are compared only through what the compiler makes of it"]
    exes = inproc.build_all(ctx)
    ctx.log("built")
    taps = corpus.taps(ctx, ["C01", "C02", "C03", "C05", "C08", "C10", "C11"], ctx.scale(0.3, 2))
    hands = c12.hand(ctx.sub_rng("hand"), ctx.scale(2000, 10000))
    os.makedirs(ctx.base, exist_ok=True)
    raw = os.path.join(ctx.base, "raw.txt")
    corpus.write(raw, [t.case.code for t in taps])
    rc, out, err = run_cmd([exes[0], "defs", raw], timeout=300)
    if rc != 0:
        raise Inconclusive("extracting definitions failed: " + err[-500:])
    valid = [inproc.unesc(l[4:]) for l in out.splitlines() if l.startswith("@@D ")]
    # Definitions of the same name with different content, and the same twice.
    same = []
    for k in range(40):
        same += ["#[error(\"%d {x}\")] pub struct Same { x: u%d }" % (k, 8 << (k % 5)), "pub enum Same { #[error(\"{0:?} {a%d}\", a%d = .0)] A(u8) }" % (k, k)]
    texts = valid + hands + same + valid[:50]
    path = os.path.join(ctx.base, "defs.txt")
    corpus.write(path, texts)
    odd = {"HOME": "/nonexistent", "USER": "x", "CARGO_PKG_NAME": "other", "CARGO_MANIFEST_DIR": "/", "CARGO_CRATE_NAME": "zz", "RUST_BACKTRACE": "full", "DEBUG": "1",
           "PROFILE": "release", "OPT_LEVEL": "3", "TZ": "Pacific/Auckland", "LANG": "tr_TR.UTF-8", "TMPDIR": "/", "RUSTC_BOOTSTRAP": "1", "CARGO_CFG_TARGET_OS": "none",
           "CARGO_FEATURE_STD": "1", "DOCS_RS": "1", "NO_COLOR": "1", "COLUMNS": "20", "TERM": "dumb", "CARGO_PRIMARY_PACKAGE": "1", "OUT_DIR": "/", "TARGET": "x", "HOST": "y"}
    runs = [("forward", {}, None, []), ("forward", odd, "/", []), ("reverse", {}, "/tmp", []), ("twice", {}, None, []),
            ("shuffle:%d" % ctx.seed, {}, None, []), ("shuffle:%d" % (ctx.seed + 1000), odd, None, []), ("forward", {"CARGO_PKG_VERSION": "1"}, None, ["env", "-i"]), ("twice", odd, "/", [])]
    kinds = {}
    both = []
    for full, exe in ((False, exes[0]), (True, exes[1])):
        rs = runs if not full else runs[1:5]
        ds = dumps(ctx, exe, path, rs)
        both.append(ds[0])
        for i, t in enumerate(texts):
            seen = set().union(*[d.get(i, {"absent"}) for d in ds])
            if seen == {"notinput"}:
                continue
            ctx.evaluations += 1
            ctx.count("expansions", sum(2 if r[0] == "twice" else 1 for r in rs))
            if len(seen) > 1:
                which = ["%s: %s" % (r[0], sorted(d.get(i, {"absent"}))) for r, d in zip(rs, ds)]
                c = Case("d%d" % len(ctx.violations), "", desc=t)
                ctx.violation(Violation(c, "expansion varies (parser %s)" % ("full" if full else "default"), "\n".join(which) + "\ninput: " + t))
            else:
                ctx.traces |= {s.split()[0] for s in seen}
    diff = sum(1 for i in range(len(valid)) if both[0].get(i) != both[1].get(i))
    ctx.extra["definitions_expanded_differently_by_the_full_parser"] = diff
    ctx.samples += ["%s -> %s" % (valid[k][:200], sorted(both[0][k])) for k in (0, len(valid) // 2)]
    ctx.log("in-process done,", len(texts), "definitions,", diff, "differ with the full parser")
    # The real compiler.
    groups = corpus.runnable(taps)
    total = sum(map(len, groups.values()))
    pick = ctx.sub_rng("comp")
    share = ctx.scale(500, 3000) / total
    # What an expression says of its own place is its own business.
    place = re.compile(r"\b(env|option_env|line|column|file|module_path|type_name|include\w*)\s*!|type_name|cfg!")
    comps = {h: [c for c in cs if not place.search(c.code) and pick.random() < share] for h, cs in groups.items()}
    n = Config(toolchain="nightly")
    n2 = Config(toolchain="nightly", opt="2", env=dict(odd, HOME=os.environ.get("HOME", "/root"), TMPDIR="/tmp"))
    for k in ("OUT_DIR", "TARGET", "HOST", "OPT_LEVEL", "PROFILE", "RUSTC_BOOTSTRAP", "DEBUG"):
        n2.env.pop(k, None)
    a, b, comp = {}, {}, []
    with cf.ThreadPoolExecutor(8) as ex:
        fs = []
        for k, (h, cs) in enumerate(sorted(comps.items())):
            comp += cs
            fs.append((ex.submit(expanded, ctx, "exp%d" % k, n, cs, h, ""), ex.submit(expanded, ctx, "another%d_name" % k, n2, list(reversed(cs)), h, "\n" * 77)))
        for fa, fb in fs:
            a.update(fa.result())
            b.update(fb.result())
    if len(a) < len(comp) or len(b) < len(comp):
        raise Inconclusive("expansions of the compiler not understood")
    for c in comp:
        ctx.evaluations += 1
        ctx.count("compiler_expansions", 2)
        if re.sub(r"\s+", "", a[c.id]) != re.sub(r"\s+", "", b[c.id]):
            la, lb = a[c.id].splitlines(), b[c.id].splitlines()
            k = next((k for k, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
            ctx.violation(Violation(c, "expansion by the compiler varies", "\n".join(la[max(0, k - 3):k + 4]) + "\n--- other ---\n" + "\n".join(lb[max(0, k - 3):k + 4]), n))
    ctx.log("compiler done")
    # The full parser turned on by another crate of the build: same behaviour.
    full = Config(deps=[FULL])
    probe = Case("full", "pub fn run(m: &mut vs::Mon) { m.count(\"full_parser_seen\", synfull::is_full!() as u64); }")
    for k, (h, cs) in enumerate(sorted(groups.items())):
        for j in range(0, len(cs), 3000):
            ctx.run_cases(full, cs[j:j + 3000] + [probe], name="full%d_%d" % (k, j), bins=16 if len(cs) > 200 else 4, header=h)
    if not ctx.counts.get("full_parser_seen"):
        raise Inconclusive("the full parser was not turned on")
