"""C18: the build probe enables exactly what the compiler supports."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess

from tv import core, defs, errs
from tv.props import c01, c05, c07, c08
from tv.core import Case, Config, Inconclusive, run_cmd, write_if_changed

HOST = "x86_64-unknown-linux-gnu"
ACCESS = "error_generic_member_access"
OLD_STD = 'feature="std"'
NO_TYPE = "thiserror_no_backtrace_type"


def rustc_of(tc):
    rc, out, _ = run_cmd(["rustup", "which", "--toolchain", tc, "rustc"])
    if rc:
        return None
    return out.strip()


# ---------------------------------------------------------------- build script

def build_scripts(ctx):
    """Compiles the real build.rs as Cargo would, with and without std."""
    pkg = os.path.join(ctx.base, "pkg")
    shutil.rmtree(pkg, ignore_errors=True)
    os.makedirs(pkg)
    for f in ("build.rs", "build", "src", "Cargo.toml"):
        p = os.path.join(core.REPO, f)
        (shutil.copytree if os.path.isdir(p) else shutil.copy)(p, os.path.join(pkg, f))
    exes = {}
    for std in (True, False):
        exe = os.path.join(ctx.base, "build-script-%s" % ("std" if std else "nostd"))
        rc, _, err = run_cmd(["rustc", "+stable", "--edition=2021", "--crate-name", "build_script_build", "--crate-type", "bin", "--cap-lints", "allow",
                              "build.rs", "-o", exe] + (["--cfg", 'feature="default"', "--cfg", 'feature="std"'] if std else []), cwd=pkg)
        if rc:
            raise Inconclusive("build.rs does not compile: " + err[-1000:])
        exes[std] = exe
    shim = os.path.join(ctx.base, "shim")
    rc, _, err = run_cmd(["rustc", "+stable", "--edition=2021", "-O", os.path.join(core.VERIF, "harness/shim/shim.rs"), "-o", shim])
    if rc:
        raise Inconclusive("the shim does not compile: " + err[-1000:])
    return pkg, exes, shim


def cargo_env(std, target, out, rustc, rustflags, extra):
    e = {"CARGO_MANIFEST_DIR": None, "TARGET": target, "HOST": HOST, "OUT_DIR": out, "RUSTC": rustc, "RUSTDOC": "rustdoc", "NUM_JOBS": "8",
         "OPT_LEVEL": "0", "DEBUG": "true", "PROFILE": "debug", "CARGO_PKG_NAME": "thiserror", "CARGO_PKG_VERSION": "2.0.12", "CARGO": "cargo",
         "CARGO_CFG_UNIX": "", "CARGO_CFG_TARGET_OS": "linux", "CARGO_CFG_TARGET_ARCH": "x86_64", "CARGO_CFG_TARGET_POINTER_WIDTH": "64",
         "CARGO_CFG_PANIC": "unwind", "CARGO_MANIFEST_LINKS": None}
    if std:
        e["CARGO_FEATURE_STD"] = "1"
        e["CARGO_FEATURE_DEFAULT"] = "1"
        e["CARGO_CFG_FEATURE"] = "default,std"
    else:
        e["CARGO_CFG_FEATURE"] = ""
    if rustflags is not None:
        e["CARGO_ENCODED_RUSTFLAGS"] = rustflags
    e.update(extra)
    return {k: v for k, v in e.items() if v is not None}


CLEAN_ENV = None


def clean_env():
    drop = re.compile(r"^(CARGO|RUST|TARGET$|HOST$|OUT_DIR$)")
    return {k: v for k, v in os.environ.items() if not drop.match(k) or k in ("CARGO_HOME", "RUSTUP_HOME")}


def run_script(exe, pkg, env, timeout=120):
    e = {os.fsencode(k): (v if isinstance(v, bytes) else os.fsencode(v)) for k, v in clean_env().items()}
    e[b"CARGO_MANIFEST_DIR"] = os.fsencode(pkg)
    for k, v in env.items():
        e[os.fsencode(k)] = v if isinstance(v, bytes) else v.encode()
    try:
        p = subprocess.run([exe], cwd=pkg, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "", ""
    return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")


def parse(out):
    """What Cargo reads from the script's output."""
    got = {"cfg": set(), "rerun_env": set(), "rerun_file": [], "other": []}
    for line in out.splitlines():
        m = re.match(r"cargo::?(.*?)=(.*)$", line)
        if not m:
            continue
        k, v = m.groups()
        if k == "rustc-cfg":
            got["cfg"].add(v)
        elif k == "rerun-if-env-changed":
            got["rerun_env"].add(v)
        elif k == "rerun-if-changed":
            got["rerun_file"].append(v)
        elif k != "rustc-check-cfg":
            got["other"].append(line)
    return got


def listing(d):
    out = []
    for b, ds, fs in os.walk(d):
        out += [os.path.relpath(os.path.join(b, x), d) for x in ds + fs]
    return sorted(out)


# --------------------------------------------------------------- stand-in model

VERSIONS = (
    [("rustc 1.%d.0 (a55dd71d5 20%02d-01-02)\n" % (m, 15 + m % 12), m) for m in (0, 1, 9, 31, 56, 61, 63, 64, 65, 66, 79, 80, 81, 82, 99, 100, 101, 164, 650, 1000)]
    + [("rustc 1.%d.%d\n" % (m, p), m) for m in (64, 65, 80, 81) for p in (0, 1, 9, 12)]
    + [("rustc 1.%d.0-%s (90b35a623 2024-11-26)\n" % (m, c), m) for m in (63, 64, 66, 79, 80, 82, 101) for c in ("nightly", "beta.4", "dev")]
    + [("rustc 1.%d.0 (9fc6b4312 2024-07-21) (built from a source tarball)\n" % m, m) for m in (64, 75, 80, 83)]
    + [("rustc 1.%d.1-beta.7 (Fedora 1.%d.1-1.fc40)" % (m, m + 9), m) for m in (64, 65, 72, 80, 81)]
)
NO_VERSION = ["", "\n", "rustc", "rustc 2.0.0 (abc)\n", "rustc 1\n", "rustc 1.\n", "rustc 1.x.0\n", "rustc 1.-5.0\n", "rustc 1.99999999999.0\n", "gccrs 1.64.0\n",
              "rustc-1.64.0\n", "RUSTC 1.64.0\n", "rustc 1. 64.0\n", "rustc 0.12.0\n", "warning: x\nrustc 1.64.0\n", b"rustc 1.64.0 (\xff\xfe)\n", "rustc 10.64.0\n",
              "rustc 1.64beta.0\n", " rustc 1.64.0\n", "clippy 0.1.64\n"]
BOOTSTRAP = [None, None, None, "1", "1", "0", "-1", "", "thiserror", "thiserror", "other", "a,thiserror,b", "thiserror_impl", "thiserror-impl", "2", "true", " 1", "1,thiserror", "01",
             b"\xff\xfe", b"thiserror\xff"]
FLAGS = ["-Copt-level=3", "--cfg=foo", "-Dwarnings", "-Ctarget-cpu=native", "-Lnative=/some dir/with spaces", "--cfg", "a=\"b c\"", "-Clink-arg=-Wl,-z,now", "-Zsanitizer=address",
         "--sysroot=/x y", "-Astable_features", "-Cpanic=abort", "é", "--remap-path-prefix=/a=/b"]


class World:
    """One scenario: what the compilers are like and what Cargo sets."""


def world(r):
    w = World()
    w.std = r.random() < 0.5
    w.stage = r.choice([None] * 9 + ["0", "1", "", "2"])
    w.bootstrap = r.choice(BOOTSTRAP)
    w.channel = r.choice(["stable", "stable", "nightly"])
    w.api = r.random() < 0.75
    w.target = r.choice([HOST, HOST, "thumbv7em-none-eabi", "wasm32-unknown-unknown", "my target"])
    w.bad_target = r.choice([[], [], [], [HOST], [w.target], ["host"], ["thumbv7em-none-eabi"]])
    n = r.choice([None, 0, 0, 1, 2, 3, 6])
    w.flags = None if n is None else [r.choice(FLAGS) for _ in range(n)]
    w.need, w.reject = [], []
    if w.flags and r.random() < 0.6:
        k = sorted(r.sample(range(len(w.flags)), r.randint(1, len(w.flags))))
        w.need = [w.flags[i] for i in k]
    elif r.random() < 0.15:
        w.need = [r.choice(FLAGS)]
    if r.random() < 0.25:
        w.reject = [r.choice(w.flags or FLAGS)]
    w.wrapper = r.choice([None, None, None, "", "plain", "plain", "add", "other", "fail", "missing"])
    w.workspace = r.choice([None, None, None, "", "plain", "add", "other"])
    if w.wrapper == "add" or w.workspace == "add":
        if r.random() < 0.7:
            w.need = w.need + ["--from-wrapper"]
        else:
            w.reject = w.reject + ["--from-wrapper"]
    w.missing = r.random() < 0.06
    w.signal = r.random() < 0.05
    w.noise = r.choice([0, 0, 1, 2000])
    w.leave = r.choice([[], ["thiserror.d", "libthiserror.rmeta"], ["thiserror.d"], ["thiserror.d", "deep/er/x", ".hidden", "libthiserror.rmeta"]])
    w.remove_out = r.random() < 0.05
    w.stale = r.choice([None, None, None, "dir", "files"])
    w.other_files = r.random() < 0.2
    w.out_name = r.choice(["out", "out", "out dir", "sörtie", "a/b/out"])
    if r.random() < 0.85:
        w.version, w.minor = r.choice(VERSIONS)
        w.version_exit = 0
    else:
        w.version, w.minor = r.choice(NO_VERSION), None
        w.version_exit = r.choice([0, 1])
    # The compiler which the `other` wrapper runs instead.
    w.other_channel = r.choice(["stable", "nightly"])
    w.other_api = r.random() < 0.6
    return w


def accepts(w, value):
    """Does a compilation of thiserror by Cargo with RUSTC_BOOTSTRAP=value
    accept the unstable API?"""
    args = []
    channel, api = w.channel, w.api
    reaches = True
    missing, signal = w.missing, w.signal
    for wr in (w.wrapper, w.workspace):
        if wr in ("fail", "missing"):
            reaches = False
            break
        if wr == "add":
            args.append("--from-wrapper")
        if wr == "other":
            # Whatever the chain was after it, it runs the other compiler.
            channel, api, missing, signal = w.other_channel, w.other_api, False, False
            break
    if not reaches or missing or signal:
        return False
    if isinstance(value, bytes):
        value = value.decode("utf8", "replace")
    cheat = value is not None and (value == "1" or "thiserror" in value.split(","))
    unstable = cheat or (channel == "nightly" and value != "-1")
    # A wrapper's own arguments come after everything else.
    cmd = list(w.flags or []) + args
    at = 0
    for n in w.need:
        if n not in cmd[at:]:
            return False
        at = cmd.index(n, at) + 1
    if any(x in cmd for x in w.reject):
        return False
    if w.target in w.bad_target:
        return False
    return unstable and api


def stand_in(ctx, pkg, exes, shim, n):
    base = os.path.join(ctx.base, "scenarios")
    shutil.rmtree(base, ignore_errors=True)

    def one(i):
        r = ctx.sub_rng("w%d" % i)
        w = world(r)
        d = os.path.join(base, str(i))
        os.makedirs(d)

        def put(name, conf, version=None):
            p = os.path.join(d, name)
            os.link(shim, p)
            with open(p + ".conf", "w") as f:
                f.write("".join("%s=%s\n" % kv for kv in conf))
            if version is not None:
                with open(p + ".version", "wb") as f:
                    f.write(version if isinstance(version, bytes) else version.encode())
            return p
        common = [("noise", w.noise)] + [("leave", x) for x in w.leave] + [("need", x) for x in w.need] + [("reject", x) for x in w.reject] + [("bad_target", x) for x in w.bad_target]
        rustc = put("rustc", [("role", "rustc"), ("channel", w.channel), ("api", int(w.api)), ("signal", int(w.signal)), ("remove_out", int(w.remove_out)),
                              ("version_exit", w.version_exit)] + common, w.version)
        put("other", [("role", "rustc"), ("channel", w.other_channel), ("api", int(w.other_api))] + common, "rustc 1.50.0\n")
        if w.missing:
            os.unlink(rustc)
        env = {}
        for var, kind, name in (("RUSTC_WRAPPER", w.wrapper, "wrap"), ("RUSTC_WORKSPACE_WRAPPER", w.workspace, "wswrap")):
            if kind is None:
                continue
            if kind == "":
                env[var] = ""
            elif kind == "missing":
                env[var] = os.path.join(d, "nowhere")
            else:
                env[var] = put(name, [("role", "wrapper")] + {
                    "add": [("add", "--from-wrapper")], "other": [("instead", os.path.join(d, "other"))], "fail": [("fail", "1")]}.get(kind, []))
        if w.bootstrap is not None:
            env["RUSTC_BOOTSTRAP"] = w.bootstrap
        if w.stage is not None:
            env["RUSTC_STAGE"] = w.stage
        out = os.path.join(d, w.out_name)
        os.makedirs(out)
        if w.other_files:
            write_if_changed(os.path.join(out, "kept.txt"), "kept")
        before = listing(out)
        if w.stale:
            os.makedirs(os.path.join(out, "probe", "sub"))
            if w.stale == "files":
                for f in ("thiserror.d", "libthiserror.rmeta", "sub/x"):
                    write_if_changed(os.path.join(out, "probe", f), "old")
        env = cargo_env(w.std, w.target, out, rustc, None if w.flags is None else "\x1f".join(w.flags), env)
        rc, text, err = run_script(exes[w.std], pkg, env)
        after = listing(out)
        asked = []
        try:
            with open(os.path.join(d, "log")) as f:
                asked = [json.loads(x) for x in f]
        except FileNotFoundError:
            pass
        shutil.rmtree(d)
        if w.stage is not None and w.stale:
            # Nothing was probed: what an interrupted build left may stay.
            after = [x for x in after if x != "probe" and not x.startswith("probe/")]
        return i, w, rc, text, err, before, after, asked

    with cf.ThreadPoolExecutor(8) as ex:
        for i, w, rc, text, err, before, after, asked in ex.map(one, range(n)):
            judge(ctx, "w%d" % i, w, rc, text, err, before, after, asked)
    shutil.rmtree(base, ignore_errors=True)


def judge(ctx, cid, w, rc, text, err, before, after, asked):
    got = parse(text)
    answer = w.stage is None and accepts(w, w.bootstrap)
    may_change = w.stage is None and any(
        accepts(w, v) != answer for v in (None, "1", "0", "thiserror", "-1") if not (v == "-1" and w.bootstrap != "-1"))
    minor = None if w.missing else w.minor
    want = {ACCESS: answer, OLD_STD: not w.std and minor is not None and minor < 81, NO_TYPE: minor is not None and minor < 65}
    scenario = json.dumps({k: (repr(v) if isinstance(v, bytes) else v) for k, v in vars(w).items()}, ensure_ascii=False)
    bad = []
    if rc != 0:
        bad.append(("build script failed", "exit %s: %s" % (rc, err[-300:])))
    else:
        for k, v in want.items():
            if (k in got["cfg"]) != v:
                bad.append(("cfg " + k, "expected %s, got %s" % (v, sorted(got["cfg"]))))
        for k in got["cfg"] - set(want):
            bad.append(("unknown cfg", k))
        if may_change and "RUSTC_BOOTSTRAP" not in got["rerun_env"]:
            bad.append(("rerun", "RUSTC_BOOTSTRAP could change the answer, but the script does not ask to be rerun"))
        if got["other"]:
            bad.append(("output", repr(got["other"])))
        if after != before:
            bad.append(("OUT_DIR", "before %s, after %s" % (before, after)))
        for f in got["rerun_file"]:
            if not os.path.exists(os.path.join(core.REPO, f)):
                bad.append(("rerun-if-changed", "%s does not exist, so that the script is rerun by every build" % f))
    for k, det in bad:
        ctx.violation(core.Violation(Case(cid, "// scenario: " + scenario), k, det + "\nscenario: " + scenario + "\noutput: " + text))
    ctx.evaluations += 1
    ctx.count("compilers asked", len(asked))
    ctx.count("answer: " + ("on" if answer else "off"))
    ctx.count("rerun " + ("needed" if may_change else "not needed"))
    ctx.count("leftover files seen by the compiler and gone afterwards", len(w.leave) if any(a["who"] == "rustc" and any(x.endswith(".rs") for x in a["args"]) for a in asked) else 0)
    ctx.traces.add(repr((answer, may_change, tuple(sorted(want.items())), w.channel, w.api, str(w.bootstrap), w.stage is None, w.wrapper, w.workspace, w.missing, w.signal, tuple(w.flags or ()),
                         tuple((a["who"], a["bootstrap"], len(a["args"])) for a in asked))))
    if len(ctx.samples) < 3 and not w.missing:
        ctx.samples.append("%s => cfg %s, rerun %s, asked %d times" % (scenario[:300], sorted(got["cfg"]), sorted(got["rerun_env"]), len(asked)))


# ---------------------------------------------------------------- real compilers

# What thiserror needs of the API: src/provide.rs and the derive's provide().
ORACLE = """#![no_std]
#![feature(error_generic_member_access)]
use core::error::{Error, Request};
use core::fmt::{self, Debug, Display};
pub trait Forward { fn forward<'a>(&'a self, request: &mut Request<'a>); }
impl<T> Forward for T where T: Error + ?Sized { fn forward<'a>(&'a self, request: &mut Request<'a>) { self.provide(request); } }
pub struct Outer<S> { pub source: S, pub own: Thing }
pub struct Thing;
impl<S> Debug for Outer<S> { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} } }
impl<S> Display for Outer<S> { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} } }
impl<S: Error + 'static> Error for Outer<S> {
    fn source(&self) -> core::option::Option<&(dyn Error + 'static)> { core::option::Option::Some(&self.source) }
    fn provide<'r>(&'r self, request: &mut Request<'r>) { self.source.forward(request); request.provide_ref::<Thing>(&self.own); }
}
"""
REAL_FLAGS = [None, "", "-Copt-level=2", "-Zallow-features=", "-Zallow-features=error_generic_member_access", "-Zallow-features=\x1f-Copt-level=1", "--cap-lints=warn", "-Dwarnings",
              "--cfg\x1ffoo", "--sysroot=/none", "-Znonsense", "-Cpanic=abort", "-Zcrate-attr=feature(nope)", "--cfg=a=\"b c\"", "--edition=2021", "-Zno-codegen\x1f-Zallow-features=x"]
REAL_BOOT = [None, "1", "0", "-1", "thiserror", "other", "x,thiserror", ""]


def real_accepts(rustc, args, env, src, out):
    os.makedirs(out, exist_ok=True)
    e = clean_env()
    e.update(env)
    p = subprocess.run([rustc, "--edition=2018", "--crate-name=thiserror", "--crate-type=lib", "--cap-lints=allow", "--emit=metadata", "--out-dir", out, src] + args,
                       env=e, cwd=out, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return p.returncode == 0


def real(ctx, pkg, exes, rustcs, extra=()):
    src = os.path.join(ctx.base, "oracle.rs")
    write_if_changed(src, ORACLE)
    base = os.path.join(ctx.base, "real")
    shutil.rmtree(base, ignore_errors=True)
    jobs = []
    for tc, rustc in rustcs.items():
        for b in REAL_BOOT:
            for fl in REAL_FLAGS:
                for target in (HOST, "wasm32-unknown-unknown"):
                    if target != HOST and fl is not None:
                        continue
                    jobs.append((tc, rustc, b, fl, target, []))
    r = ctx.sub_rng("real")
    if not ctx.thorough:
        keep = [j for j in jobs if j[3] in (None, "-Zallow-features=") or j[2] in (None, "1")]
        jobs = keep + r.sample([j for j in jobs if j not in keep], 60)
    jobs += list(extra)

    def one(i):
        tc, rustc, b, fl, target, more = jobs[i]
        d = os.path.join(base, str(i))
        out = os.path.join(d, "out")
        os.makedirs(out)
        flags = fl
        if more:
            flags = "\x1f".join(([fl] if fl else []) + more)
        env = {} if b is None else {"RUSTC_BOOTSTRAP": b}
        args = ["--target", target] + (flags.split("\x1f") if flags else [])
        want = real_accepts(rustc, args, env, src, os.path.join(d, "o"))
        std = bool(i % 2)
        rc, text, err = run_script(exes[std], pkg, cargo_env(std, target, out, rustc, flags, env))
        left = listing(out)
        shutil.rmtree(d, ignore_errors=True)
        return want, std, rc, text, err, left
    with cf.ThreadPoolExecutor(8) as ex:
        for (tc, rustc, b, fl, target, more), (want, std, rc, text, err, left) in zip(jobs, ex.map(one, range(len(jobs)))):
            got = parse(text)
            what = "%s RUSTC_BOOTSTRAP=%r flags=%r target=%s %s" % (tc, b, fl, target, more)
            c = Case("real_" + re.sub(r"\W+", "_", what), "// " + what)
            if rc != 0:
                ctx.violation(core.Violation(c, "build script failed", err[-500:]))
                continue
            if (ACCESS in got["cfg"]) != want:
                ctx.violation(core.Violation(c, "real compiler", "the compiler %s the API it needs, but the build script set %s (%s)" % (
                    "accepts" if want else "rejects", sorted(got["cfg"]), what)))
            if OLD_STD in got["cfg"] or NO_TYPE in got["cfg"]:
                ctx.violation(core.Violation(c, "real compiler", "an old-compiler fallback on %s: %s" % (tc, sorted(got["cfg"]))))
            if left:
                ctx.violation(core.Violation(c, "OUT_DIR", "left behind %s" % left))
            ctx.evaluations += 1
            ctx.count("real compiler " + ("accepts" if want else "rejects"))
            ctx.traces.add(repr((what, want)))


# -------------------------------------------- compilers whose API is different

def api_variants():
    def demand(s):
        return re.sub(r"\bRequest\b", "Demand", s)

    def no_ref(s):
        return s.replace("fn provide_ref<", "fn offer_ref<").replace(".provide_ref(", ".offer_ref(").replace("provide_ref::", "offer_ref::")

    def no_method(s):
        s = s.replace("fn provide<'a>(&'a self, request: &mut Request<'a>) {}", "fn offer<'a>(&'a self, request: &mut Request<'a>) {}")
        s = s.replace("    fn provide<'b>(&'b self, request: &mut Request<'b>) {\n        Error::provide(&**self, request);", "    fn offer<'b>(&'b self, request: &mut Request<'b>) {\n        Error::offer(&**self, request);")
        return re.sub(r"\berr\.provide\(", "err.offer(", s)

    def gate(s):
        return s.replace('feature = "error_generic_member_access"', 'feature = "error_member_access_v2"')

    def stable(s):
        return s.replace('#[unstable(feature = "error_generic_member_access", issue = "99301")]', '#[stable(feature = "error_generic_member_access", since = "1.99.0")]')

    def by_type(s):
        # A plain elided lifetime in place of the one tied to self.
        s = s.replace("fn provide<'a>(&'a self, request: &mut Request<'a>) {}", "fn provide<'a, 'b>(&'a self, request: &mut Request<'b>) where 'a: 'b {}")
        return s.replace("    fn provide<'b>(&'b self, request: &mut Request<'b>) {\n        Error::provide(&**self, request);\n    }\n", "")
    return {"same": (lambda s: s, True), "Demand": (demand, False), "no provide_ref": (no_ref, False), "no provide": (no_method, False), "other gate": (gate, False),
            "stabilised": (stable, True), "other signature": (by_type, False)}


def build_core(ctx, name, edit, tc="nightly"):
    """A sysroot whose core::error was edited. Returns None if that core does not compile."""
    rc, out, _ = run_cmd(["rustc", "+" + tc, "--print", "sysroot"])
    lib = os.path.join(out.strip(), "lib/rustlib/src/rust/library")
    with open(os.path.join(lib, "core/src/error.rs")) as f:
        text = f.read()
    new = edit(text)
    if new == text and name != "same":
        return None
    d = os.path.join(ctx.base, "core-" + re.sub(r"\W", "_", name))
    done = os.path.join(d, "done")
    if os.path.exists(done):
        return os.path.join(d, "sr")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "library/core/src"))
    for x in os.listdir(lib):
        if x != "core":
            os.symlink(os.path.join(lib, x), os.path.join(d, "library", x))
    for x in os.listdir(os.path.join(lib, "core/src")):
        if x != "error.rs":
            os.symlink(os.path.join(lib, "core/src", x), os.path.join(d, "library/core/src", x))
    write_if_changed(os.path.join(d, "library/core/src/error.rs"), new)
    s = os.path.join(d, "sr/lib/rustlib", HOST, "lib")
    os.makedirs(s)
    rc, _, err = run_cmd(["rustc", "+" + tc, "--edition=2024", "--crate-name", "core", "--crate-type", "lib", "--emit=metadata", "-Cmetadata=a", "--cap-lints=allow",
                          os.path.join(d, "library/core/src/lib.rs"), "--out-dir", s])
    if rc:
        ctx.log("no core for", name, err[-600:])
        return None
    write_if_changed(os.path.join(d, "cb.rs"), "#![feature(compiler_builtins)] #![compiler_builtins] #![no_std]\n")
    rc, _, err = run_cmd(["rustc", "+" + tc, "--edition=2021", "--sysroot", os.path.join(d, "sr"), "--crate-name", "compiler_builtins", "--crate-type", "lib", "--emit=metadata",
                          "--cap-lints=allow", os.path.join(d, "cb.rs"), "--out-dir", s])
    if rc:
        ctx.log("no compiler_builtins for", name, err[-600:])
        return None
    open(done, "w").close()
    return os.path.join(d, "sr")


def drift(ctx, rustc):
    """Jobs for real(): a nightly compiler with an API as of another day."""
    vs = api_variants()
    with cf.ThreadPoolExecutor(8) as ex:
        roots = dict(zip(vs, ex.map(lambda n: build_core(ctx, n, vs[n][0]), vs)))
    jobs = []
    for n, root in roots.items():
        if root is None:
            ctx.count("API variants which could not be built")
            continue
        ctx.count("API variants built")
        for b in (None, "1"):
            jobs.append(("nightly with core of API " + n, rustc, b, None, HOST, ["--sysroot=" + root]))
    if "same" not in [n for n, r in roots.items() if r]:
        raise Inconclusive("an unmodified core could not be built")
    return jobs, {n for n in roots if roots[n]}


# ------------------------------------------------------------------ with Cargo

PLAIN = """use thiserror::Error;
#[derive(Error, Debug)] #[error("x {0}")] pub struct E(#[from] std::fmt::Error);
fn main() { assert_eq!(E(std::fmt::Error).to_string(), "x an error occurred when formatting an argument"); println!("plain ok"); }
"""
PROVIDE = """#![feature(error_generic_member_access)]
use std::backtrace::Backtrace;
#[derive(thiserror::Error, Debug)] #[error("inner")] pub struct I { backtrace: Backtrace }
#[derive(thiserror::Error, Debug)] #[error("x")] pub enum E { A(#[from] #[backtrace] I) }
fn main() {
    let e = E::from(I { backtrace: Backtrace::force_capture() });
    let b = std::error::request_ref::<Backtrace>(&e).expect("a backtrace");
    let E::A(i) = &e;
    assert!(std::ptr::eq(b, &i.backtrace));
    println!("provide ok");
}
"""
NOSTD = """#![no_std]
#[derive(thiserror::Error, Debug)] #[error("x {0}")] pub struct E(pub u8);
#[derive(thiserror::Error, Debug)] #[error("y {0:?}")] pub enum F { A(#[from] E), #[error(transparent)] B(core::fmt::Error) }
"""


def cargo_crate(d, lib=False, features=True):
    write_if_changed(os.path.join(d, "Cargo.toml"), '[package]\nname = "p"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\nthiserror = { path = "%s"%s }\n[workspace]\n[profile.dev]\ndebug = 0\nincremental = false\n' % (
        core.REPO, "" if features else ", default-features = false"))
    if not os.path.exists(os.path.join(d, "Cargo.lock")):
        shutil.copy(os.path.join(core.VERIF, "harness", "Cargo.lock.base"), os.path.join(d, "Cargo.lock"))


def cargo_build(d, tc, env, rustc=None, args=()):
    e = {"RUSTUP_TOOLCHAIN": tc, "CARGO_TARGET_DIR": os.path.join(d, "t")}
    if rustc:
        e["RUSTC"] = rustc
    e.update(env)
    # core.run_cmd removes RUSTC_BOOTSTRAP from the environment unless given.
    rc, out, err = run_cmd(["cargo", "build", "--offline", "--message-format=json"] + list(args), cwd=d, env=e)
    cfgs, exe = None, None
    fresh = None
    for line in out.splitlines():
        try:
            j = json.loads(line)
        except ValueError:
            continue
        if j.get("reason") == "build-script-executed" and re.search(r"(/repo#thiserror@|path\+file:///repo#)|#thiserror@", j["package_id"]) and "thiserror-impl" not in j["package_id"]:
            cfgs = set(j["cfgs"])
        if j.get("reason") == "compiler-artifact" and j["target"]["name"] == "thiserror":
            fresh = j["fresh"]
        if j.get("reason") == "compiler-artifact" and j.get("executable"):
            exe = j["executable"]
    return rc, cfgs, exe, err, fresh


def walk(ctx, k, tc, values, has_api):
    """Rebuilds in one target directory while RUSTC_BOOTSTRAP changes."""
    d = os.path.join(ctx.base, "walk%d" % k)
    cargo_crate(d)
    last = None
    for step, v in enumerate(values):
        env = {} if v is None else {"RUSTC_BOOTSTRAP": v}
        nightly = tc.startswith("nightly")
        expect = has_api and (nightly or v in ("1", "thiserror"))
        can_use = has_api and (nightly or v == "1")
        write_if_changed(os.path.join(d, "src/main.rs"), PROVIDE if can_use else PLAIN)
        rc, cfgs, exe, err, fresh = cargo_build(d, tc, env)
        what = "%s, RUSTC_BOOTSTRAP %s" % (tc, " -> ".join(str(x) for x in values[:step + 1]))
        c = Case("walk_%d_%d" % (k, step), "// " + what + "\n" + (PROVIDE if can_use else PLAIN))
        if cfgs is None or rc:
            if rc and "thiserror" not in err:
                raise Inconclusive("cargo failed: " + err[-800:])
            ctx.violation(core.Violation(c, "build failed", what + "\n" + err[-1500:]))
            return
        if (ACCESS in cfgs) != expect:
            ctx.violation(core.Violation(c, "incremental build", "%s: expected %s, Cargo has %s" % (what, expect, sorted(cfgs))))
            return
        rc, out, err = run_cmd([exe])
        if rc:
            ctx.violation(core.Violation(c, "program", what + "\n" + err[-800:]))
            return
        ctx.evaluations += 1
        ctx.count("cargo rebuild steps")
        ctx.traces.add(repr(("walk", tc, values[:step + 1], sorted(cfgs))))


def fake_version(ctx, tc, real_rustc, minor, std):
    """Real Cargo and compiler, except that the compiler says it is another version."""
    d = os.path.join(ctx.base, "fake-%s-%s-%d" % (tc, minor, std))
    sh = os.path.join(d, "rustc.sh")
    write_if_changed(sh, '#!/bin/sh\nif [ "$#" = 1 ] && { [ "$1" = --version ] || [ "$1" = -V ]; }; then echo "%s"; exit 0; fi\nexec "%s" "$@"\n' % (
        "gibberish" if minor is None else "rustc 1.%d.0 (abcdef012 2022-01-01)" % minor, real_rustc))
    os.chmod(sh, 0o755)
    cargo_crate(d, features=bool(std))
    path = std or (minor is not None and minor < 81)
    if path:
        text = PLAIN.replace("fn main() {", "#[derive(Error, Debug)] #[error(\"p {0}\")] pub struct P(std::path::PathBuf);\nfn main() { assert_eq!(P(\"a/b\".into()).to_string(), \"p a/b\");")
        write_if_changed(os.path.join(d, "src/main.rs"), text)
    else:
        text = NOSTD
        write_if_changed(os.path.join(d, "src/lib.rs"), text)
    rc, cfgs, exe, err, _ = cargo_build(d, tc, {}, rustc=sh)
    what = "%s which says it is 1.%s, std %s" % (tc, minor, bool(std))
    c = Case("fake_%s_%s_%d" % (re.sub(r"\W", "_", tc), minor, std), "// " + what + "\n" + text)
    want = {OLD_STD: not std and minor is not None and minor < 81, NO_TYPE: minor is not None and minor < 65, ACCESS: tc.startswith("nightly")}
    if rc or cfgs is None:
        ctx.violation(core.Violation(c, "build failed", what + "\n" + err[-1500:]))
        return
    for key, v in want.items():
        if (key in cfgs) != v:
            ctx.violation(core.Violation(c, "cfg " + key, "%s: expected %s, Cargo has %s" % (what, v, sorted(cfgs))))
    if exe:
        rc, out, err = run_cmd([exe])
        if rc:
            ctx.violation(core.Violation(c, "program", what + "\n" + err[-800:]))
    ctx.evaluations += 1
    ctx.count("cargo builds with another version")
    ctx.traces.add(repr((what, sorted(cfgs))))


# ------------------------------------------- a standard library of another day

FRAMES = """
pub fn converting_frame<T, E: From<T>>(t: T) -> E { E::from(t) }
pub fn question<T, E: From<T>>(t: T) -> Result<u8, E> { Err(t)? }
"""
STD_TREE = "hashbrown|gimli|object|addr2line|miniz_oxide|adler2|rustc_demangle|memchr|cfg_if|libc|unwind|panic_unwind|panic_abort|std_detect|test|proc_macro"


def old_library(ctx, name, backtrace, rustc, minor):
    """The source of the nightly standard library, in which core::error is
    unstable as before 1.81 and, unless `backtrace`, std::backtrace is as
    before 1.65; and a compiler which says it is 1.`minor`."""
    rc, out, _ = run_cmd(["rustc", "+nightly", "--print", "sysroot"])
    lib = os.path.join(out.strip(), "lib/rustlib/src/rust/library")
    d = os.path.join(ctx.base, "old-" + name)
    shutil.rmtree(d, ignore_errors=True)
    new = os.path.join(d, "library")
    os.makedirs(new)
    edits = {
        "core/src/error.rs": ('#![stable(feature = "error_in_core", since = "1.81.0")]', '#![unstable(feature = "error_in_core", issue = "103765")]'),
        "alloc/src/lib.rs": ("#![feature(", "#![feature(error_in_core)]\n#![feature("),
        "std/src/lib.rs": ("#![feature(", "#![feature(error_in_core)]\n#![feature(no_backtrace_yet)]\n#![feature(" if not backtrace else "#![feature(error_in_core)]\n#![feature("),
    }
    if not backtrace:
        edits["std/src/backtrace.rs"] = ('#![stable(feature = "backtrace", since = "1.65.0")]', '#![unstable(feature = "no_backtrace_yet", issue = "53487")]')
    for x in os.listdir(lib):
        if x in ("core", "alloc", "std"):
            os.makedirs(os.path.join(new, x, "src"))
            for y in os.listdir(os.path.join(lib, x)):
                if y != "src":
                    os.symlink(os.path.join(lib, x, y), os.path.join(new, x, y))
            for y in os.listdir(os.path.join(lib, x, "src")):
                if "%s/src/%s" % (x, y) not in edits:
                    os.symlink(os.path.join(lib, x, "src", y), os.path.join(new, x, "src", y))
        elif x.startswith("Cargo."):
            shutil.copy(os.path.join(lib, x), os.path.join(new, x))
        else:
            os.symlink(os.path.join(lib, x), os.path.join(new, x))
    for f, (a, b) in edits.items():
        with open(os.path.join(lib, f)) as fh:
            text = fh.read()
        if a not in text:
            return None
        write_if_changed(os.path.join(new, f), text.replace(a, b, 1))
    sh = os.path.join(d, "rustc.sh")
    write_if_changed(sh, """#!/bin/bash
if [ "$#" = 1 ] && { [ "$1" = --version ] || [ "$1" = -V ]; }; then echo "rustc 1.%d.0 (abcdef012 2022-01-01)"; exit 0; fi
prev=
for a in "$@"; do
  if [ "$prev" = --crate-name ]; then
    case "$a" in %s) exec %s "$@" '-Zcrate-attr=feature(error_in_core)';; esac
    break
  fi
  prev=$a
done
exec %s "$@"
""" % (minor, STD_TREE, rustc, rustc))
    os.chmod(sh, 0o755)
    env = {"RUSTC": sh, "__CARGO_TESTS_ONLY_SRC_ROOT": new, "CARGO_UNSTABLE_BUILD_STD": "std,panic_unwind"}
    # Is it the library it is meant to be?
    w = os.path.join(d, "witness")
    write_if_changed(os.path.join(w, "Cargo.toml"), '[package]\nname = "witness"\nversion = "0.0.0"\nedition = "2021"\n[features]\ncore_error = []\nbt = []\n[workspace]\n[profile.dev]\ndebug = 0\n')
    write_if_changed(os.path.join(w, "src/main.rs"), "#[cfg(feature = \"core_error\")] pub use core::error::Error;\n#[cfg(feature = \"bt\")] pub use std::backtrace::Backtrace;\nfn main() {}\n")
    e = {"CARGO_TARGET_DIR": os.path.join(w, "t"), "RUSTUP_TOOLCHAIN": "nightly"}
    e.update(env)
    results = []
    for f in ("", "core_error", "bt"):
        rc, _, err = run_cmd(["cargo", "check", "--offline", "--target", HOST, "--features", f], cwd=w, env=e)
        results.append(rc == 0)
    shutil.rmtree(os.path.join(w, "t"), ignore_errors=True)
    if results != [True, False, backtrace]:
        ctx.log("old library", name, "is", results, err[-1500:])
        return None
    return env


def old_workload(ctx, name, backtrace, minor, std, rustc):
    env = old_library(ctx, name, backtrace, rustc, minor)
    if env is None:
        ctx.count("old libraries which could not be built")
        return
    ctx.count("old libraries built")
    n = ctx.scale(30, 200)
    srcs = errs.sources(anyhow=False)
    cases = []
    for k, mk, m in [("d", lambda r, cid: c01.random_case(r, cid), n), ("e", lambda r, cid: defs.display_enum(r, cid, nvals=1), n), ("s", lambda r, cid: c05.case(r, cid, srcs), n),
                     ("c", lambda r, cid: c05.chain(r, cid), n // 2), ("t", lambda r, cid: c07.mixed(r, cid, srcs), n), ("f", lambda r, cid: c08.case(r, cid, False), n)]:
        for i in range(m):
            c = mk(ctx.sub_rng("%s/%s%d" % (name, k, i)), "%s%04d" % (k, i))
            if re.search("anyhow|core::error|Backtrace|backtrace::", c.code):
                continue
            cases.append(c)
    cfg = Config(toolchain="nightly", std=bool(std), target=HOST, env=env)
    ids, _ = ctx.run_cases(cfg, cases, name="old-" + name, header=c08.WRAP + c08.NEEDS_RS + FRAMES, bins=8)
    ctx.count("cases with an old library", len(ids))


def run(ctx):
    ctx.rule = ("one case = one run of the real build.rs: under stand-in compilers and wrappers which log what they are asked and behave like a described compiler; under each installed compiler and "
                "under a compiler whose core library has another form of the API, compared with whether that compiler accepts the code thiserror needs; or inside Cargo, with RUSTC_BOOTSTRAP changing "
                "between builds; non-trivial = distinct (scenario, expected answer, log of the compilers)")
    ctx.assumptions += ["a target given as a specification file, or whose core library Cargo builds itself, counts as one the compiler does not support",
                        "the script need not ask to be rerun because of RUSTC_BOOTSTRAP=-1 while another value is set"]
    pkg, exes, shim = build_scripts(ctx)
    rustcs = {}
    for tc in ("stable", "nightly", core.NIGHTLY_PROVIDE, "nightly-2026-08-21", "1.98.1"):
        p = rustc_of(tc)
        if p:
            rustcs[tc] = p
    pool = cf.ThreadPoolExecutor(8)
    jobs = []
    for minor in (60, 64, 65, 80, 81, None):
        for std in (0, 1):
            if std and minor in (80, 81) and not ctx.thorough:
                continue
            jobs.append(pool.submit(fake_version, ctx, "stable", rustcs["stable"], minor, std))
    r = ctx.sub_rng("walk")
    vals = [None, "1", "0", "thiserror", "other"]
    for k in range(ctx.scale(3, 12)):
        tc = ["stable", "stable", "nightly", "1.98.1"][k % 4]
        vs = [r.choice(vals)]
        while len(vs) < ctx.scale(5, 10):
            v = r.choice(vals)
            if v != vs[-1]:
                vs.append(v)
        if k == 0:
            vs = [None, "1", None, "thiserror", "other"]
        jobs.append(pool.submit(walk, ctx, k, tc, vs, True))
    later = [pool.submit(old_workload, ctx, "pre65", False, 64, 1, rustcs["nightly"]), pool.submit(old_workload, ctx, "pre81", True, 80, 0, rustcs["nightly"])]
    for j in jobs:
        j.result()
    ctx.log("cargo done")
    stand_in(ctx, pkg, exes, shim, ctx.scale(4000, 60000))
    ctx.log("stand-ins done")
    extra, names = drift(ctx, rustcs["nightly"])
    ctx.log("cores built")
    real(ctx, pkg, exes, rustcs, extra)
    for j in later:
        j.result()
    ctx.extra["api_variants"] = sorted(names)
    ctx.configs = ["build.rs by stable; compilers " + ", ".join(sorted(rustcs))]
