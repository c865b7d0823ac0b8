"""Shared machinery of the checks: builds workloads against /repo's working
tree, runs them, attributes what the monitors report to cases, and writes
verdicts, replays and evidence."""

import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
NIGHTLY_PROVIDE = "nightly-2025-05-01"


LOCK = threading.Lock()


class Inconclusive(Exception):
    """The machinery could not decide. Never a violation."""


def repo_hash():
    h = hashlib.sha256()
    for top in ("Cargo.toml", "build.rs", "build", "src", "impl/Cargo.toml", "impl/src"):
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:12]


class Config:
    """How a workload is compiled."""

    def __init__(self, toolchain="stable", std=True, edition="2021", opt="0", rustflags="",
                 attrs=(), deps=(), provide=False, target=None, env=None, debug=False,
                 overflow_checks=True, host=None, panic=None, build_std=False):
        self.toolchain, self.std, self.edition, self.opt = toolchain, std, edition, opt
        self.rustflags, self.attrs, self.deps = rustflags, tuple(attrs), tuple(deps)
        self.provide, self.target, self.env = provide, target, dict(env or {})
        self.debug = debug
        # In a no_std crate, the name under which the monitors see std.
        self.host = host
        self.panic = panic
        self.build_std = build_std
        self.overflow_checks = overflow_checks

    def key(self):
        # What the dependency build depends on (not the edition of the workload).
        s = json.dumps([self.toolchain, self.std, self.opt, self.rustflags, self.provide,
                        self.target, sorted(self.env.items()), self.debug] + ([self.panic] if self.panic else []) + ([0] if not self.overflow_checks else []) + (["std"] if self.build_std else []))
        return "%s-%s" % (self.toolchain, hashlib.sha256(s.encode()).hexdigest()[:8])

    def name(self):
        return "%s std=%s edition=%s opt=%s%s" % (
            self.toolchain, self.std, self.edition, self.opt,
            (" " + self.rustflags if self.rustflags else "") + (" no_std crate" if self.host else "")
            + (" panic=" + self.panic if self.panic else "") + ("" if self.overflow_checks else " no debug assertions"))


# Checks in whose definitions attributes without meaning are strewn.
CLUTTERED = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C16", "C17", "C20"}


class Case:
    """One generated definition with its monitors. `code` is the body of a
    module which defines `pub fn run(m: &mut vs::Mon)`."""

    def __init__(self, id, code, desc="", known=None, tags=()):
        self.id, self.code, self.desc, self.known, self.tags = id, code, desc, known, tuple(tags)


class Violation:
    def __init__(self, case, kind, detail, cfg=None):
        self.case, self.kind, self.detail, self.cfg = case, kind, detail, cfg


def _limit(cpu):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run_cmd(cmd, cwd=None, env=None, timeout=600, cpu=900, stdin=None):
    """Returns (returncode, stdout, stderr); raises Inconclusive on a wall
    clock timeout."""
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_BOOTSTRAP",
              "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET", "RUST_BACKTRACE",
              "RUST_LIB_BACKTRACE", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=_limit(cpu),
                         start_new_session=True)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        raise Inconclusive("timed out after %ds: %s" % (timeout, " ".join(cmd)[:200]))
    return p.returncode, out.decode("utf8", "replace"), err.decode("utf8", "replace")


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except FileNotFoundError:
        pass
    with open(path, "w") as f:
        f.write(text)


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.start = time.time()
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.hash = repo_hash()
        self.base = os.path.join(TARGET, self.hash, prop)
        self.violations = []
        self.known_hit = {}
        self.counts = {}
        self.traces = set()
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.evaluations = 0
        self.rule = ""
        self.level = "exploration"
        self.configs = []
        self.known = load_known(prop)
        prune()

    def sub_rng(self, label):
        return random.Random("%s/%d/%s" % (self.prop, self.seed, label))

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def count(self, k, n=1):
        with LOCK:
            self.counts[k] = self.counts.get(k, 0) + n

    def log(self, *a):
        print("[%s %5.1fs]" % (self.prop, time.time() - self.start), *a, file=sys.stderr, flush=True)

    def violation(self, v):
        self.violations.append(v)

    # ------------------------------------------------------------ workloads

    def crate(self, name, cfg, bins, extra_files=None, lib=None):
        """Writes a generated crate and returns its directory."""
        d = os.path.join(self.base, "w-" + name)
        toml = ["[package]", 'name = "w_%s"' % re.sub(r"\W", "_", name), 'version = "0.0.0"',
                'edition = "%s"' % cfg.edition, "autobins = false", "publish = false", ""]
        for b in bins:
            toml += ["[[bin]]", 'name = "%s"' % b, 'path = "src/%s.rs"' % b, ""]
        toml += ["[dependencies]",
                 'thiserror = { path = "%s", default-features = false%s }' % (
                     REPO, ', features = ["std"]' if cfg.std else ""),
                 'vs = { path = "%s/harness/vsupport", package = "vsupport" }' % VERIF]
        toml += list(cfg.deps)
        toml += ["", "[workspace]", "", "[profile.dev]", "opt-level = %s" % cfg.opt,
                 "debug = %s" % ("1" if cfg.debug else "0"), "incremental = false",
                 "overflow-checks = %s" % ("true" if cfg.overflow_checks else "false")] + ([
                     "debug-assertions = false"] if not cfg.overflow_checks else []) + (['panic = "%s"' % cfg.panic] if cfg.panic else []) + ([
                     "[profile.dev.build-override]", "debug-assertions = false", "overflow-checks = false", "opt-level = 1"] if not cfg.overflow_checks else []) + [""]
        write_if_changed(os.path.join(d, "Cargo.toml"), "\n".join(toml))
        lock = os.path.join(d, "Cargo.lock")
        if not os.path.exists(lock):
            shutil.copy(os.path.join(VERIF, "harness", "Cargo.lock.base"), lock)
        for f in (extra_files or {}):
            write_if_changed(os.path.join(d, f), extra_files[f])
        return d

    def cargo(self, cfg, d, args, timeout=800, env=None):
        more = env or {}
        env = {"CARGO_TARGET_DIR": os.path.join(self.base, "t-" + cfg.key()),
               "RUSTUP_TOOLCHAIN": cfg.toolchain}
        if cfg.rustflags:
            env["RUSTFLAGS"] = cfg.rustflags
        if cfg.provide:
            env["VS_PROVIDE"] = "1"
        env.update(cfg.env)
        env.update(more)
        extra = ["--offline"] + (["--target", cfg.target] if cfg.target else []) + (["-Zbuild-std"] if cfg.build_std else [])
        cut = args.index("--") if "--" in args else len(args)
        cmd = ["cargo"] + args[:cut] + extra + args[cut:]
        return run_cmd(cmd, cwd=d, env=env, timeout=timeout)

    def build(self, cfg, d):
        """Returns (ok, messages, executables, stderr)."""
        rc, out, err = self.cargo(cfg, d, ["build", "--bins", "--keep-going", "--message-format=json"])
        msgs, exes = [], {}
        for line in out.splitlines():
            try:
                j = json.loads(line)
            except ValueError:
                continue
            if j.get("reason") == "compiler-message":
                msgs.append(j)
            elif j.get("reason") == "compiler-artifact" and j.get("executable"):
                exes[j["target"]["name"]] = j["executable"]
        return rc == 0, msgs, exes, err

    def run_cases(self, cfg, cases, name="main", bins=8, header="", expect_clean=False, runner=None,
                  run_env=None, again=(), reports=None):
        """Compiles and runs the cases; records violations; returns the ids
        of the cases that compiled and the per-case output lines."""
        cases = list(cases)
        if self.prop in CLUTTERED:
            from tv import clutter
            cases = [clutter.case(c, self.seed, 0.3) for c in cases]
        ids = set()
        for c in cases:
            assert c.id not in ids, c.id
            ids.add(c.id)
        if cfg.name() not in self.configs:
            self.configs.append(cfg.name())
        plain = [c for c in cases if not c.known]
        known = [c for c in cases if c.known]
        groups = {}
        for i, c in enumerate(plain):
            groups.setdefault("b%02d" % (i % bins), []).append(c)
        for i, c in enumerate(known):
            groups["k%02d" % i] = [c]
        rounds = 0
        compiled = None
        while True:
            rounds += 1
            tables = {}
            files = {}
            for b, cs in groups.items():
                text, table = emit(cfg, cs, header)
                files["src/%s.rs" % b] = text
                tables[b] = table
            d = self.crate(name, cfg, sorted(groups), files)
            ok, msgs, exes, err = self.build(cfg, d)
            blamed = {}
            stray = []
            for j in msgs:
                m = j["message"]
                bad = m["level"].startswith("error") or (expect_clean and m["level"] == "warning")
                if not bad or "aborting due to" in m["message"] or re.match(r"\d+ warnings? emitted", m["message"]):
                    continue
                if "internal compiler error" in m["level"] + m["message"]:
                    raise Inconclusive("compiler crashed: " + m["message"][:300])
                b = j["target"]["name"]
                hit = blame(m, tables.get(b, []), "src/%s.rs" % b)
                if hit:
                    blamed.setdefault((b, hit), []).append(m["rendered"] or m["message"])
                else:
                    stray.append((b, m["rendered"] or m["message"]))
                    if "/repo" in j["package_id"] and "thiserror" in j["target"]["name"] and any(s["file_name"].startswith(REPO) for s in m["spans"]):
                        # thiserror itself is rejected in this configuration.
                        self.violation(Violation(None, "thiserror does not compile with " + cfg.name(), m["rendered"] or m["message"], cfg))
                        return [], {}
            if ok and not blamed:
                compiled = exes
                break
            if not blamed:
                if stray:
                    raise Inconclusive("compile error outside any case: " + stray[0][1][:1500])
                raise Inconclusive("build failed: " + err[-1500:])
            by_id = {c.id: c for c in cases}
            for (b, cid), texts in sorted(blamed.items()):
                c = by_id[cid]
                self.fail_case(c, "rejected by the compiler" if not expect_clean else "diagnostics",
                               texts[0], cfg)
            bad_ids = {cid for _, cid in blamed}
            self.count("cases_rejected", len(bad_ids))
            groups = {b: [c for c in cs if c.id not in bad_ids] for b, cs in groups.items()}
            groups = {b: cs for b, cs in groups.items() if cs}
            cases = [c for c in cases if c.id not in bad_ids]
            if rounds > 6 or not groups:
                self.log("giving up after %d rounds of compile failures" % rounds)
                return [], {}
        by_id = {c.id: c for c in cases}
        lines = {}
        self.exes = compiled

        def one(job):
            b, env = job
            exe = compiled[b]
            cmd = (runner(exe) if runner else [exe])
            return b, run_cmd(cmd, timeout=600, cpu=240, env=env)

        todo = sorted(groups)
        for b in todo:
            if b not in compiled:
                raise Inconclusive("no executable for %s" % b)
        with cf.ThreadPoolExecutor(8) as ex:
            for b, (rc, out, err) in ex.map(one, [(b, env) for env in [run_env] + list(again) for b in todo]):
                self.absorb(b, rc, out, err, by_id, cfg, lines, reports)
        self.evaluations += len(cases)
        return [c.id for c in cases], lines

    def absorb(self, b, rc, out, err, by_id, cfg, lines, reports=None):
        """Takes in what one execution of a workload printed. `reports` finds
        what a sanitizer says in its standard error."""
        cur = None
        stats = None
        for line in out.splitlines():
            if line.startswith("@@C "):
                cur = line[4:]
            elif line.startswith("@@E "):
                cur = None
            elif line.startswith("@@F "):
                cid, label, msg = line[4:].split("|", 2)
                self.fail_case(by_id[cid], "monitor: " + label, msg, cfg)
            elif line.startswith("@@S "):
                stats = json.loads(line[4:])
            elif line.startswith("@@L ") and cur:
                lines.setdefault(cur, []).append(line[4:])
        found = reports(err) if reports and (rc != 0 or stats is None) else None
        if found:
            case, kind, detail = found
            case = case or by_id.get(cur)
            if case:
                self.fail_case(case, kind, detail, cfg)
            else:
                self.violation(Violation(None, kind, detail, cfg))
            return
        if stats is None:
            if rc == -signal.SIGKILL or cur is None:
                raise Inconclusive("workload %s ended with %s: %s" % (b, rc, err[-800:]))
            self.fail_case(by_id[cur], "crashed (exit %s)" % rc, err[-1500:], cfg)
            return
        if rc != 0:
            raise Inconclusive("workload %s ended with %s: %s" % (b, rc, err[-800:]))
        for k, v in stats["counts"].items():
            self.count(k, v)
        self.traces.update(stats["traces"])
        if len(self.samples) < 6:
            self.samples += stats["samples"][:2]

    def fail_case(self, case, kind, detail, cfg):
        if case.known and case.known in self.known:
            self.known_hit.setdefault(case.known, (case, kind, detail))
            return
        self.violation(Violation(case, kind, detail, cfg))

    # -------------------------------------------------------------- verdict

    def finish(self):
        wall = time.time() - self.start
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.traces),
            "rule": self.rule,
            "samples": self.samples[:6] or ["(none)"],
            "observed": dict(sorted(self.counts.items())),
            "configurations": self.configs,
            "repo_hash": self.hash,
        }
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write("\n")
        os.replace(path + ".tmp", path)
        for k in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[k]["what"]))
        if self.violations:
            seen = set()
            n = 0
            for v in self.violations:
                cid = v.case.id if v.case else "global"
                if cid in seen:
                    continue
                seen.add(cid)
                rp = self.replay(v)
                print("VIOLATION property=%s replay=%s" % (self.prop, rp))
                print("  %s: %s: %s" % (cid, v.kind, v.detail.strip()[:600].replace("\n", "\n    ")))
                n += 1
                if n >= int(os.environ.get("VERIF_SHOW", "5")):
                    print("  ... and %d more" % (len(self.violations) - n))
                    break
            sys.stdout.flush()
            return 1
        if self.evaluations == 0 or not self.traces:
            print("INCONCLUSIVE property=%s: nothing was observed" % self.prop)
            return 2
        print("OK property=%s evaluations=%d distinct=%d %s (%.1fs)" % (
            self.prop, self.evaluations, len(self.traces),
            " ".join("%s=%s" % kv for kv in sorted(self.counts.items())), wall))
        return 0

    def replay(self, v):
        cid = v.case.id if v.case else "global"
        d = os.path.join(VERIF, "replays", "%s-%d-%s" % (self.prop, self.seed, cid))
        os.makedirs(d, exist_ok=True)
        info = {"property": self.prop, "seed": self.seed, "tier": self.tier, "case": cid,
                "kind": v.kind, "detail": v.detail, "config": v.cfg.name() if v.cfg else None,
                "desc": v.case.desc if v.case else "",
                "how": "VERIF_SEED=%d VERIF_TIER=%s python3 tv/check.py %s; case.rs is the failing case" % (
                    self.seed, self.tier, self.prop)}
        with open(os.path.join(d, "info.json"), "w") as f:
            json.dump(info, f, indent=1)
        if v.case:
            text, _ = emit(v.cfg or Config(), [v.case], "")
            with open(os.path.join(d, "case.rs"), "w") as f:
                f.write(text)
        return d


def emit(cfg, cases, header):
    """The text of one binary and its table [(first_line, last_line, case id)]."""
    lines = []
    feats = ["#![allow(warnings)]", "#![allow(unstable_features)]"]
    feats += list(cfg.attrs)
    lines += feats
    if header:
        lines += header.splitlines()
    table = []
    for c in cases:
        lines.append("pub mod %s {" % c.id)
        first = len(lines)
        lines += c.code.splitlines()
        lines.append("}")
        table.append((first, len(lines), c.id))
    lines.append("fn main() {")
    if not cfg.host and cfg.edition != "2015":
        lines.append("    use ::{std::prelude::v1::*, std, vs};")
    lines.append("    let only: Vec<String> = std::env::args().skip(1).collect();")
    lines.append("    let mut m = vs::Mon::new();")
    for c in cases:
        n = len(lines) + 1
        lines.append('    if only.is_empty() || only.iter().any(|x| x == "%s") { m.case("%s", %s::run); }' % (
            c.id, c.id, c.id))
        table.append((n, n, c.id))
    lines.append("    m.finish();")
    lines.append("}")
    text = "\n".join(lines) + "\n"
    if cfg.host:
        text = re.sub(r"(::\s*)?(?<!crate )(?<![\w!])std\s*::", cfg.host + "::", text)
        text = re.sub(r"(?m)^pub mod \w+ \{$", lambda m: m.group() + " #[allow(unused)] use %s::{prelude::v1::*, format, vec, println};" % cfg.host, text)
    return text, table


def spans_of(m):
    for s in m.get("spans", []):
        yield s
        e = s.get("expansion")
        while e:
            yield e["span"]
            e = e["span"].get("expansion")
    for c in m.get("children", []):
        yield from spans_of(c)


def blame(m, table, path):
    order = sorted(spans_of(m), key=lambda s: not s.get("is_primary"))
    for s in order:
        if s["file_name"].endswith(path):
            for a, b, cid in table:
                if a <= s["line_start"] <= b:
                    return cid
    return None


def load_known(prop):
    known = {}
    path = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(path):
        with open(path) as f:
            for k in json.load(f)["findings"]:
                if k["property"] == prop and k["status"] == "open":
                    known[k["id"]] = k
    return known


def prune():
    """Keeps the build directories of the three most recent source trees."""
    try:
        ds = [os.path.join(TARGET, d) for d in os.listdir(TARGET) if re.fullmatch(r"[0-9a-f]{12}", d)]
    except FileNotFoundError:
        return
    now = time.time()
    ds.sort(key=lambda d: os.path.getmtime(d), reverse=True)
    for d in ds[3:]:
        if now - os.path.getmtime(d) > 3600:
            shutil.rmtree(d, ignore_errors=True)
