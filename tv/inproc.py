"""Building and running harness/inproc: the derive as an ordinary function."""
import concurrent.futures as cf
import os
import re

from tv import core
from tv.core import Inconclusive, run_cmd

DIR = os.path.join(core.VERIF, "harness", "inproc")


def build(ctx, full, toolchain="stable", rustflags="", target=None):
    t = os.path.join(ctx.base, "t-inproc%s-%s%s" % ("-full" if full else "", toolchain, "-f" if rustflags else ""))
    # Cargo.lock is committed; --locked keeps cargo from touching it.
    cmd = ["cargo", "build", "--offline", "--locked"] + (["--features", "full"] if full else [])
    if target:
        cmd += ["--target", target]
    rc, out, err = run_cmd(cmd, cwd=DIR, timeout=800, env={
        "CARGO_TARGET_DIR": t, "RUSTFLAGS": ("--cfg thiserror_verif " + rustflags).strip(), "RUSTUP_TOOLCHAIN": toolchain})
    if rc != 0:
        raise Inconclusive("the in-process harness does not build: " + err[-1500:])
    return os.path.join(t, target or "", "debug", "inproc")


def build_all(ctx, fulls=(False, True)):
    with cf.ThreadPoolExecutor(2) as ex:
        return list(ex.map(lambda f: build(ctx, f), fulls))


def unesc(s):
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "r": "\r"}.get(m.group(1), m.group(1)), s)
