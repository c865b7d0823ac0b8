"""C19: definitions produced by macro_rules behave like written ones."""
import os

from tv import core, corpus, defs, errs, macros
from tv.core import NIGHTLY_PROVIDE, Case, Config
from tv.props import c01, c02, c03, c05, c06, c07, c08, c09, c10, c16, c17


def wrapped(ctx, label, case, keep=None):
    r = ctx.sub_rng("split-" + label)
    code = macros.rewrite(r, case.code, ctx.splits, accept=keep)
    if code is None:
        ctx.count("cases_without_a_definition")
        return None
    return Case(label, code, case.desc, case.known)


# Restrictions under which single mechanisms are exercised alone.
FOCUS = [
    None, None, None, None,
    lambda n, k: k == "ident", lambda n, k: k in ("ty", "path"), lambda n, k: k in ("tt", "ident"),
    lambda n, k: k in ("literal", "expr"), lambda n, k: k == "expr", lambda n, k: n.role in ("type", "param", "lifetime", "segment"),
    lambda n, k: n.role in ("message", "member", "field name"), lambda n, k: n.role in ("member",), lambda n, k: n.role == "field name",
    lambda n, k: n.role == "message", lambda n, k: n.role in ("attribute name", "meta", "attr", "transparent", "fmt path"),
    lambda n, k: k == "tokens", lambda n, k: n.role in ("arg", "operand", "named arg", "args"), lambda n, k: k != "tokens",
]


ARGS = lambda n, k: n.role in ("member", "arg", "operand", "named arg", "arg name", "literal", "message", "len") and k != "tokens" or n.role in ("fields", "error args")


def compile_and_run(ctx, name, cfg, cases, header="", **kw):
    for k in range(0, len(cases), 2500):
        ctx.run_cases(cfg, cases[k:k + 2500], name="%s%d" % (name, k // 2500), bins=8, header=header, **kw)
    ctx.log(name, len(cases))


def elsewhere(ctx, name, edition, cfg, cases, header, **kw):
    """The macros are in a crate of their own with another edition."""
    export, mine = [], []
    for i, c in enumerate(cases):
        r = ctx.sub_rng("%s-%d" % (name, i))
        code = macros.rewrite(r, c.code, ctx.splits, prefix="%s_" % c.id, export=export, accept=FOCUS[i % len(FOCUS)])
        if code is not None:
            mine.append(Case(c.id, code, c.desc))
    d = os.path.join(ctx.base, "mac-" + name)
    core.write_if_changed(os.path.join(d, "Cargo.toml"), '[package]\nname = "mac"\nversion = "0.0.0"\nedition = "%s"\n[workspace]\n' % edition)
    core.write_if_changed(os.path.join(d, "src/lib.rs"), "\n".join(export) + "\n")
    cfg.deps = cfg.deps + ('mac = { path = "%s" }' % d,)
    ctx.run_cases(cfg, mine, name=name, bins=8, header=header, **kw)
    ctx.count("cases_with_macros_of_edition_" + edition, len(mine))
    ctx.log(name, len(mine))


def run(ctx):
    ctx.splits = {}
    ctx.rule = ("one case = one definition of the other checks, of which a random selection of pieces is passed as fragments through one to three "
                "levels of macro_rules macros (in the same crate, or in a crate of another edition); the monitors compare it with its handwritten "
                "twin; non-trivial = distinct traces of the twin or answers")
    ctx.extra["pieces_by_role_and_fragment"] = ctx.splits
    q = ctx.scale
    srcs = errs.sources()
    more = srcs + c06.more("vs::Leaf")
    psrcs = errs.sources("crate::PErr")
    feature = ["#![feature(error_generic_member_access)]"]
    aliases = c06.ALIASES % {"base": "vs::Leaf"} + c06.OWN
    rec = {"run_env": {"RUST_LIB_BACKTRACE": "1"}}
    kinds = {
        "msg": (lambda r, i: c01.random_case(r, i), "", {}),
        "arg": (lambda r, i: c02.case(r, i), "", {}),
        "dis": (lambda r, i: defs.display_enum(r, i) if r.random() < 0.8 else c03.similar(r, i), "", {}),
        "src": (lambda r, i: c05.case(r, i, srcs), "", {}),
        "tra": (lambda r, i: c07.mixed(r, i, more), aliases, {}),
        "frm": (lambda r, i: c08.case(r, i, False), c08.FULL, rec),
        "gen": (lambda r, i: c10.definition(r, i), c10.HEADER, {}),
        "pth": (lambda r, i: c17.case(r, i), c17.HEADER, {}),
        "btr": (lambda r, i: c09.case(r, i, psrcs), errs.PROVIDER + errs.FORWARDS + c09.HEADER, {}),
        "bts": (lambda r, i: c05.case(r, i, srcs, "std::backtrace::Backtrace"), "", {}),
        "btf": (lambda r, i: c08.case(r, i, True), c08.FULL, rec),
    }

    def batch(name, kind, n, **conf):
        make, header, kw = kinds[kind]
        if kind.startswith("bt"):
            conf.setdefault("toolchain", NIGHTLY_PROVIDE)
            conf["attrs"] = feature
        cs = []
        for i in range(n):
            label = "%s%04d" % (name, i)
            c = wrapped(ctx, label, make(ctx.sub_rng(label), label), ARGS if kind == "arg" and i % 3 == 0 else FOCUS[i % len(FOCUS)])
            if c:
                cs.append(c)
        compile_and_run(ctx, name, Config(deps=c05.DEPS, **conf), cs, header, **kw)

    for kind, quick, thorough in (("msg", 700, 6000), ("arg", 1000, 8000), ("dis", 500, 4000), ("src", 300, 2500), ("tra", 300, 2500),
                                  ("frm", 250, 2000), ("gen", 300, 2500), ("pth", 200, 1500), ("btr", 300, 2500), ("bts", 150, 1200), ("btf", 150, 1200)):
        batch(kind, kind, q(quick, thorough))
    # Corner cases which the other checks list.
    by = {}
    for t in corpus.taps(ctx, ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C17"], 0.004):
        if not t.case.known:
            by.setdefault((t.cfg.toolchain, t.header, tuple(t.cfg.attrs)), []).append((t.prop, t.case))
    for k, ((tool, header, attrs), cs) in enumerate(sorted(by.items(), key=lambda x: x[0])):
        ctx.sub_rng("taps%d" % k).shuffle(cs)
        mine = []
        for i, (prop, c) in enumerate(cs[:q(150, 5000)]):
            w = wrapped(ctx, "t%02d_%s_%s" % (k, prop.lower(), c.id), c, FOCUS[i % len(FOCUS)])
            if w:
                mine.append(w)
        if mine:
            compile_and_run(ctx, "tap%d" % k, Config(toolchain=tool, deps=c05.DEPS, attrs=attrs), mine, header, **(rec if "Tracked" in header else {}))
    # Macros of another crate and edition.
    n = q(40, 400)
    for at, (macro, user) in enumerate((("2015", "2021"), ("2018", "2021"), ("2024", "2021"), ("2021", "2024"), ("2015", "2024"), ("2024", "2018"), ("2021", "2015"))):
        for kind in ("msg", "arg", "dis", "src", "frm", "btr"):
            if not ctx.thorough and kind in (("msg", "src", "btr"), ("arg", "dis", "frm"))[at % 2] or kind == "btr" and "2024" in (macro, user):
                continue
            make, header, kw = kinds[kind]
            name = "x%d%s" % (at, kind)
            cs = [make(ctx.sub_rng("%s%d" % (name, i)), "%s%04d" % (name, i)) for i in range(n)]
            if user == "2015":
                # There, ::core is a module of the crate.
                cs = [Case(c.id, c.code.replace("::core::option", " core::option"), c.desc) for c in cs]
            conf = {"toolchain": NIGHTLY_PROVIDE, "attrs": feature} if kind == "btr" else {}
            elsewhere(ctx, name, macro, Config(edition=user, deps=c05.DEPS, **conf), cs, (c16.ROOT2015 + "extern crate mac;\n" if user == "2015" else "") + header, **kw)
