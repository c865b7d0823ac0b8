"""C12: the derive never panics or hangs, and its output always parses."""
import concurrent.futures as cf
import os
import re

from tv import core, corpus, inproc
from tv.core import Case, Config, Inconclusive, Violation, run_cmd

# Definitions made to be awkward for the parsers of attributes and messages.
PIECES = {
    "message": ['"{self}"', '"{self:?} {self}"', '"{_}"', '"{__}"', '"{"', '"}"', '"{{}"', '"{:"', '"{0"', '"{x"', '"{x:"', '"{é}"', '"{\\u{80}}"', '"{日本}"', '"{\\u{301}}"',
                '"{\\u{1F600}}"', '"{r#x}"', '"{r#type}"', '"{type}"', '"{crate}"', '"{super}"', '"{Self}"', '"{fn}"', '"{4294967295}"', '"{4294967296}"', '"{99999999999999999999}"',
                '"{00}"', '"{x:é<5}"', '"{x:\\u{1F600}^5}"', '"{x:}>5}"', '"{x:{<5}"', '"{x:>}"', '"{x:1$}"', '"{x:.*}"', '"{x:w$.p$}"', '"{x:?é}"', '"{x:é}"', '"{x }"', '"{x\\t}"', '"{x:? }"',
                '"{x\\u{2028}}"', '"{x\\u{85}}"', '"{\\u{a0}x}"', '"{x\\u{200e}}"', '"{x:?\\u{2003}}"', '"\\u{feff}{x}"', '"{x!r}"', '"{x.y}"', '"{x[0]}"', '"{x::y}"', '"{ x}"', '"{-1}"', '"{0.1}"', '"{0x1}"', '"{1_0}"',
                'r"{x}"', 'r#"{x}"#', 'r###"{"#{x}##}"###', '"\\\n  {x}"', '"{x}" "{y}"', 'b"{x}"', 'c"{x}"', "'x'", '1', 'concat!("a", "{x}")', '("{x}")', '"{x}",', '"{x}",,', '"{x}" x', '"{x}".y', '"", x', '""', '"\\0{x}"',
                '"{x:0$}", 1', '"{:1$}", .x, .x', '"{:.*}", 1, .x', '"{0}", x = 1', '"{0}{1}", .x', '"{}{0}", .x', '"{x}", x = .x', '"{x}", r#x = .x', '"{type}", r#type = 1', '"{self}", self = 1', '"{crate}", crate = 1',
                '"{x}", x', '"{x}", x =', '"{x}", = 1', '"{x}", x = = 1', '"{x}", x == 1', '"{x}", x => 1', '"{x}", x = 1, x = 2', '"{x}", 1, , 2', '"{}", ..', '"{}", .', '"{}", .x.', '"{}", .x..', '"{}", ...', '"{}", .0.', '"{}", .0.0.0',
                '"{}", .0x1', '"{}", .1e5', '"{}", .0.1e5', '"{}", .0u8', '"{}", .0.1f32', '"{}", .4294967296', '"{}", .0.4294967296', '"{}", .00', '"{}", .0_1', '"{}", .99999999999999999999.1', '"{}", .r#x', '"{}", .self', '"{}", .crate',
                '"{}", ._', '"{}", .x!()', '"{}", .(x)', '"{}", .[0]', '"{}", .{x}', '"{}", ."x"', "\"{}\", .'x'", "\"{}\", 'a", "\"{}\", 'a: .x", "\"{}\", break 'a .x", '"{}", -', '"{}", &', '"{}", &&', '"{}", * *', '"{}", !', '"{}", ? ?',
                '"{}", if', '"{}", if .x', '"{}", if .x {', '"{}", if .x { 1 }', '"{}", if .x { 1 } else', '"{}", if if if .x {1} {2} {3}', '"{}", else { 1 }', '"{}", match', '"{}", match .x', '"{}", match .x { }', '"{}", match match .x {} {}',
                '"{}", for', '"{}", for<', '"{}", for<\'a>', '"{}", for x', '"{}", for x in', '"{}", while let', '"{}", let', '"{}", let x =', '"{}", let _ = .x else {}', '"{}", |', '"{}", ||', '"{}", |x', '"{}", |x| |y| |z|', '"{}", move', '"{}", || -> ',
                '"{}", || -> u8', '"{}", || -> u8 {}', '"{}", async', '"{}", async move async', '"{}", static || 1', '"{}", const', '"{}", const { .x }', '"{}", unsafe', '"{}", loop', '"{}", return', '"{}", return return .x', '"{}", yield', '"{}", break', '"{}", continue',
                '"{}", .x as', '"{}", .x as u8 as', '"{}", .x as u8 <', '"{}", .x as <', '"{}", .x as dyn A + B', '"{}", .x as impl Fn() -> u8', '"{}", .x as fn(u8', '"{}", .x as [u8; 1', '"{}", .x as (u8 u8)', '"{}", .x as [u8; 1 2]', '"{}", .x as _', '"{}", .x as !',
                '"{}", Vec::<(u8 u8)>::new()', '"{}", <(u8 u8)>::f()', '"{}", .x.f::<(u8 u8)>()', '"{}", || -> (u8 u8) { 1 }', '"{}", <', '"{}", <T', '"{}", <T as', '"{}", <T as U>', '"{}", <T as U>::', '"{}", a::', '"{}", ::', '"{}", a::<', '"{}", a::<{ 1 2 }>()', '"{}", a::<-1>()', '"{}", a::<\'a>()',
                '"{}", #', '"{}", #[', '"{}", #[a]', '"{}", #[a] .x', '"{}", #![a] .x', '"{}", @', '"{}", $x', '"{}", ~', '"{}", ;', '"{}", =>', '"{}", ->', '"{}", >', '"{}", =', '"{}", ==', '"{}", x = ', '"{}", x =, y',
                '"{}", a!', '"{}", a![', '"{}", a! x {}', '"{}", macro_rules! x {}', '"{}", S { x: .x, ..', '"{}", S { .. }', '"{}", &raw', '"{}", &raw const', '"{}", &raw mut mut', '"{}", &mut', '"{}", box .x', '"{}", do yeet .x', '"{}", try { .x }', '"{}", builtin # x(.x)',
                '"{}", { struct S; .x }', '"{}", { trait T {} }', '"{}", { mod m; }', '"{}", { #![a] }', '"{}", []', '"{}", [.x;]', '"{}", [;]', '"{}", (,)', '"{}", (.x .x)', '"{}", .x .x', '"{}", 1 2', '"{}", "a" "b"', '"{}", x y', '"{}", .x { }', '"{}", .x (', '"{}", .x?.y?', '"{}", .x.await', '"{}", .x.await.', '"{}", .x . 0 . 1 . y', '"{}", 1. .x', '"{}", 1..x', '"{}", 1...x', '"{}", 0.0.0', '"{}", x.0.0.0',
                'transparent', 'transparent,', 'transparent()', 'transparent = 1', 'transparent transparent', 'r#transparent', 'fmt', 'fmt =', 'fmt = ', 'fmt = f', 'fmt = f,', 'fmt = f()', 'fmt = f, 1', 'fmt = "f"', 'fmt = f::<', 'fmt = f::<u8>', 'fmt = <S as T>::f', 'fmt = <S>', 'fmt = |x, f| f.pad("")', 'fmt = { f }', 'fmt = (f)', 'fmt = .x', 'fmt = crate', 'fmt = try', 'fmt = try::f', 'fmt = self', 'fmt = Self', 'fmt = Self::f', 'fmt = super::f', 'fmt = ::f', 'fmt = a::r#fn', 'fmt = fn', 'fmt = _', 'fmt = f::<(u8 u8)>', 'fmt = f::<{ 1 2 }>', 'fmt == f', 'fmt = fmt = f', 'r#fmt = f',
                '', ',', 'x', 'self', '{}', '[]', '()', '""""', '-', '#', 'true', 'error', 'source'],
    "attr": ["source", "source()", "source(x)", "source = 1", 'source = "x"', "source[]", "source{}", "r#source", "from", "from()", "from(u8)", "from = u8", "backtrace", "backtrace()", "backtrace = true", "error", "error()", 'error("x")', "error = \"x\"", 'error["x"]', 'error{"x"}', "error::x", "r#error(\"x\")", "std::error(\"x\")", "source from", "error(", "unknown", "source::from"],
    "field": ["x: u8", "source: X", "r#source: X", "source: Option<X>", "source: Option<", "source: Box<dyn X + 'static>", "source: &'static X", "source: &'a X", "source: X<'a>", "source: X<'_>", "source: [X; { 1 }]", "source: (X,)", "source: fn(X) -> X", "source: impl X", "source: dyn X", "source: _", "source: !", "source: *const X", "source: m!()", "source: <X as Y<'a>>::Z", "source: [X]", "source: Option", "source: Option<X, Y>", "source: Option<'a>", "source: Option<>", "source: Option()", "source: Option(X) -> Y", "source: ::std::option::Option<X>", "source: Option::<X>", "source: X::Option<Y>", "source: for<'b> fn(&'b X)", "source: dyn for<'b> X<'b>", "source: X<{ 1 }>", "source: X<-1>", "source: X<Y = Z>", "source: X<Y: Z>", "source: X<Y<'a> = Z>", "backtrace: Backtrace", "backtrace: std::backtrace::Backtrace", "bt: Arc<Backtrace>", "é: u8", "r#type: u8", "_x: u8", "__field_x: u8", "self_: u8", "日本: PathBuf", "x: Backtrace<'a>", "x: (Backtrace)", "x: Path", "pub x: u8", "pub(crate) x: u8", "crate x: u8"],
}
GENERICS = ["", "<T>", "<'a>", "<'a, T: 'a + ?Sized = u8>", "<const N: usize>", "<const N: usize = { 1 + 2 }>", "<T, const N: usize, U>", "<T: for<'b> Fn(&'b u8) -> u8>", "<>", "<T,>", "<#[a] T>", "<T: ?Sized + 'static>", "<r#type>", "<T: A<B = C> + D<E: F>>", "<'a: 'b, 'b>"]
WHERE = ["", "where T: Copy", "where", "where T:", "where for<'b> T: A<'b>,", "where 'a: 'b", "where [u8; 1]: A, (T,): B", "where Self: Sized"]


def hand(rng, n):
    """Definitions put together from the pieces, each piece used at least once."""
    out = []
    F = PIECES["field"]

    def attr(x):
        return "#[error(%s)]" % x

    def field(rng, f=None, named=True):
        a = "".join("#[%s] " % rng.choice(PIECES["attr"]) for _ in range(rng.choice([0, 0, 0, 1, 1, 2])))
        f = f or rng.choice(F)
        return a + (f if named else f.split(": ", 1)[1] if ": " in f else f)

    def one(rng, msg=None, at=None, fld=None):
        g, w = rng.choice(GENERICS) if rng.random() < .5 else "", rng.choice(WHERE) if rng.random() < .3 else ""
        name = rng.choice(["E", "E", "E", "r#E", "É", "Option", "Error", "r#type", "core"])
        m = attr(msg if msg is not None else rng.choice(PIECES["message"]))
        if at:
            m = rng.choice([m, ""]) + " #[%s]" % at
        kind = rng.choice(["s", "s", "t", "e", "e", "e", "u", "n"])

        def fields(named):
            k = rng.choice([0, 1, 1, 2, 3])
            xs = [field(rng, named=named) for _ in range(k)]
            if fld:
                xs.insert(rng.randrange(len(xs) + 1), field(rng, fld, named))
            return ", ".join(xs) + rng.choice(["", ","] if xs else [""])
        if kind == "s":
            return "%s pub struct %s%s %s { %s }" % (m, name, g, w, fields(True))
        if kind == "t":
            return "%s pub struct %s%s(%s) %s;" % (m, name, g, fields(False), w)
        if kind == "u":
            return "%s pub union %s%s %s { %s }" % (m, name, g, w, fields(True) or "x: u8")
        if kind == "n":
            return "%s pub struct %s%s %s;" % (m, name, g, w)
        vs = []
        for i in range(rng.choice([0, 1, 2, 4])):
            a = attr(rng.choice(PIECES["message"])) if rng.random() < .5 else ""
            if rng.random() < .2:
                a += " #[%s]" % rng.choice(PIECES["attr"])
            shape = rng.choice(["n", "t", "u"])
            vs.append(a + " V%d%s" % (i, {"n": " { %s }" % fields(True), "t": "(%s)" % fields(False), "u": ""}[shape]) + rng.choice(["", "", " = 7"]))
        if rng.random() < .6:
            vs.append("%s W%s" % (m, rng.choice(["", "(%s)" % fields(False), " { %s }" % fields(True)])))
            m = attr(rng.choice(PIECES["message"])) if rng.random() < .3 else ""
        return "%s pub enum %s%s %s { %s }" % (m, name, g, w, ", ".join(vs))

    for m in PIECES["message"]:
        for k in range(6):
            out.append(one(rng, msg=m))
    for a in PIECES["attr"]:
        for k in range(4):
            out.append(one(rng, at=a))
    for f in F:
        for k in range(4):
            out.append(one(rng, fld=f))
    for i in range(n):
        out.append(one(rng))
    out.append("pub enum E { #[error(fmt = try)] A }")
    return out


def families(scale):
    """Definitions which grow: (name, [(size, text)])."""
    def grow(name, sizes, f):
        return name, [(int(n), f(int(n))) for n in sizes]
    big = [x * scale for x in (100, 400, 1600)]
    mid = [x * scale for x in (25, 100, 400)]
    deep = [10, 40, 120]
    S = '#[error(%s)] pub struct E { x: u8 }'
    T = '#[error(%s)] pub struct E(u8);'
    out = [
        grow("placeholders", big, lambda n: S % ('"' + "{x:?} " * n + '"')),
        grow("positional placeholders", big, lambda n: T % ('"' + "{0:?} " * n + '"')),
        grow("escapes", big, lambda n: S % ('"' + "{{}}" * n + '"')),
        grow("open braces", big, lambda n: S % ('"' + "{" * (2 * n + 1) + '"')),
        grow("open placeholders", big, lambda n: S % ('"' + "{x:" * n + '"')),
        grow("close braces", big, lambda n: S % ('"' + "}" * n + '"')),
        grow("long text", big, lambda n: S % ('"' + "abcdefghi " * n + '"')),
        grow("long non-ascii text", big, lambda n: S % ('"' + "日本é{x}" * n + '"')),
        grow("long identifier", big, lambda n: S % ('"{' + "x" * n + '}"')),
        grow("long non-ascii identifier", big, lambda n: S % ('"{' + "é" * n + '}"')),
        grow("long number", big, lambda n: T % ('"{' + "1" * n + '}"')),
        grow("long format spec", big, lambda n: S % ('"{x:' + "0" * n + '}"')),
        grow("unknown names", mid, lambda n: S % ('"' + "".join("{a%d}" % i for i in range(n)) + '"')),
        grow("positional arguments", mid, lambda n: S % ('"", ' + ", ".join(".x" for i in range(n)))),
        grow("named arguments", mid, lambda n: S % ('"' + "".join("{a%d}" % i for i in range(n)) + '", ' + ", ".join("a%d = .x" % i for i in range(n)))),
        grow("arguments that do not parse", mid, lambda n: S % ('"", ' + ", ".join("a%d = } .x".replace("}", "@") % i for i in range(n)))),
        grow("operators", mid, lambda n: S % ('"{}", .x' + " + .x" * n)),
        grow("unary", mid, lambda n: S % ('"{}", ' + "!-*&" * n + ".x")),
        grow("ranges", mid, lambda n: S % ('"{}", ' + ".." * n + " .x")),
        grow("dots", mid, lambda n: S % ('"{}", ' + ". " * n + "x")),
        grow("chains", mid, lambda n: S % ('"{}", .x' + ".f()" * n)),
        grow("turbofish chains", mid, lambda n: S % ('"{}", .x' + ".f::<A<B, C>>()?" * n)),
        grow("casts", mid, lambda n: S % ('"{}", .x' + " as A<B<C>>" * n)),
        grow("closures", mid, lambda n: S % ('"{}", ' + "|x| " * n + ".x")),
        grow("closures with types", mid, lambda n: S % ('"{}", ' + "|x: A<B, C>| -> D<E> { 1 } | " * n + ".x")),
        grow("if if if", mid, lambda n: S % ('"{}", ' + "if " * n + ".x" + " { 1 } else { 2 }" * n)),
        grow("if else if", mid, lambda n: S % ('"{}", ' + "if .x { 1 } else " * n + "{ 2 }")),
        grow("unfinished if", mid, lambda n: S % ('"{}", ' + "if " * n)),
        grow("match match", mid, lambda n: S % ('"{}", ' + "match " * n + ".x" + " { _ => 1 }" * n)),
        grow("for", mid, lambda n: S % ('"{}", ' + "for x in " * n + ".x" + " {}" * n)),
        grow("let chains", mid, lambda n: S % ('"{}", if ' + " && ".join("let A(_, b @ 1..=2 | 3) = .x" for _ in range(n)) + " { 1 } else { 2 }")),
        grow("paths", mid, lambda n: S % ('"{}", a' + "::b::<C, D>" * n)),
        grow("comparisons like generics", mid, lambda n: S % ('"{}", a' + " < b" * n + " > c" * n)),
        grow("macros", mid, lambda n: S % ('"{}", ' + ", ".join("a!(.x, b![.x])" for _ in range(n)))),
        grow("attributes on expressions", mid, lambda n: S % ('"{}", ' + "#[a] " * n + ".x")),
        grow("fields", mid, lambda n: '#[error("%s")] pub struct E { %s }' % ("".join("{f%d}" % i for i in range(n)), ", ".join("f%d: u8" % i for i in range(n)))),
        grow("tuple fields", mid, lambda n: '#[error("%s")] pub struct E(%s);' % ("".join("{%d}" % i for i in range(n)), ", ".join("u8" for i in range(n)))),
        grow("generic fields", mid, lambda n: '#[error("%s")] pub struct E<%s> { %s }' % (
            "".join("{f%d}{f%d:?}" % (i, i) for i in range(n)), ", ".join("T%d: Copy" % i for i in range(n)), ", ".join("f%d: A<T%d>" % (i, i) for i in range(n)))),
        grow("variants", mid, lambda n: "pub enum E { %s }" % ", ".join('#[error("{x}", x = .0)] V%d(#[from] T%d)' % (i, i) for i in range(n))),
        grow("variants with fields", mid, lambda n: '#[error("{x:?}{x}")] pub enum E { %s }' % ", ".join('V%d { x: u8, source: T%d }' % (i, i) for i in range(n))),
        grow("attributes", mid, lambda n: '#[error("x")] pub struct E { %s #[source] x: u8 }' % ("#[doc = \"x\"] #[cfg_attr(a, b)] " * n)),
        grow("where-clauses", mid, lambda n: '#[error("{x}")] pub struct E<T> where %s { x: T }' % ", ".join("T: A%d<B>" % i for i in range(n))),
        # Nested ones stay at depths at which the compiler itself works.
        grow("parentheses", deep, lambda n: S % ('"{}", ' + "(" * n + ".x" + ")" * n)),
        grow("braces", deep, lambda n: S % ('"{}", ' + "{" * n + ".x" + "}" * n)),
        grow("brackets", deep, lambda n: S % ('"{}", ' + "[" * n + ".x" + "]" * n)),
        grow("mixed delimiters", deep, lambda n: S % ('"{}", ' + "([{" * (n // 3) + ".x" + "}])" * (n // 3))),
        grow("calls", deep, lambda n: S % ('"{}", ' + "f(.x, " * n + "1" + ")" * n)),
        grow("nested generics", deep, lambda n: S % ('"{}", ' + "a::<" * n + "u8" + ">" * n + "()")),
        grow("nested qualified paths", deep, lambda n: S % ('"{}", ' + "<" * n + "u8" + " as T>::A" * n)),
        grow("nested cast types", deep, lambda n: S % ('"{}", .x as ' + "A<" * n + "u8" + ">" * n)),
        grow("nested tuple casts", deep, lambda n: S % ('"{}", .x as ' + "(" * n + "u8" + ",)" * n)),
        grow("nested fn casts", deep, lambda n: S % ('"{}", .x as ' + "fn(" * n + "u8" + ") -> u8" * n)),
        grow("nested blocks in generics", [4, 8, 16, 32], lambda n: S % ('"{}", ' + "a::<{" * n + "1" + "}>()" * n)),
        grow("nested arrays in casts", [4, 8, 16, 32], lambda n: S % ('"{}", .x as ' + "[u8; { 1 as " * n + "u8" + "}]" * n)),
        grow("nested closures", deep, lambda n: S % ('"{}", ' + "|x| -> u8 { " * n + ".x" + " }" * n)),
        grow("nested ifs", deep, lambda n: S % ('"{}", ' + "if { " * n + ".x" + " } { 1 } else { 2 }" * n)),
        grow("nested field types", deep, lambda n: '#[error("{x}")] pub struct E<T> { x: ' + "A<" * n + "T" + ">" * n + " }"),
        grow("nested references", deep, lambda n: '#[error("{x}")] pub struct E<T> { x: ' + "&'static " * n + "T }"),
        grow("nested source types", deep, lambda n: "#[error(\"x\")] pub struct E<'a> { source: " + "Option<Box<" * n + "X<'a>" + ">>" * n + " }"),
        grow("nested options", deep, lambda n: "#[error(\"x\")] pub struct E { #[from] source: " + "Option<" * n + "X" + ">" * n + " }"),
        grow("fmt path", mid, lambda n: "pub enum E { #[error(fmt = a" + "::b" * n + ")] A }"),
        grow("fmt path with generics", deep, lambda n: "pub enum E { #[error(fmt = " + "a::<" * n + "u8" + ">" * n + ")] A }"),
    ]
    return out


def run(ctx):
    ctx.rule = ("one evaluation = one definition expanded in this process by the derive's own entry point under a panic and CPU-time monitor, with the output parsed and its "
                "impls compared with the input; inputs are mutations of the other checks' definitions, pieces made to be awkward, growing families, plus mutated attributes handed to "
                "the real compiler; non-trivial = distinct outputs")
    ctx.assumptions = ["an input counts if both the derive's parser and a full parser of the language take it as a struct, enum or union",
                       "nesting deeper than 120 levels is out of scope: the compiler's own recursion limit is near", "promptly = below 4 s of processor time in an unoptimised build"]
    exes = inproc.build_all(ctx)
    ctx.log("built")
    cs = corpus.taps(ctx, ["C01", "C02", "C03", "C05", "C08", "C09", "C10", "C11"], ctx.scale(0.15, 1))
    rng = ctx.sub_rng("hand")
    hands = hand(rng, ctx.scale(3000, 20000))
    texts = [t.case.code for t in cs] + ["#[derive(Debug, thiserror::Error)] " + h for h in hands]
    cpath = os.path.join(ctx.base, "corpus.txt")
    os.makedirs(ctx.base, exist_ok=True)
    corpus.write(cpath, texts)
    fams = families(ctx.scale(1, 2))
    fpath = os.path.join(ctx.base, "families.txt")
    flat = [(name, n, t) for name, sizes in fams for n, t in sizes]
    corpus.write(fpath, [t for _, _, t in flat])
    hpath = os.path.join(ctx.base, "hand.txt")
    corpus.write(hpath, hands)
    jobs = []
    for k in range(ctx.scale(2, 4)):
        for full, exe in ((False, exes[0]), (True, exes[1])):
            seed = ctx.seed * 1000 + k * 2 + full
            jobs.append(("fuzz", exe, full, [cpath, str(seed), str(ctx.scale(60000, 900000)), os.path.join(ctx.base, "progress%d" % seed)]))
    for full, exe in ((False, exes[0]), (True, exes[1])):
        jobs.insert(0, ("families", exe, full, [fpath]))
        jobs.insert(0, ("hand", exe, full, [hpath]))

    def go(j):
        kind, exe, full, args = j
        try:
            return run_cmd([exe, "fuzz" if kind == "fuzz" else "check"] + args, timeout=ctx.scale(400, 1800), cpu=ctx.scale(380, 1700))
        except Inconclusive as e:
            return None, "", str(e)

    def bad(full, kind, text, why):
        c = Case("x%d" % len(ctx.violations), "", desc=text)
        if full and why.startswith("KNOWN-TRY ") and "D16" in ctx.known:
            ctx.known_hit.setdefault("D16", (c, kind, why))
            return
        ctx.violation(Violation(c, "%s, parser %s" % (kind, "full" if full else "default"), why + "\ninput: " + text))

    def died(full, exe, kind, text, rc, err):
        """The process ended during an expansion: again with only this one."""
        p = os.path.join(ctx.base, "again%d.txt" % len(ctx.violations))
        corpus.write(p, [text])
        rc2, out2, err2 = run_cmd([exe, "check", p], timeout=120, cpu=100)
        if rc2 != 0 or " bad " in out2:
            bad(full, kind, text, "the process died (%s): %s" % (rc2, (out2 + err2)[-500:]))
        else:
            raise Inconclusive("the fuzzing process died (%s): %s" % (rc, err[-500:]))

    with cf.ThreadPoolExecutor(8) as ex:
        results = list(zip(jobs, ex.map(go, jobs)))
    for (kind, exe, full, args), (rc, out, err) in results:
        if rc is None:
            raise Inconclusive(err)
        stat = None
        hang = None
        current = None
        for line in out.splitlines():
            if line.startswith("@@BAD "):
                why, text = line[6:].split("\x01", 1)
                bad(full, kind, inproc.unesc(text), inproc.unesc(why))
            elif line.startswith("@@HANG "):
                hang = inproc.unesc(line[7:])
                bad(full, kind, hang, "expansion does not end")
            elif line.startswith("@@STAT "):
                stat = dict(x.split("=") for x in line[7:].split())
            elif line.startswith("@@T "):
                ctx.traces.add(line[4:])
            elif line.startswith("@@SAMPLE ") and len(ctx.samples) < 6:
                ctx.samples.append(inproc.unesc(line[9:])[:600])
            elif line.startswith("@@M "):
                ms = int(line.split()[2])
                if ms > ctx.extra.get("slowest_ms", {"ms": -1})["ms"]:
                    i = int(line.split()[1])
                    ctx.extra["slowest_ms"] = {"ms": ms, "what": "%s of size %d" % flat[i][:2] if kind == "families" else "hand"}
            elif line.startswith("@@I "):
                current = int(line[4:])
            elif line.startswith("@@R "):
                i, what = line[4:].split(" ", 1)
                texts = hands if kind == "hand" else [t for _, _, t in flat]
                if what.startswith("bad "):
                    bad(full, kind, texts[int(i)], inproc.unesc(what[4:]))
                elif what.startswith(("ok", "error")):
                    ctx.evaluations += 1
                    ctx.count(kind + "_" + what.split()[0])
                    ctx.traces.add(what.split()[-1])
                else:
                    ctx.count(kind + "_" + what.split()[0])
                current = None
        if stat:
            for k, v in stat.items():
                if k not in ("distinct", "messages"):
                    ctx.count("fuzz_" + k, int(v))
            ctx.evaluations += int(stat["inputs"])
            ctx.extra["distinct_error_messages"] = max(ctx.extra.get("distinct_error_messages", 0), int(stat["messages"]))
        elif hang is None and kind == "fuzz":
            with open(args[3], "rb") as f:
                died(full, exe, kind, f.read().split(b"\0", 1)[0].decode("utf8", "replace"), rc, err)
        elif hang is None and rc != 0:
            texts = hands if kind == "hand" else [t for _, _, t in flat]
            if current is None:
                raise Inconclusive("the monitor died: " + err[-500:])
            died(full, exe, kind, texts[current], rc, err)
    ctx.log("in-process done")
    compiler(ctx, exes[0], cpath, hands)


def compiler(ctx, exe, cpath, hands):
    """Mutated attributes, and the awkward pieces, through the real compiler."""
    n = ctx.scale(1200, 12000)
    rc, out, err = run_cmd([exe, "mutants", cpath, str(ctx.seed), str(n)], timeout=300)
    if rc != 0:
        raise Inconclusive("no mutants: " + err[-500:])
    texts = [inproc.unesc(l[4:]) for l in out.splitlines() if l.startswith("@@D ")]
    # What the compiler's own parser refuses keeps the derive from being run:
    # the in-process parse has filtered most of it.
    rng = ctx.sub_rng("pick")
    cfg = Config()
    ctx.configs.append(cfg.name())
    pending = [("g%d" % i, texts[i:i + 40]) for i in range(0, len(texts), 40)]
    expanded = 0
    for rnd in range(3):
        files, tables = {}, {}
        for b, ts in pending:
            L = ["#![allow(warnings)]", "fn main() {}"]
            table = []
            for i, t in enumerate(ts):
                first = len(L) + 1
                L.append("mod m%d { use crate::*; #[derive(thiserror::Error)]" % i)
                L += t.splitlines()
                L.append("}")
                table.append((first, len(L), i))
            # A known error by the derive, which shows that derives were run.
            L += ["mod canary {", "#[derive(thiserror::Error)]", "#[error(canary)] pub struct E;", "}"]
            files["src/%s.rs" % b] = "\n".join(L) + "\n"
            tables[b] = (table, len(L) - 1, ts)
        d = ctx.crate("rustc%d" % rnd, cfg, sorted(tables), files)
        ok, msgs, exes, err = ctx.build(cfg, d)
        alive = set()
        for j in msgs:
            m = j["message"]
            b = j["target"]["name"]
            if b not in tables:
                if not m["level"].startswith("error"):
                    continue
                raise Inconclusive("error outside the workload: " + (m["rendered"] or m["message"])[:1000])
            table, canary, ts = tables[b]
            text = m["message"] + " " + " ".join(c["message"] for c in m.get("children", []))
            if any(s["line_start"] == canary and s["file_name"].endswith("%s.rs" % b) for s in m["spans"]):
                alive.add(b)
            if "internal compiler error" in m["level"] + text:
                ctx.count("compiler_ice")
            if "derive panicked" in text or "produced unparsable tokens" in text:
                i = core.blame(m, table, "src/%s.rs" % b)
                c = Case("rustc_%s_%s" % (b, i), "#[derive(thiserror::Error)]\n" + (ts[i] if i is not None else ""), desc="mutated attribute")
                detail = m["rendered"] or text
                if "unparsable" in text and i is not None:
                    detail += "\n".join(k["message"]["rendered"] or "" for k in msgs if k["target"]["name"] == b and core.blame(k["message"], table, "src/%s.rs" % b) == i)[:1500]
                ctx.violation(Violation(c, "in the compiler: " + m["message"], detail, cfg))
        nxt = []
        for b, ts in pending:
            if b in alive:
                expanded += len(ts)
            elif len(ts) > 5:
                k = max(5, len(ts) // 3)
                nxt += [("%s_%d" % (b, i), ts[i:i + k]) for i in range(0, len(ts), k)]
            else:
                ctx.count("rustc_not_reached", len(ts))
        pending = nxt
        if not pending:
            break
    for b, ts in pending:
        ctx.count("rustc_not_reached", len(ts))
    ctx.count("rustc_expanded", expanded)
    ctx.evaluations += expanded
    if expanded < len(texts) // 2:
        raise Inconclusive("the compiler ran the derive on only %d of %d definitions" % (expanded, len(texts)))
