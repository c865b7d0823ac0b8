"""C03: every value displays the message chosen for its own variant."""
import re

from tv import defs, gen
from tv.core import Case, Config


def fixed():
    out = []

    def add(items, twin, vals, extra=""):
        code = [items, "struct R<'a>(&'a E);",
                "impl std::fmt::Display for R<'_> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self.0 { %s } } }" % twin,
                "pub fn run(m: &mut vs::Mon) {",
                "    let vals: Vec<E> = vec![%s];" % vals,
                "    for (i, e) in vals.iter().enumerate() { m.display(&format!(\"value {i}\"), e, &R(e)); }",
                extra, "}"]
        out.append(Case("f%03d" % len(out), "\n".join(code)))

    D = "#[derive(Debug, thiserror::Error)]\n"
    hand = "impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(\"hand\") } }"
    # No message anywhere: the Display impl is the user's.
    add(D + "pub struct E;" + hand, '_ => f.write_str("hand")', "E")
    add(D + "pub struct E { #[source] a: vs::Leaf }" + hand, '_ => f.write_str("hand")', "E { a: vs::Leaf::new(1) }")
    add(D + "pub struct E(#[from] vs::Leaf);" + hand, '_ => f.write_str("hand")', "E(vs::Leaf::new(1))")
    add(D + "pub enum E { A, B(i32), C { source: vs::Leaf }, D(#[from] vs::Leaf2) }" + hand, '_ => f.write_str("hand")',
        "E::A, E::B(1), E::C { source: vs::Leaf::new(1) }, E::D(vs::Leaf2::new(2))")
    add(D + "/// doc\n#[non_exhaustive] #[repr(C)] pub enum E { /** a */ A, #[doc(hidden)] B }" + hand, '_ => f.write_str("hand")', "E::A, E::B")
    # Every variant transparent counts as having a message.
    add(D + "pub enum E { #[error(transparent)] A(vs::Leaf), #[error(transparent)] B { b: vs::Leaf2 } }",
        "E::A(a) => std::fmt::Display::fmt(a, f), E::B { b } => std::fmt::Display::fmt(b, f)",
        "E::A(vs::Leaf::new(1)), E::B { b: vs::Leaf2::new(2) }")
    add(D + "#[error(transparent)] pub enum E { A(vs::Leaf), B { b: vs::Leaf2 }, #[error(\"own {0}\")] C(i32), #[error(fmt = g)] D(i32) }"
        "fn g(x: &i32, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.pad(&x.to_string()) }",
        "E::A(a) => std::fmt::Display::fmt(a, f), E::B { b } => std::fmt::Display::fmt(b, f), E::C(c) => write!(f, \"own {}\", c), E::D(d) => g(d, f)",
        "E::A(vs::Leaf::new(1)), E::B { b: vs::Leaf2::new(2) }, E::C(3), E::D(4)")
    # An enum-level message read against different fields of the same name.
    add(D + "#[error(\"<{x} {y:?}>\")] pub enum E { A { x: i32, y: u8 }, B { y: &'static str, z: i64, x: String }, "
        "#[error(\"own\")] C { x: i32, y: i32 }, D { x: vs::Probe, y: vs::Probe }, #[error(\"{0}\")] F(i32) }",
        "E::A { x, y } => write!(f, \"<{} {:?}>\", x, y), E::B { x, y, .. } => write!(f, \"<{} {:?}>\", x, y), E::C { .. } => write!(f, \"own\"), "
        "E::D { x, y } => write!(f, \"<{} {:?}>\", x, y), E::F(a) => write!(f, \"{}\", a)",
        "E::A { x: 1, y: 2 }, E::B { y: \"b\", z: 0, x: \"s\".into() }, E::C { x: 1, y: 2 }, E::D { x: vs::Probe::new(1), y: vs::Probe::new(2) }, E::F(5)")
    add(D + "#[error(\"{1}{0}\")] pub enum E { A(i32, u8), B(&'static str, char, i32), C(vs::Probe, vs::Probe) }",
        "E::A(a, b) => write!(f, \"{}{}\", b, a), E::B(a, b, _) => write!(f, \"{}{}\", b, a), E::C(a, b) => write!(f, \"{}{}\", b, a)",
        "E::A(1, 2), E::B(\"x\", 'y', 3), E::C(vs::Probe::new(1), vs::Probe::new(2))")
    # Standard formatting functions as the function.
    add(D + "pub enum E { #[error(fmt = std::fmt::LowerHex::fmt)] A(u32), #[error(fmt = core::fmt::Debug::fmt)] B(vs::Probe), "
        "#[error(fmt = <u8 as core::fmt::Octal>::fmt)] C { r#type: u8 } }",
        "E::A(a) => std::fmt::LowerHex::fmt(a, f), E::B(a) => std::fmt::Debug::fmt(a, f), E::C { r#type: t } => std::fmt::Octal::fmt(t, f)",
        "E::A(0xabc), E::B(vs::Probe::new(1)), E::C { r#type: 9 }")
    # Generic function for variants of different types at the enum level.
    add(D + "#[error(fmt = g)] pub enum E { A(u32), B(vs::Probe), C { x: String }, #[error(\"d\")] D }"
        "fn g<T: std::fmt::Debug>(x: &T, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { vs::event(std::any::type_name::<T>().into()); x.fmt(f)?; f.pad(\"!\") }",
        "E::A(a) => g(a, f), E::B(a) => g(a, f), E::C { x } => g(x, f), E::D => write!(f, \"d\")",
        "E::A(0xabc), E::B(vs::Probe::new(1)), E::C { x: \"x\".into() }, E::D")
    # Unit variants with a function, explicit discriminants.
    add(D + "#[repr(u8)] #[error(fmt = g)] pub enum E { A = 7, B = 3, #[error(\"c\")] C, #[error(fmt = h)] D = 1 }"
        "fn g(f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.pad(\"g\") } fn h(f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.pad(\"h\") }",
        "E::A | E::B => g(f), E::C => write!(f, \"c\"), E::D => h(f)", "E::A, E::B, E::C, E::D")
    # Variants named alike, with different attributes; messages that name other variants.
    add(D + "pub enum E { #[error(\"V\")] V, #[error(\"V1 {0}\")] V1(i32), #[error(\"V11 {V}\")] V11 { V: i32 }, #[error(\"r {type}\")] r#type { r#type: i32 } }",
        "E::V => write!(f, \"V\"), E::V1(a) => write!(f, \"V1 {}\", a), E::V11 { V: a } => write!(f, \"V11 {}\", a), E::r#type { r#type: t } => write!(f, \"r {}\", t)",
        "E::V, E::V1(1), E::V11 { V: 11 }, E::r#type { r#type: 2 }")
    # A function that fails, and one that writes nothing.
    add(D + "pub enum E { #[error(fmt = bad)] A(vs::Probe), #[error(fmt = nothing)] B }"
        "fn bad(p: &vs::Probe, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { p.num(); write!(f, \"{}\", p)?; Err(std::fmt::Error) }"
        "fn nothing(_: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { vs::event(\"nothing\".into()); Ok(()) }",
        "E::A(p) => bad(p, f), E::B => nothing(f)", "E::B, E::A(vs::Probe::new(3))")
    # Empty enums, with and without a message.
    add(D + "pub struct E; impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(\"hand\") } }"
        + D + "#[error(\"never {x}\", x = 1)] pub enum Never {}\n" + D + "#[error(transparent)] pub enum Never2 {}\n" + D + "#[error(fmt = nope)] pub enum Never3 {} fn nope() {}",
        "_ => f.write_str(\"hand\")", "E",
        "m.check(\"empty enums\", vs::impls!(Never: std::fmt::Display + std::error::Error) && vs::impls!(Never2: std::fmt::Display) && vs::impls!(Never3: std::fmt::Display), || String::new());")
    return out


def similar(r, cid):
    """Variants which share a format string but not what it shows."""
    pieces = ["{}", "{}", "{k}", "{:?}", "{k:>4}", "{k:?}"]
    fmts = []
    for _ in range(r.choice([1, 2])):
        n = r.choice([0, 1, 1, 2, 3])
        fmts.append("".join(r.choice(["lim ", "", "{{", "x}} ", "é", "%"]) + r.choice(pieces) for _ in range(n)) + r.choice(["", "!", " done"]))
    consts = ["LIM_A", "LIM_B", "1", "2", "\"s\"", "'c'", "u8::MAX", "LIM_A + 1", "LIM_A - LIM_B", "Self::N", "vs::eval(1, 5)", "vs::eval(2, 6)", "(1, 2).0", "!0i8"]
    rows, arms, vals = [], [], []
    for i in range(r.choice([2, 3, 4, 6, 9])):
        fmt = r.choice(fmts)
        shape = r.choice(["unit", "unit", "named", "tuple", "none"])
        nf = r.choice([1, 2]) if shape in ("named", "tuple") else 0
        names = r.sample(["a", "b", "k2", "lim"], nf)
        npos = len(re.findall(r"\{(?::[^}]*)?\}", fmt.replace("{{", "").replace("}}", "")))
        named = "{k" in fmt.replace("{{", "")
        dargs, targs = [], []
        for j in range(npos + named):
            if nf and r.random() < 0.5:
                f = r.randrange(nf)
                d, t = "." + (names[f] if shape == "named" else str(f)), "b%d" % f
                if r.random() < 0.4:
                    d, t = "*%s + 1" % d, "*%s + 1" % t
            else:
                d = t = r.choice(consts)
            if j == npos:
                d, t = "k = " + d, "k = " + t.replace("Self::", "E::")
            dargs.append(d)
            targs.append(t.replace("Self::", "E::"))
        name = "V%d" % i
        body = {"unit": "", "none": r.choice(["{}", "()"]), "named": "{ %s }" % ", ".join(n + ": i32" for n in names), "tuple": "(%s)" % ", ".join(["i32"] * nf)}[shape]
        rows.append("#[error(%s)] %s%s," % (", ".join([gen.rs(fmt)] + dargs), name, body))
        memb = names if shape == "named" else [str(k) for k in range(nf)]
        arms.append("E::%s { %s } => write!(f, %s)," % (name, "".join("%s: b%d, " % (m, k) for k, m in enumerate(memb)), ", ".join([gen.rs(fmt)] + targs)))
        vals += ["E::%s { %s }" % (name, ", ".join("%s: %d" % (m, r.randint(-3, 99)) for m in memb)) for _ in range(1 if not nf else 2)]
    r.shuffle(vals)
    code = ["pub const LIM_A: i32 = 10; pub const LIM_B: i32 = 99;", "#[derive(Debug, thiserror::Error)]", "pub enum E {", *rows, "}", "impl E { const N: i64 = -7; }",
            "struct R<'a>(&'a E);", "impl std::fmt::Display for R<'_> { #[allow(unused_variables)] fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self.0 {",
            *arms, "} } }", "pub fn run(m: &mut vs::Mon) {", "    let vals: Vec<E> = vec![%s];" % ", ".join(vals),
            "    for (i, e) in vals.iter().enumerate() { m.display1(&format!(\"value {i}\"), e, &R(e)); }", "}"]
    return Case(cid, "\n".join(code))


def run(ctx):
    ctx.rule = ("one case = one generated enum whose variants mix own messages, inherited messages, transparent and "
                "fmt = function, with values of every variant and a handwritten match as twin; non-trivial = distinct "
                "(text, result, event log) of the twin under 12 outer format options")
    cases = fixed()
    for i in range(ctx.scale(1600, 12000)):
        cases.append(defs.display_enum(ctx.sub_rng("r%d" % i), "r%04d" % i))
    for i in range(ctx.scale(300, 2000)):
        cases.append(similar(ctx.sub_rng("s%d" % i), "s%04d" % i))
    ctx.log("generated", len(cases))
    for k in range(0, len(cases), 3000):
        ctx.run_cases(Config(edition="2021"), cases[k:k + 3000], name="m%d" % (k // 3000), bins=16)
