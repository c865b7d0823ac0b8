"""C04: formatting failures propagate and nothing is done twice."""
from tv import defs, gen
from tv.core import Case, Config
from tv.props import c01, c02


def nested(r, cid):
    """Derived errors inside derived errors: a fault at any depth."""
    code = ['''
#[derive(Debug, thiserror::Error)]
#[error("in<{a}|{b:?}>")]
pub struct Inner { a: vs::Probe, b: vs::Probe }
#[derive(Debug, thiserror::Error)]
pub enum Mid {
    #[error("mid {0} then {0:?} {t}", t = vs::eval(1, "arg"))]
    A(Inner),
    #[error(transparent)]
    B(Inner),
    #[error(fmt = go)]
    C { x: Inner, y: vs::Probe },
    #[error("{k}{k}{x}{y}", k = vs::eval(2, .y), y = vs::eval(3, .x))]
    D { x: Inner, y: vs::Probe },
}
fn go(x: &Inner, y: &vs::Probe, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{x}")?; write!(f, "{y:x}")?; f.write_str("end") }
#[derive(Debug, thiserror::Error)]
#[error("out {0} / {1:>5} / {0:#?}")]
pub struct Outer(Mid, vs::Probe);
struct RI<'a>(&'a Inner);
impl std::fmt::Display for RI<'_> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "in<{}|{:?}>", self.0.a, self.0.b) } }
struct RM<'a>(&'a Mid);
impl std::fmt::Display for RM<'_> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self.0 {
    Mid::A(i) => { let t = vs::eval(1, "arg"); write!(f, "mid {} then {:?} {}", RI(i), i, t) }
    Mid::B(i) => std::fmt::Display::fmt(&RI(i), f),
    Mid::C { x, y } => go(x, y, f),
    Mid::D { x, y } => { let k = vs::eval(2, y); let z = vs::eval(3, x); write!(f, "{}{}{}{}", k, k, RI(x), RI(z)) }
} } }
struct RO<'a>(&'a Outer);
impl std::fmt::Display for RO<'_> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "out {} / {:>5} / {:#?}", RM(&self.0.0), self.0.1, self.0.0) } }
fn inner() -> Inner { Inner { a: vs::Probe::new(1), b: vs::Probe::new(2) } }
pub fn run(m: &mut vs::Mon) {
    for (i, mid) in [Mid::A(inner()), Mid::B(inner()), Mid::C { x: inner(), y: vs::Probe::new(3) }, Mid::D { x: inner(), y: vs::Probe::new(4) }].into_iter().enumerate() {
        m.faults(&format!("mid {i}"), &mid, &RM(&mid));
        let o = Outer(mid, vs::Probe::new(9));
        m.faults(&format!("outer {i}"), &o, &RO(&o));
        m.display(&format!("outer {i}"), &o, &RO(&o));
    }
}
''']
    return Case(cid, "\n".join(code))


def big(r, cid, text_len):
    """Long literals and many placeholders: destinations failing far inside."""
    fields = [gen.Field(i, "x%d" % i, gen.PROBE) for i in range(12)]
    parts = []
    for i in range(24):
        parts.append(gen.Lit(("lit%d " % i) * r.randint(0, text_len)))
        parts.append(gen.Ph(r.choice(fields), gen.spec(r, gen.ALL, [], 0.4)))
    v = gen.Variant("A", "named", fields, gen.Msg(parts))
    return c01.type_case(r, cid, [v], "struct", monitor="faults", values_each=1)


def run(ctx):
    ctx.rule = ("one case = one generated definition; for each value the destination is made to fail after every byte and "
                "each formatting call of a field is made to fail before or after writing, or to panic, one at a time; "
                "non-trivial = distinct (text, result, event log) of the twin")
    cases = [nested(ctx.rng, "nested")]
    for i in range(4):
        cases.append(big(ctx.sub_rng("b%d" % i), "big%d" % i, 3))
    for i in range(ctx.scale(500, 5000)):
        r = ctx.sub_rng("e%d" % i)
        cases.append(defs.display_enum(r, "e%04d" % i, monitor="faults", nvals=1))
    for i in range(ctx.scale(500, 5000)):
        r = ctx.sub_rng("m%d" % i)
        cases.append(c01.random_case(r, "m%04d" % i, monitor="faults", values_each=1))
    for i in range(ctx.scale(500, 5000)):
        c = c02.case(ctx.sub_rng("a%d" % i), "a%04d" % i)
        c.code = c.code.replace("m.display1(", "m.faults(")
        cases.append(c)
    ctx.log("generated", len(cases))
    for k in range(0, len(cases), 3000):
        ctx.run_cases(Config(edition="2021", opt="0"), cases[k:k + 3000], name="m%d" % (k // 3000), bins=16)
