"""Random Rust expressions over the fields of a value, as templates in which
⟦i⟧ stands for a reference to field i (`.name` for the derive, a plain binding
for the twin)."""
from tv import gen
from tv.gen import Ty

PRELUDE = '''
#[derive(Debug, Clone)]
pub struct Pt { pub q: i64, pub r: i64, pub t: (i64, (i64, i64)) }
impl Pt { fn get(&self, k: i64) -> i64 { self.q + k } }
pub const K: i64 = 3;
pub fn dbl(x: &i64) -> i64 { x.wrapping_mul(2) }
pub fn two<'a>(a: &'a i64, _b: &i64) -> &'a i64 { a }
pub fn first(s: &str) -> char { s.chars().next().unwrap_or('-') }
macro_rules! pass { ($e:expr) => { $e }; ($a:expr, $b:expr) => { $a + $b }; }
macro_rules! toks { ($($t:tt)*) => { $($t)* }; }
'''


def _iv(r, c):
    return str(r.choice([0, 1, 2, 3, 5, 7, 42, 100]))


I = Ty("i64", gen.INT, lambda r, c: _iv(r, c))
N = Ty("usize", gen.INT, lambda r, c: str(r.choice([0, 1, 2, 3])))
STR = Ty("String", "d?", lambda r, c: "String::from(%s)" % gen.rs(r.choice(["abcd", "hello", "a.b,c", "xyz{}"])))
OPT = Ty("Option<i64>", "?", lambda r, c: r.choice(["None", "Some(%s)" % _iv(r, c)]))
TUP = Ty("((i64, i64), (i64, (i64, i64)))", "?", lambda r, c: "((%s, %s), (%s, (%s, %s)))" % tuple(_iv(r, c) for _ in range(5)))
BIG = Ty("(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, (i64, i64), i64)", "?",
         lambda r, c: "(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, (10, %s), 11)" % _iv(r, c))
VEC = Ty("Vec<i64>", "?", lambda r, c: "vec![%s]" % ", ".join(_iv(r, c) for _ in range(4)))
PT = Ty("Pt", "?", lambda r, c: "Pt { q: %s, r: %s, t: (%s, (%s, %s)) }" % tuple(_iv(r, c) for _ in range(5)))
BOOL = Ty("bool", "d?", lambda r, c: r.choice(["true", "false"]))
FLT = Ty("f64", "d?eE", lambda r, c: r.choice(["0.5", "2.0", "10.25"]))
FN = Ty("fn(i64) -> i64", "?p", lambda r, c: r.choice(["(|k| k + 1) as fn(i64) -> i64", "(|k| -k) as fn(i64) -> i64"]))
PROBE = gen.PROBE

FIELD_TYPES = {"i": I, "n": N, "s": STR, "o": OPT, "t": TUP, "T": BIG, "v": VEC, "P": PT, "b": BOOL, "f": FLT,
               "F": FN, "p": PROBE}

# Nonterminals in angle brackets of the form «x»; lower-case field classes
# stand for one reference to a field of that class.
#   «i» any i64 expression     «a» an i64 operand (safe next to an operator)
#   «B» any bool expression    «u» usize expression   «S» String-like expression
G = {
    "a": ["*«fi»", "*«fi»", "«fi».abs()", "(«i»)", "3", "«ft».0.1", "«ft».1.1.0", "«ft».1.0", "«fT».10.1", "«fT».11",
          "«fP».q", "«fP».t.1.0", "«fP».t.0", "«fP».get(*«fi»)", "«fv»[0]", "«fv»[*«fn»]", "dbl(«fi»)", "K",
          "(«fF»)(«i»)", "«fi».clone()", "vs::eval(%N, *«fi»)", "vs::eval(%N, «i»)", "*two(«fi», «fi»)",
          "«fi»\n .abs()", "i64::max(*«fi», «i»)", "<i64 as Clone>::clone(«fi»)", "pass!(«i»)", "pass!(*«fi», «i»)",
          "toks!(*«fi» + 1)", 
          "«fo».unwrap_or(«i»)", "(«i», «i»).0", "(«i», («i», *«fi»)).1.1", "[*«fi», «i»][1]", 
          "(|l_k: i64| l_k + *«fi»)(«i»)", "(move |l_k| -> i64 { l_k + *«fi» })(2)",
          "(|| *«fi»)()", "(|l_a: i64, l_b: i64| l_a - l_b)(*«fi», «i»)", "«fv».iter().map(|l_k| l_k + *«fi»).sum::<i64>()",
          "«fv».iter().copied().fold(0, |l_x, l_y| l_x + l_y)", "«fv»[.. «fu2»].iter().sum::<i64>()",
          "«fv»[1..].iter().sum::<i64>()", "*&*«fi»", "*&«fP».r", "*(&«fP».r)",
          "1_000", "*'x: { break 'x «fi» }"],
    "i": ["«a»", "«a»", "«a» + «a»", "«a» - «a»", "«a» * «a»", "«a» / 7", "«a» % 5", "-«a»", "!«a»", "«a» & «a»", "«a» | «a»",
          "«a» ^ «a»", "«a» << 1", "«a» >> 1", "«fi» + «fi»", "-«fi»", "!«fi»", "«fi» * «a»", "«fi» % 5", "«fi» ^ «fi»",
          "if «B» { «i» } else { «i» }", "if *«fi» > 3 { *«fi» } else if «B» { 1 } else { *«fi» }",
          "match «fi» { 0 => «i», _ => *«fi» }", "match *«fi» { l_n if l_n > «a» => l_n, l_k => l_k + *«fi» }",
          "match «fo» { Some(l_v) => *l_v, None => «i» }", "match (*«fi», «i») { (0, l_y) => l_y, (l_x, _) => l_x }",
          "if let Some(l_v) = «fo» { *l_v } else { *«fi» }", "loop { break *«fi» }", "*loop { break «fi» }",
          "{ let mut l_z = *«fi»; l_z += *«fi»; l_z -= «i»; l_z *= 2; l_z }", "{ let mut l_z; l_z = «i»; l_z }", "{ let l_z: &i64 = «fi»; *l_z }",
          "{ let mut l_s = 0; for l_k in «fv» { l_s += *l_k } l_s }", "{ let mut l_s = 0; for l_k in 0..*«fn» { l_s += l_k as i64 } l_s }",
          "{ let mut l_s = *«fi» % 5; while l_s < «a» % 5 { l_s += 1 } l_s }", "{ let Some(v) = «fo» else { return Ok(()) }; *v }"
          if False else "{ let l_v = «fo».unwrap_or(1); l_v }", "(*«fi»..«a»).count() as i64 % 9", "(*«fi»..=«a»).count() as i64 % 9",
          "(0..*«fn»).count() as i64", "*«fi» - 1", "(-(*«fi»))", "{ #[allow(unused)] let l_z = 1; *«fi» }",
          "{ let l_z = «i»; l_z }", "Pt { q: «i», r: *«fi», t: (1, (2, *«fi»)) }.q", "Pt { q: *«fi», .. «fP».clone() }.r",
          "[«i»; 2].len() as i64", "*«fi» as i64", "(*«fi» as u8) as i64", "unsafe { *«fi» }", "«fs».len() as i64",
          "'x: { break 'x *«fi» }", "(«fi» as *const i64 == &raw const *«fi») as i64",
          "{ struct L { w: i64 } let l_l = L { w: *«fi» }; l_l.w }", "{ fn h(k: &i64) -> i64 { k + 1 } h(«fi») }"],
    "B": ["*«fb»", "!«fb»", "!*«fb»", "«fi» == «fi»", "*«fi» != «i2»", "«fi» <= «fi»", "«fi» >= «fi»", "«a» < «a»", "«a» > «a»",
          "*«fb» && *«fb»", "*«fb» || «fo».is_some()", "matches!(«fo», Some(_))", "matches!(*«fi», 0..=5 | 42)",
          "(*«fb»)", "«fs».is_empty()", "*«fi» > 1 && *«fi» < 50", "K == *«fi»", "«fb» & «fb»", "*«fb» ^ true"],
    "u": ["*«fn»", "*«fn» + 1", "«fs».len()", "«fv».len()", "«fv»[.. «fu2»].len()", "std::mem::size_of_val(«fi»)",
          "Vec::<u8>::with_capacity(0).len() + *«fn»", "(*«fn» as u8) as usize", "vs::eval(%N, *«fn»)", "3", "1 + *«fn» * 2",
          "if «B» { *«fn» } else { 4 }"],
    "S": ["«fs»", "&«fs»", "&&«fs»", "«fs».as_str()", "&«fs»[..*«fn»]", "&«fs»[*«fn»..]", "&«fs»[1..*«fn» + 1]", "«fs».to_uppercase()",
          "format!(\"{}.{}\", «fi», «i»)", "format_args!(\"{:?}\", «fP».q)", "«fs».chars().rev().collect::<String>()",
          "\".x, {} \\\" .0\"", "',' ", "'.'", "first(«fs»)", "first(&«fs»[1..])", "«fs».replace(\".\", \",\")", "b'.'", "r#\".0 \"#",
          "vs::eval(%N, «fs»)", "String::from(\"a.b\").len()", "[\"a\", \"b\"].concat()", "{ \"lit\" }.len()",
          "if «B» { «fs».as_str() } else { \"no\" }", "match «fs».as_str() { \"hello\" => \"h\", other => other }",
          "format!(\"{0}{k}{0}\", «fi», k = «fi»)", "const { 5 }", "concat!(\"a\", 1, '.').len()", "env!(\"CARGO_PKG_NAME\")",
          "1.5", "1. + «ff»", "2.0 * *«ff»", "«ff».max(0.5)", "-«ff»", "*«ff» / 2.", "«ff» + 1e0",
          "«fb»", "Self::helper(«fi»)", "Self::CST", "<Self>::helper(«fi»)"],
    "p": ["«fp»", "&«fp»", "*&«fp»", "(«fp»)", "{ «fp» }", "vs::eval(%N, «fp»)", "two_probes(«fp», «fp»)"],
    "i2": ["«a» + 1", "«a»"],
    "fu2": ["*«fn»", "2", "*«fn» + 1"],
}

# A field reference straight after every token which can precede an operand.
for _op in "+ - * & | ^ << >>".split():
    G["i"] += ["«a» %s «fi»" % _op if _op not in ("<<", ">>") else "«a» %s (*«fi» & 7)" % _op, "«fi»%s«fi»" % _op
               if _op not in ("<<", ">>") else "*«fi»%s«fn».min(&5)" % _op]
G["i"] += ["«a» / «fn».max(&1).clone() as i64", "100 / «fi».max(&3)", "100 % «fi».max(&3)", "«fi» % «fi».max(&1)", "«fi»/«fi».max(&7)",
           "*«fi» as i64 % «fi».max(&9)"]
for _op in "+= -= *= &= |= ^=".split():
    G["i"] += ["{ let mut l_z = 9; l_z %s «fi»; l_z }" % _op]
G["i"] += ["{ let mut l_z = 9i64; l_z /= «fi».max(&2); l_z %= «fi».max(&4); l_z <<= «fn».min(&3); l_z >>= «fn».min(&1); l_z }",
           "*(|l_k: &i64| if *l_k > 2 { return «fi».clone() } else { «fi».clone() })(«fi»).max(&mut «fi».clone())"
           if False else "(|l_k: i64| -> i64 { if l_k > 2 { return «fi».clone(); } else { «fi».clone() } })(*«fi»)",
           "(|l_k: i64| «fi».max(&l_k).clone())(4)", "(move || «fi».clone())()", "match «fi» { l_k => «fi».max(l_k).clone() }",
           "*(&mut «fi».clone())", "*&mut «fP».t.1.0.clone()", "if «fo».is_some() { 1 } else if «fb».clone() { 2 } else { 3 }",
           "{ while «fo».is_some() { break } 1 }", "{ let l_v = Vec::from([«fi».clone(); 2]); l_v.len() as i64 }",
           "(0..10).step_by(2).take(«fn».clone()).sum::<i64>()", "{ for _ in ..3 { } 1 }" if False else "(1..=«fi».max(&2).clone()).last().unwrap()",
           "Pt { q: «fi».clone(), r: «fP».r, t: («fi».clone(), («fi».clone(), 1)) }.t.1.0", "{ let l_x: i64; l_x = «fi».clone(); l_x }",
           "{ «fi».clone(); «fi».clone() }", "[«fi».clone(), «fi».clone()][«fn».min(&1).clone()]", "«fo».map_or(0, |l_q| «fi» * l_q)",
           "{ let l_q @ 0.. = «fi».max(&0).clone() else { unreachable!() }; l_q }",
           "{ let (Some(l_q) | None::<i64>.. ) = 1; l_q }" if False else "{ let [l_q, ..] = [«fi».clone(), 2]; l_q }"]
G["B"] += ["«fi» %s «fi»" % _op for _op in "< > <= >= == !=".split()] + ["true && «fo».is_some()", "false || «fo».is_none()", "!«fo».is_none()",
           "true & «fb»", "false | «fb»", "*«fb» ^ «fb»", "«fb» != «fb»"]

NEED = {"fi": "i", "fn": "n", "fs": "s", "fo": "o", "ft": "t", "fT": "T", "fv": "v", "fP": "P", "fb": "b", "ff": "f",
        "fF": "F", "fp": "p"}


def gen_expr(r, sym, fields, counter, depth=3):
    """fields: class -> list of field indices. Returns a template."""
    for _ in range(200):
        alts = G[sym]
        t = r.choice(alts[:3] if depth <= 0 and sym in ("a", "i", "B", "u", "S", "p") else alts)
        if depth <= 0:
            t = {"a": r.choice(["*«fi»", "7"]), "i": r.choice(["*«fi»", "8"]), "B": r.choice(["*«fb»", "true"]),
                 "u": r.choice(["*«fn»", "2"]), "S": r.choice(["«fs»", "\"z\""]), "p": "«fp»"}.get(sym, t)
        out = []
        rest = t
        ok = True
        while "«" in rest:
            a, rest = rest.split("«", 1)
            nt, rest = rest.split("»", 1)
            out.append(a)
            if nt in NEED:
                pool = fields.get(NEED[nt])
                if not pool:
                    ok = False
                    break
                out.append("⟦%d⟧" % r.choice(pool))
            else:
                sub = gen_expr(r, nt, fields, counter, depth - 1)
                if sub is None:
                    ok = False
                    break
                out.append(sub)
        if not ok:
            continue
        s = "".join(out) + rest
        while "%N" in s:
            s = s.replace("%N", str(counter()), 1)
        return s
    return None


RESULT_TRAITS = {"i": gen.INT, "u": gen.INT, "B": "d?", "S": "d", "p": gen.ALL.replace("p", "")}
