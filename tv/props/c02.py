"""C02: extra format arguments are ordinary expressions over the fields."""
from tv import exprs, gen
from tv.core import Case, Config
from tv.gen import Arg, Field, Lit, Msg, Ph, Spec, Variant

PRE = exprs.PRELUDE + '''
pub fn two_probes<'a>(a: &'a vs::Probe, _b: &vs::Probe) -> &'a vs::Probe { a }
'''

HELPERS = '''impl E { const CST: &'static str = "cst"; fn helper(x: &i64) -> i64 { *x + 1000 } }'''


def classes(fields):
    cl = {}
    for f in fields:
        for k, t in exprs.FIELD_TYPES.items():
            if f.ty is t:
                cl.setdefault(k, []).append(f.index)
    return cl


def make_fields(r, shape):
    if shape == "unit":
        return []
    ks = [r.choice("iiinsotTvPbfFpp") for _ in range(r.choice([1, 2, 3, 5, 7, 13]))]
    if r.random() < 0.7:
        for k in "iinsb":
            if k not in ks:
                ks.append(k)
    r.shuffle(ks)
    ns = gen.names(r, len(ks)) if shape == "named" else [None] * len(ks)
    # Names which shadow what the argument expressions mention.
    bad = {"vs", "dbl", "two", "K", "Pt", "pass", "toks", "first", "std", "core", "String", "Vec", "Some", "None",
           "two_probes", "vec", "format", "E", "Self_", "r#Self_"}
    ns = [n if n is None or gen.unraw(n) not in bad else "%s_%d" % (gen.unraw(n).lower(), i) for i, n in enumerate(ns)]
    return [Field(i, ns[i], exprs.FIELD_TYPES[k]) for i, k in enumerate(ks)]


def message(r, fields, shape, counter, depth=3):
    cl = classes(fields)
    named = [f for f in fields if f.name is not None]
    msg = Msg([])
    pos, nam = [], []

    def expr(sym):
        return gen.gen_expr(r, sym, cl, counter, depth) if False else exprs.gen_expr(r, sym, cl, counter, depth)

    def pick_sym():
        for _ in range(20):
            s = r.choice("iiiuBSSSp")
            t = expr(s)
            if t is not None:
                return s, t
        return "S", '"const"'

    used = set()

    def new_named(sym=None):
        s, t = (sym, expr(sym)) if sym else pick_sym()
        if t is None:
            s, t = "u", "2"
        for _ in range(50):
            if named and r.random() < 0.4:
                name = r.choice(named).name          # the user's argument wins over the field
            else:
                name = r.choice(["k", "x", "max", "r#type", "r#fn", "val", "w", "_u", "é", "field", "__display_x", "a", "b0",
                                 "__field0", "_0", "__display0", "f", "result", "some", "arg0", "s"])
            if gen.unraw(name) not in used:
                used.add(gen.unraw(name))
                a = Arg(name, t, exprs.RESULT_TRAITS[s])
                nam.append(a)
                return a
        return None

    def new_pos(sym=None):
        s, t = (sym, expr(sym)) if sym else pick_sym()
        if t is None:
            s, t = "u", "2"
        a = Arg(None, t, exprs.RESULT_TRAITS[s], pos=len(pos))
        pos.append(a)
        return a

    tail = []
    allow_pos = True
    counts = [f for f in fields if f.ty is exprs.N and f.name and not f.name.startswith("r#")]
    parts = [gen.lits(r)]
    later = []
    for _ in range(r.choice([1, 1, 2, 3, 4, 6])):
        k = r.random()
        cs = list(counts) + [a for a in nam if a.traits == gen.INT and a.is_count] if False else list(counts)
        if k < 0.35 and allow_pos:
            a = None
            star = None
            if r.random() < 0.1:
                star = new_pos("u")
            a = new_pos()
            s = gen.spec(r, a.traits, [], 0.4)
            p = Ph(a, s)
            if star:
                s.prec = "*"
                p.count = star
            elif r.random() < 0.15:
                # Width or precision from a positional argument by number.
                t = expr("u")
                if t is not None:
                    w = Arg(None, t, exprs.RESULT_TRAITS["u"], pos=-1)
                    tail.append(w)
                    if r.random() < 0.7:
                        s.width = w
                    else:
                        s.prec = w
            parts.append(p)
        elif k < 0.7:
            a = new_named()
            if a is None:
                continue
            s = gen.spec(r, a.traits, [], 0.4)
            if r.random() < 0.15 and not a.name.startswith("r#"):
                w = new_named("u")
                if w is not None and not w.name.startswith("r#"):
                    s.width = w
                    if r.random() < 0.3:
                        s.prec = w
                elif w is not None:
                    parts.append(Ph(w, Spec()))
            parts.append(Ph(a, s))
            if r.random() < 0.2:
                parts.append(Ph(a, gen.spec(r, a.traits, [], 0.4)))
        else:
            fs = [f for f in fields if f.ty.traits and gen.unraw(f.name or "") not in used and (f.name is not None or True)]
            if not fs:
                continue
            f = r.choice(fs)
            later.append((len(parts), f))
            parts.append(None)
        parts.append(gen.lits(r, r.choice([0, 1])))
    for a in tail:
        a.pos = len(pos)
        pos.append(a)
    # Field placeholders whose name was not taken by a user argument.
    for at, f in later:
        if f.name is not None and gen.unraw(f.name) in used:
            parts[at] = Lit("")
            continue
        if f.name is None and pos:
            parts[at] = Lit("")
            continue
        cs = [c for c in counts if gen.unraw(c.name) not in used]
        parts[at] = Ph(f, gen.spec(r, f.ty.traits, cs, 0.5))
    # Explicit references to positional arguments by number.
    if pos and shape != "tuple":
        for _ in range(r.choice([0, 0, 1, 2])):
            a = r.choice(pos)
            s = gen.spec(r, a.traits, [], 0.4)
            ints = [x for x in pos if x.template.lstrip("*").startswith("«")] if False else []
            p = Ph(a, s)
            msg.explicit.add(id(p))
            parts.append(Lit(r.choice(["", " "])))
            parts.append(p)
    msg.parts = parts
    msg.args = pos + nam
    return msg


def case(r, cid):
    kind = r.choice(["struct", "enum"])
    c = gen.Ctr()
    nv, busy = gen.crowd(r, [1, 2, 3, 4]) if kind == "enum" else (1, {0})
    variants = []
    for k, name in enumerate(gen.variant_names(r, nv)):
        shape = r.choice(["named", "named", "tuple", "tuple", "unit"]) if k in busy else "unit"
        fields = make_fields(r, shape)
        variants.append(Variant(name, shape, fields, message(r, fields, shape, c) if k in busy else Msg([gen.lits(r, 1)])))
    return build(r, cid, kind, variants, c)


def build(r, cid, kind, variants, c, extra="", n=3):
    L = [PRE, extra, HELPERS, "#[derive(Debug, thiserror::Error)]"]
    arms, vals = [], []
    if kind == "struct":
        v = variants[0]
        L.append(v.msg.attr(r, v.fields))
        L.append("pub struct E%s%s" % (v.body(), "" if v.shape == "named" else ";"))
        arms.append("%s => %s," % (v.pattern("E"), v.msg.twin()))
        vals += [v.value("E", r, c) for _ in range(n)]
    else:
        L.append("pub enum E {")
        for v in variants:
            L.append("    " + v.msg.attr(r, v.fields))
            L.append("    %s%s," % (v.name, v.body()))
            arms.append("%s => %s," % (v.pattern("E::" + v.name), v.msg.twin()))
            vals += [v.value("E::" + v.name, r, c) for _ in range(n)]
        L.append("}")
    L.append("struct R<'a>(&'a E);")
    L.append("impl std::fmt::Display for R<'_> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self.0 {")
    L += arms
    L.append("} } }")
    L.append("pub fn run(m: &mut vs::Mon) {")
    L.append("    let vals: Vec<E> = vec![%s];" % ",\n        ".join(vals))
    L.append("    for (i, e) in vals.iter().enumerate() { m.display1(&format!(\"value {i}\"), e, &R(e)); }")
    L.append("}")
    return Case(cid, "\n".join(L))


def one(cid, decl, twin, vals, pre=""):
    """A written-out case."""
    code = [PRE, pre, "#[derive(Debug, thiserror::Error)]", decl,
            "struct R<'a>(&'a E);",
            "impl std::fmt::Display for R<'_> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self.0 { %s } } }" % twin,
            "pub fn run(m: &mut vs::Mon) {",
            "    let vals: Vec<E> = vec![%s];" % vals,
            "    for (i, e) in vals.iter().enumerate() { m.display1(&format!(\"value {i}\"), e, &R(e)); }",
            "}"]
    return Case(cid, "\n".join(code))


def each_template(r):
    """Every expression template at least once, alone in a message, with both
    named and positional fields, as positional and as named argument."""
    out = []
    order = ["i", "n", "s", "o", "t", "T", "v", "P", "b", "f", "F", "p"]
    k = 0
    for sym in ("a", "i", "B", "u", "S", "p"):
        for t in exprs.G[sym]:
            for shape in ("named", "tuple"):
                c = gen.Ctr()
                ks = list(order)
                r.shuffle(ks)
                ns = gen.names(r, len(ks)) if shape == "named" else [None] * len(ks)
                bad = {"vs", "dbl", "two", "K", "Pt", "pass", "toks", "first", "std", "core", "String", "Vec", "vec", "format",
                       "two_probes", "E"}
                ns = [n if n is None or gen.unraw(n) not in bad else "g%d" % i for i, n in enumerate(ns)]
                fields = [Field(i, ns[i], exprs.FIELD_TYPES[x]) for i, x in enumerate(ks)]
                cl = classes(fields)
                save = exprs.G[sym]
                exprs.G[sym] = [t]
                try:
                    e = expand(r, t, cl, c)
                finally:
                    exprs.G[sym] = save
                tr = exprs.RESULT_TRAITS.get({"a": "i"}.get(sym, sym))
                name = r.choice([None, "k", "r#type" if "r#type" not in ns else "k"])
                a = Arg(name, e, tr, pos=0)
                parts = [gen.lits(r), Ph(a, gen.spec(r, tr, [], 0.3)), gen.lits(r)]
                free = [f for f in fields if f.ty.traits and f.ref != gen.unraw(name or "")]
                if shape == "named" and free:
                    parts.append(Ph(r.choice(free), Spec()) if False else Ph(r.choice([f for f in free if "d" in f.ty.traits]), Spec()))
                v = Variant("A", shape, fields, Msg(parts, [a]))
                out.append(build(r, "t%03d" % k, r.choice(["struct", "enum"]), [v], c, n=2))
                k += 1
    return out


def expand(r, t, cl, c):
    out, rest = [], t
    while "«" in rest:
        a, rest = rest.split("«", 1)
        nt, rest = rest.split("»", 1)
        out.append(a)
        if nt in exprs.NEED:
            out.append("⟦%d⟧" % r.choice(cl[exprs.NEED[nt]]))
        else:
            out.append(exprs.gen_expr(r, nt, cl, c, 1))
    s = "".join(out) + rest
    while "%N" in s:
        s = s.replace("%N", str(c()), 1)
    return s


def fixed():
    out = []

    def add(*a, **k):
        out.append(one("f%03d" % len(out), *a, **k))

    # Named arguments and fields of the same name; swaps.
    add('#[error("{x} {y} {x} {y}", x = .y, y = .x)] pub struct E { x: i64, y: i64 }',
        'E { x, y } => write!(f, "{0} {1} {0} {1}", y, x)', "E { x: 1, y: 2 }, E { x: 9, y: 9 }")
    add('#[error("{x:?} {y}", x = .x + 1)] pub struct E { x: i64, y: i64 }',
        'E { x, y } => write!(f, "{:?} {}", x + 1, y)', "E { x: 1, y: 2 }")
    add('#[error("{x}{y}", x = "s")] pub struct E { x: (), y: i64 }',
        'E { x: _, y } => write!(f, "s{}", y)', "E { x: (), y: 2 }")
    add('#[error("{_0} {}", .0, _0 = "u")] pub struct E(i64);', 'E(a) => write!(f, "u {}", a)', "E(4)")
    add('#[error("{0} {_0} {k}", _0 = "u", k = .0)] pub struct E(i64);', 'E(a) => write!(f, "{0} u {0}", a)', "E(4)")
    # Raw argument names.
    add('#[error("{type} {fn}", r#type = .r#fn, r#fn = .r#type)] pub struct E { r#type: i64, r#fn: i64 }',
        'E { r#type: t, r#fn: n } => write!(f, "{} {}", n, t)', "E { r#type: 1, r#fn: 2 }")
    add('#[error("{type}", type = .x)] pub struct E { x: i64 }', 'E { x } => write!(f, "{}", x)', "E { x: 1 }")
    # Arguments named like the names the derive generates.
    for nm in ("__display_x", "__field_x", "__pointer_x", "___display_x"):
        add('#[error("{x} {x:?} {x:p} {%s}", %s = .x)] pub struct E { x: &\'static i64 }' % (nm, nm),
            'E { x } => write!(f, "{} {:?} {:p} {}", x, x, *x, x)', "E { x: &5 }")
    add('#[error("{0} {0:?} {__display0} {__field0}", __display0 = 1, __field0 = 2)] pub struct E(i64);',
        'E(x) => write!(f, "{} {:?} 1 2", x, x)', "E(5)")
    # An equality test is a positional argument, not a named one.
    add('#[error("{}", K == *.x)] pub struct E { x: i64 }', 'E { x } => write!(f, "{}", K == *x)', "E { x: 3 }, E { x: 4 }")
    add('#[error("{} {y}", K == *.x, y = K == .y + 1)] pub struct E { x: i64, y: i64 }',
        'E { x, y } => write!(f, "{} {}", K == *x, K == y + 1)', "E { x: 3, y: 2 }, E { x: 4, y: 3 }")
    # Named arguments with assignment-like tokens inside.
    add('#[error("{a} {b}", a = { let mut q = .x + 1; q = q * 2; q }, b = (|k: &i64| -> bool { k == .x })(.x))] pub struct E { x: i64 }',
        'E { x } => write!(f, "{} {}", (x + 1) * 2, true)', "E { x: 3 }")
    add('#[error("{a} {b}", a = if .x >= .y { .x } else { .y }, b = .x <= .y)] pub struct E { x: i64, y: i64 }',
        'E { x, y } => write!(f, "{} {}", x.max(y), x <= y)', "E { x: 3, y: 4 }, E { x: 4, y: 3 }, E { x: 3, y: 3 }")
    # Generic arguments containing commas and closures with several parameters.
    add('#[error("{} {k}", std::collections::HashMap::<i64, Vec<(i64, i64)>>::new().len(), k = (|a, b| a + b)(*.0, *.1))] pub struct E(i64, i64);',
        'E(a, b) => write!(f, "0 {}", a + b)', "E(1, 2)")
    add('#[error("{k} {0}", k = <std::collections::HashMap<i64, i64>>::with_capacity(0).len())] pub struct E(i64, i64);',
        'E(a, _) => write!(f, "0 {}", a)', "E(1, 2)")
    add('#[error("{0} {k} {1}", k = *.0 < *.1 && *.1 > (3))] pub struct E(i64, i64);',
        'E(a, b) => write!(f, "{} {} {}", a, *a < *b && *b > 3, b)', "E(1, 2), E(1, 9)")
    # Chains.
    add('#[error("{} {} {} {}", .0.0, .0.1.0, .0.1.1.0, .0 .1 .1 .1)] pub struct E((i64, (i64, (i64, i64))));',
        'E(t) => write!(f, "{} {} {} {}", t.0, t.1.0, t.1.1.0, t.1.1.1)', "E((1, (2, (3, 4))))")
    add('#[error("{} {} {}", .1.0, .1.1, .0.0)] pub struct E((i64,), (i64, i64));',
        'E(s, t) => write!(f, "{} {} {}", t.0, t.1, s.0)', "E((7,), (1, 2))")
    add('#[error("{} {}", .10.1, .11)] pub struct E(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, (i64, i64), i64);',
        'E(.., t, l) => write!(f, "{} {}", t.1, l)', "E(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, (10, 101), 11)")
    add('#[error("{} {}", .x.0, .x.1.0)] pub struct E { x: (i64, (i64,)) }', 'E { x } => write!(f, "{} {}", x.0, x.1.0)', "E { x: (1, (2,)) }")
    add('#[error("{:?} {:?}", .x.iter().max(), .x.get(..2))] pub struct E { x: Vec<i64> }',
        'E { x } => write!(f, "{:?} {:?}", x.iter().max(), x.get(..2))', "E { x: vec![1, 5, 3] }, E { x: vec![] }")
    # Ranges next to field references.
    add('#[error("{:?} {:?} {:?} {:?} {:?}", ..*.0, ..=*.0, *.0.., *.0..*.1, *.0..=*.1)] pub struct E(i64, i64);',
        'E(a, b) => write!(f, "{:?} {:?} {:?} {:?} {:?}", ..*a, ..=*a, *a.., *a..*b, *a..=*b)', "E(1, 2)")
    add('#[error("{:?} {:?} {:?}", .. .0, ..=.0, .0 .. .1)] pub struct E(i64, i64);',
        'E(a, b) => write!(f, "{:?} {:?} {:?}", ..a, ..=a, a..b)', "E(1, 2)")
    add('#[error("{:?} {:?}", .. .x, .x .. .y)] pub struct E { x: i64, y: i64 }',
        'E { x, y } => write!(f, "{:?} {:?}", ..x, x..y)', "E { x: 1, y: 2 }")
    # Positional order with counts.
    add('#[error("{:1$} {:.*} {}", .x, 8, 2, .y, .z)] pub struct E { x: i64, y: f64, z: i64 }',
        'E { x, y, z } => write!(f, "{:8} {:.2} {}", x, 8, y = y, z = z).and(Ok(()))', "E { x: 1, y: 2.5, z: 3 }") if False else None
    add('#[error("{0:1$} {2:.*} {3}", .x, *.w, *.p, .z, .y)] pub struct E { x: i64, w: usize, p: usize, y: f64, z: i64 }',
        'E { x, w, p, y, z } => write!(f, "{:w$} {:.p$} {}", x, y, z, w = *w, p = *p)', "E { x: 1, w: 4, p: 1, y: 2.55, z: 3 }") if False else None
    add('#[error("{:.*}|{:>2$}|{x:.*}", *.p, .y, *.w, *.p)] pub struct E { x: f64, y: f64, p: usize, w: usize }',
        'E { x, y, p, w } => write!(f, "{:.a$}|{:>c$}|{:.b$}", y, w, x, a = *p, b = *p, c = *w)', "E { x: 1.23456, y: 6.54321, p: 2, w: 7 }")
    add('#[error("{x:>w$.p$} {}", .w, w = *.p + 3, p = *.w)] pub struct E { x: f64, p: usize, w: usize }',
        'E { x, p, w } => write!(f, "{:>a$.b$} {}", x, w, a = *p + 3, b = *w)', "E { x: 1.23456, p: 2, w: 7 }")
    # Trailing commas, and an argument which is itself a formatting macro with fields.
    add('#[error("{}", format_args!("{}-{}", .a, .b.c),)] pub struct E { a: i64, b: B }',
        'E { a, b } => write!(f, "{}-{}", a, b.c)', "E { a: 1, b: B { c: 2 } }", pre="#[derive(Debug)] pub struct B { c: i64 }")
    add('#[error("{x}", x = format_args!("{x}", x = .x))] pub struct E { x: i64 }', 'E { x } => write!(f, "{}", x)', "E { x: 1 }")
    # Each argument evaluated once even when shown many times, or only as width.
    add('#[error("{k}{k:?}{k:>5}{}", vs::eval(1, .x), k = vs::eval(2, *.x))] pub struct E { x: i64 }',
        'E { x } => { let a = vs::eval(1, x); let k = vs::eval(2, *x); write!(f, "{k}{k:?}{k:>5}{a}") }', "E { x: 1 }")
    add('#[error("{x:>k$}", k = vs::eval(2, *.w))] pub struct E { x: i64, w: usize }',
        'E { x, w } => { let k = vs::eval(2, *w); write!(f, "{x:>k$}") }', "E { x: 1, w: 6 }")
    # Paths, functions, associated items.
    add('#[error("{} {} {}", i64::MAX, Self::help(.0), core::cmp::max(*.0, Self::LIMIT))] pub struct E(i64);',
        'E(a) => write!(f, "{} {} {}", i64::MAX, a + 1, (*a).max(10))', "E(3), E(30)",
        pre="impl E { const LIMIT: i64 = 10; fn help(k: &i64) -> i64 { k + 1 } }")
    add('#[error("first letter must be lowercase but was {:?}", first(.0))] pub struct E(String);',
        'E(s) => write!(f, "first letter must be lowercase but was {:?}", s.chars().next().unwrap())', 'E("Abc".into())')
    add('#[error("invalid rdo_lookahead_frames {0} (expected < {max})", max = i32::MAX)] pub struct E(u32);',
        'E(a) => write!(f, "invalid rdo_lookahead_frames {} (expected < 2147483647)", a)', "E(3)")
    # Several variants which reuse names and numbers with different meaning.
    add('''pub enum E {
        #[error("{x} {}", .x + 1)] A { x: i64 },
        #[error("{0} {k}", k = .0 * 2)] B(i64),
        #[error("{} {}", .1, .0)] C(i64, &'static str),
        #[error("{x}", x = .y)] D { x: (), y: i64 },
        #[error("{0} {}", "p")] U,
        #[error("{x}", x = 5)] V {},
    }''', '''E::A { x } => write!(f, "{} {}", x, x + 1), E::B(a) => write!(f, "{} {}", a, a * 2), E::C(a, b) => write!(f, "{} {}", b, a),
        E::D { x: _, y } => write!(f, "{}", y), E::U => write!(f, "p p"), E::V {} => write!(f, "5"),''',
        'E::A { x: 1 }, E::B(2), E::C(3, "c"), E::D { x: (), y: 4 }, E::U, E::V {}')
    # An enum-level message with arguments over each variant's own fields.
    add('''#[error("{}/{k}/{x}", .x + 1, k = .y)] pub enum E { A { x: i64, y: i64 }, B { y: &'static str, x: u8 }, C { z: (), x: i64, y: char } }''',
        '''E::A { x, y } => write!(f, "{}/{}/{}", x + 1, y, x), E::B { x, y } => write!(f, "{}/{}/{}", x + 1, y, x),
        E::C { x, y, .. } => write!(f, "{}/{}/{}", x + 1, y, x),''',
        "E::A { x: 1, y: 2 }, E::B { y: \"b\", x: 3 }, E::C { z: (), x: 5, y: 'c' }")
    return out


def run(ctx):
    ctx.rule = ("one case = one generated definition whose messages carry extra arguments from a grammar of %d expression "
                "templates over typed fields, its values and a handwritten twin in which each field reference is a plain "
                "binding; non-trivial = distinct (text, result, formatting and evaluation event log) of the twin" % sum(
                    len(v) for v in exprs.G.values()))
    cases = fixed() + each_template(ctx.sub_rng("each"))
    for i in range(ctx.scale(4500, 20000)):
        cases.append(case(ctx.sub_rng("r%d" % i), "r%04d" % i))
    ctx.log("generated", len(cases))
    # Recorded in known_findings.json.
    for e, want in [("[1].iter().map(|x| *x + .x).sum::<u8>()", "6"), ("(|x: &u8| *x + .x)(&2)", "7"), ("{ let x = 4u8; x + .x }", "9"),
                    ("match Some(3u8) { Some(x) => x + .x, None => 0 }", "8")]:
        k = one("d%03d" % len(cases), '#[error("{}", %s)] pub struct E { x: u8 }' % e, 'E { .. } => f.write_str("%s")' % want, "E { x: 5 }")
        k.known = "D15"
        cases.append(k)
    for k in range(0, len(cases), 3000):
        ctx.run_cases(Config(edition="2021"), cases[k:k + 3000], name="m%d" % (k // 3000), bins=16)
