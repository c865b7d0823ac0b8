"""C01: interpolated messages equal the handwritten write!."""
from tv import gen
from tv.core import Case, Config
from tv.gen import Field, Lit, Msg, Ph, Spec, Variant


def type_case(r, cid, variants, kind, values_each=2, monitor="display", attrs_extra="", known=None, desc=""):
    """A struct or enum with its handwritten twin over the same values."""
    c = gen.Ctr()
    debug = all(f.ty.debug for v in variants for f in v.fields)
    L = []
    L.append("fn fnptr() {}")
    L.append("#[derive(%sthiserror::Error)]" % ("Debug, " if debug else ""))
    if attrs_extra:
        L.append(attrs_extra)
    arms = []
    vals = []
    if kind == "struct":
        v = variants[0]
        L.append(v.msg.attr(r, v.fields))
        L.append("pub struct E%s%s" % (v.body(), "" if v.shape == "named" else ";"))
        arms.append("%s => %s," % (v.pattern("E"), v.msg.twin()))
        for _ in range(values_each):
            vals.append(v.value("E", r, c))
    else:
        L.append("pub enum E {")
        for v in variants:
            L.append("    " + v.msg.attr(r, v.fields))
            L.append("    %s%s," % (v.name, v.body()))
            arms.append("%s => %s," % (v.pattern("E::" + v.name), v.msg.twin()))
            for _ in range(values_each):
                vals.append(v.value("E::" + v.name, r, c))
        L.append("}")
    if not debug:
        L.append(gen.manual_debug("E"))
    L.append("struct R<'a>(&'a E);")
    L.append("impl std::fmt::Display for R<'_> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self.0 {")
    L += arms
    L.append("} } }")
    L.append("pub fn run(m: &mut vs::Mon) {")
    L.append("    let vals: Vec<E> = vec![%s];" % ",\n        ".join(vals))
    L.append("    for (i, e) in vals.iter().enumerate() {")
    for mon in monitor.split("+"):
        L.append("        m.%s(&format!(\"value {i}\"), e, &R(e));" % mon)
    L.append("    }")
    L.append("}")
    return Case(cid, "\n".join(L), desc, known)


def random_case(r, cid, **kw):
    kind = r.choice(["struct", "enum", "enum"])
    nv, busy = gen.crowd(r, [1, 2, 3, 4, 5]) if kind == "enum" else (1, {0})
    vs = []
    for k, name in enumerate(gen.variant_names(r, nv)):
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 6, 13]) if k in busy else 0
        shape = gen.shape_for(r, n)
        fields = gen.make_fields(r, n, shape, must=[gen.USIZE] if r.random() < 0.4 else None)
        vs.append(Variant(name, shape, fields, gen.field_message(r, fields)))
    return type_case(r, cid, vs, kind, **kw)


def F(i, name, ty=gen.PROBE):
    return Field(i, name, ty)


def S(ty="", **kw):
    s = Spec()
    s.ty = ty
    for k, v in kw.items():
        setattr(s, k, v)
    return s


def fixed_cases(r):
    """Corner cases which random choice would reach rarely."""
    out = []

    def add(variants, kind="struct", **kw):
        out.append(type_case(r, "f%03d" % len(out), variants, kind, **kw))

    # Every trait, with every kind of spec decoration, adjacent to each other.
    for t in gen.ALL:
        ty = "" if t == "d" else t
        f = F(0, r.choice(["x", "r#type", "é", None]))
        w = F(1, "w", gen.USIZE) if f.name else None
        parts = []
        for kw in ({}, {"ws": " "}, {"alt": True}, {"sign": "+"}, {"sign": "-"}, {"zero": True, "width": 9},
                   {"width": 30}, {"align": "<", "width": 30}, {"align": "^", "fill": "*", "width": 33},
                   {"align": ">", "fill": "}", "width": 33}, {"align": ">", "fill": "{", "width": 33},
                   {"align": "<", "fill": "é", "width": 33, "ws": "\n"}, {"prec": 3},
                   {"align": "^", "fill": "?", "sign": "+", "alt": True, "zero": True, "width": 30, "prec": 5},
                   {"align": ">", "fill": "p"}, {"align": ">", "fill": "x", "width": 8}):
            parts.append(Ph(f, S(ty, **kw)))
        if w:
            for kw in ({"width": w}, {"prec": w}, {"align": "^", "fill": "0", "width": w, "prec": w, "alt": True, "ws": "  "}):
                parts.append(Ph(f, S(ty, **kw)))
        add([Variant("A", "named" if f.name else "tuple", [x for x in (f, w) if x], Msg(parts))])
    # Debug hex forms.
    f = F(0, "x")
    add([Variant("A", "named", [f], Msg([Ph(f, S("x?")), Ph(f, S("X?", alt=True)), Lit("}}"), Ph(f, S("?")), Ph(f, S("#?"[1:], alt=True))]))])
    # The same field under all traits in one message, between brace escapes.
    for shape, name in (("named", "x"), ("tuple", None), ("named", "r#fn"), ("named", "名前")):
        f = F(0, name)
        parts = [Lit("{{")]
        for t in gen.ALL * 2:
            parts += [Ph(f, S("" if t == "d" else t, ws=r.choice(["", " "]))), Lit(r.choice(["", "}}", "{{", "{{}}", "}}{{"]))]
        add([Variant("A", shape, [f], Msg(parts))])
    # Texts without placeholders, with and without escapes.
    for text in ("", "plain", "{{", "}}", "{{}}", "}}{{", "{{{{}}}}", "a{{0}}b", "{{x}}", "100%", "\\{{", "\n", "é", "\0", "{{x:?}}", "}} {{"):
        f = F(0, "x")
        add([Variant("A", "named", [f], Msg([Lit(text)]))])
        add([Variant("A", "unit", [], Msg([Lit(text)])), Variant("B", "tuple", [F(0, None)], Msg([Lit(text), Ph(F(0, None), S()), Lit(text)]))], "enum")
    # Many tuple fields: multi-digit positions, in scrambled order.
    for n in (11, 12, 25, 101):
        fs = [F(i, None) for i in range(n)]
        order = list(range(n))
        r.shuffle(order)
        parts = []
        for i in order:
            parts += [Ph(fs[i], S(r.choice(["", "?", "x"]))), Lit(r.choice(["", "", "1", "0", " "]))]
        for i in (0, 1, 10, n - 1):
            parts += [Ph(fs[i], S()), Lit("%d" % i)]
        add([Variant("A", "tuple", fs, Msg(parts))])
        add([Variant("A", "tuple", fs, Msg(parts)), Variant("B", "tuple", fs[::1], Msg(parts[::-1]))], "enum", values_each=1)
    # Names which are prefixes and suffixes of each other or of generated names.
    for ns in (["x", "xx", "xxx", "x_", "_x", "x0", "x1", "x10"], ["type_", "r#type", "typ", "types"],
               ["a", "a_b", "ab", "b", "a_b_c"], ["_0", "_1", "_10", "_"+"00"], ["display_x", "x", "field_x", "pointer_x", "_display_x"],
               ["é", "éé", "é_", "e"], ["r#match", "matc", "match_"], ["fmt", "f", "formatter", "r#fn", "write"],
               ["source_", "backtrace", "transparent", "error", "from"], ["core", "std", "thiserror", "Option", "Result"],
               ["this", "r#self_", "self__", "selfx"]):
        fs = [F(i, x) for i, x in enumerate(ns)]
        parts = []
        for t in ("", "?", "p", ""):
            order = list(fs)
            r.shuffle(order)
            for f in order:
                parts += [Ph(f, S(t)), Lit(r.choice(["", "_", "x", " "]))]
        add([Variant("A", "named", fs, Msg(parts))])
        add([Variant("A", "named", fs[::-1], Msg(parts[::-1])), Variant("B", "named", fs, Msg(parts))], "enum", values_each=1)
    # All keywords as raw names.
    for i in range(0, len(gen.KEYWORDS), 11):
        fs = [F(j, "r#" + k) for j, k in enumerate(gen.KEYWORDS[i:i + 11])]
        parts = [Ph(f, S(t)) for f in fs for t in ("", "?", "p")]
        add([Variant("A", "named", fs, Msg(parts))])
    # Each trait on a type that implements nothing else.
    for t in gen.ALL:
        f = F(0, r.choice(["x", None]), gen.ONLY[t])
        ty = "" if t == "d" else t
        parts = [Ph(f, S(ty)), Lit("-"), Ph(f, S(ty, align="<", width=40)), Ph(f, S(ty, ws=" ")), Ph(f, S(ty, align=">", fill="}", width=40))]
        add([Variant("A", "named" if f.name else "tuple", [f], Msg(parts))])
    # A field which no message mentions may lack every formatting trait.
    f, g = F(0, "x"), F(1, "y", gen.probe("vs::NoTrait", "", debug=False))
    add([Variant("A", "named", [f, g], Msg([Ph(f, S())]))])
    # Width and precision fields which are also displayed, before and after.
    f, w, p = F(0, "x"), F(1, "width", gen.USIZE), F(2, "prec", gen.USIZE)
    add([Variant("A", "named", [f, w, p], Msg([Ph(w, S()), Ph(f, S("", width=w, prec=p)), Ph(p, S("x", width=w)), Ph(w, S("?", width=w, prec=w))]))])
    add([Variant("A", "named", [p, w, f], Msg([Ph(f, S("?", align="^", fill="x", width=p, prec=w)), Ph(f, S("", prec=p))]))])
    # Long messages.
    fs = [F(i, "x%d" % i) for i in range(40)]
    parts = []
    for _ in range(200):
        parts += [Ph(r.choice(fs), S(r.choice(["", "?", "p", "e"]))), gen.lits(r, 1)]
    add([Variant("A", "named", fs, Msg(parts))])
    return out


def run(ctx):
    ctx.rule = ("one case = one generated struct or enum, its values and a handwritten twin; the twin is "
                "displayed under %d outer format options; non-trivial = a distinct (text, result, formatting "
                "event log) triple of the twin" % 12)
    ctx.assumptions = [
        "field names which are also names of constants, statics, unit or tuple structs in scope are outside the domain",
        "names starting with __display_, __field_, __pointer_ or equal to __formatter are outside the domain",
    ]
    cases = fixed_cases(ctx.sub_rng("fixed"))
    n = ctx.scale(4000, 24000)
    for i in range(n):
        cases.append(random_case(ctx.sub_rng("r%d" % i), "r%04d" % i))
    ctx.log("generated", len(cases))
    for k in range(0, len(cases), 2400):
        ctx.run_cases(Config(edition="2021"), cases[k:k + 2400], name="m%d" % (k // 2400),
                      bins=min(8, 1 + len(cases) // 60) if not ctx.thorough else 16)
