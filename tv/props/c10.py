"""C10: generic errors get exactly the trait bounds their messages need."""
import re

from tv import errs, gen
from tv.core import Case, Config
from tv.props import c05

ALL = set(gen.ALL)

HEADER = r'''
/// Implemented by every type; has no requirement of its own.
pub trait Any0 {}
impl<T: ?Sized> Any0 for T {}
/// Type-level complement, for projections.
pub trait Tr { type A; }
macro_rules! tr { ($($a:ident $b:ident,)*) => { $(impl Tr for vs::$a { type A = vs::$b; } impl Tr for vs::$b { type A = vs::$a; })* } }
tr! { Probe NoTrait, OnlyDisplay AllButDisplay, OnlyDebug AllButDebug, OnlyOctal AllButOctal, OnlyLowerHex AllButLowerHex, OnlyUpperHex AllButUpperHex,
      OnlyPointer AllButPointer, OnlyBinary AllButBinary, OnlyLowerExp AllButLowerExp, OnlyUpperExp AllButUpperExp, }
impl Tr for vs::Leaf { type A = vs::Leaf2; }
impl Tr for vs::Leaf2 { type A = vs::Probe; }
/// Forwards every formatting trait.
pub struct W<T: ?Sized>(pub T);
pub struct Arr<T, const N: usize>(pub [T; N]);
pub struct Lt<'a, T>(pub T, pub &'a str);
pub type Alias<T> = W<T>;
pub trait Conv<T> { type Out; }
pub struct Fam;
impl<T> Conv<T> for Fam { type Out = T; }
pub trait Inner { type In; }
impl<T> Inner for W<T> { type In = T; }
pub mod deep { pub mod er { pub struct W2<A, T>(pub T, pub A);
macro_rules! fwd2 { ($($t:ident)*) => { $( impl<A, T: std::fmt::$t> std::fmt::$t for W2<A, T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } } )* } }
fwd2! { Display Debug Octal LowerHex UpperHex Pointer Binary LowerExp UpperExp } } }
macro_rules! fwd { ($($t:ident)*) => { $(
    impl<T: ?Sized + std::fmt::$t> std::fmt::$t for W<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
    impl<T: std::fmt::$t, const N: usize> std::fmt::$t for Arr<T, N> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { for x in &self.0 { x.fmt(f)?; } Ok(()) } }
    impl<'a, T: std::fmt::$t> std::fmt::$t for Lt<'a, T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
)* } }
fwd! { Display Debug Octal LowerHex UpperHex Pointer Binary LowerExp UpperExp }
/// Needs a different trait of each parameter.
pub struct Two<T, U>(pub T, pub U);
impl<T: std::fmt::Display, U: std::fmt::LowerHex> std::fmt::Display for Two<T, U> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f)?; self.1.fmt(f) } }
impl<T, U: std::fmt::Octal> std::fmt::Debug for Two<T, U> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.1.fmt(f) } }
impl<T: std::fmt::Binary, U> std::fmt::Binary for Two<T, U> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
/// An error if its parameter is one.
pub struct WE<S>(pub S);
impl<S: std::fmt::Debug> std::fmt::Debug for WE<S> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
impl<S: std::fmt::Display> std::fmt::Display for WE<S> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
impl<S: std::error::Error> std::error::Error for WE<S> {}
'''

MARK = ["Probe", "NoTrait"] + ["Only" + gen.TRAIT_NAME[t] for t in gen.ALL] + ["AllBut" + gen.TRAIT_NAME[t] for t in gen.ALL]


def mtraits(m):
    if m == "Probe":
        return set(ALL)
    if m == "NoTrait":
        return set()
    if m in ("Leaf", "Leaf2"):
        return {"d", "?"}
    for t in gen.ALL:
        if m == "Only" + gen.TRAIT_NAME[t]:
            return {t}
        if m == "AllBut" + gen.TRAIT_NAME[t]:
            return ALL - {t}
    raise KeyError(m)


def comp(m):
    if m in ("Leaf", "Leaf2"):
        return {"Leaf": "Leaf2", "Leaf2": "Probe"}[m]
    if m == "Probe":
        return "NoTrait"
    if m == "NoTrait":
        return "Probe"
    return m.replace("Only", "AllBut") if m.startswith("Only") else m.replace("AllBut", "Only")


def is_error(m):
    return m in ("Leaf", "Leaf2")


def make(m, c):
    return "vs::%s::new(%d)" % (m, c())


class FT:
    """A field type over parameters: text, formatting traits and a value for an
    instantiation, and whether the macro is expected to see the parameter."""

    def __init__(self, text, traits, val, possible, needs_tr=None, uses=()):
        self.text, self.traits, self.val, self.possible, self.needs_tr, self.uses = text, traits, val, possible, needs_tr, set(uses)


def field_type(r, tps, lts, consts, in_bounds):
    p = r.choice(tps)
    q = r.choice(tps)
    sel = lambda S, keys: {t for t in keys if t in S}
    k = r.randrange(26)
    if k == 20:
        # The parameter appears in the trait of the path only.
        w, ww = r.choice([("%s", lambda x: x), ("crate::W<%s>", lambda x: "crate::W(%s)" % x)])
        return FT(w % ("<crate::Fam as crate::Conv<%s>>::Out" % p), lambda a: mtraits(a[p]), lambda a, c: ww(make(a[p], c)), gen.ALL, uses=[p])
    if k == 21:
        t = r.choice(["<Vec<%s> as IntoIterator>::Item", "<std::option::Option<%s> as std::iter::IntoIterator>::Item", "<crate::W<%s> as crate::Inner>::In",
                      "<Vec<crate::W<%s>> as IntoIterator>::Item", "<&'static %s as crate::Conv2>::Out"])
        if "&" in t:
            t = "<Box<%s> as std::ops::Deref>::Target"
        v = (lambda a, c: "crate::W(%s)" % make(a[p], c)) if "Vec<crate::W" in t else (lambda a, c: make(a[p], c))
        return FT(t % p, lambda a: mtraits(a[p]), v, gen.ALL, uses=[p])
    if k == 22:
        def tr2(a):
            Q = mtraits(a[q])
            return ({"d"} if "x" in Q else set()) | ({"?"} if "o" in Q else set()) | {"b"}
        return FT("crate::Two<u8, %s>" % q, tr2, lambda a, c: "crate::Two(3, %s)" % make(a[q], c), "d?b", uses=[q])
    if k == 23:
        return FT("std::result::Result<u8, Vec<Option<%s>>>" % p, lambda a: mtraits(a[p]) & {"?"}, lambda a, c: "Err(vec![Some(%s)])" % make(a[p], c), "?", uses=[p])
    if k == 24:
        return FT("crate::Alias<%s>" % p, lambda a: mtraits(a[p]), lambda a, c: "crate::W(%s)" % make(a[p], c), gen.ALL, uses=[p])
    if k == 25:
        return FT("self::M%s::%s<%s>" % ("od", "Nest", p) if False else "crate::deep::er::W2<u8, %s>" % p, lambda a: mtraits(a[p]), lambda a, c: "crate::deep::er::W2(%s, 0)" % make(a[p], c), gen.ALL, uses=[p])
    if k <= 5:
        return FT(p, lambda a: mtraits(a[p]), lambda a, c: make(a[p], c), gen.ALL, uses=[p])
    if k == 6:
        w = r.choice(["Box", "std::boxed::Box", "std::sync::Arc", "std::rc::Rc"])
        return FT("%s<%s>" % (w, p), lambda a: (mtraits(a[p]) & {"d", "?"}) | {"p"}, lambda a, c: "%s::new(%s)" % (w, make(a[p], c)), "d?p", uses=[p])
    if k == 7:
        return FT("Option<%s>" % p, lambda a: mtraits(a[p]) & {"?"}, lambda a, c: "Some(%s)" % make(a[p], c), "?", uses=[p])
    if k == 8:
        return FT("Vec<%s>" % p, lambda a: mtraits(a[p]) & {"?"}, lambda a, c: "vec![%s]" % make(a[p], c), "?", uses=[p])
    if k == 9:
        return FT("crate::W<%s>" % p, lambda a: mtraits(a[p]), lambda a, c: "crate::W(%s)" % make(a[p], c), gen.ALL, uses=[p])
    if k == 10:
        def tr(a):
            out = set()
            P, Q = mtraits(a[p]), mtraits(a[q])
            if "d" in P and "x" in Q:
                out.add("d")
            if "o" in Q:
                out.add("?")
            if "b" in P:
                out.add("b")
            return out
        return FT("crate::Two<%s, %s>" % (p, q), tr, lambda a, c: "crate::Two(%s, %s)" % (make(a[p], c), make(a[q], c)), "d?b", uses=[p, q])
    if k in (11, 12):
        # The parameter must implement Tr: bound inline or in the where-clause.
        t = "<%s as crate::Tr>::A" % p
        if k == 12 and p in in_bounds:
            t = "%s::A" % p
        return FT(t, lambda a: mtraits(comp(a[p])), lambda a, c: make(comp(a[p]), c), gen.ALL, needs_tr=p, uses=[p])
    if k == 13:
        return FT("std::marker::PhantomData<%s>" % p, lambda a: {"?"}, lambda a, c: "std::marker::PhantomData", "?", uses=[p])
    if k == 14:
        return FT("crate::W<crate::W<%s>>" % p, lambda a: mtraits(a[p]), lambda a, c: "crate::W(crate::W(%s))" % make(a[p], c), gen.ALL, uses=[p])
    if k == 15:
        return FT("Result<%s, %s>" % (p, q), lambda a: mtraits(a[p]) & mtraits(a[q]) & {"?"}, lambda a, c: "Ok(%s)" % make(a[p], c), "?", uses=[p, q])
    if k == 16 and consts:
        n = r.choice(consts)
        return FT("crate::Arr<%s, %s>" % (p, n), lambda a: mtraits(a[p]), lambda a, c: "crate::Arr([%s, %s])" % (make(a[p], c), make(a[p], c)), gen.ALL, uses=[p, n])
    if k == 17 and lts:
        # One lifetime only: with where-clauses on Lt<'a, T> and Lt<'b, T>, the
        # compiler itself cannot choose.
        l = lts[0]
        return FT("crate::Lt<%s, %s>" % (l, p), lambda a: mtraits(a[p]), lambda a, c: "crate::Lt(%s, \"l\")" % make(a[p], c), gen.ALL, uses=[p, l])
    if k == 18 and lts:
        l = r.choice(lts)
        return FT("&%s str" % l, lambda a: {"d", "?", "p"}, lambda a, c: "\"str\"", "d?", uses=[l])
    return FT("i32", lambda a: set(gen.INT), lambda a, c: "7", gen.INT)


PNAMES = ["T", "U", "V", "E_", "Err", "Type", "X", "S_", "A", "Item", "r#type_", "Display", "Error", "Formatter", "Self_", "F", "__T", "TT", "T1", "Target", "Option_"]


def definition(r, cid):
    c = gen.Ctr()
    nt = r.choice([1, 1, 2, 2, 3])
    tps = r.sample([n for n in PNAMES if not n.startswith("r#")], nt)
    lts = r.sample(["'a", "'b", "'_request_" if False else "'de"], r.choice([0, 0, 1, 2]))
    consts = r.sample(["N", "M"], r.choice([0, 0, 1]))
    in_bounds = set(p for p in tps if r.random() < 0.3)
    sp = None
    if r.random() < 0.5:
        sp = r.choice([p for p in ["S", "Source", "Cause"]])
    kind = r.choice(["struct", "enum", "enum"])
    nv = 1 if kind == "struct" else r.choice([1, 2, 3, 4])
    names = ["E"] if kind == "struct" else gen.variant_names(r, nv)
    names = ["E"] if kind == "struct" else [n for n in names]
    needs = []      # (FT, trait): needed by Display
    err_needs = []  # parameters that must be errors
    tr_needed = set()
    used = set()
    decls, arms = [], []
    vals = []
    pend = []
    fnitems = []
    # A message of the enum itself, read against each variant's own fields.
    shared = None
    if kind == "enum" and r.random() < 0.4:
        sshape = r.choice(["named", "named", "tuple"])
        sn = ["fa", "fb", "r#type"] if sshape == "named" else ["0", "1"]
        shared = [(r.choice(sn), r.choice(["d", "d", "?", "?", "x", "b", "p"])) for _ in range(r.choice([1, 2, 3]))]
        smsg = "".join("{%s%s} " % (gen.unraw(n), ":" + (r.choice(["", ">4"]) + ("" if t == "d" else t)) if t != "d" or r.random() < 0.3 else "") for n, t in shared)
    for vi, name in enumerate(names):
        shape = r.choice(["named", "tuple"])
        inherit = shared is not None and r.random() < 0.7
        if inherit:
            shape = sshape
        elif sp and r.random() < 0.25:
            # Transparent over the source parameter.
            w, ok = r.choice([("%s", 1), ("Box<%s>", 1), ("crate::WE<%s>", 1), ("std::sync::Arc<%s>", 1)])
            ty = w % sp
            sft = FT(ty, lambda a: mtraits(a[sp]) & {"d", "?"}, lambda a, c, w=w: mkwrap(w, make(a[sp], c)), "d", uses=[sp])
            used.add(sp)
            needs.append((sft, "d"))
            err_needs.append(sp)
            fn = r.choice(["inner", "source", "r#fn", "e"])
            decls.append(("#[error(transparent)]", name, "{ %s: %s }" % (fn, ty) if shape == "named" else "(%s)" % ty, shape))
            arms.append((name, [fn if shape == "named" else "0"], "std::fmt::Display::fmt(b0, f)"))
            vals.append((name, [(fn if shape == "named" else "0", sft)]))
            continue
        nf = r.choice([1, 2, 3, 4])
        fns = gen.names(r, nf) if shape == "named" else [None] * nf
        if inherit:
            must = sorted({n for n, _ in shared})
            if shape == "named":
                fns = must + [n for n in ["other", "zz"] if r.random() < 0.4]
                r.shuffle(fns)
                nf = len(fns)
            else:
                nf = max(int(n) for n in must) + 1 + r.choice([0, 0, 1])
                fns = [None] * nf
        fts = []
        for i in range(nf):
            want = {t for n, t in shared if n == (fns[i] or str(i))} if inherit else set()
            ft = field_type(r, tps, lts, consts, in_bounds)
            for _ in range(200):
                if want <= set(ft.possible):
                    break
                ft = field_type(r, tps, lts, consts, in_bounds)
            assert want <= set(ft.possible)
            fts.append(ft)
        for ft in fts:
            used |= ft.uses
            if ft.needs_tr:
                tr_needed.add(ft.needs_tr)
        fields = [gen.Field(i, fns[i], gen.Ty(fts[i].text, "", None)) for i in range(nf)]
        # The message.
        parts, twin_args = ["m%d " % vi], []
        tparts = ["m%d " % vi]
        if inherit:
            tparts = [smsg]
            for n, t in shared:
                f = next(f for f in fields if (f.name or str(f.index)) == n)
                needs.append((fts[f.index], t))
                tparts[0] = re.sub(r"\{%s([:}])" % gen.unraw(n), (r"{p%d\1" if False else r"{b%d\1") % f.index, tparts[0])
                if t == "p":
                    tparts[0] = re.sub(r"\{b%d(:[^}]*p)\}" % f.index, r"{p%d\1}" % f.index, tparts[0])
                    if "p%d = *b%d" % (f.index, f.index) not in twin_args:
                        twin_args.append("p%d = *b%d" % (f.index, f.index))
        shadow = set()
        args = []
        if inherit:
            pass
        elif shape == "named" and r.random() < 0.3:
            f = r.choice(fields)
            shadow.add(f.index)
            args.append("%s = %d" % (f.name, 40 + vi))
            parts.append("{%s} " % f.ref)
            tparts.append("%d " % (40 + vi))
        for _ in range(0 if inherit else r.choice([0, 1, 1, 2, 3])):
            f = r.choice(fields)
            if f.index in shadow:
                continue
            t = r.choice(fts[f.index].possible)
            spec = "" if t == "d" else t
            pre = r.choice(["", "", "", ">7", "#", "+.2"]) if t != "p" or True else ""
            s = ":" + pre + spec if pre + spec else ""
            parts.append("{%s%s}" % (f.ref, s))
            if t == "p":
                tparts.append("{p%d%s}" % (f.index, s))
                if "p%d = *b%d" % (f.index, f.index) not in twin_args:
                    twin_args.append("p%d = *b%d" % (f.index, f.index))
            else:
                tparts.append("{b%d%s}" % (f.index, s))
            needs.append((fts[f.index], t))
        if r.random() < 0.15 and not args and shape == "named" and not inherit:
            args.append("lit = \"l\"")
            parts.append("{lit}")
            tparts.append("l")
        if r.random() < 0.2 and shape == "named" and not inherit and not any("=" not in a for a in args):
            # An argument expression using a generic field needs no bound.
            f = r.choice(fields)
            args.insert(0, "std::mem::size_of_val(.%s)" % f.name)
            parts.append("{}")
            tparts.append("{sz%d}" % f.index)
        srcf = None
        if sp and r.random() < 0.5:
            w = r.choice(["%s", "Box<%s>", "crate::WE<%s>", "Option<%s>", "std::option::Option<Box<%s>>"])
            ty = w % sp
            used.add(sp)
            err_needs.append(sp)
            fn = "source" if r.random() < 0.5 else "src_field"
            at = "" if fn == "source" and shape == "named" else "#[source] "
            if shape == "named" and "source" in [gen.unraw(n) for n in fns]:
                fn, at = "src_field", "#[source] "
            srcf = (fn, at, ty, FT(ty, None, lambda a, c, w=w: mkwrap(w, make(a[sp], c)), ""))
        attr = "" if inherit else "#[error(%s)]" % ", ".join([gen.rs("".join(parts))] + args)
        if not args and r.random() < 0.1:
            # fmt = function needs nothing.
            pass
        fl = ["%s: %s" % (f.name, fts[f.index].text) if shape == "named" else fts[f.index].text for f in fields]
        if srcf:
            fl.append("%s%s: %s" % (srcf[1], srcf[0], srcf[2]) if shape == "named" else "#[source] %s" % srcf[2])
        decls.append((attr, name, "{ %s }" % ", ".join(fl) if shape == "named" else "(%s)" % ", ".join(fl), shape))
        memb = [f.member for f in fields]
        binds = "".join("let sz%d = std::mem::size_of_val(b%d); " % (f.index, f.index) for f in fields if "{sz%d}" % f.index in tparts)
        arms.append((name, memb, "%swrite!(f, %s)" % (binds, ", ".join([gen.rs("".join(tparts))] + twin_args))))
        vals.append((name, [(f.member, fts[f.index]) for f in fields] + ([(srcf[0] if shape == "named" else str(nf), srcf[3])] if srcf else [])))
    # Conversions: they need the bounds of the definition and nothing else.
    froms = []
    if kind == "enum":
        for i in range(r.choice([0, 0, 1, 1, 2])):
            g = sp and i == 1
            ty = r.choice(["crate::WE<%s>", "Box<crate::WE<%s>>"]) % sp if g else r.choice(["vs::Tracked<7>", "Option<vs::Tracked<7>>", "Box<vs::Tracked<7>>"]) if i == 0 else "vs::Tracked<8>"
            if g:
                used.add(sp)
                err_needs.append(sp)
            sh = r.choice(["named", "tuple"])
            at = "#[from] " + r.choice(["", "#[source] "])
            decls.append(("#[error(\"from%d\")]" % i, "From%d" % i, "{ %sinner: %s }" % (at, ty) if sh == "named" else "(%s%s)" % (at, ty), sh))
            arms.append(("From%d" % i, [], "write!(f, \"from%d\")" % i))
            given = ty[7:-1] if ty.startswith("Option") else ty
            froms.append((given, "From%d" % i, None if g else ("Box::new(%s)" if given.startswith("Box") else "%s") % ("vs::Tracked::<%d>::new(%d)" % (7 + i, 900 + i))))
    # Parameters must be used somewhere.
    allp = lts + tps + ([sp] if sp else []) + consts
    unused = [p for p in tps + ([sp] if sp else []) if p not in used] + [l for l in lts if l not in used]
    phantom = "std::marker::PhantomData<(%s)>" % "".join("&%s u8, " % p if p[0] == "'" else "%s, " % p for p in unused) if unused else None
    if phantom:
        a, n, d, s = decls[-1]
        tr = "transparent" in a or n.startswith("From")
        if tr:
            # Another variant holds it; a transparent struct cannot.
            if kind == "struct":
                return definition(r, cid)
            decls.append(("#[error(\"ph\")]", "Phantom", "(%s)" % phantom, "tuple"))
            arms.append(("Phantom", ["0"], "write!(f, \"ph\")"))
        else:
            extra = "ph_: %s" % phantom if s == "named" else phantom
            d = d[:-1].rstrip() + (", " + extra + (" }" if s == "named" else ")"))
            decls[-1] = (a, n, d, s)
            nm, fl = vals[-1]
            vals[-1] = (nm, fl + [("ph_" if s == "named" else str(len(fl)), FT("", None, lambda a, c: "std::marker::PhantomData", ""))])
    # Generics of the definition.
    gl, where = [], []
    for i, l in enumerate(lts):
        b = ""
        if i == 1 and r.random() < 0.5:
            if r.random() < 0.5:
                b = ": %s" % lts[0]
            else:
                where.append("%s: %s" % (l, lts[0]))
        gl.append((l, l + b))
    sized = []
    defaults_ok = False
    for p in tps + ([sp] if sp else []):
        bs = []
        if p in tr_needed or p in in_bounds:
            if p in in_bounds:
                bs.append("crate::Tr")
            else:
                where.append("%s: crate::Tr" % p)
        if r.random() < 0.25:
            (bs if r.random() < 0.5 else where).append("crate::Any0" if len(bs) and bs is bs and False else "crate::Any0") if False else bs.append("crate::Any0")
        if r.random() < 0.15:
            where.append("%s: crate::Any0 + for<'x> crate::Any0" % p) if False else where.append("%s: crate::Any0" % p)
        if lts and r.random() < 0.2:
            bs.append(lts[0])
        gl.append((p, p + (": " + " + ".join(bs) if bs else "")))
    for n in consts:
        gl.append((n, "const %s: usize" % n))
    if r.random() < 0.15:
        where.append("for<'x> &'x u8: crate::Any0")
    if r.random() < 0.15:
        where.append("Vec<%s>: crate::Any0" % tps[0])
    if r.random() < 0.3:
        # A default for the last parameters.
        for i in range(len(gl) - 1, -1, -1):
            nm, t = gl[i]
            if nm in consts:
                gl[i] = (nm, t + " = 2")
            elif nm[0] != "'" and r.random() < 0.7:
                gl[i] = (nm, t + " = vs::Probe")
            else:
                break
    gtext = "<%s%s>" % (", ".join(t for _, t in gl), r.choice(["", ","]))
    wtext = " where %s%s " % (", ".join(where), r.choice(["", ","])) if where else ""
    args = "<%s>" % ", ".join(n for n, _ in gl)
    idecl = "<%s>" % ", ".join(t.split(" = ")[0] for _, t in gl)
    # Debug, derived or by hand.
    params = tps + ([sp] if sp else [])
    has_proj = bool(tr_needed)
    mode = r.choice(["derive", "manual", "cond"])
    if has_proj and mode == "derive":
        mode = "manual"
    dbg = {"derive": list(params), "manual": [], "cond": [r.choice(params)]}[mode]
    two = any("Two<" in d[2] for d in decls)
    if mode == "derive" and two:
        mode, dbg = "manual", []
    L = ["#[derive(%sthiserror::Error)]" % ("Debug, " if mode == "derive" else "")]
    if kind == "struct":
        a, n, d, s = decls[0]
        L.append("%s\npub struct E%s%s%s%s" % (a, gtext, wtext if s == "named" else "", d, wtext + ";" if s == "tuple" else ""))
    else:
        if shared:
            if any(a == "" for a, _, _, _ in decls):
                L.append("#[error(%s)]" % gen.rs(smsg))
        L.append("pub enum E%s%s {" % (gtext, wtext))
        for a, n, d, s in decls:
            L.append("    %s %s%s," % (a, n, d))
        L.append("}")
    if mode != "derive":
        w2 = list(where) + ["%s: std::fmt::Debug" % p for p in dbg]
        L.append("impl%s std::fmt::Debug for E%s %s { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(\"E\") } }" % (
            idecl, args, "where " + ", ".join(w2) if w2 else ""))
    # The twin, with exactly the bounds needed.
    need_preds = []
    for ft, t in needs:
        pr = "%s: std::fmt::%s" % (ft.text, gen.TRAIT_NAME[t])
        if pr not in need_preds:
            need_preds.append(pr)
    all_preds = list(where) + need_preds
    rl = "<'z, %s>" % ", ".join(t.split(" = ")[0] for _, t in gl)
    lt = [g for g in gl if g[0][0] == "'"]
    rargs = "<'z, %s>" % ", ".join(n for n, _ in gl)
    L.append("struct R%s(&'z E%s) %s;" % (rl, args, "where " + ", ".join(where) if where else ""))
    L.append("impl%s std::fmt::Display for R%s %s { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self.0 {" % (
        rl, rargs, "where " + ", ".join(all_preds) if all_preds else ""))
    for name, memb, body in arms:
        path = "E" if kind == "struct" else "E::" + name
        L.append("    %s { %s.. } => { %s }" % (path, "".join("%s: b%d, " % (m, i) for i, m in enumerate(memb)), body))
    L.append("} } }")
    # Usable in a generic context with no more than what is needed.
    L.append("fn display_generic%s(e: &E%s, g: &mut dyn FnMut(&dyn std::fmt::Display)) %s { g(e) }" % (idecl, args, "where " + ", ".join(all_preds) if all_preds else ""))
    ep = list(all_preds) + ["E%s: std::fmt::Debug" % args]
    seen = set()
    for a, n, d, s in decls:
        pass
    if sp and err_needs:
        ep.append("%s: std::error::Error + 'static" % sp)
    L.append("fn error_generic%s(e: &E%s) -> bool where %s { std::error::Error::source(e).is_some() }" % (idecl, args, ", ".join(ep)))
    for i, (ty, v, _) in enumerate(froms):
        L.append("fn from_generic%d%s(t: %s) -> E%s %s { E::from(t) }" % (i, idecl, ty, args, "where " + ", ".join(where) if where else ""))
    # Instantiations.
    insts = []
    base = {p: "Probe" for p in tps}
    if sp:
        base[sp] = "Leaf"

    def inst(**over):
        d = dict(base)
        d.update(over)
        if d not in insts:
            insts.append(d)

    inst()
    for ft, t in needs:
        for p in sorted(ft.uses & set(tps)):
            inst(**{p: "AllBut" + gen.TRAIT_NAME[t]})
            inst(**{p: "Only" + gen.TRAIT_NAME[t]})
    for p in tps:
        inst(**{p: "NoTrait"})
    if sp:
        inst(**{sp: "Probe"})
        inst(**{sp: "Leaf2"})
        inst(**{sp: "NoTrait"})
    for _ in range(6):
        inst(**{p: r.choice(MARK) for p in params})
    # The least that is needed of each parameter, and nothing else.
    L.append("pub fn run(m: &mut vs::Mon) {")

    def targs(d):
        out = []
        for n, _ in gl:
            out.append("'static" if n[0] == "'" else "2" if n in consts else "vs::" + d[n])
        return "<%s>" % ", ".join(out)

    for d in insts:
        disp = all(t in ft.traits(d) for ft, t in needs)
        debug = all("?" in mtraits(d[p]) for p in dbg)
        err = disp and debug and all(is_error(d[p]) for p in err_needs)
        t = "E" + targs(d)
        L.append("    m.eq(%s, (vs::impls!(%s: std::fmt::Display), vs::impls!(%s: std::error::Error)), (%s, %s));" % (
            gen.rs("bounds of " + t), t, t, str(disp).lower(), str(err).lower()))
        for ty, v, val in froms:
            ty = re.sub(r"WE<\w+>", "WE<vs::%s>" % d.get(sp), ty)
            L.append("    m.check(%s, vs::impls!(%s: From<%s>), || \"no conversion\".to_owned()); m.count(\"conversions\", 1);" % (gen.rs("conversion into " + t), t, ty))
        L.append("    m.count(%s, 1); m.trace(&%s);" % ('"instantiations_error"' if err else '"instantiations_display"' if disp else '"instantiations_neither"', gen.rs(cid + t)))
    d0 = insts[0]
    a0 = targs(d0)
    disp0 = all(t in ft.traits(d0) for ft, t in needs)
    if disp0:
        for name, fl in vals:
            path = "E" if kind == "struct" else "E::" + name
            turbo = "E::%s" % a0 if kind == "struct" else "E::%s::%s" % (a0, name)
            L.append("    { let e: E%s = %s { %s };" % (a0, path, ", ".join("%s: %s" % (mm, ft.val(d0, c)) for mm, ft in fl)))
            L.append("      m.display(%s, &e, &R(&e)); display_generic(&e, &mut |d| m.display(\"generic\", d, &R(&e))); }" % gen.rs(name))
    for i, (ty, v, val) in enumerate(froms):
        if val:
            L.append("    m.check(\"converted\", matches!(from_generic%d::%s(%s), E::%s { .. }), || \"wrong variant\".to_owned());" % (
                i, "<%s>" % ", ".join(x for x in a0[1:-1].split(", ") if x != "'static"), val, v))
    L.append("}")
    return Case(cid, "\n".join(L))


def mkwrap(w, x):
    for pre, how in (("std::option::Option<Box<", "Some(Box::new(%s))"), ("Option<", "Some(%s)"), ("Box<", "Box::new(%s)"), ("crate::WE<", "crate::WE(%s)"),
                     ("std::sync::Arc<", "std::sync::Arc::new(%s)")):
        if w.startswith(pre):
            return how % x
    return x


def fixed():
    out = []

    def add(items, body, known=None):
        out.append(Case("f%03d" % len(out), items + "\npub fn run(m: &mut vs::Mon) {\n" + body + "\nm.trace(&\"fixed %d\"); }" % len(out), known=known))

    D = "#[derive(Debug, thiserror::Error)] "
    DE = "#[derive(thiserror::Error)] "

    def chk(ty, disp, err=None):
        s = "m.eq(%s, vs::impls!(%s: std::fmt::Display), %s);" % (gen.rs(ty), ty, str(disp).lower())
        if err is not None:
            s += "m.eq(%s, vs::impls!(%s: std::error::Error), %s);" % (gen.rs(ty + ": Error"), ty, str(err).lower())
        return s

    # ?Sized parameters, also as the last field.
    add(D + '#[error("{n} {last}")] pub struct E<T: ?Sized> { n: u8, last: T }',
        chk("E<str>", True, True) + chk("E<[u8]>", False, False) + chk("E<dyn std::fmt::Display>", True, False) + chk("E<vs::NoTrait>", False, False) +
        'let e: &E<vs::Probe> = &E { n: 1, last: vs::Probe::new(4) }; m.display("d", e, &format_args!("1 {}", vs::Probe::new(4)));'
        if False else
        chk("E<str>", True, True) + chk("E<[u8]>", False, False) + chk("E<dyn std::fmt::Display>", True, False) + chk("E<vs::NoTrait>", False, False))
    add(D + '#[error("{0}{1:?}")] pub struct E<T, U>(Box<T>, std::rc::Rc<U>) where T: ?Sized, U: ?Sized;',
        chk("E<str, [u8]>", True, True) + chk("E<[u8], str>", False, False) + chk("E<dyn std::fmt::Display, str>", True, False) + chk("E<dyn std::error::Error, dyn std::error::Error>", True, True))
    # Interpolated and shadowed at once; the same field under two traits.
    add(DE + '#[error("{x} {x:?} {x:x}")] pub struct E<T> { x: T } impl<T> std::fmt::Debug for E<T> { fn fmt(&self, f: &mut std::fmt::Formatter<\'_>) -> std::fmt::Result { Ok(()) } }',
        chk("E<vs::Probe>", True, True) + chk("E<vs::AllButDisplay>", False) + chk("E<vs::AllButDebug>", False) + chk("E<vs::AllButLowerHex>", False) + chk("E<vs::AllButOctal>", True, True))
    add(DE + '#[error("{x} {x:?}", x = 1)] pub struct E<T> { x: T } impl<T> std::fmt::Debug for E<T> { fn fmt(&self, f: &mut std::fmt::Formatter<\'_>) -> std::fmt::Result { Ok(()) } }',
        chk("E<vs::NoTrait>", True, True))
    add(DE + '#[error("{}", 1)] pub struct E<T>(T); impl<T> std::fmt::Debug for E<T> { fn fmt(&self, f: &mut std::fmt::Formatter<\'_>) -> std::fmt::Result { Ok(()) } }',
        chk("E<vs::NoTrait>", True, True))
    # Bounds of every variant come together, also through the enum's message.
    add(DE + '#[error("{0:b}")] pub enum E<A, B, C> { X(A), #[error("{b:e}")] Y { b: B }, #[error("c")] Z(C), W(B) } impl<A, B, C> std::fmt::Debug for E<A, B, C> { fn fmt(&self, f: &mut std::fmt::Formatter<\'_>) -> std::fmt::Result { Ok(()) } }',
        chk("E<vs::OnlyBinary, vs::Probe, vs::NoTrait>", True, True) + chk("E<vs::AllButBinary, vs::Probe, vs::Probe>", False) + chk("E<vs::Probe, vs::OnlyBinary, vs::Probe>", False) +
        chk("E<vs::Probe, vs::OnlyLowerExp, vs::Probe>", False))
    # Transparent: a source that is not 'static.
    add("#[derive(Debug)] pub struct Short<'a>(&'a str); impl std::fmt::Display for Short<'_> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.pad(self.0) } } impl std::error::Error for Short<'_> {}"
        + D + "#[error(transparent)] pub struct E<T>(T);" + D + "#[error(transparent)] pub struct L<'a>(Short<'a>);"
        + D + "pub enum En<'a, T> { #[error(transparent)] A(Short<'a>), #[error(transparent)] B { t: T } }"
        "fn chk<'a>(m: &mut vs::Mon, s: &'a str) { fn is<T: std::error::Error>(t: &T) -> bool { t.source().is_none() } m.check(\"gen\", is(&E(Short(s))), String::new); m.check(\"lt\", is(&L(Short(s))), String::new); "
        "m.check(\"en\", is(&En::<Short<'a>>::A(Short(s))) && is(&En::B { t: Short(s) }), String::new); m.display(\"shown\", &E(Short(s)), &Short(s)); }",
        'let s = String::from("local"); chk(m, &s);' + chk("E<vs::Leaf>", True, True) + chk("E<vs::Probe>", True, False) + chk("E<vs::NoTrait>", False, False))
    # Error does not require what only Display needs of other instantiations.
    add(D + '#[error("{0}")] pub struct E<T, S: std::error::Error + \'static>(T, #[source] S);',
        chk("E<vs::Probe, vs::Leaf>", True, True) + chk("E<vs::OnlyDebug, vs::Leaf>", False, False) + chk("E<vs::OnlyDisplay, vs::Leaf>", True, False))
    # From has no bounds beyond the definition's.
    add(DE + '#[error("{t:o}")] pub enum E<T, U = vs::NoTrait> where T: Sized { A(T), }', "") if False else None
    add(DE + 'pub enum E<T, U = vs::NoTrait> where T: Sized { #[error("{0:o}")] A(T, U), #[error("b")] B(#[from] vs::Leaf), #[error("c")] C { #[from] source: Option<vs::Leaf2> } } impl<A, B> std::fmt::Debug for E<A, B> { fn fmt(&self, f: &mut std::fmt::Formatter<\'_>) -> std::fmt::Result { Ok(()) } }',
        'm.check("from", vs::impls!(E<vs::NoTrait>: From<vs::Leaf>) && vs::impls!(E<vs::Probe, str2>: From<vs::Leaf2>), String::new); let e: E<vs::NoTrait> = vs::Leaf::new(1).into(); m.check("b", matches!(e, E::B(_)), String::new);'.replace("str2", "vs::NoTrait")
        + chk("E<vs::OnlyOctal>", True, True) + chk("E<vs::AllButOctal>", False, False))
    add(DE + '#[error("f")] pub struct E<T>(#[from] vs::Smart<T>, ) where vs::Smart<T>: std::error::Error;', "") if False else None
    # A generic source converted from.
    add(D + '#[error("f")] pub struct E<S>(#[from] S);' + D + '#[error("g")] pub struct G<S> { #[from] s: Option<Box<S>> }',
        'm.check("from", vs::impls!(E<vs::NoTrait>: From<vs::NoTrait>) && vs::impls!(G<vs::NoTrait>: From<Box<vs::NoTrait>>), String::new);' +
        chk("E<vs::Leaf>", True, True) + chk("E<vs::Probe>", True, False) + chk("G<vs::Leaf>", True, True) + chk("G<vs::Probe>", True, False) + chk("G<vs::NoTrait>", True, False))
    # Associated types as sources and in messages.
    add(D + '#[error("{0}")] pub struct E<T: crate::Tr>(T::A) where T::A: std::fmt::Debug; ' + DE + '#[error("s")] pub struct F<T: crate::Tr> { #[source] s: <T as crate::Tr>::A } impl<T: crate::Tr> std::fmt::Debug for F<T> { fn fmt(&self, f: &mut std::fmt::Formatter<\'_>) -> std::fmt::Result { Ok(()) } }',
        chk("F<vs::Leaf>", True, True) + chk("F<vs::NoTrait>", True, False) + chk("E<vs::OnlyOctal>", True) + chk("E<vs::OnlyDisplay>", False))
    # Parameters and arguments called alike; a parameter named like a module.
    add("mod m1 { #[derive(Debug)] pub struct T; impl std::fmt::Display for T { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(\"m1\") } } }"
        + DE + '#[error("{0} {T}", T = 1)] pub struct E<T>(m1::T, T); impl<T> std::fmt::Debug for E<T> { fn fmt(&self, f: &mut std::fmt::Formatter<\'_>) -> std::fmt::Result { Ok(()) } }',
        chk("E<vs::NoTrait>", True, True))
    add(DE + '#[error("{a:?}{b:?}{c:?}")] pub struct E<\'a, \'b: \'a, T: \'a + crate::Any0, const N: usize = 3, const F: bool = true, const C: char = \'x\'> where T: \'b, \'b: \'a { a: &\'a str, b: [u8; N], c: Vec<&\'b str>, t: std::marker::PhantomData<T> } impl<T, const N: usize, const F: bool, const C: char> std::fmt::Debug for E<\'_, \'_, T, N, F, C> { fn fmt(&self, f: &mut std::fmt::Formatter<\'_>) -> std::fmt::Result { Ok(()) } }',
        chk("E<'static, 'static, vs::NoTrait>", True, True) + chk("E<'static, 'static, vs::NoTrait, 7, false, 'y'>", True, True))
    # Higher-ranked and self-referential where-clauses.
    add(D + "#[error(\"{0}\")] pub struct E<F, T>(T, F) where F: for<'x> Fn(&'x T) -> &'x T + std::fmt::Debug, Vec<T>: Clone, Option<E2<T>>: Sized, T: Clone + PartialEq<T>, for<'y> &'y T: Sized;" + D + "#[error(\"x\")] pub struct E2<T>(T);",
        chk("E<fn(&u8) -> &u8, u8>", True, True) + chk("E<fn(&Vec<u8>) -> &Vec<u8>, Vec<u8>>", False, False))
    # Two type parameters of the same trait through one wrapper type.
    add(DE + '#[error("{0:?} {1:?}")] pub struct E<T, U>(crate::Two<T, U>, crate::Two<U, T>); impl<T, U> std::fmt::Debug for E<T, U> { fn fmt(&self, f: &mut std::fmt::Formatter<\'_>) -> std::fmt::Result { Ok(()) } }',
        chk("E<vs::OnlyOctal, vs::OnlyOctal>", True, True) + chk("E<vs::NoTrait, vs::OnlyOctal>", False) + chk("E<vs::OnlyOctal, vs::NoTrait>", False))
    # Known: no bounds are inferred through other kinds of type.
    for i, (ty, val) in enumerate([("&'static T", "T"), ("[T; 2]", "T"), ("(T, u8)", "T"), ("&'static [T]", "T"), ("Box<dyn crate::Tr<A = T>>", "T"), ("fn(T) -> T", "T"), ("(T)", "T")]):
        ok = "vs::Probe"
        if "dyn" in ty:
            continue
        b = " where T: 'static" if "'static" in ty else ""
        add(DE + '#[error("{0:?}")] pub struct E<T>(%s)%s; impl<T> std::fmt::Debug for E<T> { fn fmt(&self, f: &mut std::fmt::Formatter<\'_>) -> std::fmt::Result { Ok(()) } }' % (ty, b),
            chk("E<vs::Probe>", True, True) + chk("E<vs::NoTrait>", False), known="D8") if not ty.startswith("fn") else None
    # Nor for a type which depends on a const parameter only.
    add("#[derive(Debug)] pub struct W<const N: usize>; impl std::fmt::Display for W<1> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(\"one\") } }"
        + D + '#[error("{0}")] pub struct E<const N: usize>(W<N>);', chk("E<1>", True, True) + chk("E<2>", False, False), known="D8")
    return [c for c in out if c]


def run(ctx):
    ctx.rule = ("one case = one generic definition whose fields are its parameters, wrapped or projected; for many instantiations with types "
                "implementing exactly one, all but one, all or none of the nine formatting traits, whether Display and Error apply is observed "
                "and compared with what the messages need; values are displayed next to a twin with exactly those bounds; "
                "non-trivial = distinct (definition, instantiation) and displayed traces")
    cases = fixed() + [definition(ctx.sub_rng("r%d" % i), "r%04d" % i) for i in range(ctx.scale(700, 6000))]
    ctx.log("generated", len(cases))
    for k in range(0, len(cases), 2000):
        ctx.run_cases(Config(), cases[k:k + 2000], name="m%d" % (k // 2000), header=HEADER, bins=16)
