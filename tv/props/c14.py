"""C14: generated code is hygienic, safe and warning-free in any scope."""
import json
import os
import re

from tv import core, corpus, gen, inproc
from tv.core import NIGHTLY_PROVIDE, Case, Config

# Names a scope may give to anything.
UPPER = ["Option", "Some", "None", "Ok", "Err", "Result", "Error", "Display", "Formatter", "Debug", "From", "Into", "String", "Vec", "Box", "Self_", "Request", "Backtrace",
         "Copy", "Clone", "Send", "Sync", "Sized", "Drop", "Fn", "FnOnce", "Iterator", "AsRef", "ToString", "Deref", "AsDisplay", "AsDynError", "ThiserrorProvide", "Var", "Placeholder",
         "Pointer", "LowerHex", "Arguments", "PathBuf", "Path", "Infallible", "UnwindSafe", "Unpin", "Default", "Eq", "T"]
LOWER = ["core", "std", "alloc", "thiserror", "fmt", "error", "option", "convert", "result", "clone", "panic", "path", "ops", "__private", "thiserror_impl", "u8", "str", "bool", "usize", "u32", "i32", "char",
         "private", "vs_", "prelude", "display", "aserror", "var", "provide", "macros", "from", "into", "write", "as_display", "as_dyn_error", "thiserror_provide", "drop", "format", "formatter"]
MACROS = ["write", "writeln", "format_args", "format", "panic", "unreachable", "matches", "vec", "concat", "stringify", "assert", "line", "cfg", "todo", "println", "debug_assert", "include_str",
          "addr_of", "env", "assert_eq", "unimplemented", "file", "column", "module_path", "is_some", "error", "source", "fmt", "from", "core", "std", "thiserror", "automatically_derived", "allow_", "deprecated_"]
METHODS = ["fmt", "source", "provide", "from", "into", "to_string", "deref", "borrow", "cause", "description", "provide_ref", "provide_value", "write_fmt", "write_str", "clone", "cmp", "eq", "display", "pad",
           "unwrap", "is_some", "map", "to_owned", "type_id", "by_ref", "get", "inner", "alternate", "capture", "downcast_ref", "as_error", "is", "new", "expect", "and_then", "debug", "as_str"]
# Blanket methods of these names are looked up by the generated code (D9).
HIJACKED = ["as_display", "as_dyn_error", "thiserror_provide"]
FIELDS = ["core", "std", "alloc", "thiserror", "fmt", "f", "formatter", "error", "option", "Option", "Error", "Display", "Debug", "From", "Result", "String", "x", "y", "value", "this", "write", "format_args",
          "format", "display", "as_display", "as_dyn_error", "var", "Var", "private", "provide", "result", "ty", "src", "args", "arg", "self_", "r#type", "r#match", "r#fn", "item", "inner", "_formatter", "__fmt",
          "placeholder", "vec", "panic", "Formatter", "Request", "Backtrace", "Self_", "u8", "str", "T", "E", "from", "into", "_0", "_1", "_2", "self__", "r#use", "r#dyn", "to_string", "unwrap", "fmt_", "w", "p",
          "Box", "message", "err", "cause", "res", "s", "e", "Some_", "stringify", "concat", "matches", "is_some", "field", "variant", "lit", "r#where", "r#async", "r#try", "__", "_x", "x_", "Ω", "名"]
PRELUDE_VALUES = ["Some", "None", "Ok", "Err"]
VARIANTS = ["Option", "Some", "None", "Ok", "Err", "Result", "Error", "Display", "Formatter", "Debug", "From", "String", "fmt", "core", "std", "thiserror", "Self_", "E", "V", "T", "write", "source", "backtrace",
            "transparent", "request", "__formatter", "Output", "Target", "Item", "Err_", "Backtrace", "Request", "Box", "_x", "r#type", "r#match", "A", "B", "C", "Owned", "Var", "u8"]
TYPES = ["Option", "Error", "Display", "Debug", "From", "Result", "Formatter", "Some", "None", "Ok", "Err", "String", "core", "std", "thiserror", "Backtrace", "Request", "E", "Kind", "fmt", "Box", "Var", "u8", "str",
         "AsDisplay", "AsDynError", "r#type", "Infallible", "Self_", "Into", "Drop", "Copy", "Sized", "write", "Placeholder", "T", "Pointer", "__private", "Arguments"]
PARAMS = ["T", "E", "Error", "Display", "Formatter", "Option", "Debug", "From", "Source", "F", "core", "std", "thiserror", "Backtrace", "Request", "Result", "Some", "None", "Ok", "String", "fmt", "Self_", "source", "u8",
          "Output", "Var", "AsDisplay", "D", "W", "_T"]
LIFETIMES = ["'a", "'error", "'f", "'formatter", "'source", "'r#fn", "'request", "'b", "'this", "'_a", "'__a", "'de", "'e", "'life0", "'core", "'r", "'s", "'x", "'req", "'fmt", "'err", "'life", "'src", "'provide"]
CONSTS = ["N", "SIZE", "M", "Option_", "K", "C"]

# (type, values, placeholder spec -> trait is implemented, argument expressions over {d}, the field written with its dot)
KINDS = [
    ("::vs::Probe", "::vs::Probe::new({i})", list(gen.ALL), [".num()", ".add(3)"]),
    ("::vs::Probe", "::vs::Probe::new({i})", list(gen.ALL), [".num()"]),
    ("::std::string::String", "<::std::string::String as ::core::convert::From<&::core::primitive::str>>::from(\"s{i}\")", ["d", "?"], [".len()", ".is_empty()"]),
    ("::core::primitive::u8", "{m}u8", ["d", "?", "x", "X", "o", "b", "e", "E"], [".leading_zeros()", ".wrapping_add(250)"]),
    ("&'static ::core::primitive::str", "\"str{i}\"", ["d", "?"], [".len()", ".trim()"]),
    ("::std::path::PathBuf", "<::std::path::PathBuf as ::core::convert::From<&::core::primitive::str>>::from(\"p/{i}\")", ["P", "?"], []),
    ("&'static ::core::primitive::u16", "&{m}u16", ["d", "?", "x"], []),
    ("::core::option::Option<::vs::Probe>", "::core::option::Option::Some(::vs::Probe::new({i}))", ["?"], [".is_some()"]),
    ("::std::boxed::Box<::vs::Probe>", "::std::boxed::Box::new(::vs::Probe::new({i}))", ["d", "?"], [".num()"]),
    ("::core::primitive::bool", "true", ["d", "?"], []),
    ("(::core::primitive::u8, ::core::primitive::i32)", "({m}u8, -{i})", ["?"], []),
    ("::std::borrow::Cow<'static, ::core::primitive::str>", "::std::borrow::Cow::Borrowed(\"cow{i}\")", ["d", "?"], [".len()"]),
]
SOURCES = [
    ("::vs::Leaf", "::vs::Leaf::new({i})", "{b}"), ("::vs::Leaf2", "::vs::Leaf2::new({i})", "{b}"),
    ("::std::boxed::Box<dyn ::core::error::Error>", "::std::boxed::Box::new(::vs::Leaf::new({i}))", "&**{b}"),
    ("::std::boxed::Box<dyn ::core::error::Error + ::core::marker::Send + ::core::marker::Sync>", "::std::boxed::Box::new(::vs::Leaf::new({i}))", "&**{b}"),
    ("::std::rc::Rc<dyn ::core::error::Error + ::core::marker::Send>", "::std::rc::Rc::new(::vs::Leaf::new({i}))", "&**{b}"),
    ("::std::io::Error", "::std::io::Error::from_raw_os_error(2)", "{b}"), ("::vs::Unit", "::vs::Unit", "{b}"), ("::vs::Smart<::vs::Leaf>", "::vs::Smart(::std::boxed::Box::new(::vs::Leaf::new({i})))", "&**{b}"),
]
SPEC = {"d": ["", ":>8", ":<3", ":^+9", ":#", ":05", ":.2", ":8.1"], "?": [":?", ":#?", ":>6?"], "P": [""]}


CLIPPY = ["clippy::all", "clippy::pedantic", "clippy::nursery"]


class Def:
    pass


def definition(r, hostile=True, provide=False, no_prelude=False, taken=(), deprecated=False, tname=None, static=False, edition="2021", plainargs=False):
    d = Def()
    c = gen.Ctr()
    d.kind = r.choice(["struct", "enum", "enum"])
    d.name = tname or (r.choice([t for t in TYPES if t not in taken]) if hostile else r.choice(["E", "Kind", "MyError"]))
    d.provide = provide
    life = r.random() < (0.6 if provide else 0.3) and not static
    d.tparams = []
    params, args, inst = [], [], []
    if life:
        l = r.choice([l for l in LIFETIMES if edition >= "2021" or "#" not in l]) if hostile else "'a"
        params.append(l)
        args.append(l)
        inst.append("'static")
        d.life = l
        d.lives = [l]
        for x in r.sample(LIFETIMES, r.choice([0, 0, 1, 2, 3])) if hostile else []:
            if x not in d.lives and (edition >= "2021" or "#" not in x):
                d.lives.append(x)
                params.append(x + r.choice(["", "", ": " + l]))
                args.append(x)
                inst.append("'static")
    else:
        d.life = None
        d.lives = []
    if r.random() < 0.35:
        for t in r.sample(PARAMS, r.choice([1, 1, 2])) if hostile else ["T"]:
            if t in (d.name, "Backtrace") or t in taken:
                continue
            d.tparams.append(t)
            params.append(t)
            args.append(t)
            inst.append("::vs::Probe")
    d.cparam = None
    if r.random() < 0.15:
        k = r.choice(CONSTS) if hostile else "N"
        if k not in taken and k not in d.tparams and k != d.name:
            d.cparam = k
            params.append("const %s: ::core::primitive::usize" % k)
            args.append(k)
            inst.append("2")
    # Whoever has to appear in some field.
    must = [("&%s ::core::primitive::str" % x, "\"lt\"", ["d", "?"], [".len()"]) for x in d.lives]
    must += [(t, "::vs::Probe::new({i})", ["d", "?", "x", "p"], []) for t in d.tparams]
    must += [("[::core::primitive::u8; %s]" % d.cparam, "[{m}, 2]", ["?"], [".len()"])] if d.cparam else []
    nv = 1 if d.kind == "struct" else max(r.choice([1, 2, 3, 5]), 1 if must else 1)
    vnames = r.sample(VARIANTS, nv) if hostile else r.sample(["Alpha", "Beta", "Gamma", "Delta", "Eps", "Zeta"], nv)
    d.variants = []
    froms = set()
    bad = set(taken) | set(PRELUDE_VALUES) | {d.cparam} | {"source", "backtrace", "transparent", "request"}
    if no_prelude:
        bad -= set(PRELUDE_VALUES)
    bad |= set(taken)
    d.deprecated = deprecated and r.random() < 0.3
    for k in range(nv):
        v = Def()
        v.name = vnames[k]
        v.shape = r.choice(["named", "named", "tuple", "unit"])
        v.fields = []
        v.how = r.choice(["plain"] * 4 + ["transparent"] + (["fmt"] if d.kind == "enum" else []))
        v.deprecated = deprecated and d.kind == "enum" and r.random() < 0.3
        if k == 0 and must:
            v.how = "plain" if v.how == "transparent" else v.how
            if v.shape == "unit":
                v.shape = "tuple"
        if v.how == "transparent" and v.shape == "unit":
            v.shape = "tuple"

        def field(kind, role="", attrs=""):
            t, val, traits, exprs = kind
            f = Def()
            f.ty, f.traits, f.exprs, f.role, f.attrs = t, traits, exprs, role, attrs
            i = c()
            f.val = val.format(i=i, m=i % 250)
            f.deprecated = deprecated and r.random() < 0.2
            return f

        def source(role):
            s = r.choice([s for s in SOURCES if s[0] not in froms] or [("::vs::Nth<%d>" % k, "::vs::Nth::<%d>::new({i})" % k, "{b}")])
            opt = role != "transparent" and r.random() < 0.3
            dyn = "dyn " in s[0] or "Smart" in s[0]
            t = "::core::option::Option<%s>" % s[0] if opt else s[0]
            f = field((t, "::core::option::Option::Some(%s)" % s[1] if opt else s[1], ["?"] if opt else ["d", "?"], []), "source")
            f.opt, f.want, f.bare = opt, s[2], s[0]
            f.frm = role == "from" or (role == "transparent" and r.random() < 0.5 and not dyn and s[0] not in froms)
            if s[0] in froms:
                f.frm = False
            if f.frm:
                froms.add(s[0])
            f.attrs = "#[from] " if f.frm else "" if role == "transparent" else "#[source] "
            return f
        d_source = None
        if v.how == "transparent":
            d_source = source("transparent")
            v.fields = [d_source]
        else:
            if k == 0:
                v.fields += [field(m) for m in must]
            if v.shape != "unit":
                role = r.choice(["", "", "source", "from"]) if not (k == 0 and must) else r.choice(["", "source"])
                if role == "source":
                    v.fields.append(source("source"))
                elif role == "from" and v.how != "fmt":
                    v.fields.append(source("from"))
                    role = "from!"
                if role != "from!" or not v.fields:
                    v.fields += [field(r.choice(KINDS)) for _ in range(r.choice([0, 1, 2, 3, 5]))]
                if d.provide and r.random() < 0.6:
                    opt = r.random() < 0.4
                    f = field(("::core::option::Option<::std::backtrace::Backtrace>" if opt else "::std::backtrace::Backtrace",
                               ("::core::option::Option::Some(%s)" if opt else "%s") % "::std::backtrace::Backtrace::disabled()", [], []), "backtrace", "#[backtrace] ")
                    v.fields.append(f)
                    f.opt = opt
                if role != "from!":
                    r.shuffle(v.fields)
        names = list(dict.fromkeys([n for n in FIELDS if n not in bad and gen.unraw(n) not in bad] + [n for n in PRELUDE_VALUES if n not in bad]))
        names = r.sample(names, len(v.fields)) if hostile else ["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta", "iota", "kappa", "lam"][:len(v.fields)]
        for i, f in enumerate(v.fields):
            f.name = names[i] if v.shape == "named" else str(i)
            if f.role == "source" and v.how != "transparent" and v.shape == "named" and r.random() < 0.3 and not deprecated and "source" not in taken:
                f.name = "source"
                if not f.frm:
                    f.attrs = ""
        # The message: pieces of (literal, placeholder) or (literal, argument).
        v.pieces = []
        v.named = []
        v.args = []
        if v.how == "plain":
            shown = [f for f in v.fields if f.traits]
            for _ in range(r.choice([0, 1, 1, 2, 3, 4]) if shown else 0):
                f = r.choice(shown)
                lit = r.choice(["", " ", "m ", "{{", "}}", "é: ", "=", "::core::", "write!"])
                if f.exprs and r.random() < 0.35:
                    e = r.choice(f.exprs)
                    form = "%s" if plainargs else r.choice(["%s", "(%s)", "{ let l_a = %s; l_a }", "::core::convert::identity(%s)", "::core::option::Option::Some(%s)", "[%s]"])
                    q = ":?" if form[0] in ":[" else ""
                    if v.shape == "tuple" or r.random() < 0.5:
                        n = r.choice(["n", "core", "std", "fmt", "write", "l", "arg", "Option", "formatter", "value"]) + str(len(v.args))
                        v.pieces.append((lit, "{%s%s}" % (n, q), q, (form, f, e)))
                        v.args.append((n, form, f, e))
                    else:
                        v.pieces.append((lit, "{%s}" % q, q, (form, f, e)))
                        v.args.append((None, form, f, e))
                else:
                    t = r.choice(f.traits)
                    spec = r.choice(SPEC.get(t, [":" + t, ":#" + t, ":>12" + t]))
                    v.pieces.append((lit, "{%s%s}" % (gen.unraw(f.name), spec), spec, (t, f, None)))
            # Positional arguments come before the named ones.
            if any(a[0] for a in v.args):
                order = [a for a in v.args if a[0] is None] + [a for a in v.args if a[0] is not None]
                v.args = order
            v.tail = r.choice(["", "!", "{{}}"])
        d.variants.append(v)
    d.params = "<%s>" % ", ".join(params) if params else ""
    d.args = "<%s>" % ", ".join(args) if args else ""
    d.inst = "<%s>" % ", ".join(inst) if inst else ""
    d.generic = bool(d.tparams)
    d.bounds = {}
    for v in d.variants:
        for p in v.pieces:
            form, f, e = p[3]
            if e is None and f.ty in d.tparams and form in gen.TRAIT_NAME:
                d.bounds.setdefault(f.ty, set()).add(gen.TRAIT_NAME[form])
    d.froms = [(v, f) for v in d.variants for f in v.fields if f.role == "source" and f.frm]
    return d


def attr(v, ff):
    if v.how == "transparent":
        return "#[error(transparent)]"
    if v.how == "fmt":
        return "#[error(fmt = %s)]" % ff
    fmt = "".join(l + p for l, p, _, _ in v.pieces) + v.tail
    args = ["%s%s" % (n + " = " if n else "", form % ("." + f.name + e)) for n, form, f, e in v.args]
    return "#[error(%s)]" % ", ".join([gen.rs(fmt)] + args)


def body(v, derive, pub, doc):
    if v.shape == "unit":
        return ""
    fs = []
    for f in v.fields:
        fs.append("%s%s%s%s%s%s%s" % ("/// D.\n" if doc else "", getattr(f, "extra", ""), "#[deprecated] " if f.deprecated else "", f.attrs if derive else "", pub, f.name + ": " if v.shape == "named" else "", f.ty))
    return " { %s }" % (getattr(v, "off", "") + ", ".join(fs)) if v.shape == "named" else "(%s)" % ", ".join(fs)


def text(d, derive, path="::core::prelude::v1::derive", ff="super::ff", doc=False, debug=True, error="::thiserror::Error", display="::thiserror"):
    """The definition alone."""
    L = []
    if doc:
        L.append("/// D.")
    if derive:
        L.append("#[%s(%s)]" % (path, error))
    if d.deprecated:
        L.append("#[deprecated]")
    ffs = {}
    if d.kind == "struct":
        v = d.variants[0]
        if derive:
            L.append(attr(v, ff))
        L.append("pub struct %s%s%s%s" % (d.name, d.params, body(v, derive, "pub ", doc), "" if v.shape == "named" else ";"))
    else:
        L.append("pub enum %s%s {" % (d.name, d.params))
        for k, v in enumerate(d.variants):
            L.append("%s    %s%s%s%s%s," % ("    /// D.\n" if doc else "", getattr(v, "extra", ""), "#[deprecated] " if v.deprecated else "", attr(v, ff + str(k)) + " " if derive else "", v.name, body(v, derive, "", doc)))
        L.append("}")
    return "\n".join(L)


def vpath(d, v, mod=""):
    return mod + d.name if d.kind == "struct" else mod + d.name + "::" + v.name


def pat(d, v, mod=""):
    return "%s { %s }" % (vpath(d, v, mod), ", ".join("%s: b%d" % (f.name, i) for i, f in enumerate(v.fields)))


def fmt_fns(d, k, name="ff"):
    """The functions of the variants with fmt."""
    L = []
    for k, v in enumerate(d.variants):
        if v.how == "fmt":
            ps = "".join("_%d: &%s, " % (i, f.ty) for i, f in enumerate(v.fields))
            t = next((i for i, f in enumerate(v.fields) if f.ty == "::vs::Probe"), None)
            params = [q for q in d.params[1:-1].split(", ") if q and re.search(r"(?<![\w:])%s(?![\w:])" % re.escape(q.split(":")[0].replace("const ", "")), ps)]
            L.append("pub fn %s%d%s(%sf: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { %s }" % (
                name, k, "<%s>" % ", ".join(params) if params else "", ps, "::core::fmt::Display::fmt(_%d, f)" % t if t is not None else "f.pad(\"fmt %d\")" % k))
    return "\n".join(L)


def hand(d, mod="", ff="ff", attrs=""):
    """Handwritten impls of a definition `mod::Name`."""
    n = mod + d.name
    where = ""
    if d.bounds:
        where = " where " + ", ".join("%s: %s" % (t, " + ".join("::core::fmt::" + b for b in sorted(bs))) for t, bs in sorted(d.bounds.items()))
    L = [attrs + "impl%s ::core::fmt::Display for %s%s%s { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { match self {" % (d.params, n, d.args, where)]
    for k, v in enumerate(d.variants):
        if v.how == "transparent":
            t = "::core::fmt::Display::fmt(b0, f)"
        elif v.how == "fmt":
            t = "%s%d(%sf)" % (ff, k, "".join("b%d, " % i for i in range(len(v.fields))))
        elif not v.pieces:
            t = "::core::fmt::Formatter::write_str(f, %s)" % gen.rs((v.tail).replace("{{", "{").replace("}}", "}"))
        else:
            s, a = "", []
            for l, p, spec, (form, fl, e) in v.pieces:
                b = "b%d" % v.fields.index(fl)
                s += l + "{%d%s}" % (len(a), spec)
                if e is None:
                    a.append(b + ".display()" if form == "P" else "::vs::PtrOf(%s)" % b if form == "p" and False else b if form != "p" else "*" + b if False else b)
                    if form == "p":
                        a[-1] = "::vs::PtrOf(%s)" % b
                else:
                    a.append(form % (b + e))
            t = "::core::write!(f, %s)" % ", ".join([gen.rs(s + v.tail)] + a)
        L.append("    %s => %s," % (pat(d, v, mod), t))
    L.append("} } }")
    L.append(attrs + "impl%s ::core::error::Error for %s%s where Self: ::core::fmt::Debug + ::core::fmt::Display%s {" % (
        d.params, n, d.args, ", %s: 'static" % d.tparams[0] if getattr(d, "oldbox", False) else ""))
    L.append("    fn source(&self) -> ::core::option::Option<&(dyn ::core::error::Error + 'static)> { match self {")
    for v in d.variants:
        i = next((i for i, f in enumerate(v.fields) if f.role == "source"), None)
        if i is None:
            t = "::core::option::Option::None"
        elif v.how == "transparent":
            t = "::core::error::Error::source(%s)" % v.fields[i].want.format(b="b%d" % i)
        elif v.fields[i].opt:
            t = "match b%d { ::core::option::Option::Some(s) => ::core::option::Option::Some(%s), ::core::option::Option::None => ::core::option::Option::None }" % (i, v.fields[i].want.format(b="s"))
        else:
            t = "::core::option::Option::Some(%s)" % v.fields[i].want.format(b="b%d" % i)
        L.append("        %s => %s," % (pat(d, v, mod), t))
    L.append("    } }")
    L.append("}")
    for v, f in d.froms:
        bt = next((g for g in v.fields if g.role == "backtrace"), None)
        L.append(attrs + "impl%s ::core::convert::From<%s> for %s%s { fn from(x: %s) -> Self { %s { %s: %s%s } } }" % (
            d.params, f.bare, n, d.args, f.bare, vpath(d, v, mod), f.name, "::core::option::Option::Some(x)" if f.opt else "x",
            (", %s: %s" % (bt.name, ("::core::option::Option::Some(%s)" if bt.opt else "%s") % "::std::backtrace::Backtrace::capture()")) if bt else ""))
    return "\n".join(L)


def debug(d, mod=""):
    return "impl%s ::core::fmt::Debug for %s%s%s { fn fmt(&self, verif_f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { verif_f.write_str(\"debug\") } }" % (d.params, mod, d.name, d.args)


def values(d, v, mod):
    p = "%s%s%s" % (mod, d.name, "::" + d.inst if d.inst else "")
    return "{ type Inst = %s%s%s; Inst%s { %s } }" % (mod, d.name, d.inst, "" if d.kind == "struct" else "::" + v.name, ", ".join("%s: %s" % (f.name, f.val) for f in v.fields))


OBSERVE = """    { let (a, b) = (%(a)s, %(b)s); m.count("variants", 1);
      m.display("display", &a, &b);
      { let (a, b): (&dyn ::std::error::Error, &dyn ::std::error::Error) = (&a, &b); m.eq("source", a.source().map(|e| e.to_string()), b.source().map(|e| e.to_string()));
        m.eq("source's source", a.source().and_then(|e| e.source()).map(|e| e.to_string()), b.source().and_then(|e| e.source()).map(|e| e.to_string())); }
      ::vs::take_log(); %(prov)s }"""
PROV = """{ let x: &dyn ::std::error::Error = &a; let got = ::std::error::request_ref::<::std::backtrace::Backtrace>(x).map(|p| p as *const _ as usize); m.eq("backtrace", got.is_some(), %s); m.count("requests", 1); }"""


# ------------------------------------------------------------------ scopes

def item(r, name):
    """Some item of this name which is no value."""
    if name[0].isupper() and r.random() < 0.5:
        return r.choice(["pub struct %s {}", "pub trait %s {}", "pub enum %s {}", "pub type %s = ();", "pub mod %s {}", "pub union %s { pub a: u8_ }", "pub trait %s { fn fmt(&self); fn source(&self) {} }",
                         "pub struct %s<A, B> { pub a: A, pub b: B }", "pub enum %s { Some_ {}, None_ {} }"]) % name
    return r.choice(["pub mod %s {}", "pub mod %s { pub mod fmt {} pub mod option {} }", "pub struct %s {}", "pub trait %s {}", "pub mod %s { pub mod __private {} pub struct Error {} }", "pub fn %s() {}",
                     "pub enum %s {}", "pub mod %s { pub mod option { pub enum Option { Some, None } } pub mod error { pub trait Error {} } }"]) % name


def scope(r, d, no_prelude):
    """Items of a hostile scope, and the value names they define."""
    L = ["pub type u8_ = ::core::primitive::u8;"]
    taken = {d.name, "u8_"}
    used_fields = {f.name for v in d.variants for f in v.fields} | {"source", "backtrace", "transparent", "request", "x"}
    for n in r.sample(UPPER + LOWER, r.choice([0, 3, 10, 40, len(UPPER + LOWER)])):
        if n not in taken:
            taken.add(n)
            L.append(item(r, n))
    # Values which no field and no generated local is named like.
    for n in r.sample(PRELUDE_VALUES + ["Error", "Display", "fmt", "Formatter", "write", "core", "std", "format_args", "Debug", "From", "Option", "i", "f"], r.choice([0, 0, 3, 8])):
        if n not in taken and n not in used_fields:
            taken.add(n)
            L.append(r.choice(["pub const %s: () = ();", "pub static %s: () = ();", "pub struct %s;", "pub struct %s(pub ());"]) % n)
    for n in r.sample(MACROS, r.choice([0, 2, 8, len(MACROS)])):
        L.append("macro_rules! %s { ($($t:tt)*) => { hostile macro } }" % n)
    k = 0
    for n in r.sample(METHODS, r.choice([0, 1, 5, len(METHODS)])):
        k += 1
        L.append("pub trait Hostile%d { fn %s(&self) -> %s { loop {} } } impl<A: ?::core::marker::Sized> Hostile%d for A {}" % (
            k, n, r.choice(["()", "!", "::core::primitive::u8", "&::core::primitive::str"]), k))
    r.shuffle(L)
    # Macros are visible from their definition on.
    L.sort(key=lambda l: not l.startswith("macro_rules"))
    return L


def scoped(r, cid, provide=False, edition="2021"):
    no_prelude = r.random() < 0.4
    d = definition(r, hostile=True, provide=provide, no_prelude=no_prelude, edition=edition)
    where = r.choice(["module", "module", "module", "nested", "function", "block"])
    if d.inst and where in ("function", "block"):
        where = "module"
    items = scope(r, d, no_prelude)
    L = []
    top = "#![no_implicit_prelude] " if no_prelude else ""
    allow = "#![allow(ambiguous_glob_reexports)]"
    ff = "super::ff"
    definition_text = None
    if where == "module":
        L.append("pub mod s { %s\n%s\n%s\n}" % (top, "\n".join(items), text(d, True)))
        mod = "s::"
    elif where == "nested":
        L.append("pub mod s { %s\n%s\npub mod nested { use super::*;\n%s\n} }" % (top, "\n".join(items), text(d, True, ff="super::super::ff")))
        mod = "s::nested::"
    else:
        mod = None
        local = text(d, True) + "\n" + debug(d)
        makes = "".join("%d => ::std::boxed::Box::new(%s), " % (k, values(d, v, "")) for k, v in enumerate(d.variants))
        inner = "%s\n%s\n    match k { %s _ => ::std::boxed::Box::new(::core::fmt::Error) }" % ("\n".join(items), local, makes)
        if where == "block":
            inner = "    if k > 1000 { ::std::boxed::Box::new(::core::fmt::Error) } else {\n%s\n    }" % inner
        L.append("pub mod s { %s\n#[allow(dropping_references)] pub fn make(k: ::core::primitive::u32) -> ::std::boxed::Box<dyn ::core::error::Error> {\n%s\n} }" % (top, inner))
    L.append(fmt_fns(d, 0))
    if mod:
        L.append(debug(d, mod))
    L.append("pub mod h { %s\n%s\n%s\n%s }" % ("", text(d, False), hand(d, ff="super::ff"), debug(d)))
    L.append("pub fn run(m: &mut ::vs::Mon) { use ::std::prelude::v1::*; m.count(\"scope: %s\", 1); m.count(\"hostile_items\", %d); m.trace(&%s);" % (where, len(items), gen.rs(cid + d.name)))
    for k, v in enumerate(d.variants):
        prov = ""
        if provide and not any(f.role == "source" for f in v.fields):
            prov = PROV % ("true" if any(f.role == "backtrace" for f in v.fields) else "false")
        if mod:
            L.append(OBSERVE % {"a": values(d, v, mod), "b": values(d, v, "h::"), "prov": prov})
        else:
            L.append(("    { let a = s::make(%d); let b: Box<dyn ::std::error::Error> = Box::new(%s);" % (k, values(d, v, "h::"))) + """
      m.display("display", &a, &b); m.eq("source", a.source().map(|e| e.to_string()), b.source().map(|e| e.to_string())); m.count("variants", 1); ::vs::take_log(); }""")
    for v, f in d.froms:
        if mod:
            L.append("    { let b = %s; let b = b.to_string(); ::vs::take_log(); let x: %s = %s; let a: %s%s%s = ::std::convert::From::from(x);" % (
                values(d, v, "h::"), f.bare, f.val[len("::core::option::Option::Some("):-1] if f.opt else f.val, mod, d.name, d.inst))
            L.append("      m.eq(\"converted\", a.to_string(), b); m.count(\"conversions\", 1); ::vs::take_log(); }")
    L.append("}")
    return Case(cid, "\n".join(L), desc=where)


def root(r):
    """What the crate root itself may define."""
    L = []
    for n in MACROS:
        if r.random() < 0.7:
            L.append("#[allow(unused_macros)] macro_rules! %s { ($($t:tt)*) => { hostile macro } }" % n)
    for n in ["core", "std", "alloc", "thiserror", "thiserror_impl", "fmt", "error", "option", "__private", "convert", "hoststd"] + r.sample(UPPER, 20):
        L.append(r.choice(["pub mod %s {}", "pub mod %s { pub mod fmt {} pub mod option { pub enum Option {} } pub mod error {} pub mod __private {} pub mod convert {} }", "pub struct %s {}" if n not in ("core", "std") else "pub mod %s {}"]) % n)
    return "\n".join(L)


# ------------------------------------------------------------------- lints

SKIP_LINTS = {"unknown-lints", "unstable-features", "warnings", "unsafe-code", "dead-code-pub-in-binary"}


def lint_names(toolchain):
    rc, out, err = core.run_cmd(["rustc", "+" + toolchain, "-W", "help"])
    names = re.findall(r"(?m)^\s+([a-z0-9-]+)\s+(?:allow|warn|deny|forbid)\s", out)
    if rc or len(names) < 100:
        raise core.Inconclusive("no list of lints from %s" % toolchain)
    return [n for n in names if n not in SKIP_LINTS]


def diagnostics(ctx, cfg, name, cases, lints, clippy=()):
    """Compiles each case derived and with handwritten impls and compares what
    is reported about the two."""
    files, tables = {}, {}
    if cfg.name() not in ctx.configs:
        ctx.configs.append(cfg.name() + (" (clippy)" if clippy else " (lints)"))
    n = 8
    for which in ("d", "h"):
        for b in range(n):
            lines = ["//! D.", "#![allow(unknown_lints)]"] + list(cfg.attrs) + ["#![forbid(unsafe_code)]"]
            lines += ["#![warn(%s)]" % ", ".join(l.replace("-", "_") for l in lints)] + ["#![warn(%s)]" % ", ".join(clippy)] * bool(clippy)
            table = []
            for c in cases[b::n]:
                lines.append("/// D.\npub mod %s {" % c.id)
                lines = "\n".join(lines).split("\n")
                a = len(lines) + 1
                lines += (c.d if which == "d" else c.h).splitlines()
                table.append((a, len(lines), c.id))
                lines.append("}")
            lines.append("fn main() {}")
            bn = "%s%d" % (which, b)
            files["src/%s.rs" % bn] = "\n".join(lines) + "\n"
            tables[bn] = table
    d = ctx.crate(name, cfg, sorted(tables), files)
    if clippy:
        rc, out, err = ctx.cargo(cfg, d, ["clippy", "--bins", "--keep-going", "--message-format=json"])
    else:
        rc, out, err = ctx.cargo(cfg, d, ["build", "--bins", "--keep-going", "--message-format=json"])
    seen = {}
    finished = 0
    for line in out.splitlines():
        try:
            j = json.loads(line)
        except ValueError:
            continue
        if j.get("reason") == "compiler-artifact" and j["target"]["name"] in tables:
            finished += 1
        if j.get("reason") != "compiler-message" or j["target"]["name"] not in tables:
            continue
        m, b = j["message"], j["target"]["name"]
        code = (m.get("code") or {}).get("code") or ""
        hit = core.blame(m, tables[b], "src/%s.rs" % b)
        if hit is None:
            if m["level"].startswith("error") and "aborting" not in m["message"]:
                raise core.Inconclusive("error outside any case: " + m["rendered"][:1500])
            continue
        p = next((x for x in m["spans"] if x["is_primary"]), None)
        at = p["text"][0]["text"][p["text"][0]["highlight_start"] - 1:p["text"][-1]["highlight_end"] - 1] if p and len(p["text"]) == 1 else ""
        seen.setdefault((hit, b[0]), []).append(((code, at), m["level"], m["rendered"]))
    if not seen and rc:
        raise core.Inconclusive("build failed: " + err[-1500:])
    for c in cases:
        dd, hh = seen.get((c.id, "d"), []), seen.get((c.id, "h"), [])
        herr = [x for x in hh if x[1].startswith("error")]
        if herr:
            raise core.Inconclusive("handwritten version rejected: " + herr[0][2])
        ctx.count("definitions_linted", 1)
        ctx.count("warnings_of_definitions", len(hh))
        left = [x[0] for x in hh]
        for code, level, rendered in dd:
            if level.startswith("error"):
                ctx.fail_case(c, "rejected by the compiler", rendered, cfg)
                break
            if code in left or (code[0] == "dead_code" and c.private):
                continue
            ctx.fail_case(c, "warning " + code[0], rendered, cfg)
            break
        ctx.traces.add("%s %s %s" % (c.id, cfg.toolchain, ",".join(sorted(x[0][0] for x in hh))))
    ctx.evaluations += len(cases)
    ctx.count("lint_builds_finished", finished)
    return seen


QUIET = "#[allow(warnings, clippy::all, clippy::pedantic, clippy::nursery, clippy::restriction)]"
# Scope of a linted definition: deprecated items, and names in scope which
# make paths needlessly qualified.
OLD = """#[deprecated] #[derive(Debug)] /// D.
pub struct Old(pub ::vs::Probe);
#[deprecated] #[derive(Debug)] /// D.
pub struct OldError(pub ::vs::Leaf);
#[deprecated] /// D.
pub struct OldBox<B>(pub B);
QUIET mod old { use super::*;
impl ::core::fmt::Display for Old { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { ::core::fmt::Display::fmt(&self.0, f) } }
impl ::core::fmt::Display for OldError { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { ::core::fmt::Display::fmt(&self.0, f) } }
impl ::core::error::Error for OldError {}
impl<B> ::core::fmt::Debug for OldBox<B> { fn fmt(&self, _: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { loop {} } }
impl<B> ::core::fmt::Display for OldBox<B> { fn fmt(&self, _: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { loop {} } }
impl<B> ::core::error::Error for OldBox<B> {}
}""".replace("QUIET", QUIET)
USES = ["core::fmt", "core::fmt::Display", "core::fmt::Formatter", "core::error::Error", "core::option::Option", "core::option::Option::{self, Some, None}", "core::convert::From", "core::result::Result", "core::fmt::Debug",
        "core::convert", "core::option", "std::error", "std::io", "vs::Leaf", "vs::Probe", "std::boxed::Box", "core", "std", "std::fmt::Write", "std::backtrace::Backtrace"]
STYLE = ["camelCase", "UPPER", "Mixed_Case", "__double", "trailing_", "x__y", "l1I", "O0"]


def linted(r, cid, deprecated=True, provide=False):
    d = definition(r, hostile=False, deprecated=deprecated and r.random() < 0.6, provide=provide, plainargs=True)
    odd = r.random() < 0.3
    if odd:
        # Unusual names, allowed where they are written.
        for v in d.variants:
            n = r.sample(STYLE, len(STYLE))
            if v.shape == "named" and len(v.fields) <= len(n):
                for i, f in enumerate(v.fields):
                    if f.name != "source":
                        f.name = n[i]
            if d.kind == "enum":
                v.name = r.choice(["snake_case", "UPPER_CASE", "camelCase", "_private", "X__Y"]) + v.name
            v.pieces = [(l, "{%s%s}" % (f.name, sp) if e is None else p, sp, (t, f, e)) for l, p, sp, (t, f, e) in v.pieces]
    ty = odd and r.random() < 0.5
    if ty:
        d.name = r.choice(["snake_error", "UPPER", "camelError", "E__"])
    old = r.random() < 0.35
    mark = []
    if old:
        # Fields of deprecated types.
        for v in d.variants:
            for f in v.fields:
                if f.role == "" and f.ty == "::vs::Probe" and r.random() < 0.5 and not any(g is f and (e is not None or t not in "d?") for _, _, _, (t, g, e) in v.pieces):
                    f.ty = "Old"
                elif f.role == "source" and not f.opt and r.random() < 0.5 and not f.frm:
                    f.ty = f.bare = "OldError" if not d.tparams or (d.kind == "struct" and (v.how == "transparent" or any(g is f for _, _, _, (_, g, _) in v.pieces))) else "OldBox<%s>" % d.tparams[0]
                    f.want = "{b}"
                    if "OldBox" in f.ty:
                        d.oldbox = True
                elif f.role == "source" and f.frm and f.bare == "::vs::Leaf2":
                    f.bare = "OldError"
                    f.want = "{b}"
                    f.ty = f.ty.replace("::vs::Leaf2", "OldError")
        mark.append("#[allow(deprecated)]")
    # Types of which there is no value.
    if r.random() < 0.3:
        v = r.choice(d.variants)
        if v.fields and v.how == "plain" and v.fields[0].role == "" and v.fields[0].ty == "::vs::Probe" and not any(g is v.fields[0] and (e is not None or t not in "d?") for _, _, _, (t, g, e) in v.pieces):
            v.fields[0].ty = "::core::convert::Infallible"
    if r.random() < 0.15:
        for v, f in d.froms:
            if f.bare == "::vs::Unit":
                f.ty = f.ty.replace("::vs::Unit", "::core::convert::Infallible")
                f.bare, f.want = "::core::convert::Infallible", "{b}"
    if odd:
        mark.append("#[allow(nonstandard_style)]")
    for v in d.variants:
        v.extra = r.choice(["", "", "#[non_exhaustive] ", "#[doc(hidden)] ", "#[cfg(not(any()))] "]) if d.kind == "enum" else ""
        for f in v.fields:
            f.extra = r.choice(["", "", "", "#[doc(hidden)] ", "#[cfg(not(any()))] ", "#[allow(unused)] "])
        if v.shape == "named" and r.random() < 0.2:
            v.off = "#[cfg(any())] off: ::missing::Type, "
    if r.random() < 0.2:
        mark.append(r.choice(["#[non_exhaustive]", "#[must_use]", "#[doc(hidden)]", "#[repr(C)]" if d.kind == "struct" else "#[repr(u8)]", "#[cfg_attr(all(), allow(clippy::all))]"]))
    vis = r.choice(["pub ", "pub ", "pub(crate) ", "pub(super) ", ""])
    uses = "".join("#[allow(unused_imports)] use ::%s;\n" % u for u in r.sample(USES, r.choice([0, 0, 1, 4]))) if not old else ""
    uses = "\n".join(dict.fromkeys(uses.split("\n")))
    if "self, Some" in uses:
        uses = uses.replace("#[allow(unused_imports)] use ::core::option::Option;\n", "").replace("#[allow(unused_imports)] use ::core::option;\n", "")
    if "use ::std::io;" in uses and False:
        uses = ""
    ffs = fmt_fns(d, 0).replace("pub fn", QUIET + " pub(crate) fn")
    dbg = QUIET + "\n" + debug(d)
    der, han = text(d, True, path="derive", ff="ff", doc=True), text(d, False, doc=True)
    pre = uses + (OLD + "\n" if old else "")
    c = Case(cid, "")
    m = "\n".join(mark)
    c.private = vis != "pub "
    if vis != "pub ":
        kw = "pub " + d.kind
        der, han = der.replace(kw, vis + d.kind, 1), han.replace(kw, vis + d.kind, 1)
        ffs = ffs.replace("pub(crate) fn", "fn")
    c.d = "%s%s\n%s\n%s\n%s" % (pre, ffs, m, der, dbg)
    c.h = "%s%s\n%s\n%s\n%s\n%s" % (pre, ffs, m, han, dbg, hand(d, attrs=QUIET))
    c.code = c.d
    return c


BLANKET = "pub trait H { fn %s(&self) -> u8 { 1 } } impl<T: ?Sized> H for T {}"
ERR = "#[derive(Debug, thiserror::Error)] #[error(%s)] pub %s"
NAMED = """pub struct N; impl N { pub fn %(n)s(&self) -> &'static dyn %(t)s { const V: %(v)s = %(v)s; &V } }
impl std::fmt::Display for N { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("N") } } impl std::fmt::Debug for N { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("N") } } impl std::error::Error for N {}
"""


def findings():
    """Defects recorded in known_findings.json, each by its own input."""
    out = []

    def add(known, items, body="", **kw):
        out.append(Case("%s_%02d" % (known.lower(), len(out)), items + "\npub fn run(m: &mut vs::Mon) { m.trace(&%d); %s }" % (len(out), body), known=known))
    add("D9", BLANKET % "as_display" + ERR % ('"{x}"', "struct E { x: u8 }"))
    add("D9", BLANKET % "as_dyn_error" + ERR % ('"x"', "struct E { source: std::fmt::Error }"))
    add("D9", "pub trait H { fn as_ref(self) -> Option<Self> where Self: Sized { None } } impl<T> H for T {}" + ERR % ('"x"', "struct E { source: Option<std::fmt::Error> }"))
    add("D9", NAMED % {"n": "as_display", "t": "std::fmt::Display", "v": "true"} + ERR % ('"{0}"', "struct E(pub N);"), "m.eq(\"shown\", E(N).to_string(), \"N\".to_owned());")
    add("D9", NAMED % {"n": "as_dyn_error", "t": "std::error::Error", "v": "std::fmt::Error"} + ERR % ('"x"', "struct E(#[source] pub N);"),
        "use std::error::Error as _; m.eq(\"source\", E(N).source().unwrap().to_string(), \"N\".to_owned());")
    for fields, msg in [("__formatter: u8", '"{__formatter}"'), ("__formatter: u8, y: u8", '"x {y}"'), ("__formatter: u8", '"x"')]:
        add("D10", ERR % (msg, "struct E { %s }" % fields))
    add("D10", ERR % ('"{x} {}", .__display_x', "struct E { pub __display_x: u8, pub x: u8 }"), "m.eq(\"shown\", E { __display_x: 1, x: 2 }.to_string(), \"2 1\".to_owned());")
    add("D14", "const x: u8 = 0;" + ERR % ('"{x}"', "struct E { x: u8 }"))
    add("D14", "static x: u8 = 0;" + ERR % ('"m"', "struct E { x: u8 }"))
    add("D14", "const source: u8 = 0;" + ERR % ('"x"', "struct E { #[from] e: std::fmt::Error }"))
    add("D14", "const source: u8 = 0; #[derive(Debug, thiserror::Error)] pub enum E { #[error(\"x\")] A(#[source] std::fmt::Error) }")
    add("D14", "const transparent: u8 = 0; #[derive(Debug, thiserror::Error)] pub enum E { #[error(transparent)] A(std::fmt::Error) }")
    add("D14", "const _0: u8 = 0; #[derive(Debug, thiserror::Error)] pub enum E { #[error(\"{0}\")] A(u8) }")
    add("D14", "const __display0: u8 = 0; #[derive(Debug, thiserror::Error)] pub enum E { #[error(\"{0}\")] A(u8) }")
    add("D14", "const __formatter: u8 = 0; #[derive(Debug, thiserror::Error)] pub enum E { #[error(\"{0}\")] A(u8) }")
    add("D14", ERR % ('"{None}"', "struct E { None: u8 }"))
    add("D14", "struct x;" + ERR % ('"{x}"', "struct E { x: u8 }"))
    add("D14", ERR % ('"x"', "struct E<const x: usize> { x: [u8; x] }"))
    add("D14", ERR % ('"x"', "struct E<const source: usize> { #[from] x: std::fmt::Error }"))
    return out


def finding_lints():
    c = Case("d17", "", known="D17")
    c.d = OLD + """
/// D.
#[derive(Debug, ::thiserror::Error)]
#[error("{x}")]
pub struct D17<T> { /// D.
#[allow(deprecated)] pub x: OldBox<T> }"""
    c.h = OLD
    c.code, c.private = c.d, False
    return [c]


KEYWORDS = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn "
               "try abstract become box do final macro override priv typeof unsized virtual yield gen union".split())


def vocabulary(ctx):
    """Names which the generated code of this tree brings in, other than those
    kept apart by a leading underscore: a user may have any of them."""
    exe = inproc.build(ctx, False)
    texts = [text(definition(ctx.sub_rng("voc%d" % i), hostile=False, provide=True), True) for i in range(150)]
    texts = [re.sub(r"#\[::core::prelude::v1::derive\(.*?\)\]", "", t) for t in texts]
    f = os.path.join(ctx.base, "vocabulary.txt")
    corpus.write(f, texts)
    rc, out, err = core.run_cmd([exe, "dump", f, "plain", "text"], timeout=300)
    lines = [l for l in out.splitlines() if " " in l]
    if rc or len(lines) < 100:
        raise core.Inconclusive("no expansions: " + err[-800:])
    word = re.compile(r"'?\b[A-Za-z]\w*\b(?!')")
    given = {w for t in texts for w in word.findall(t)}
    got = set()
    for l in lines:
        got |= set(word.findall(re.sub(r'"(?:\\.|[^"\\])*"', "", inproc.unesc(l.split(" ", 1)[1]))))
    new = sorted(got - given - KEYWORDS)
    ctx.count("names_of_generated_code", len(new))
    ctx.traces.update("name " + n for n in new)
    for n in new:
        # With a leading underscore or not, a name met in attributes is no item.
        if n.startswith("'"):
            lists = [LIFETIMES] if n != "'static" else []
        elif n[0].isupper():
            lists = [UPPER, TYPES, PARAMS, VARIANTS, FIELDS]
        else:
            lists = [LOWER, FIELDS, MACROS, TYPES] if n not in ("source", "backtrace", "transparent", "request", "clippy", "allow", "deprecated") else []
        for l in lists:
            if n not in l and n != "Backtrace":
                l.append(n)
    ctx.log("vocabulary: " + " ".join(new))


def run(ctx):
    ctx.rule = ("one case = one generated definition, full of names which the generated code might use, in a scope full of items, macros and blanket traits of such names, observed next to "
                "a handwritten twin in a clean scope; or one definition compiled under every lint the compiler knows, and clippy's, warnings compared with those of its handwritten version; "
                "non-trivial = distinct definitions observed")
    vocabulary(ctx)
    for k, ed in enumerate(["2021", "2018", "2024"]):
        cases = [scoped(ctx.sub_rng("s%s%d" % (ed, i)), "s%04d" % i, edition=ed) for i in range(ctx.scale(200, 2000))]
        ctx.run_cases(Config(edition=ed), cases, name="s" + ed, bins=16)
    for k in range(ctx.scale(2, 10)):
        cases = [scoped(ctx.sub_rng("R%d/%d" % (k, i)), "r%04d" % i) for i in range(150)]
        ctx.run_cases(Config(attrs=["#![no_implicit_prelude]"] * (k % 2)), cases, name="r%d" % k, bins=8, header=root(ctx.sub_rng("root%d" % k)))
    cases = [scoped(ctx.sub_rng("q%d" % i), "q%04d" % i, edition="2015") for i in range(ctx.scale(100, 1000))]
    for c in cases:
        c.code = c.code.replace("::core::", "::std::").replace("dyn ::", "::")
    ctx.run_cases(Config(edition="2015"), cases, name="q", bins=8, header="extern crate thiserror; extern crate vs;")
    feature = ["#![feature(error_generic_member_access)]"]
    cases = [scoped(ctx.sub_rng("p%d" % i), "p%04d" % i, provide=True) for i in range(ctx.scale(200, 2000))]
    ctx.run_cases(Config(toolchain=NIGHTLY_PROVIDE, attrs=feature), cases, name="p", bins=16)
    ctx.run_cases(Config(attrs=["#![allow(uncommon_codepoints)]"]), findings(), name="k")
    ctx.log("scopes done")
    stable, nightly = lint_names("stable"), lint_names("nightly")
    for name, cfg, lints, clippy, n in [
            ("ls21", Config(), stable, (), 400), ("lc21", Config(), ["unused"], CLIPPY, 300), ("ln24", Config(toolchain="nightly", edition="2024"), nightly, (), 300),
            ("ls18", Config(edition="2018"), stable, (), 150), ("lc24", Config(edition="2024"), ["unused"], CLIPPY, 150)]:
        cases = [linted(ctx.sub_rng("%s%d" % (name, i)), "%s%04d" % (name[:2], i)) for i in range(ctx.scale(n, n * 8))] + (finding_lints() if name == "ls21" else [])
        diagnostics(ctx, cfg, name, cases, lints, clippy)
    cases = [linted(ctx.sub_rng("lp%d" % i), "lp%04d" % i, provide=True) for i in range(ctx.scale(200, 2000))]
    diagnostics(ctx, Config(toolchain=NIGHTLY_PROVIDE, attrs=feature), "lp", cases, lint_names(NIGHTLY_PROVIDE))
    ctx.log("lints done")
