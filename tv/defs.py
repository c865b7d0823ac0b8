"""Definitions whose variants take their message from their own attribute
(format string, transparent, fmt = function) or from the enum."""
from tv import exprs, gen
from tv.core import Case
from tv.gen import Arg, Field, Lit, Msg, Ph, Spec, Ty, Variant
from tv.props import c02

LEAF = Ty("vs::Leaf", "d?", lambda r, c: leaf_val(r, c), error=True)
LEAF2 = Ty("vs::Leaf2", "d?", lambda r, c: "vs::Leaf2::new(%d)" % c(), error=True)


def leaf_val(r, c):
    return r.choice(["vs::Leaf::new(%d)" % c(), "vs::Leaf::over(%d, vs::Leaf::new(%d))" % (c(), c())])


# Error types usable as the only field of a transparent variant.
ERRS = [
    LEAF, LEAF, LEAF2,
    Ty("Box<dyn std::error::Error>", "d?", lambda r, c: "Box::new(%s)" % leaf_val(r, c), error=True),
    Ty("Box<dyn std::error::Error + Send + Sync>", "d?", lambda r, c: "Box::new(%s)" % leaf_val(r, c), error=True),
    Ty("Box<vs::Leaf>", "d?", lambda r, c: "Box::new(%s)" % leaf_val(r, c), error=True),
    Ty("std::sync::Arc<vs::Leaf>", "d?", lambda r, c: "std::sync::Arc::new(%s)" % leaf_val(r, c), error=True),
    Ty("std::sync::Arc<dyn std::error::Error + Send + Sync>", "d?", lambda r, c: "std::sync::Arc::new(%s)" % leaf_val(r, c), error=True),
    Ty("std::rc::Rc<dyn std::error::Error>", "d?", lambda r, c: "std::rc::Rc::new(%s)" % leaf_val(r, c), error=True),
    Ty("&'static vs::Leaf", "d?", lambda r, c: "Box::leak(Box::new(%s))" % leaf_val(r, c), error=True),
    Ty("&'static (dyn std::error::Error + 'static)", "d?", lambda r, c: "Box::leak(Box::new(%s))" % leaf_val(r, c), error=True),
    Ty("std::io::Error", "d?", lambda r, c: "std::io::Error::new(std::io::ErrorKind::Other, %s)" % leaf_val(r, c), error=True),
    Ty("std::num::ParseIntError", "d?", lambda r, c: "\"x\".parse::<i32>().unwrap_err()", error=True),
    Ty("std::fmt::Error", "d?", lambda r, c: "std::fmt::Error", error=True),
    Ty("vs::Smart<dyn std::error::Error + Send>", "d?", lambda r, c: "vs::Smart(Box::new(%s))" % leaf_val(r, c), error=True),
    Ty("vs::DerefErr", "d?", lambda r, c: "vs::DerefErr::new(%d)" % (c() * 1 + c() * 0), error=True),
    Ty("vs::Unit", "d?", lambda r, c: "vs::Unit", error=True),
]

NOISE = ["/// doc {x} {0}", "#[doc = \"{source}\"]", "#[allow(dead_code)]", "#[cfg(all())]", "#[cfg_attr(all(), allow(unused))]",
         "#[doc(hidden)]", "#[cfg_attr(any(), error(\"never\"))]", "#[deprecated]", "#[must_use]"]


def noise(r, deprecated=True):
    out = []
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        n = r.choice(NOISE)
        if n == "#[must_use]" or (n == "#[deprecated]" and not deprecated):
            continue
        if n not in out:
            out.append(n)
    return "\n".join(out) + ("\n" if out else "")


def remap(msg, fields_from, fields_to):
    """The same message read against another variant's fields."""
    by_ref = {f.ref: f for f in fields_to}
    out = Msg([])
    args = {}
    for a in msg.args:
        b = Arg(a.name, gen.fill(a.template, lambda i: "⟦%d⟧" % by_ref[fields_from[i].ref].index), a.traits, a.pos)
        args[id(a)] = b
        out.args.append(b)

    def conv(w):
        if isinstance(w, Field):
            return by_ref[w.ref]
        if isinstance(w, Arg):
            return args[id(w)]
        return w

    for p in msg.parts:
        if isinstance(p, Lit):
            out.parts.append(p)
            continue
        s = Spec()
        s.__dict__.update(p.spec.__dict__)
        s.width, s.prec = conv(s.width), conv(s.prec)
        q = Ph(conv(p.what), s)
        if hasattr(p, "count"):
            q.count = conv(p.count)
        if id(p) in msg.explicit:
            out.explicit.add(id(q))
        out.parts.append(q)
    return out


def needed(msg, fields):
    """The fields a message refers to."""
    refs = {}
    for a in msg.args:
        gen.fill(a.template, lambda i: refs.setdefault(i, fields[i]) and "")
    for p in msg.parts:
        if isinstance(p, Ph):
            for w in (p.what, p.spec.width, p.spec.prec, getattr(p, "count", None)):
                if isinstance(w, Field):
                    refs[w.index] = w
    return [refs[i] for i in sorted(refs)]


class FnMsg:
    """fmt = function."""

    def __init__(self, path, decl, twin):
        self.path, self.decl, self.twin_text = path, decl, twin


def fn_msg(r, k, fields, c, ename="E"):
    """A function for exactly these fields."""
    params = "".join("a%d: &%s, " % (f.index, f.ty.text) for f in fields)
    body = ["vs::event(format!(\"call fn%d\"));" % k]
    ret = r.random()
    body.append("vs::call(\"F\", %d, f)?;" % c())
    for f in fields:
        t = "d" if "d" in f.ty.traits else ("?" if "?" in f.ty.traits else None)
        if t and r.random() < 0.8:
            body.append("write!(f, \"[{%s}]\", a%d)?;" % ("" if t == "d" else ":?", f.index))
        body.append("vs::event(format!(\"arg %d at {:x}\", vs::addr_of(a%d)));" % (f.index, f.index))
    body.append("f.pad(\"tail\")" if ret < 0.85 else "Err(std::fmt::Error)")
    fname = r.choice(["fun%d" % k, "r#where%d" % k if False else "fmt_%d" % k, "_f%d" % k])
    sig = "(%sf: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { %s }" % (params, " ".join(body))
    how = r.choice(["plain", "plain", "self", "assoc", "Self", "qself", "turbofish", "module", "static"])
    if how == "plain":
        return FnMsg(fname, "fn %s%s" % (fname, sig), fname)
    if how == "self":
        return FnMsg("self::" + fname, "fn %s%s" % (fname, sig), fname)
    if how in ("assoc", "Self", "qself"):
        p = {"assoc": ename, "Self": "Self", "qself": "<%s>" % ename}[how]
        return FnMsg("%s::%s" % (p, fname), "impl %s { fn %s%s }" % (ename, fname, sig), "%s::%s" % (ename, fname))
    if how == "turbofish":
        return FnMsg("%s::<u8, 3>" % fname, "fn %s<T, const N: usize>%s" % (fname, sig), "%s::<u8, 3>" % fname)
    if how == "module":
        return FnMsg("m%d::inner::%s" % (k, fname), "mod m%d { pub mod inner { use super::super::*; pub fn %s%s } }" % (k, fname, sig),
                     "m%d::inner::%s" % (k, fname))
    tys = "".join("&%s, " % f.ty.text for f in fields)
    return FnMsg("ST%d" % k, "fn %s%s static ST%d: fn(%s&mut std::fmt::Formatter<'_>) -> std::fmt::Result = %s;" % (
        fname, sig, k, tys, fname), "ST%d" % k)


def own_message(r, fields, shape, c, depth=1):
    if r.random() < 0.5:
        return gen.field_message(r, fields)
    return c02.message(r, fields, shape, c, depth)


def display_enum(r, cid, weights=None, monitor="display", nvals=2, faults_safe=False, extra_items="", errs=None,
                 nv=None, after_run="", body=None):
    """An enum mixing every way to give a variant its message."""
    w = {"msg": 3, "inherit": 3, "transparent": 2, "fmt": 2}
    w.update(weights or {})
    c = gen.Ctr()
    errs = errs or ERRS
    level = r.choice(["none", "msg", "msg", "transparent", "fmt"])
    nv, busy = (nv, set(range(nv))) if nv else gen.crowd(r, [1, 2, 3, 4, 6, 9, 9 if r.random() < 0.8 else 30])
    names = gen.variant_names(r, nv)
    kinds = [r.choices(list(w), list(w.values()))[0] for _ in range(nv)]
    if level == "none":
        kinds = [k if k != "inherit" else "msg" for k in kinds]
    elif "inherit" not in kinds:
        kinds[r.choice(sorted(busy))] = "inherit"
    if len(busy) < nv:
        kinds = [k if i in busy else "plain" for i, k in enumerate(kinds)]
        if level != "none" and "inherit" not in kinds:
            kinds[max(busy)] = "inherit"
    variants = []
    decls = []
    level_attr = ""
    level_msg = None
    level_fields = None
    level_shape = r.choice(["named", "tuple"])
    level_fn = None
    if level == "msg":
        level_fields = c02.make_fields(r, level_shape) if r.random() < 0.5 else gen.make_fields(r, r.randint(0, 4), level_shape)
        if r.random() < 0.25:
            level_fields = []
            level_msg = Msg([gen.lits(r, 2)])
        else:
            level_msg = own_message(r, level_fields, level_shape, c)
        level_attr = level_msg.attr(r, level_fields)
    elif level == "transparent":
        level_attr = "#[error(transparent)]"
    elif level == "fmt":
        level_fields = gen.make_fields(r, r.randint(0, 3), level_shape)
        level_fn = fn_msg(r, 90, level_fields, c)
        decls.append(level_fn.decl)
        level_attr = "#[error(fmt = %s)]" % level_fn.path
    arms = []
    for k, (name, kind) in enumerate(zip(names, kinds)):
        attr = ""
        if kind == "plain":
            shape, fields = "unit", []
            m = Msg([gen.lits(r, 1)])
            attr = m.attr(r, fields)
            twin = m.twin()
        elif kind == "msg":
            shape = r.choice(["named", "tuple", "unit"])
            fields = c02.make_fields(r, shape) if r.random() < 0.4 else gen.make_fields(
                r, 0 if shape == "unit" else r.randint(0, 5), shape)
            m = own_message(r, fields, shape, c)
            attr = m.attr(r, fields)
            twin = m.twin()
        elif kind == "fmt":
            shape = r.choice(["named", "tuple", "unit"])
            fields = gen.make_fields(r, 0 if shape == "unit" else r.randint(0, 5), shape)
            fm = fn_msg(r, k, fields, c)
            decls.append(fm.decl)
            attr = "#[error(fmt = %s)]" % fm.path
            twin = "%s(%sf)" % (fm.twin_text, "".join(f.bind + ", " for f in fields))
        elif kind == "transparent" or (kind == "inherit" and level == "transparent"):
            shape = r.choice(["named", "tuple"])
            fields = gen.make_fields(r, 1, shape, errs)
            if r.random() < 0.2 and not any(g.attrs for v in variants for g in v.fields) and "::Leaf2" in fields[0].ty.text:
                fields[0].attrs.append("#[from]")
            attr = "#[error(transparent)]" if kind == "transparent" else ""
            twin = "std::fmt::Display::fmt(%s, f)" % fields[0].bind
        else:
            shape = level_shape
            if level == "msg":
                need = needed(level_msg, level_fields)
                if shape == "named":
                    fields = [Field(0, f.name, f.ty) for f in need]
                    taken = {f.ref for f in fields}
                    # The variant's own other fields, whatever their order.
                    for f in gen.make_fields(r, r.choice([0, 0, 1, 2]), "named"):
                        argn = {gen.unraw(a.name) for a in level_msg.args if a.name}
                        if f.ref not in taken and f.ref not in argn and "l_" not in f.ref:
                            taken.add(f.ref)
                            fields.append(f)
                    r.shuffle(fields)
                    fields = [Field(i, f.name, f.ty) for i, f in enumerate(fields)]
                    if not fields and r.random() < 0.5:
                        shape = "unit"
                else:
                    top = max([f.index for f in need], default=-1) + 1
                    fields = [Field(i, None, level_fields[i].ty) for i in range(top)]
                    for i in range(r.choice([0, 0, 1, 2])):
                        fields.append(Field(len(fields), None, r.choice(gen.TYPES)))
                    if not fields and r.random() < 0.5:
                        shape = r.choice(["unit", "named"])
                m = remap(level_msg, level_fields, fields)
                twin = m.twin()
            else:
                fields = [Field(f.index, f.name, f.ty) for f in level_fields]
                if r.random() < 0.5:
                    shape = {"named": "tuple", "tuple": "named"}[shape]
                    ns = gen.names(r, len(fields))
                    fields = [Field(f.index, ns[f.index] if shape == "named" else None, f.ty) for f in fields]
                twin = "%s(%sf)" % (level_fn.twin_text, "".join(f.bind + ", " for f in fields))
        v = Variant(name, shape, fields)
        for f in fields:
            if r.random() < 0.08:
                f.attrs.insert(0, noise(r, False).strip() or "#[allow(dead_code)]")
                f.attrs = [a + "\n" if a.startswith("//") or "\n" in a else a for a in f.attrs]
        v.attr = noise(r) + attr + ("\n" + noise(r, False) if r.random() < 0.2 else "")
        variants.append(v)
        arms.append("%s => %s," % (v.pattern("E::" + v.name), twin))
    debug = all(f.ty.debug for v in variants for f in v.fields)
    L = [c02.PRE, c02.HELPERS, "fn fnptr() {}"] + decls
    L.append("#[derive(%sthiserror::Error)]" % ("Debug, " if debug else ""))
    L.append(noise(r) + level_attr)
    L.append("pub enum E {")
    vals = []
    for v in variants:
        L.append("    " + v.attr.strip())
        L.append("    %s%s," % (v.name, v.body()))
        vals += [v.value("E::" + v.name, r, c) for _ in range(nvals)]
    L.append("}")
    if not debug:
        L.append(gen.manual_debug("E"))
    L.append("struct R<'a>(&'a E);")
    L.append("impl std::fmt::Display for R<'_> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self.0 {")
    L += arms
    L.append("} } }")
    L.append(extra_items)
    if body:
        # The caller uses the values in its own way.
        return Case(cid, "\n".join(L + [body(vals)]))
    L.append("pub fn run(m: &mut vs::Mon) {")
    L.append("    let vals: Vec<E> = vec![%s];" % ",\n        ".join(vals))
    L.append("    for (i, e) in vals.iter().enumerate() {")
    for mon in monitor.split("+"):
        L.append("        m.%s(&format!(\"value {i}\"), e, &R(e));" % mon)
    L.append("    }")
    L.append(after_run)
    L.append("}")
    return Case(cid, "\n".join(L))
