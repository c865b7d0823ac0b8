"""Generators shared by the checks: types, names, literals, format specs,
messages, and the emission of a definition next to its handwritten twin.

A definition is generated once as a model. `thiserror` text and the text of
the handwritten implementation are both printed from the model, never one
from the other, so the twin does not depend on how the derive works."""

ALL = "d?oxXpbeE"
TRAIT_NAME = {"d": "Display", "?": "Debug", "o": "Octal", "x": "LowerHex", "X": "UpperHex",
              "p": "Pointer", "b": "Binary", "e": "LowerExp", "E": "UpperExp"}

KEYWORDS = ["as", "break", "const", "continue", "else", "enum", "extern", "fn", "for", "if",
            "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return",
            "static", "struct", "trait", "type", "unsafe", "use", "where", "while", "async",
            "await", "dyn", "abstract", "become", "box", "do", "final", "macro", "override",
            "priv", "typeof", "unsized", "virtual", "yield", "try"]


class Ctr:
    """Unique numbers for the identities of probes in one case."""

    def __init__(self, start=1):
        self.n = start

    def __call__(self):
        self.n += 1
        return self.n


class Ty:
    """A field type: its text, the formatting traits it implements, and how to
    make values of it."""

    def __init__(self, text, traits, val, disp=None, debug=True, error=False, static=True):
        self.text, self.traits, self.val, self.disp = text, traits, val, disp
        self.debug, self.error = debug, error


def _i(lo, hi, suffix=""):
    return lambda r, c: "%d%s" % (r.choice([lo, hi, 0, 1, 7, r.randint(lo, hi)]), suffix) \
        if lo >= 0 else "(%d%s)" % (r.choice([lo, hi, 0, -1, 42, r.randint(lo, hi)]), suffix)


def _f(r, c):
    return r.choice(["0.0f64", "1.5f64", "(-2.25f64)", "f64::NAN", "f64::INFINITY", "1e300f64",
                     "123456.789f64", "1e-7f64", "(-0.0f64)"])


STRS = ["", "a", "hello", "{}", "{{x}}", "é", "日本語", "a\nb", "\\", "%s", "}", "{0}", "tab\t", "q\"q"]


def rs(text):
    """A plain Rust string literal."""
    out = []
    for ch in text:
        if ch in '"\\':
            out.append("\\" + ch)
        elif ch == "\n":
            out.append("\\n")
        elif ch == "\t":
            out.append("\\t")
        elif ch == "\r":
            out.append("\\r")
        elif ord(ch) < 32 or ord(ch) == 127 or 0x200b <= ord(ch) <= 0x202f or 0x2066 <= ord(ch) <= 0x2069 or ord(ch) == 0xfeff:
            out.append("\\u{%x}" % ord(ch))
        else:
            out.append(ch)
    return '"' + "".join(out) + '"'


def rust_literal(r, text):
    """One of the many spellings of a string literal with this value."""
    how = r.random()
    if how < 0.5 or "\r" in text:
        return rs(text)
    bad = any((ord(c) < 32 and c not in "\n\t") or 0x200b <= ord(c) <= 0x202f or 0x2066 <= ord(c) <= 0x2069
              or ord(c) in (0xfeff, 127) for c in text)
    if how < 0.75 and not bad:
        n = 0 if '"' not in text else 1
        while '"' + "#" * n in text:
            n += 1
        if n == 0 and "\n" not in text and r.random() < 0.5:
            n = r.choice([0, 1, 3])
        h = "#" * n
        return 'r%s"%s"%s' % (h, text, h)
    out = []
    for i, ch in enumerate(text):
        k = r.random()
        if ch in '"\\' or ord(ch) < 32 or bad:
            out.append(rs(ch)[1:-1])
        elif k < 0.15 and ord(ch) < 128:
            out.append("\\x%02x" % ord(ch))
        elif k < 0.3:
            out.append("\\u{%x}" % ord(ch))
        else:
            out.append(ch)
        if r.random() < 0.03 and i + 1 < len(text) and text[i + 1] not in " \n\t":
            out.append("\\\n     ")
    s = "".join(out)
    return '"' + s + '"'


def probe(text="vs::Probe", traits=ALL, **kw):
    return Ty(text, traits, lambda r, c: "%s::new(%d)" % (text, c()), **kw)


PROBE = probe()
ONLY = {t: probe("vs::Only" + TRAIT_NAME[t], t, debug=(t == "?")) for t in ALL}
INT = "d?oxXbeE"
TYPES = [
    PROBE, PROBE, PROBE, PROBE,
    Ty("i32", INT, _i(-2**31, 2**31 - 1)),
    Ty("u64", INT, _i(0, 2**64 - 1)),
    Ty("i8", INT, _i(-128, 127)),
    Ty("u128", INT, _i(0, 2**128 - 1)),
    Ty("usize", INT, _i(0, 40)),
    Ty("f64", "d?eE", _f),
    Ty("f32", "d?eE", lambda r, c: r.choice(["0.1f32", "1e9f32", "(-3.75f32)", "f32::NEG_INFINITY"])),
    Ty("bool", "d?", lambda r, c: r.choice(["true", "false"])),
    Ty("char", "d?", lambda r, c: r.choice(["'a'", "'é'", "'\\n'", "'{'", "'}'", "'\\u{1F600}'"])),
    Ty("String", "d?", lambda r, c: "String::from(%s)" % rs(r.choice(STRS))),
    Ty("&'static str", "d?", lambda r, c: rs(r.choice(STRS))),
    Ty("Box<str>", "d?p", lambda r, c: "Box::<str>::from(%s)" % rs(r.choice(STRS))),
    Ty("std::borrow::Cow<'static, str>", "d?", lambda r, c: "std::borrow::Cow::Borrowed(%s)" % rs(r.choice(STRS))),
    Ty("&'static vs::Probe", ALL, lambda r, c: "Box::leak(Box::new(vs::Probe::new(%d)))" % c()),
    Ty("Box<vs::Probe>", "d?p", lambda r, c: "Box::new(vs::Probe::new(%d))" % c()),
    Ty("std::rc::Rc<vs::Probe>", "d?p", lambda r, c: "std::rc::Rc::new(vs::Probe::new(%d))" % c()),
    Ty("std::sync::Arc<vs::Probe>", "d?p", lambda r, c: "std::sync::Arc::new(vs::Probe::new(%d))" % c()),
    Ty("&'static u16", INT + "p", lambda r, c: "&%du16" % r.randint(0, 65535)),
    Ty("*const u8", "?p", lambda r, c: "(0x%x as *const u8)" % r.randint(0, 2**40)),
    Ty("fn()", "?p", lambda r, c: "(fnptr as fn())"),
    Ty("Vec<vs::Probe>", "?", lambda r, c: "vec![%s]" % ", ".join("vs::Probe::new(%d)" % c() for _ in range(r.randint(0, 3)))),
    Ty("Option<vs::Probe>", "?", lambda r, c: r.choice(["None", "Some(vs::Probe::new(%d))" % c()])),
    Ty("(vs::Probe, i32)", "?", lambda r, c: "(vs::Probe::new(%d), %d)" % (c(), r.randint(0, 99))),
    Ty("[vs::Probe; 2]", "?", lambda r, c: "[vs::Probe::new(%d), vs::Probe::new(%d)]" % (c(), c())),
    Ty("std::num::NonZeroU32", INT.replace("e", "").replace("E", "") , lambda r, c: "std::num::NonZeroU32::new(%d).unwrap()" % r.randint(1, 2**32 - 1)),
    Ty("std::num::Wrapping<u8>", "d?oxXb", lambda r, c: "std::num::Wrapping(%du8)" % r.randint(0, 255)),
    Ty("Box<dyn std::fmt::Display>", "d", lambda r, c: "Box::new(vs::Probe::new(%d)) as Box<dyn std::fmt::Display>" % c(), debug=False),
    Ty("std::path::PathBuf", "D?", lambda r, c: "std::path::PathBuf::from(%s)" % rs(r.choice(STRS)), disp="path"),
    Ty("std::net::Ipv4Addr", "d?", lambda r, c: "std::net::Ipv4Addr::new(127, %d, 0, 1)" % r.randint(0, 255)),
    Ty("std::time::Duration", "?", lambda r, c: "std::time::Duration::from_millis(%d)" % r.randint(0, 10**7)),
    Ty("vs::Leaf", "d?", lambda r, c: "vs::Leaf::new(%d)" % c(), error=True),
]
USIZE = Ty("usize", INT, lambda r, c: str(r.choice([0, 1, 3, 8, 17])))

NAMES = ["x", "y", "z", "a", "ab", "abc", "a_", "_a", "__a", "a1", "a11", "A", "field", "name", "value", "fmt",
         "f", "s", "e", "w", "p", "o", "b", "var", "arg", "args", "this", "self_", "source_", "src", "display",
         "_0", "_1", "_10", "_x", "x0", "x_0", "r", "n", "code", "msg", "message", "error", "backtrace_", "request",
         "path", "line", "formatter", "write", "as_display", "as_dyn_error", "transparent", "from", "Self_",
         "core", "std", "thiserror", "Option", "Result", "Error", "Display", "String", "u8", "str", "bool",
         "display_x", "field_x", "_field_x", "é", "ß", "名前", "ñandú", "Ω", "x̂", "жук", "data", "kind", "inner",
         "union", "auto", "default", "raw", "dbg", "vec", "format", "print", "format_args", "main", "macro_rules",
         "ident", "tt", "le", "ex", "ox", "bx"]


def names(r, n):
    """n distinct field names as they are written (raw keywords with r#)."""
    pool = list(NAMES)
    r.shuffle(pool)
    out = pool[:n]
    kws = r.sample(KEYWORDS, min(len(KEYWORDS), n))
    for i in range(len(out)):
        k = r.random()
        if k < 0.15:
            out[i] = "r#" + kws[i]
        elif k < 0.18 and out[i].isascii() and out[i] not in ("_0", "_1", "_10"):
            out[i] = "r#" + out[i]
    if r.random() < 0.3 and n >= 2:
        # Names which are prefixes of each other.
        base = r.choice(["x", "ab", "_", "名", "r"])
        chain = [base + "a" * (k + 1) for k in range(n)]
        r.shuffle(chain)
        for i in range(n):
            if r.random() < 0.6 and chain[i] not in [unraw(o) for o in out]:
                out[i] = chain[i]
    seen = set()
    for i, o in enumerate(out):
        while unraw(out[i]) in seen:
            out[i] = unraw(out[i]) + "_%d" % i
        seen.add(unraw(out[i]))
    return out


def unraw(name):
    return name[2:] if name.startswith("r#") else name


class Field:
    def __init__(self, index, name, ty, attrs=()):
        self.index, self.name, self.ty = index, name, ty
        self.attrs = list(attrs)

    @property
    def ref(self):
        """How a placeholder spells it."""
        return unraw(self.name) if self.name is not None else str(self.index)

    @property
    def dot(self):
        return "." + (self.name if self.name is not None else str(self.index))

    @property
    def member(self):
        return self.name if self.name is not None else str(self.index)

    @property
    def bind(self):
        return "b%d" % self.index


# ---------------------------------------------------------------- messages

LITS = ["", "", " ", ": ", "error", "x", "0", "{{", "}}", "{{}}", "{{x}}", "{{0}}", "{{{{", "}}}}", "\n", "\t", "\\",
        "\"", "'", "é", "日本", "😀", "%d", "$", "#", "\\n", "a{{b", "c}}d", ", ", "{{:?}}", "r#", "?", ":", "{{{{0}}}}",
        "\u0301", "//", "/*", "...", "!", "<>", "&", "\r", "\u200b", "\0", "{{ }}", "  ", ".x", ".0", "self"]


class Spec:
    def __init__(self):
        self.fill = self.align = self.sign = ""
        self.alt = self.zero = False
        self.width = self.prec = None     # None, int, Field or Arg, "*" (prec)
        self.ty = ""
        self.ws = ""

    def plain(self):
        return not (self.fill or self.align or self.sign or self.alt or self.zero or self.ty
                    or self.width is not None or self.prec is not None)

    def text(self, countname):
        s = self.fill + self.align + self.sign
        s += "#" if self.alt else ""
        s += "0" if self.zero else ""
        if isinstance(self.width, int):
            s += str(self.width)
        elif self.width is not None:
            s += countname(self.width) + "$"
        if isinstance(self.prec, int):
            s += "." + str(self.prec)
        elif self.prec == "*":
            s += ".*"
        elif self.prec is not None:
            s += "." + countname(self.prec) + "$"
        return s + self.ty

    @property
    def trait(self):
        return "d" if self.ty == "" else self.ty[-1]


FILLS = [" ", "0", "*", "é", "日", "<", ">", "^", "{", "}", "?", "x", "p", ":", "#", "$", ".", "-", "\u0301", "E", "'", "\""]


def spec(r, traits, counts=(), rich=0.5):
    """A random format spec using one of the given traits."""
    s = Spec()
    t = r.choice([c for c in traits if c != "D"] or ["d"])
    s.ty = "" if t == "d" else t
    if t == "?":
        s.ty = r.choice(["?", "?", "?", "x?", "X?"])
    if r.random() < rich:
        if r.random() < 0.5:
            s.align = r.choice("<^>")
            if r.random() < 0.6:
                s.fill = r.choice(FILLS)
        if r.random() < 0.25:
            s.sign = r.choice("+-+")
        if r.random() < 0.25:
            s.alt = True
        if r.random() < 0.2:
            s.zero = True
        if r.random() < 0.5:
            s.width = r.choice([1, 5, 12, 30])
            if counts and r.random() < 0.5:
                s.width = r.choice(counts)
        if r.random() < 0.3:
            s.prec = r.choice([0, 1, 3, 9])
            if counts and r.random() < 0.5:
                s.prec = r.choice(counts)
    if r.random() < 0.12:
        s.ws = r.choice([" ", "  ", "\t", "\n", " \n "])
    return s


class Lit:
    def __init__(self, text):
        self.text = text      # as in the message, braces doubled


class Ph:
    """A placeholder for a field, a named argument, or a positional one."""

    def __init__(self, what, spec):
        self.what, self.spec = what, spec


class Arg:
    """An extra argument. `name` None means positional with `pos`. The
    expression is a template in which ⟦i⟧ stands for a reference to field i."""

    def __init__(self, name, template, traits, pos=None):
        self.name, self.template, self.traits, self.pos = name, template, traits, pos


class Msg:
    def __init__(self, parts, args=(), explicit=None):
        self.parts, self.args = parts, list(args)
        # Positional arguments referred to by number instead of by order.
        self.explicit = set(explicit or ())

    def format_string(self, numbered=False):
        out = []
        for k, p in enumerate(self.parts):
            if isinstance(p, Lit):
                out.append(p.text)
                continue
            s = p.spec
            body = s.text(count_name)
            after = "".join(q.text if isinstance(q, Lit) else "{" for q in self.parts[k + 1:])[:1]
            head = ""
            if isinstance(p.what, Field):
                head = p.what.ref
            elif isinstance(p.what, Arg):
                if p.what.name is not None:
                    head = unraw(p.what.name)
                elif id(p) in self.explicit:
                    head = str(p.what.pos)
            colon = ":" if body else ""
            if not body and getattr(p, "colon", False) and after not in ("<", "^", ">") and not s.ws:
                # (`{x:}<` would make the brace a fill character.)
                colon = ":"
            out.append("{%s%s%s%s}" % (head, colon, body, s.ws))
        return "".join(out)

    def attr_args(self, r, fields):
        out = [rust_literal(r, self.format_string())]
        for a in self.args:
            e = fill(a.template, lambda i: fields[i].dot)
            out.append("%s = %s" % (a.name, e) if a.name else e)
        s = ", ".join(out)
        if r.random() < 0.15:
            s += ","
        return s

    def attr(self, r, fields):
        return "#[error(%s)]" % self.attr_args(r, fields)

    def twin(self, f="f", selfty="E"):
        """The handwritten write! over bindings b0, b1, ...: every placeholder
        refers to an explicitly named argument."""
        args = []
        seen = {}

        def use(what, kind):
            key = (id(what), kind)
            if key not in seen:
                seen[key] = "a%d" % len(seen)
                if isinstance(what, Field):
                    if kind == "path":
                        e = "%s.display()" % what.bind
                    elif kind == "count":
                        e = "*%s" % what.bind
                    else:
                        e = "*%s" % what.bind
                    args.append((seen[key], e))
                else:
                    args.append((seen[key], "t%d" % self.args.index(what)))
            return seen[key]

        out = []
        for p in self.parts:
            if isinstance(p, Lit):
                out.append(p.text)
                continue
            s = p.spec
            kind = "val"
            if isinstance(p.what, Field) and p.what.ty.disp == "path" and s.ty == "":
                kind = "path"
            head = use(p.what, kind)
            if s.prec == "*":
                prec = use(p.count, "count")
                body = s.text(lambda w: use(w, "count")).replace(".*", "." + prec + "$")
            else:
                body = s.text(lambda w: use(w, "count"))
            out.append("{%s%s%s}" % (head, ":" if body else "", body))
        lines = []
        # Arguments are evaluated once each, in order, before formatting.
        binds = ""
        close = ""
        if self.args:
            exprs = [fill(a.template, lambda i: "b%d" % i).replace("Self::", selfty + "::").replace("<Self>", "<" + selfty + ">") for a in self.args]
            binds = "match (%s) { (%s) => " % (
                " ".join("&(%s)," % e for e in exprs), " ".join("t%d," % i for i in range(len(exprs))))
            close = " }"
        uses = "".join(", %s = %s" % (n, ("*" + e) if e[0] == "t" else e) for n, e in args)
        return "%swrite!(%s, %s%s)%s" % (binds, f, rs("".join(out)), uses, close)


def count_name(w):
    if isinstance(w, Field):
        return w.ref
    return unraw(w.name) if w.name is not None else str(w.pos)


def fill(template, ref):
    out = []
    rest = template
    while "⟦" in rest:
        a, rest = rest.split("⟦", 1)
        i, rest = rest.split("⟧", 1)
        out.append(a)
        out.append(ref(int(i)))
    out.append(rest)
    return "".join(out)


def lits(r, n=None):
    n = r.randint(0, 3) if n is None else n
    return Lit("".join(r.choice(LITS) for _ in range(n)))


def field_message(r, fields, nph=None, rich=0.5):
    """A message whose placeholders are all fields."""
    counts = [f for f in fields if f.ty.text == "usize" and f.name is not None and not f.name.startswith("r#")]
    usable = [f for f in fields if f.ty.traits]
    nph = r.choice([0, 1, 1, 2, 3, 5, 9]) if nph is None else nph
    parts = [lits(r)]
    if usable:
        for _ in range(nph):
            f = r.choice(usable)
            t = f.ty.traits
            if t[0] == "D" and r.random() < 0.6:
                s = Spec()
                s.ws = r.choice(["", "", " "])
            else:
                s = spec(r, t, counts, rich)
            p = Ph(f, s)
            p.colon = r.random() < 0.05 and s.plain() and t[0] != "D"
            parts.append(p)
            parts.append(lits(r, r.choice([0, 0, 1, 2])))
    return Msg(parts)


# -------------------------------------------------------------- definitions

class Variant:
    def __init__(self, name, shape, fields, msg=None, inherit=False):
        self.name, self.shape, self.fields, self.msg, self.inherit = name, shape, fields, msg, inherit
        self.attrs = []     # printed before the variant (or the struct)

    def body(self, vis=""):
        if self.shape == "unit":
            return ""
        parts = []
        for f in self.fields:
            a = "".join(x + " " for x in f.attrs)
            if self.shape == "named":
                parts.append("%s%s%s: %s" % (a, vis, f.name, f.ty.text))
            else:
                parts.append("%s%s%s" % (a, vis, f.ty.text))
        if self.shape == "named":
            return " { %s }" % ", ".join(parts)
        return "(%s)" % ", ".join(parts)

    def pattern(self, path):
        return "%s { %s }" % (path, ", ".join("%s: %s" % (f.member, f.bind) for f in self.fields))

    def value(self, path, r, c, over=None):
        return "%s { %s }" % (path, ", ".join(
            "%s: %s" % (f.member, (over or {}).get(f.index) or f.ty.val(r, c)) for f in self.fields))


VARIANT_NAMES = ["A", "B", "C", "D", "Variant", "V1", "V11", "V", "Io", "Parse", "Other", "Transparent", "Source",
                 "Error", "Some", "None", "Ok", "Err", "Self_", "r#type", "r#fn", "r#match", "É", "日", "a", "x",
                 "Display", "String", "Fmt", "From", "Backtrace", "Core", "_X", "AB", "ABC"]


def make_fields(r, n, shape, types=TYPES, must=None):
    ns = names(r, n) if shape == "named" else [None] * n
    tys = [r.choice(types) for _ in range(n)]
    if must:
        for i, t in enumerate(must):
            if i < n:
                tys[r.randrange(n)] = t
    return [Field(i, ns[i], tys[i]) for i in range(n)]


def shape_for(r, n=None):
    if n == 0:
        return r.choice(["unit", "unit", "named", "tuple"])
    return r.choice(["named", "tuple"])


def variant_names(r, n):
    pool = list(VARIANT_NAMES)
    r.shuffle(pool)
    out = pool[:n]
    while len(out) < n:
        out.append("W%d" % len(out))
    return out


def crowd(r, choices, p=0.06):
    """How many variants an enum has, and which of them have anything to them:
    a few times, it is one late among many that are plain."""
    if r.random() < p:
        n = r.choice([6, 10, 13, 20, 34])
        return n, {r.choice([n - 1, n - 1, n - 2, r.randrange(n)])}
    n = r.choice(choices)
    return n, set(range(n))


def manual_debug(name, generics=""):
    return "impl%s std::fmt::Debug for %s%s { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(\"%s\") } }" % (
        generics, name, generics, name)
