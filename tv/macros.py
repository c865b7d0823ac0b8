"""Rewrites derived definitions into macro_rules! macros and invocations which
expand to the same tokens, with some pieces passed in as fragments."""
import re

IDENT = r"(?:r#)?[^\W\d]\w*"
TOKEN = re.compile(r'''
  (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
 |(?P<rawstr>(?:b|c)?r(?P<h>\#*)".*?"(?P=h))
 |(?P<str>(?:b|c)?"(?:\\.|[^"\\])*")
 |(?P<char>b?'(?:\\(?:u\{[^}]*\}|x..|.)|[^'\\])')
 |(?P<life>'[^\W\d]\w*)
 |(?P<num>\d[0-9a-zA-Z_]*(?:\.\d[0-9a-zA-Z_]*|\.(?![.\w]))?(?:(?<=[eE])[+-]\d+)?)
 |(?P<ident>(?:r\#)?[^\W\d][\w]*)
 |(?P<punct>::|->|=>|\.\.=|\.\.\.|\.\.|&&|\|\||<=|>=|==|!=|.)
''', re.X | re.S)
KEYWORDS = set("as break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await _".split())


class Unsplittable(Exception):
    pass


class T:
    """A token, or a delimited group with children."""
    __slots__ = ("kind", "text", "a", "b", "kids")

    def __init__(self, kind, text, a, b, kids=None):
        self.kind, self.text, self.a, self.b, self.kids = kind, text, a, b, kids

    def __repr__(self):
        return "%s:%s" % (self.kind, self.text)


class Node:
    """A piece of the definition which may become a fragment."""
    __slots__ = ("a", "b", "kinds", "kids", "role")

    def __init__(self, a, b, kinds, kids=(), role=""):
        self.a, self.b, self.kinds, self.kids, self.role = a, b, list(kinds), [k for k in kids if k], role


def lex(text):
    stack = [[]]
    opens = []
    i = 0
    while i < len(text):
        m = TOKEN.match(text, i)
        kind = m.lastgroup if m.lastgroup != "h" else "rawstr"
        if m.group("rawstr") is not None:
            kind = "rawstr"
        s, a, i = m.group(), m.start(), m.end()
        if kind == "ws":
            continue
        if kind in ("rawstr", "str", "char", "num"):
            stack[-1].append(T("lit", s, a, i))
        elif kind == "punct" and s in "([{":
            opens.append((s, a))
            stack.append([])
        elif kind == "punct" and s in ")]}":
            kids = stack.pop()
            o, oa = opens.pop()
            assert "([{".index(o) == ")]}".index(s), text[max(0, a - 80):a + 20]
            stack[-1].append(T("group", o, oa, i, kids))
        else:
            stack[-1].append(T(kind, s, a, i))
    assert not opens
    return stack[0]


class P:
    """Recursive descent over one level of token trees."""

    def __init__(self, ts):
        self.ts, self.i = ts, 0

    def peek(self, k=0):
        return self.ts[self.i + k] if self.i + k < len(self.ts) else None

    def at(self, *texts):
        t = self.peek()
        return t is not None and t.kind != "lit" and t.text in texts

    def next(self):
        t = self.peek()
        if t is None:
            raise Unsplittable("end")
        self.i += 1
        return t

    def eat(self, *texts):
        if self.at(*texts):
            return self.next()
        return None

    def need(self, *texts):
        t = self.eat(*texts)
        if t is None:
            raise Unsplittable("expected %s at %s" % (texts, self.peek()))
        return t

    def end(self):
        return self.i >= len(self.ts)

    def last(self):
        return self.ts[self.i - 1]

    # -- types

    def lifetime(self):
        t = self.next()
        return Node(t.a, t.b, ["lifetime", "tt"], role="lifetime")

    def skip_for(self):
        """for<'a>"""
        if self.eat("for"):
            self.need("<")
            while not self.eat(">"):
                self.next()

    def ty(self):
        start = self.peek()
        if start is None:
            raise Unsplittable("type")
        kids = []
        first = self.i
        path = False
        if start.kind == "group" and start.text == "(":
            self.next()
            q = P(start.kids)
            while not q.end():
                kids.append(q.ty())
                if not q.eat(","):
                    break
            if not q.end():
                raise Unsplittable("tuple")
        elif start.kind == "group" and start.text == "[":
            self.next()
            q = P(start.kids)
            kids.append(q.ty())
            if q.eat(";"):
                rest = q.ts[q.i:]
                if len(rest) == 1 and rest[0].kind == "lit":
                    kids.append(Node(rest[0].a, rest[0].b, ["literal", "tt", "expr"], role="len"))
                elif rest and not any(t.text == "{" for t in rest):
                    kids.append(Node(rest[0].a, rest[-1].b, ["tokens", "expr"], role="len"))
        elif self.at("&", "&&"):
            self.next()
            if self.peek().kind == "life":
                kids.append(self.lifetime())
            self.eat("mut")
            kids.append(self.ty())
        elif self.at("*"):
            self.next()
            self.next()
            kids.append(self.ty())
        elif self.at("for", "unsafe", "extern", "fn"):
            self.skip_for()
            self.eat("unsafe")
            if self.eat("extern") and self.peek().kind == "lit":
                self.next()
            if self.at("fn"):
                self.next()
                g = self.next()
                q = P(g.kids)
                try:
                    args = []
                    while not q.end():
                        args.append(q.ty())
                        if not q.eat(","):
                            break
                    if q.end():
                        kids += args
                except Unsplittable:
                    pass
                if self.eat("->"):
                    kids.append(self.ty())
            else:
                raise Unsplittable("for")
        elif self.at("dyn", "impl"):
            self.next()
            kids += self.bounds()
        elif self.at("!"):
            self.next()
        elif self.at("_"):
            raise Unsplittable("_")
        elif self.at("<"):
            self.next()
            kids.append(self.ty())
            if self.eat("as"):
                kids.append(self.path())
            self.need(">")
            self.need("::")
            kids += self.path().kids
        elif start.kind == "ident" or self.at("::"):
            n = self.path()
            if self.at("!"):
                self.next()
                self.next()
                return Node(start.a, self.last().b, ["ty", "tokens"], role="type")
            kids += n.kids
            path = True
        else:
            raise Unsplittable("type at %s" % start)
        kinds = ["ty", "ty", "ty", "tokens"]
        if path:
            kinds.append("path")
        if self.i == first + 1:
            kinds.append("tt")
            if start.kind == "ident" and start.text not in KEYWORDS:
                kinds.append("ident")
        return Node(start.a, self.last().b, kinds, kids, role="type")

    def path(self):
        start = self.peek()
        kids = []
        first = self.i
        self.eat("::")
        while True:
            t = self.next()
            if t.kind != "ident":
                raise Unsplittable("path at %s" % t)
            if t.text not in KEYWORDS:
                kids.append(Node(t.a, t.b, ["ident", "tt"], role="segment"))
            if self.at("::") and self.peek(1) is not None and self.peek(1).text == "<" and self.peek(1).kind == "punct":
                self.next()
            if self.eat("<"):
                kids += self.args()
            elif self.peek() is not None and self.peek().kind == "group" and self.peek().text == "(" and t.text in ("Fn", "FnMut", "FnOnce"):
                g = self.next()
                q = P(g.kids)
                while not q.end():
                    kids.append(q.ty())
                    if not q.eat(","):
                        break
                if self.eat("->"):
                    kids.append(self.ty())
            if self.at("::") and self.peek(1) is not None and self.peek(1).kind == "ident":
                self.next()
                continue
            break
        kinds = ["path", "tokens"]
        if self.i == first + 1:
            kinds += ["ident", "tt"]
        return Node(start.a, self.last().b, kinds, kids, role="path")

    def args(self):
        """Generic arguments after `<`, including `>`."""
        kids = []
        while not self.eat(">"):
            t = self.peek()
            n = self.peek(1)
            if t is None:
                raise Unsplittable("args")
            if t.kind == "life":
                kids.append(self.lifetime())
            elif t.kind == "lit":
                self.next()
                kids.append(Node(t.a, t.b, ["literal", "tt", "expr"], role="const"))
            elif t.kind == "punct" and t.text == "-" or t.kind == "group" and t.text == "{":
                while not self.at(",", ">"):
                    self.next()
            elif t.kind == "ident" and n is not None and n.kind == "punct" and n.text == "=":
                self.next()
                self.next()
                kids.append(self.ty())
            elif t.kind == "ident" and n is not None and n.kind == "punct" and n.text == ":":
                self.next()
                self.next()
                kids += self.bounds()
            elif t.kind == "ident" and t.text in ("true", "false"):
                self.next()
            else:
                kids.append(self.ty())
            if not self.eat(","):
                self.need(">")
                break
        return kids

    def bounds(self):
        kids = []
        while True:
            if self.end() or self.at(",", ">", "=", "{", ";"):
                break
            t = self.peek()
            if t.kind == "life":
                kids.append(self.lifetime())
            elif t.kind == "group":
                self.next()
            else:
                if self.eat("?"):
                    pass
                elif self.at("for"):
                    self.skip_for()
                    self.eat("?")
                kids.append(self.path())
            if not self.eat("+"):
                break
        return kids

    # -- items

    def attrs(self):
        nodes = []
        while self.at("#") and self.peek(1) is not None and self.peek(1).kind == "group" and self.peek(1).text == "[":
            h, g = self.next(), self.next()
            nodes.append(attr(h, g))
        return nodes

    def vis(self):
        t = self.peek()
        if self.eat("pub"):
            g = self.peek()
            if g is not None and g.kind == "group" and g.text == "(" and g.kids and g.kids[0].text in ("crate", "super", "self", "in"):
                self.next()
            return Node(t.a, self.last().b, ["vis", "tokens"], role="vis")
        return Node(t.a, t.a, ["vis", "tokens"], role="vis") if t is not None else None

    def ident(self, role):
        t = self.next()
        if t.kind != "ident":
            raise Unsplittable("ident at %s" % t)
        return Node(t.a, t.b, ["ident", "ident", "tt"], role=role)

    def generics(self):
        if not self.at("<"):
            return None
        start = self.next()
        kids = []
        while not self.eat(">"):
            self.attrs()
            if self.peek().kind == "life":
                kids.append(self.lifetime())
                if self.eat(":"):
                    kids += self.bounds()
            elif self.eat("const"):
                kids.append(self.ident("param"))
                self.need(":")
                kids.append(self.ty())
                if self.eat("="):
                    while not self.at(",", ">"):
                        self.next()
            else:
                kids.append(self.ident("param"))
                if self.eat(":"):
                    kids += self.bounds()
                if self.eat("="):
                    kids.append(self.ty())
            if not self.eat(","):
                self.need(">")
                break
        return Node(start.a, self.last().b, ["tokens"], kids, role="generics")

    def where(self):
        if not self.at("where"):
            return None
        start = self.next()
        kids = []
        while not self.end() and not self.at(";") and not (self.peek().kind == "group" and self.peek().text == "{"):
            if self.peek().kind == "life":
                kids.append(self.lifetime())
            else:
                self.skip_for()
                kids.append(self.ty())
            self.need(":")
            kids += self.bounds()
            if not self.eat(","):
                break
        return Node(start.a, self.last().b, ["tokens"], kids, role="where")


def fields(g):
    """The fields in a delimited group."""
    q = P(g.kids)
    out = []
    while not q.end():
        start = q.peek()
        kids = q.attrs()
        kids.append(q.vis())
        if g.text == "{":
            kids.append(q.ident("field name"))
            q.need(":")
        kids.append(q.ty())
        out.append(Node(start.a, q.last().b, ["tokens"], kids, role="field"))
        if not q.eat(","):
            break
    if not q.end():
        raise Unsplittable("fields")
    return out


def body(g):
    kids = fields(g)
    kinds = ["tt", "tokens"]
    n = Node(g.a, g.b, kinds, [], role="body")
    if g.kids:
        n.kids = [Node(g.kids[0].a, g.kids[-1].b, ["tokens"], kids, role="fields")]
    return n


def is_shorthand(prev):
    """Whether a dot after this token begins an expression."""
    if prev is None:
        return True
    if prev.kind in ("lit", "group"):
        return False
    if prev.kind == "ident":
        return prev.text in KEYWORDS - {"self", "Self", "true", "false", "await", "super", "crate"}
    return prev.text != "?"


def has_shorthand(ts):
    prev = None
    for t in ts:
        if t.kind == "punct" and t.text in (".",) and is_shorthand(prev):
            return True
        if t.kind == "group" and has_shorthand(t.kids):
            return True
        prev = t
    return False


def flat(ts):
    for t in ts:
        yield t
        if t.kids is not None:
            yield from flat(t.kids)


def fragment(ts):
    """Whether the tokens are an expr fragment in every edition."""
    return not has_shorthand(ts) and not any(t.kind != "lit" and t.text in ("_", "const") for t in flat(ts))


BINDERS = {"|", "||", "let", "for", "match", "if", "while", "fn", "macro_rules", "async", "loop", "ref", "mut", "=>", "impl", "const", "struct", "use", "static", "unsafe", "move"}


def expr_leaves(ts, in_macro=False, binders=False):
    """Field and method names, literals and parenthesised operands."""
    out = []
    prev = None
    for k, t in enumerate(ts):
        if prev is not None and prev.kind == "punct" and prev.text == ".":
            if t.kind == "ident" and t.text != "await":
                out.append(Node(t.a, t.b, ["ident", "tt"], role="member"))
            elif t.kind == "lit":
                out.append(Node(t.a, t.b, ["tt"], role="member"))
        elif t.kind == "lit" and not in_macro:
            out.append(Node(t.a, t.b, ["literal", "tt"], role="literal"))
        elif t.kind == "group":
            mac = in_macro or (prev is not None and prev.kind == "punct" and prev.text == "!")
            inner = expr_leaves(t.kids, mac, binders)
            if not mac and not binders and t.text in "([" and t.kids:
                out += segments(t.kids, inner)
            else:
                out += inner
        prev = t
    return out


def segments(ts, leaves):
    """Comma-separated expressions."""
    if any(t.kind == "punct" and t.text in ("<", ">", "<=", ">=", ";", "|", "||", "..", "..=") for t in ts):
        return leaves
    out = []
    cur = []
    for t in list(ts) + [None]:
        if t is not None and not (t.kind == "punct" and t.text == ","):
            cur.append(t)
            continue
        if cur:
            a, b = cur[0].a, cur[-1].b
            kids = [n for n in leaves if a <= n.a and n.b <= b]
            kinds = ["tokens"]
            if fragment(cur):
                kinds += ["expr", "expr", "expr"]
            if len(cur) == 1 and not (kids and kids[0].a == a and kids[0].b == b):
                kinds.append("tt")
            kids = [n for n in kids if (n.a, n.b) != (a, b)] if len(cur) > 1 else kids
            if len(kids) == 1 and (kids[0].a, kids[0].b) == (a, b):
                kids[0].kinds += kinds
                out += kids
            else:
                out.append(Node(a, b, kinds, kids, role="operand"))
        cur = []
    return out


def attr(h, g):
    ts = g.kids
    name = ts[0].text if ts else ""
    if name == "derive":
        return None
    kids = []
    if ts and ts[0].kind == "ident" and name in ("error", "source", "from", "backtrace"):
        kids.append(Node(ts[0].a, ts[0].b, ["ident", "tt"], role="attribute name"))
    if name == "error" and len(ts) == 2 and ts[1].kind == "group":
        arg = ts[1]
        inner = error_args(arg.kids)
        kids.append(Node(arg.a, arg.b, ["tt"], [Node(arg.kids[0].a, arg.kids[-1].b, ["tokens"], inner, role="error args")] if arg.kids else [], role="error group"))
    if not ts:
        return None
    kinds = ["meta", "tokens"]
    return Node(h.a, g.b, ["tokens"], [Node(ts[0].a, ts[-1].b, kinds, kids, role="meta")], role="attr")


def error_args(ts):
    if not ts:
        return []
    out = []
    first = ts[0]
    if first.kind == "ident" and first.text == "transparent":
        out.append(Node(first.a, first.b, ["ident", "tt"], role="transparent"))
        return out
    if first.kind == "ident" and first.text == "fmt" and len(ts) > 2 and ts[1].text == "=":
        rest = ts[2:]
        while rest and rest[-1].text == ",":
            rest = rest[:-1]
        out.append(Node(first.a, first.b, ["ident", "tt"], role="fmt"))
        p = P(rest)
        try:
            n = p.path()
            if p.end():
                n.kinds.append("expr")
                n.kinds.append("path")
                n.role = "fmt path"
                # Turbofish arguments and segments may be split as well.
                out.append(n)
        except Unsplittable:
            pass
        return out
    if first.kind != "lit":
        return []
    out.append(Node(first.a, first.b, ["literal", "literal", "tt", "expr"], role="message"))
    rest = ts[1:]
    if not rest or rest[0].text != ",":
        return out
    rest = rest[1:]
    if not rest:
        return out
    for cur in commas(rest):
        binders = any(t.kind != "lit" and t.text in BINDERS for t in flat(cur))
        if cur:
            whole = cur
            kids = []
            if len(cur) > 2 and cur[0].kind == "ident" and cur[1].kind == "punct" and cur[1].text == "=":
                kids.append(Node(cur[0].a, cur[0].b, ["ident", "tt"], role="arg name"))
                cur = cur[2:]
            sub = expr_leaves(cur, False, binders)
            a, b = cur[0].a, cur[-1].b
            if len(sub) == 1 and (sub[0].a, sub[0].b) == (a, b):
                if sub[0].kinds != ["tt"] and sub[0].role == "literal":
                    sub[0].kinds += ["expr", "tokens"]
                kids += sub
            else:
                kinds = ["tokens"]
                if fragment(cur):
                    kinds += ["expr"] * 4
                if len(cur) == 1:
                    kinds.append("tt")
                    if cur[0].kind == "ident" and cur[0].text not in KEYWORDS:
                        kinds.append("ident")
                kids.append(Node(a, b, kinds, sub, role="arg"))
            if whole is not cur:
                out.append(Node(whole[0].a, whole[-1].b, ["tokens"], kids, role="named arg"))
            else:
                out += kids
    return out


def commas(ts):
    """Splits expressions at the commas which are not part of generic
    arguments or closure parameters."""
    out, cur = [], []
    angle = 0
    pipe = False
    prev = None
    for t in ts:
        if t.kind == "punct":
            start = is_shorthand(prev)
            if t.text == "<" and (angle or start and (prev is None or prev.text != "<") or prev is not None and prev.text == "::"):
                angle += 1
            elif t.text == ">" and angle:
                angle -= 1
            elif t.text == "|" and (pipe or start):
                pipe = not pipe
            elif t.text == "," and not angle and not pipe:
                out.append(cur)
                cur = []
                prev = t
                continue
        cur.append(t)
        prev = t
    return [x for x in out + [cur] if x]


def item(p):
    """At the attributes of an item; None unless it derives Error."""
    start = p.peek()
    at = p.i
    attrs = p.attrs()
    derives = False
    for k in range(at, p.i, 2):
        g = p.ts[k + 1]
        if g.kids and g.kids[0].text == "derive" and any(t.text == "Error" for t in flat(g.kids)):
            derives = True
    if not derives:
        return None
    v = p.vis()
    what = p.need("struct", "enum").text
    name = p.ident("type name")
    kids = [a for a in attrs] + [v, name, p.generics()]
    kids.append(p.where())
    g = p.peek()
    if what == "enum":
        g = p.next()
        q = P(g.kids)
        variants = []
        while not q.end():
            s = q.peek()
            vk = q.attrs()
            vk.append(q.ident("variant name"))
            if q.peek() is not None and q.peek().kind == "group":
                vk.append(body(q.next()))
            if q.eat("="):
                while not q.end() and not q.at(","):
                    q.next()
            variants.append(Node(s.a, q.last().b, ["tokens"], vk, role="variant"))
            if not q.eat(","):
                break
        if not q.end():
            raise Unsplittable("variants")
        kids.append(Node(g.a, g.b, ["tt"], variants, role="enum body"))
    elif g is not None and g.kind == "group" and g.text == "{":
        kids.append(body(p.next()))
    elif g is not None and g.kind == "group":
        kids.append(body(p.next()))
        kids.append(p.where())
        p.need(";")
    else:
        p.need(";")
    n = Node(start.a, p.last().b, ["tokens"], kids, role="item")
    return n


def items(text):
    """The outermost derived items of a piece of source, in order."""
    out = []

    def scan(ts):
        p = P(ts)
        while not p.end():
            if p.at("#") and p.peek(1) is not None and p.peek(1).kind == "group":
                at = p.i
                try:
                    n = item(p)
                except Unsplittable:
                    n = None
                if n is not None:
                    out.append(n)
                    continue
                p.i = at + 1
                continue
            t = p.next()
            if t.kind == "group" and t.text == "{":
                prev = p.ts[p.i - 2] if p.i >= 2 else None
                before = p.ts[p.i - 3] if p.i >= 3 else None
                if (prev is not None and prev.text == "!") or (before is not None and before.text == "!"):
                    continue
                scan(t.kids)
    scan(lex(text))
    return out


def all_nodes(n):
    yield n
    for k in n.kids:
        yield from all_nodes(k)


def choose(r, n, p, accept):
    """A random set of disjoint pieces with their fragment kinds."""
    if n.role != "item" and n.kinds:
        kinds = [k for k in n.kinds if accept(n, k)]
        # Pieces with parts are mostly divided further.
        q = p if not n.kids else p * 0.35
        if kinds and r.random() < q:
            return [(n, r.choice(kinds))]
    out = []
    for k in n.kids:
        out += choose(r, k, p, accept)
    return out


# What an already matched fragment may be matched as by another macro.
OPAQUE = {"ty", "path", "literal", "expr", "meta", "vis"}


def within(r, node, kind, p, accept):
    """A choice inside a piece which an inner macro matches as `kind`."""
    ks = [k for k in node.kinds if accept(node, k)]
    ok = [k for k in ks if k not in OPAQUE or k == kind or (kind in ("tt", "tokens") and k != "vis") or (k == "vis" and kind == "tokens")]
    if kind == "ident":
        ok = [k for k in ok if k in ("ident", "tt")]
    if kind == "lifetime":
        ok = [k for k in ok if k in ("lifetime", "tt")]
    if kind == "literal":
        ok = [k for k in ok if k in ("literal", "tt")]
    if kind == "vis":
        ok = [k for k in ok if k in ("vis", "tokens")]
    if kind == "tt":
        # One token tree has to remain one.
        ok = [k for k in ok if k != "tokens"]
    if ok and r.random() < 0.6:
        return [(node, r.choice(ok))]
    out = []
    for k in node.kids:
        out += choose(r, k, p, accept)
    return out


def substitute(text, a, b, chosen):
    """text[a:b] with the chosen pieces replaced by metavariables."""
    out = []
    at = a
    for i, n, kind in chosen:
        if n.a < a or n.b > b:
            continue
        out.append(text[at:n.a])
        out.append("$($p%d)*" % i if kind == "tokens" else "$p%d" % i)
        if n.a == n.b:
            out.append(" ")
        at = n.b
    out.append(text[at:b])
    # `.0.` followed by a metavariable would be a float.
    return re.sub(r"(\d)\.(\$p)", r"\1 .\2", "".join(out))


def split(r, text, root, name, stats, levels=None, p=None, accept=None, export=None):
    """Macro definitions and the invocation producing text[root.a:root.b]."""
    if accept is None:
        accept = lambda n, k: True
    if p is None:
        p = r.choice([0.08, 0.2, 0.4, 0.7, 0.95])
    if levels is None:
        levels = r.choice([1, 1, 1, 2, 2, 3])
    macros = []
    # What the current macro produces: pieces of text between separators.
    inner = None
    for level in range(levels):
        m = "%s_%d" % (name, level)
        limits = {}
        if inner is None:
            picked = choose(r, root, p, accept)
        else:
            picked = []
            for n, kind in inner:
                for q, k in within(r, n, limit[n.a, n.b], p, accept):
                    if k in ("tt", "tokens") and (q.a, q.b) == (n.a, n.b):
                        limits[q.a, q.b] = limit[n.a, n.b]
                    picked.append((q, k))
        picked.sort(key=lambda x: (x[0].a, x[0].b))
        chosen = [(i, n, kind) for i, (n, kind) in enumerate(picked)]
        for _, n, kind in chosen:
            k = "%s as %s" % (n.role, kind)
            stats[k] = stats.get(k, 0) + 1
        matcher = "".join("[$($p%d:tt)*], " % i if kind == "tokens" else "$p%d:%s, " % (i, kind) for i, n, kind in chosen)
        if inner is None:
            out = substitute(text, root.a, root.b, chosen)
        else:
            args = []
            for n, kind in inner:
                s = substitute(text, n.a, n.b, [c for c in chosen if n.a <= c[1].a and c[1].b <= n.b and (c[1].a != c[1].b or n.a == n.b)])
                args.append("[%s]" % s if kind == "tokens" else s)
            out = "%s%s! { %s }" % ("$crate::" if export is not None else "", prev, "".join(x + ", " for x in args))
        d = "macro_rules! %s { (%s) => { %s } }" % (m, matcher, out)
        if export is not None:
            export.append("#[macro_export] " + d)
        else:
            macros.append(d)
        prev = m
        inner = [(n, kind) for _, n, kind in chosen]
        limit = {(n.a, n.b): limits.get((n.a, n.b), kind) for n, kind in inner}
    args = []
    for n, kind in inner:
        s = text[n.a:n.b]
        args.append("[%s]" % s if kind == "tokens" else s)
    macros.append("%s%s! { %s }" % ("mac::" if export is not None else "", prev, "".join(x + ", " for x in args)))
    return "\n".join(macros)


def rewrite(r, code, stats, prefix="mk", **kw):
    """The code with its derived items produced by macros, or None. With
    `export`, the macros are collected there, for a crate named mac."""
    its = items(code)
    if not its:
        return None
    out = []
    at = 0
    for k, n in enumerate(its):
        out.append(code[at:n.a])
        out.append("\n" + split(r, code, n, "%s%d" % (prefix, k), stats, **kw) + "\n")
        at = n.b
    out.append(code[at:])
    return "".join(out)
