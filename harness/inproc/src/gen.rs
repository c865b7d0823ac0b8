//! Hostile definitions: mutations of a corpus of valid and invalid ones.

use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};

pub trait Src {
    /// A number below n.
    fn below(&mut self, n: usize) -> usize;
    fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T
    where
        Self: Sized,
    {
        let n = self.below(xs.len());
        &xs[n]
    }
}

pub struct Rng(pub u64);

impl Src for Rng {
    fn below(&mut self, n: usize) -> usize {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        ((self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 33) as usize) % n
    }
}

/// Decisions taken from the bytes a fuzzer supplies.
pub struct Bytes<'a>(pub &'a [u8]);

impl Src for Bytes<'_> {
    fn below(&mut self, n: usize) -> usize {
        let mut v = 0usize;
        let k = if n <= 256 { 1 } else { 2 };
        for _ in 0..k {
            if let Some((b, rest)) = self.0.split_first() {
                v = v << 8 | *b as usize;
                self.0 = rest;
            }
        }
        v % n
    }
}

const IDENTS: &[&str] = &[
    "x", "y", "a", "source", "backtrace", "from", "error", "transparent", "fmt", "self", "Self", "crate", "super", "_", "r#type", "r#fn", "r#source",
    "r#_x", "as", "async", "await", "break", "const", "continue", "dyn", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let",
    "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where",
    "while", "yield", "box", "raw", "union", "auto", "macro_rules", "i32", "Option", "Backtrace", "String", "é", "日本", "__field_x", "__formatter",
    "request", "core", "std", "thiserror", "width", "T", "E", "__none", "default", "safe", "try", "become", "do", "abstract", "macro", "gen",
];
const PUNCTS: &str = "+-*/%^!&|<>=@.,;:#$?~'";
const LITS: &[&str] = &[
    "0", "1", "00", "1_0", "0x1", "0b1", "0o7", "1u8", "0usize", "1.0", "0.0", "0.", "1.5f32", "0.0.0", "1e5", "1.e", "99999999999999999999999999999999999999999", "4294967296", "4294967295",
    "\"\"", "\"{}\"", "\"{x}\"", "\"{0}\"", "\"{self}\"", "\"{source}\"", "\"{\"", "\"}\"", "\"{{}}\"", "\"{x:?}\"", "\"{0:1$}\"", "b\"x\"", "c\"x\"", "'c'", "b'c'", "r\"x\"", "r#\"\"#", "'{'", "\"é{é}\"", "\"\\u{7f}{\\u{80}}\"",
    "0.1", "1.1e1", "0.1u8", "1_1.1_1", "0x1.1", "12345678901.0", "\"x\"suffix", "1foo", "1.0foo", "1.", ".5", "..5",
    "0.256", "0.300", "0.65536", "0.4294967296", "4294967296.0", "300", "65536", "18446744073709551616", "0.18446744073709551616", "256.256",
];
pub const SNIPPETS: &[&str] = &[
    ".x", ".0", ".0.1", ".0 .1", ".0.1.2", ".0.256", ".300", ".65536.1", ".0.70000", ".0.4294967296", ".4294967296", ".0.18446744073709551616", ".18446744073709551616", ".12.34.56", "..", "..=", "...", ".. .x", "..=.0", ".x.y", ".r#type", ".self", ".await", "x = .x", "x = y = z", "x == .0", "= .x", "x =", ", ,", ", x = 1,",
    "if .x { 1 } else { 2 }", "if if x { y } else { z } { 1 } else { 2 }", "if let Some(x) = .0 && y { } else if z { }", "match .x { _ => 1, }", "match {} {}", "while .x {}", "for x in .0 {}",
    "for<'a> |x: &'a u8| x", "for<'a, T> async move |x| -> u8 { x }", "|| .x", "|x, y| x | y", "move || {}", "|| -> u8 { 1 }", "||", "|", "|||", "| |x: [u8; {|| 1}()]| x",
    "async { .0 }", "async move {}", "unsafe { .x }", "const { .x }", "const || 1", "static || 1", "loop { break .x }", "break 'a .x", "break 'a", "continue 'a", "return .x", "return", "'a: loop {}", "'a: { break 'a .0 }", "yield .x",
    "&raw const .x", "&raw mut .0", "&mut .x", "&&.x", "& raw", "&raw const", "*.x", "-.x", "!.x", ".x as u8", ".x as u8 < .y", "x as Vec<u8>", "x as &'a dyn A + B", ".x?", ".x()", ".x::<u8>()", ".x::<", "x.y::<{ 1 }>()",
    "S { x: .x, ..y }", "S { .. }", "<T as Tr>::f(.x)", "<T>::A", "a::b::<C>::d", "a!(.x)", "a! { .x }", "a![.x]", "x[.x]", "[.x; .0]", "(.x,)", "{ .x }", "{ trait T {} }", "#[a] .x", "#[a]", "#", "#!", "x..", "..x", "..", "x...y",
    "let x = .x", "let Some(ref mut x @ 1..=2 | box _) = .x else {}", "x += .x", "x <<= .0", "x >> .0", "x < .0 > .1", "x && .0 || .1", "a<b>c", "a::<b", "$x", "?", "@", "~", "->", "=>", "::", "<", ">", "-> u8", ": .x", "; .x", "static move async",
    "transparent", "fmt = f", "fmt = <T as U>::f::<V>", "fmt = Self::f", "fmt =", "fmt = .x", "\"a\", \"b\"", "\"a\" \"b\"", "\"{} {}\", .x, y = .0", "\"{y}\", y = 1, y = 2",
];
const FMT_CHARS: &[&str] = &[
    "{", "{", "{", "}", "}", "}", ":", ":", "<", ">", "^", "#", "+", "-", "0", "1", "9", ".", "*", "$", "?", "x", "X", "p", "o", "b", "e", "E", " ", "!", "[", "]", "é", "ñ", "日", "\u{80}", "\u{2028}", "\u{200b}",
    "\n", "\t", "\"", "\\", "'", "_", "r#", "r", "self", "source", "x", "y", "a1", "type", "{{", "}}", "{}", "{x", "{0", "{:", "}<", "99999999999", "4294967296", "{x:", ":?}", "\u{fe0f}", "\u{1F600}", "\u{0301}", "\u{a0}", "{\u{80}}", "fn", "{r#fn}", ",", "=", "{x:}}<}", "{x:{<5}",
];

pub fn fmt_text(r: &mut impl Src) -> String {
    let n = r.below(14);
    (0..n).map(|_| *r.pick(FMT_CHARS)).collect()
}

pub fn token(r: &mut impl Src, depth: usize) -> TokenTree {
    match r.below(10) {
        0..=2 => {
            let s = *r.pick(IDENTS);
            TokenTree::Ident(match s.strip_prefix("r#") {
                Some(raw) => Ident::new_raw(raw, Span::call_site()),
                None => Ident::new(s, Span::call_site()),
            })
        }
        3..=5 => {
            let cs: Vec<char> = PUNCTS.chars().collect();
            let c = *r.pick(&cs);
            TokenTree::Punct(Punct::new(c, if c == '\'' || r.one_in(2) { Spacing::Joint } else { Spacing::Alone }))
        }
        6 => TokenTree::Literal(Literal::string(&fmt_text(r))),
        7 | 8 => literal(r),
        _ => {
            let d = *r.pick(&[Delimiter::Parenthesis, Delimiter::Brace, Delimiter::Bracket, Delimiter::None]);
            let n = if depth > 3 { 0 } else { r.below(4) };
            let inner: TokenStream = (0..n).map(|_| token(r, depth + 1)).collect();
            TokenTree::Group(Group::new(d, inner))
        }
    }
}

fn literal(r: &mut impl Src) -> TokenTree {
    let s = *r.pick(LITS);
    s.parse::<Literal>().map(TokenTree::Literal).unwrap_or_else(|_| TokenTree::Literal(Literal::u32_unsuffixed(0)))
}

pub fn snippet(r: &mut impl Src) -> Vec<TokenTree> {
    let s = *r.pick(SNIPPETS);
    s.parse::<TokenStream>().map(|t| t.into_iter().collect()).unwrap_or_default()
}

type Path = Vec<usize>;

/// The groups of a stream; `inside` says which are inside an attribute.
fn groups(ts: &TokenStream, at: &mut Path, inside: bool, out: &mut Vec<(Path, bool)>) {
    let mut hash = false;
    for (i, t) in ts.clone().into_iter().enumerate() {
        match &t {
            TokenTree::Group(g) => {
                let attr = inside || hash && g.delimiter() == Delimiter::Bracket && ours(g);
                at.push(i);
                out.push((at.clone(), attr));
                groups(&g.stream(), at, attr, out);
                at.pop();
                hash = false;
            }
            TokenTree::Punct(p) => hash = p.as_char() == '#',
            _ => hash = false,
        }
    }
}

fn ours(g: &Group) -> bool {
    match g.stream().into_iter().next() {
        Some(TokenTree::Ident(id)) => ["error", "source", "from", "backtrace"].iter().any(|x| id == x),
        _ => false,
    }
}

fn edit(ts: TokenStream, path: &[usize], f: &mut dyn FnMut(Vec<TokenTree>) -> Vec<TokenTree>) -> TokenStream {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    match path.split_first() {
        None => f(toks).into_iter().collect(),
        Some((&i, rest)) => toks
            .into_iter()
            .enumerate()
            .map(|(k, t)| match t {
                TokenTree::Group(g) if k == i => {
                    let mut n = Group::new(g.delimiter(), edit(g.stream(), rest, f));
                    n.set_span(g.span());
                    TokenTree::Group(n)
                }
                t => t,
            })
            .collect(),
    }
}

fn get(ts: &TokenStream, path: &[usize]) -> TokenStream {
    match path.split_first() {
        None => ts.clone(),
        Some((&i, rest)) => match ts.clone().into_iter().nth(i) {
            Some(TokenTree::Group(g)) => get(&g.stream(), rest),
            _ => TokenStream::new(),
        },
    }
}

pub fn mutate(r: &mut impl Src, base: &TokenStream, other: &TokenStream) -> TokenStream {
    let mut ts = base.clone();
    let n = 1 + r.below(4);
    for _ in 0..n {
        ts = mutate_once(r, ts, other);
    }
    ts
}

/// Mutates only what is inside the attributes of the derive.
pub fn mutate_attrs(r: &mut impl Src, base: &TokenStream, other: &TokenStream) -> Option<TokenStream> {
    let mut ts = base.clone();
    for _ in 0..1 + r.below(3) {
        let mut gs = Vec::new();
        groups(&ts, &mut Vec::new(), false, &mut gs);
        // The brackets themselves stay.
        let attrs: Vec<Path> = gs.iter().filter(|g| g.1 && !ours(&as_group(&ts, &g.0))).map(|g| g.0.clone()).collect();
        if attrs.is_empty() {
            return None;
        }
        let at = r.pick(&attrs).clone();
        ts = mutate_at(r, ts, other, at);
    }
    Some(ts)
}

fn as_group(ts: &TokenStream, path: &[usize]) -> Group {
    Group::new(Delimiter::Bracket, get(ts, path))
}

fn mutate_once(r: &mut impl Src, ts: TokenStream, other: &TokenStream) -> TokenStream {
    let mut gs = Vec::new();
    groups(&ts, &mut Vec::new(), false, &mut gs);
    let attrs: Vec<&Path> = gs.iter().filter(|g| g.1).map(|g| &g.0).collect();
    let path: Path = if !attrs.is_empty() && !r.one_in(6) {
        (*r.pick(&attrs)).clone()
    } else if gs.is_empty() || r.one_in(4) {
        Vec::new()
    } else {
        r.pick(&gs).0.clone()
    };
    mutate_at(r, ts, other, path)
}

fn mutate_at(r: &mut impl Src, ts: TokenStream, other: &TokenStream, path: Path) -> TokenStream {
    let mut ogs = Vec::new();
    groups(other, &mut Vec::new(), false, &mut ogs);
    let splice: Vec<TokenTree> = if ogs.is_empty() { Vec::new() } else { get(other, &r.pick(&ogs).0).into_iter().collect() };
    edit(ts, &path, &mut |mut toks| {
        let n = toks.len();
        let i = if n == 0 { 0 } else { r.below(n) };
        match r.below(14) {
            0 if n > 0 => {
                toks.remove(i);
            }
            1 if n > 0 => {
                let t = toks[i].clone();
                toks.insert(i, t);
            }
            2 if n > 1 => {
                let j = r.below(n);
                toks.swap(i, j);
            }
            3 if n > 0 => toks[i] = token(r, 0),
            4 => toks.insert(i, token(r, 0)),
            5 | 6 => {
                let s = snippet(r);
                toks.splice(i..i, s);
            }
            7 => toks.extend(snippet(r)),
            8 if n > 0 => {
                // Wrap a range in a group, most often an invisible one.
                let j = i + 1 + r.below(n - i);
                let d = *r.pick(&[Delimiter::None, Delimiter::None, Delimiter::Parenthesis, Delimiter::Brace, Delimiter::Bracket]);
                let inner: TokenStream = toks[i..j].iter().cloned().collect();
                toks.splice(i..j, [TokenTree::Group(Group::new(d, inner))]);
            }
            9 if n > 0 => {
                // Change a literal.
                if let Some(k) = toks.iter().position(|t| matches!(t, TokenTree::Literal(_))) {
                    toks[k] = mutate_literal(r, &toks[k]);
                } else {
                    toks[i] = literal(r);
                }
            }
            10 if n > 0 => {
                if let Some(k) = toks.iter().position(|t| matches!(t, TokenTree::Literal(_))) {
                    toks[k] = mutate_literal(r, &toks[k]);
                }
            }
            11 if !splice.is_empty() => {
                let a = r.below(splice.len());
                let b = a + 1 + r.below(splice.len() - a);
                toks.splice(i..i, splice[a..b].iter().cloned());
            }
            12 if n > 0 => {
                let j = i + r.below(n - i) + 1;
                toks.drain(i..j);
            }
            _ => {
                if n > 0 {
                    let rep = 1 + r.below(20);
                    let t = toks[i].clone();
                    toks.splice(i..i, std::iter::repeat(t).take(rep));
                }
            }
        }
        toks
    })
}

fn mutate_literal(r: &mut impl Src, t: &TokenTree) -> TokenTree {
    if let Ok(s) = syn::parse2::<syn::LitStr>(TokenStream::from(t.clone())) {
        let mut cs: Vec<char> = s.value().chars().collect();
        for _ in 0..1 + r.below(3) {
            let i = if cs.is_empty() { 0 } else { r.below(cs.len() + 1) };
            match r.below(4) {
                0 if i < cs.len() => {
                    cs.remove(i);
                }
                1 => cs.splice(i..i, fmt_text(r).chars()).for_each(drop),
                2 if i < cs.len() => {
                    let j = i + r.below(cs.len() - i);
                    let part: Vec<char> = cs[i..j].to_vec();
                    cs.splice(i..i, part).for_each(drop);
                }
                _ => cs.splice(i..i, r.pick(FMT_CHARS).chars()).for_each(drop),
            }
        }
        return TokenTree::Literal(Literal::string(&cs.into_iter().collect::<String>()));
    }
    literal(r)
}
