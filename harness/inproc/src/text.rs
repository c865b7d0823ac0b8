//! Token streams as text, with invisible groups written `__none! { .. }`.

use proc_macro2::{Delimiter, Group, Spacing, TokenStream, TokenTree};
use std::str::FromStr;

pub fn parse(text: &str) -> Option<TokenStream> {
    let ts = std::panic::catch_unwind(|| TokenStream::from_str(text)).ok()?.ok()?;
    Some(unmark(ts))
}

fn unmark(ts: TokenStream) -> TokenStream {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < toks.len() {
        if let TokenTree::Ident(id) = &toks[i] {
            if id == "__none" {
                if let (Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (toks.get(i + 1), toks.get(i + 2)) {
                    if p.as_char() == '!' {
                        let mut n = Group::new(Delimiter::None, unmark(g.stream()));
                        n.set_span(g.span());
                        out.push(TokenTree::Group(n));
                        i += 3;
                        continue;
                    }
                }
            }
        }
        out.push(match &toks[i] {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), unmark(g.stream()));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            t => t.clone(),
        });
        i += 1;
    }
    out.into_iter().collect()
}

pub fn print(ts: &TokenStream) -> String {
    let mut s = String::new();
    go(ts.clone(), &mut s);
    s
}

fn go(ts: TokenStream, s: &mut String) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("( ", ") "),
                    Delimiter::Brace => ("{ ", "} "),
                    Delimiter::Bracket => ("[ ", "] "),
                    Delimiter::None => ("__none ! { ", "} "),
                };
                s.push_str(a);
                go(g.stream(), s);
                s.push_str(b);
            }
            TokenTree::Punct(p) => {
                s.push(p.as_char());
                if p.spacing() == Spacing::Alone {
                    s.push(' ');
                }
            }
            t => {
                s.push_str(&t.to_string());
                s.push(' ');
            }
        }
    }
}

/// The definitions in a text which derive Error, as the derive is given them.
pub fn definitions(ts: TokenStream, out: &mut Vec<TokenStream>) {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < toks.len() {
        if let Some(end) = derive_at(&toks, i) {
            let mut item: Vec<TokenTree> = Vec::new();
            let mut j = end;
            while j < toks.len() {
                item.push(toks[j].clone());
                j += 1;
                match item.last() {
                    Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace => break,
                    Some(TokenTree::Punct(p)) if p.as_char() == ';' => break,
                    _ => {}
                }
            }
            let def: TokenStream = item.into_iter().collect();
            if syn::parse2::<syn::DeriveInput>(def.clone()).is_ok() {
                out.push(def);
            }
            i = end;
            continue;
        }
        if let TokenTree::Group(g) = &toks[i] {
            definitions(g.stream(), out);
        }
        i += 1;
    }
}

fn derive_at(toks: &[TokenTree], i: usize) -> Option<usize> {
    match (&toks[i], toks.get(i + 1)) {
        (TokenTree::Punct(p), Some(TokenTree::Group(g))) if p.as_char() == '#' && g.delimiter() == Delimiter::Bracket => {
            let mut inner = g.stream().into_iter();
            match (inner.next(), inner.next()) {
                (Some(TokenTree::Ident(id)), Some(TokenTree::Group(list))) if id == "derive" && list.stream().to_string().contains("Error") => Some(i + 2),
                _ => None,
            }
        }
        _ => None,
    }
}
