//! Watches expansions: panics, time, and what the output is.

use proc_macro2::TokenStream;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub enum Outcome {
    /// Not something a compiler hands to a derive.
    NotInput,
    Bad(String),
    /// Whether the output has a compile error, and the number of impls.
    Good { error: bool, impls: usize, output: TokenStream },
}

static CURRENT: Mutex<String> = Mutex::new(String::new());
static SERIAL: AtomicU64 = AtomicU64::new(0);

fn cpu() -> Duration {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let ticks: u64 = f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    Duration::from_millis(ticks * 10)
}

/// Reports an expansion which takes more than `limit` of processor time.
pub fn watchdog(limit: Duration) {
    std::thread::spawn(move || {
        let mut last = (SERIAL.load(Ordering::SeqCst), cpu());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let s = SERIAL.load(Ordering::SeqCst);
            let c = cpu();
            if s != last.0 || s % 2 == 0 {
                last = (s, c);
            } else if c > last.1 + limit {
                println!("@@HANG {}", esc(&CURRENT.lock().unwrap()));
                std::process::exit(7);
            }
        }
    });
}

pub fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}

pub fn begin(text: String) {
    *CURRENT.lock().unwrap() = text;
}

pub fn expand(ts: &TokenStream) -> Result<(syn::DeriveInput, TokenStream, Duration), Option<String>> {
    let input = match catch_unwind(AssertUnwindSafe(|| syn::parse2::<syn::DeriveInput>(ts.clone()))) {
        Ok(Ok(input)) => input,
        _ => return Err(None),
    };
    // The derive's own parser takes some things the compiler would not.
    match catch_unwind(AssertUnwindSafe(|| syn3::parse2::<syn3::DeriveInput>(ts.clone()))) {
        Ok(Ok(full)) if !underscores(&full) => {}
        _ => return Err(None),
    }
    SERIAL.fetch_add(1, Ordering::SeqCst);
    let start = Instant::now();
    let r = catch_unwind(AssertUnwindSafe(|| timpl::verif_derive_error(&input)));
    let took = start.elapsed();
    SERIAL.fetch_add(1, Ordering::SeqCst);
    match r {
        Ok(out) => Ok((input, out, took)),
        Err(p) => Err(Some(
            p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(),
        )),
    }
}

/// Whether `_` is the name of a parameter or field, which the compiler refuses
/// before running any derive.
fn underscores(input: &syn3::DeriveInput) -> bool {
    let field = |f: &syn3::Field| f.ident.as_ref().map_or(false, |i| i == "_");
    let params = input.generics.params.iter().any(|p| match p {
        syn3::GenericParam::Lifetime(_) => false,
        syn3::GenericParam::Type(t) => t.ident == "_",
        syn3::GenericParam::Const(c) => c.ident == "_",
    });
    params
        || input.ident == "_"
        || match &input.data {
            syn3::Data::Struct(s) => s.fields.iter().any(field),
            syn3::Data::Enum(e) => e.variants.iter().any(|v| v.ident == "_" || v.fields.iter().any(field)),
            syn3::Data::Union(u) => u.fields.named.iter().any(field),
        }
}

pub const SLOW: Duration = Duration::from_secs(4);

pub fn check(ts: &TokenStream) -> Outcome {
    let (input, out, mut took) = match expand(ts) {
        Ok(x) => x,
        Err(None) => return Outcome::NotInput,
        Err(Some(p)) => return Outcome::Bad(format!("panicked: {p}")),
    };
    for _ in 0..3 {
        // The machine may have been busy.
        if took > SLOW {
            took = took.min(expand(ts).map(|x| x.2).unwrap_or(took));
        }
    }
    if took > SLOW {
        return Outcome::Bad(format!("expansion took {took:?}"));
    }
    match judge(&input, &out) {
        Ok((error, impls)) => Outcome::Good { error, impls, output: out },
        Err(why) => Outcome::Bad(format!("{why}; output: {}", crate::text::print(&out))),
    }
}

fn last(p: &syn3::Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

#[derive(Default)]
struct Seen {
    errors: usize,
    error_impls: usize,
    display_impls: usize,
    impls: usize,
}

fn items(items: &[syn3::Item], input: &syn::DeriveInput, seen: &mut Seen) -> Result<(), String> {
    // In whatever order, as the compiler wants lifetimes first.
    let mut params: Vec<String> = input
        .generics
        .params
        .iter()
        .map(|p| match p {
            syn::GenericParam::Lifetime(l) => l.lifetime.to_string(),
            syn::GenericParam::Type(t) => t.ident.to_string(),
            syn::GenericParam::Const(c) => format!("const {}", c.ident),
        })
        .collect();
    params.sort();
    for item in items {
        match item {
            syn3::Item::Macro(m) if last(&m.mac.path) == "compile_error" => {
                seen.errors += 1;
                if syn3::parse2::<syn3::LitStr>(m.mac.tokens.clone()).map_or(true, |s| s.value().trim().is_empty()) {
                    return Err("compile_error without a message".to_owned());
                }
            }
            syn3::Item::Impl(i) => {
                seen.impls += 1;
                let Some(t) = &i.trait_ else { continue };
                let name = last(&t.0);
                match name.as_str() {
                    "Error" => seen.error_impls += 1,
                    "Display" => seen.display_impls += 1,
                    _ => {}
                }
                let mut ty = &*i.self_ty;
                while let syn3::Type::Group(g) = ty {
                    ty = &g.elem;
                }
                match ty {
                    syn3::Type::Path(p) if last(&p.path) == input.ident.to_string() => {}
                    _ => return Err("an impl for another type".to_owned()),
                }
                let mut got: Vec<String> = i
                    .generics
                    .params
                    .iter()
                    .map(|p| match p {
                        syn3::GenericParam::Lifetime(l) => l.lifetime.to_string(),
                        syn3::GenericParam::Type(t) => t.ident.to_string(),
                        syn3::GenericParam::Const(c) => format!("const {}", c.ident),
                    })
                    .collect();
                got.sort();
                if got != params {
                    return Err(format!("impl {name} has parameters {got:?}, the type has {params:?}"));
                }
            }
            syn3::Item::Const(c) => {
                if let syn3::Expr::Block(b) = &*c.expr {
                    let inner: Vec<syn3::Item> = b
                        .block
                        .stmts
                        .iter()
                        .filter_map(|s| match s {
                            syn3::Stmt::Item(i) => Some(i.clone()),
                            _ => None,
                        })
                        .collect();
                    self::items(&inner, input, seen)?;
                }
            }
            _ => {}
        }
    }
    Ok(())
}

/// Writes a call `crate(x)` in another way, which that parser takes for an
/// item at the beginning of a block while the compiler's does not. With
/// `tries`, also the keyword `try` in a path.
fn plain(ts: TokenStream, tries: bool) -> TokenStream {
    use proc_macro2::{Group, Ident, TokenTree};
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let call: Vec<bool> = (0..toks.len())
        .map(|i| match (&toks[i], toks.get(i + 1)) {
            (TokenTree::Ident(id), Some(TokenTree::Group(g))) => g.delimiter() == proc_macro2::Delimiter::Parenthesis && (id == "crate" || tries && id == "try"),
            (TokenTree::Ident(id), Some(TokenTree::Punct(p))) => tries && id == "try" && p.as_char() == ':',
            _ => false,
        })
        .collect();
    toks.into_iter()
        .zip(call)
        .map(|(t, call)| match t {
            TokenTree::Ident(id) if call => TokenTree::Ident(Ident::new("krate", id.span())),
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), plain(g.stream(), tries))),
            t => t,
        })
        .collect()
}

fn judge(input: &syn::DeriveInput, out: &TokenStream) -> Result<(bool, usize), String> {
    let file = match syn3::parse2::<syn3::File>(out.clone()).or_else(|e| syn3::parse2::<syn3::File>(plain(out.clone(), false)).map_err(|_| e)) {
        Ok(f) => f,
        Err(e) if syn3::parse2::<syn3::File>(plain(out.clone(), true)).is_ok() => return Err(format!("KNOWN-TRY output does not parse: {e}")),
        Err(e) => return Err(format!("output does not parse: {e}")),
    };
    let mut seen = Seen::default();
    items(&file.items, input, &mut seen)?;
    if seen.error_impls != 1 {
        return Err(format!("{} impls of Error", seen.error_impls));
    }
    if seen.display_impls > 1 || seen.errors > 0 && seen.display_impls != 1 {
        return Err(format!("{} impls of Display", seen.display_impls));
    }
    Ok((seen.errors > 0, seen.impls))
}
