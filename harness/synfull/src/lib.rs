use proc_macro::TokenStream;

/// Whether the parser takes an item as part of an expression.
#[proc_macro]
pub fn is_full(_: TokenStream) -> TokenStream {
    let full = matches!(syn::parse_str::<syn::Expr>("{ trait T {} }"), Ok(syn::Expr::Block(_)));
    full.to_string().parse().unwrap()
}
