//! Stand-in for facet's derive: accepts the attributes, generates nothing, except Display and
//! Error for `#[facet(derive(Error))]`.
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_derive(Facet, attributes(facet))]
pub fn facet(input: TokenStream) -> TokenStream {
    let text = input.to_string();
    if !text.split_whitespace().collect::<String>().contains("#[facet(derive(Error))]") {
        return TokenStream::new();
    }
    let mut it = input.into_iter();
    while let Some(t) = it.next() {
        if let TokenTree::Ident(i) = &t {
            let s = i.to_string();
            if s == "struct" || s == "enum" {
                let name = it.next().unwrap().to_string();
                return format!(
                    "impl ::std::fmt::Display for {name} {{ fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {{ ::std::fmt::Debug::fmt(self, f) }} }}
                     impl ::std::error::Error for {name} {{}}"
                )
                .parse()
                .unwrap();
            }
        }
    }
    TokenStream::new()
}
