//! The attribute macros of pyo3 and the derive macro of clap, reduced to what the harness needs: the Rust items as written.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn pyclass(_: TokenStream, item: TokenStream) -> TokenStream {
    strip(item)
}
#[proc_macro_attribute]
pub fn pyfunction(_: TokenStream, item: TokenStream) -> TokenStream {
    strip(item)
}
#[proc_macro_attribute]
pub fn pymodule(_: TokenStream, _: TokenStream) -> TokenStream {
    // registers classes and functions with the interpreter
    TokenStream::new()
}
#[proc_macro_attribute]
pub fn pymethods(_: TokenStream, item: TokenStream) -> TokenStream {
    strip(item)
}

const KNOWN: [&str; 9] = ["new", "pyo3", "getter", "setter", "staticmethod", "classmethod", "args", "classattr", "inline"];
/// removes the attributes pyo3 interprets
fn strip(t: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1)) {
            if p.as_char() == '#' && g.delimiter() == Delimiter::Bracket {
                if let Some(TokenTree::Ident(n)) = g.stream().into_iter().next() {
                    if KNOWN.contains(&n.to_string().as_str()) {
                        i += 2;
                        continue;
                    }
                }
            }
        }
        if let TokenTree::Group(g) = &v[i] {
            let mut h = Group::new(g.delimiter(), strip(g.stream()));
            h.set_span(g.span());
            out.push(h.into());
        } else {
            out.push(v[i].clone());
        }
        i += 1;
    }
    out.into_iter().collect()
}

#[proc_macro_derive(Parser, attributes(clap, arg, command))]
pub fn parser(item: TokenStream) -> TokenStream {
    let mut name = None;
    let v: Vec<TokenTree> = item.into_iter().collect();
    for w in v.windows(2) {
        if let (TokenTree::Ident(a), TokenTree::Ident(b)) = (&w[0], &w[1]) {
            if ["enum", "struct"].contains(&a.to_string().as_str()) {
                name = Some(b.to_string());
                break;
            }
        }
    }
    format!("impl {0} {{ pub fn parse() -> Self {{ ::clap::given() }} }}", name.unwrap()).parse().unwrap()
}
#[proc_macro_derive(Subcommand, attributes(clap, arg, command))]
pub fn subcommand(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
