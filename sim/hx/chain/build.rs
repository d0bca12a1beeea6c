//! Takes the choice of chain out of /repo/node/cli/src/{command,cli}.rs, once for each kind of node: every item but `run`, the imports
//! and what only describes the program, with the features decided. Nothing of them is rewritten.
use proc_macro2::{Group, TokenStream, TokenTree};
use quote::{quote, ToTokens};
fn features(ts: TokenStream, on: &str) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect(); let mut out = vec![]; let mut i = 0;
    while i < v.len() {
        if let TokenTree::Ident(id) = &v[i] { if id == "feature" && i + 2 < v.len() { if let (TokenTree::Punct(p), TokenTree::Literal(l)) = (&v[i + 1], &v[i + 2]) { if p.as_char() == '=' { out.extend(if l.to_string() == format!("\"{on}\"") { quote!(all()) } else { quote!(any()) }); i += 3; continue } } } }
        out.push(match &v[i] { TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), features(g.stream(), on)); n.set_span(g.span()); TokenTree::Group(n) } t => t.clone() }); i += 1;
    }
    out.into_iter().collect()
}
fn read(f: &str, on: &str) -> Vec<syn::Item> { println!("cargo:rerun-if-changed={f}"); let s = std::fs::read_to_string(f).expect(f); let ts: TokenStream = s.parse().expect("tokens"); syn::parse2::<syn::File>(features(ts, on)).expect("source").items }
fn main() {
    for on in ["frequency", "frequency-testnet", "frequency-local", "frequency-no-relay"] {
        let mut out = TokenStream::new();
        for i in read("/repo/node/cli/src/command.rs", on) { match i {
            syn::Item::Use(_) | syn::Item::Macro(_) => {}
            syn::Item::Fn(f) if f.sig.ident == "run" || f.sig.ident == "chain_name" => {}
            syn::Item::Impl(mut im) => {
                if let Some((_, tr, _)) = &im.trait_ { let n = tr.segments.last().unwrap().ident.to_string(); let keep = match &n[..] { "SubstrateCli" => "load_spec", "CliConfiguration" => "chain_id", "DefaultConfigurationValues" => continue, _ => "" }; if keep != "" { im.items.retain(|x| matches!(x, syn::ImplItem::Fn(f) if f.sig.ident == keep)) } }
                else { im.items.retain(|x| !matches!(x, syn::ImplItem::Fn(f) if f.sig.ident == "runtime_version")) }
                im.to_tokens(&mut out)
            }
            i => i.to_tokens(&mut out),
        } }
        for i in read("/repo/node/cli/src/cli.rs", on) { if let syn::Item::Impl(im) = i { if im.trait_.is_none() && im.self_ty.to_token_stream().to_string() == "RelayChainCli" { im.to_tokens(&mut out) } } }
        std::fs::write(format!("{}/{on}.rs", std::env::var("OUT_DIR").unwrap()), out.to_string()).unwrap();
    }
}
