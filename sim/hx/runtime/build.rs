//! Takes the runtime's own filters, fee tables and wiring out of /repo/runtime/frequency/src/lib.rs: the named items and whatever
//! else of that file they refer to, with the features decided for each kind of network. Nothing of them is rewritten.
use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::HashSet;
const SRC: &str = "/repo/runtime/frequency/src/lib.rs";
/// crates (and modules) the harness provides; a `use` of anything else is left out
const CRATES: &[&str] = &["common_primitives", "common_runtime", "frame_support", "frame_system", "sp_std", "sp_core", "sp_runtime", "parity_scale_codec", "pallet_msa", "pallet_messages", "pallet_schemas", "pallet_stateful_storage", "pallet_handles", "pallet_capacity", "pallet_time_release", "pallet_frequency_tx_payment", "pallet_passkey", "pallet_transaction_payment"];
/// names the harness gives itself
const PROVIDED: &[&str] = &["Block", "BlockT", "Header", "UncheckedExtrinsic", "Runtime", "RuntimeCall"];
fn features(ts: TokenStream, on: &[&str]) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect(); let mut out = vec![]; let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Ident(id) if id == "feature" && i + 2 < v.len() => if let (TokenTree::Punct(p), TokenTree::Literal(l)) = (&v[i + 1], &v[i + 2]) { if p.as_char() == '=' { let yes = on.iter().any(|f| format!("\"{f}\"") == l.to_string()); out.extend(if yes { quote!(all()) } else { quote!(any()) }); i += 3; continue } },
            TokenTree::Ident(id) if id == "test" && (i == 0 || matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == ',')) && (i + 1 == v.len() || matches!(&v[i + 1], TokenTree::Punct(p) if p.as_char() == ',')) && v.len() > 1 => {}
            _ => {}
        }
        out.push(match &v[i] { TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), features(g.stream(), on)); n.set_span(g.span()); TokenTree::Group(n) }, t => t.clone() }); i += 1;
    }
    out.into_iter().collect()
}
fn idents(ts: TokenStream, s: &mut HashSet<String>) { for t in ts { match t { TokenTree::Ident(i) => { s.insert(i.to_string()); }, TokenTree::Group(g) => idents(g.stream(), s), _ => {} } } }
fn flatten(t: &syn::UseTree, pre: Vec<Ident>, out: &mut Vec<(Vec<Ident>, Option<Ident>, bool)>) {
    match t {
        syn::UseTree::Path(p) => { let mut q = pre; q.push(p.ident.clone()); flatten(&p.tree, q, out) }
        syn::UseTree::Name(n) => { let mut q = pre; if n.ident != "self" { q.push(n.ident.clone()) } out.push((q, None, false)) }
        syn::UseTree::Rename(r) => { let mut q = pre; if r.ident != "self" { q.push(r.ident.clone()) } out.push((q, Some(r.rename.clone()), false)) }
        syn::UseTree::Glob(_) => out.push((pre, None, true)),
        syn::UseTree::Group(g) => for i in &g.items { flatten(i, pre.clone(), out) },
    }
}
fn path_name(t: &syn::Type) -> Option<String> { match t { syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()), _ => None } }
fn active(attrs: &[syn::Attribute]) -> bool { attrs.iter().filter(|a| a.path().is_ident("cfg")).all(|a| a.parse_args::<syn::Meta>().map(|m| holds(&m)).unwrap_or(false)) }
fn holds(m: &syn::Meta) -> bool {
    match m {
        syn::Meta::List(l) => { let v: Vec<syn::Meta> = l.parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated).map(|p| p.into_iter().collect()).unwrap_or_default(); if l.path.is_ident("not") { !v.iter().all(holds) } else if l.path.is_ident("all") { v.iter().all(holds) } else if l.path.is_ident("any") { v.iter().any(holds) } else { false } }
        _ => false,
    }
}
/// `roots`: names to extract; `cfgs`: the pallets whose `impl X::Config for Runtime` is turned into a module of type aliases
fn extract(src: &str, on: &[&str], roots: &[&str], cfgs: &[(&str, &str)], calls: bool) -> TokenStream {
    let ts: TokenStream = src.parse().expect("runtime source tokens"); let file: syn::File = syn::parse2(features(ts, on)).expect("runtime source");
    let items: Vec<syn::Item> = file.items.into_iter().filter(|i| { let a = match i { syn::Item::Fn(x) => &x.attrs, syn::Item::Const(x) => &x.attrs, syn::Item::Type(x) => &x.attrs, syn::Item::Struct(x) => &x.attrs, syn::Item::Enum(x) => &x.attrs, syn::Item::Impl(x) => &x.attrs, syn::Item::Use(x) => &x.attrs, syn::Item::Macro(x) => &x.attrs, syn::Item::Trait(x) => &x.attrs, syn::Item::Static(x) => &x.attrs, syn::Item::Mod(x) => &x.attrs, _ => return true }; active(a) }).collect();
    let mut want: HashSet<String> = roots.iter().map(|s| s.to_string()).collect(); let mut taken: HashSet<usize> = HashSet::new(); let mut body = TokenStream::new(); let mut mods = TokenStream::new();
    // the associated types of the pallets' configurations
    for (pallet, names) in cfgs { let names: Vec<&str> = names.split_whitespace().collect(); let mut al = TokenStream::new(); let mut re = TokenStream::new(); let mut seen: HashSet<String> = HashSet::new();
        for i in &items { if let syn::Item::Impl(im) = i { let Some((_, tr, _)) = &im.trait_ else { continue }; let s: Vec<String> = tr.segments.iter().map(|s| s.ident.to_string()).collect(); if s != [pallet.to_string(), "Config".to_string()] || path_name(&im.self_ty).as_deref() != Some("Runtime") { continue }
            for it in &im.items { if let syn::ImplItem::Type(t) = it { if active(&t.attrs) && names.contains(&t.ident.to_string().as_str()) { let (n, ty) = (&t.ident, &t.ty); idents(ty.to_token_stream(), &mut want); seen.insert(n.to_string()); let hidden = Ident::new(&format!("__{n}"), Span::call_site()); al.extend(quote!(pub type #hidden = #ty;)); re.extend(quote!(pub use t::#hidden as #n;)) } } } } }
        for n in names { if !seen.contains(n) { panic!("{pallet}::Config does not set {n}") } }
        let m = Ident::new(pallet, Span::call_site()); mods.extend(quote!(pub mod #m { mod t { use super::super::super::base::*; use super::super::super::__rt::*; #al } #re })); }
    // the runtime API, method by method
    let mut apis = TokenStream::new(); let mut impls = TokenStream::new();
    if calls { for i in &items { if let syn::Item::Macro(m) = i { if m.mac.path.segments.last().unwrap().ident != "impl_runtime_apis" { continue }
        let f: syn::File = syn::parse2(m.mac.tokens.clone()).expect("runtime API");
        for it in &f.items { let syn::Item::Impl(im) = it else { continue }; let Some((_, tr, _)) = &im.trait_ else { continue }; let krate = tr.segments[0].ident.to_string(); if !active(&im.attrs) || !(krate.starts_with("pallet_") && krate.ends_with("_runtime_api") || ["system_runtime_api", "frame_system_rpc_runtime_api"].contains(&&krate[..])) || krate.starts_with("pallet_transaction_payment") { continue }
            let name = &tr.segments.last().unwrap().ident; let (mut fs, mut ms) = (TokenStream::new(), TokenStream::new());
            for g in &im.items { if let syn::ImplItem::Fn(g) = g { let mut g = g.clone(); g.attrs.clear(); idents(g.to_token_stream(), &mut want); let (n, args) = (&g.sig.ident, &g.sig.inputs); let names: Vec<syn::Pat> = args.iter().map(|a| match a { syn::FnArg::Typed(t) => (*t.pat).clone(), _ => panic!("runtime API method with self") }).collect();
                let r = match &g.sig.output { syn::ReturnType::Default => quote!(()), syn::ReturnType::Type(_, t) => quote!(#t) };
                if on.contains(&"frequency-testnet") { ms.extend(quote!(fn #n(&self, __at: <Block as BlockT>::Hash, #args) -> ::core::result::Result<#r, sp_api::ApiError> { crate::asked(__at)?; Ok(crate::testnet::__rt::api::#name::#n(#(#names),*)) })) } fs.extend(quote!(pub #g)); } }
            apis.extend(quote!(pub mod #name { use super::super::*; #fs })); if !ms.is_empty() { impls.extend(quote!(impl #tr for crate::Node { #ms })) }
        } } } }
    loop { let before = taken.len();
        for n in PROVIDED { want.remove(*n); }
        for (k, i) in items.iter().enumerate() { if taken.contains(&k) { continue }
            let take = match i {
                syn::Item::Fn(f) => want.contains(&f.sig.ident.to_string()), syn::Item::Const(c) => want.contains(&c.ident.to_string()), syn::Item::Static(c) => want.contains(&c.ident.to_string()), syn::Item::Type(t) => want.contains(&t.ident.to_string()),
                syn::Item::Struct(s) => want.contains(&s.ident.to_string()), syn::Item::Enum(s) => want.contains(&s.ident.to_string()), syn::Item::Trait(s) => want.contains(&s.ident.to_string()),
                syn::Item::Mod(m) => want.contains(&m.ident.to_string()) && m.content.is_some() && m.ident != "opaque",
                syn::Item::Impl(im) => { let n = path_name(&im.self_ty).unwrap_or_default(); n != "Runtime" && want.contains(&n) }
                syn::Item::Macro(m) => { let n = m.mac.path.segments.last().unwrap().ident.to_string(); if n == "parameter_types" { let mut s = HashSet::new(); declared(m.mac.tokens.clone(), &mut s); s.iter().any(|x| want.contains(x)) } else if n == "macro_rules" { m.ident.as_ref().map(|i| want.contains(&i.to_string())).unwrap_or(false) } else { false } }
                _ => false };
            if take { taken.insert(k); idents(i.to_token_stream(), &mut want); }
        }
        if taken.len() == before { break } }
    let mut order: Vec<usize> = taken.into_iter().collect(); order.sort();
    for k in order { let mut i = items[k].clone(); open(&mut i); body.extend(i.to_token_stream()) }
    let mut uses = vec![]; let mut scan = |its: &[syn::Item]| for i in its { if let syn::Item::Use(u) = i { let mut v = vec![]; flatten(&u.tree, vec![], &mut v); uses.extend(v) } }; scan(&items);
    let mut useq = TokenStream::new(); let mut done = HashSet::new();
    for (p, r, glob) in uses { let Some(first) = p.first() else { continue }; if !CRATES.contains(&first.to_string().as_str()) { continue }
        if glob { let k = quote!(#(#p)::*).to_string(); if done.insert(k) { useq.extend(quote!(#[allow(unused_imports)] pub use #(#p)::*::*;)) } continue }
        let name = r.clone().unwrap_or_else(|| p.last().unwrap().clone()).to_string(); if p.len() < 2 && r.is_none() { continue } if !want.contains(&name) || !done.insert(name) { continue }
        useq.extend(match r { Some(r) => quote!(#[allow(unused_imports)] pub use #(#p)::* as #r;), None => quote!(#[allow(unused_imports)] pub use #(#p)::*;) }) }
    // which pallets the runtime is built of, by construct_runtime!
    let mut list = vec![]; if calls { for i in &items { if let syn::Item::Macro(m) = i { if m.mac.path.segments.last().unwrap().ident == "construct_runtime" { let mut s = m.mac.tokens.clone().into_iter().collect::<Vec<_>>(); if let Some(TokenTree::Group(g)) = s.iter().rev().find(|t| matches!(t, TokenTree::Group(g) if g.delimiter() == Delimiter::Brace)) { let v: Vec<TokenTree> = g.stream().into_iter().collect(); for w in v.windows(2) { if let (TokenTree::Ident(a), TokenTree::Punct(p)) = (&w[0], &w[1]) { if p.as_char() == ':' { list.push(a.to_string()) } } } } s.clear(); } } } }
    quote!(pub mod __rt { #![allow(dead_code, unused_imports, non_camel_case_types)] use super::base::*; pub use super::base::{Block, BlockT}; #useq #body pub mod api { #apis } } pub mod cfg { #![allow(unused_imports)] #mods } pub const PALLETS: &[&str] = &[#(#list),*]; #[cfg(feature = "rpc")] mod impls { use super::__rt::*; use super::base::*; #impls })
}
/// what the harness looks at is made public
fn open(i: &mut syn::Item) { let p: syn::Visibility = syn::parse_quote!(pub); match i { syn::Item::Fn(x) => x.vis = p, syn::Item::Const(x) => x.vis = p, syn::Item::Type(x) => x.vis = p, syn::Item::Struct(x) => x.vis = p, syn::Item::Enum(x) => x.vis = p, syn::Item::Trait(x) => x.vis = p, syn::Item::Static(x) => x.vis = p, syn::Item::Mod(x) => x.vis = p, _ => {} } }
fn declared(ts: TokenStream, s: &mut HashSet<String>) { let v: Vec<TokenTree> = ts.into_iter().collect(); for w in v.windows(2) { if let (TokenTree::Ident(a), TokenTree::Punct(p)) = (&w[0], &w[1]) { if p.as_char() == ':' && p.spacing() == proc_macro2::Spacing::Alone { s.insert(a.to_string()); } } } }
fn main() {
    println!("cargo:rerun-if-changed={SRC}"); println!("cargo:rerun-if-changed=build.rs");
    let src = std::fs::read_to_string(SRC).expect("runtime source"); let out = std::env::var("OUT_DIR").unwrap();
    let cfgs: &[(&str, &str)] = &[
        ("frame_system", "BaseCallFilter"),
        ("pallet_msa", "MaxPublicKeysPerMsa MaxSchemaGrantsPerDelegation MaxProviderNameSize SchemaValidator HandleProvider MortalityWindowSize MaxSignaturesStored ProposalProvider"),
        ("pallet_capacity", "MinimumStakingAmount MinimumTokenBalance TargetValidator MaxUnlockingChunks UnstakingThawPeriod MaxEpochLength EpochNumber CapacityPerToken"),
        ("pallet_schemas", "MinSchemaModelSizeBytes MaxSchemaRegistrations SchemaModelMaxBytesBoundedVecLimit ProposalProvider MaxSchemaSettingsPerSchema"),
        ("pallet_messages", "MsaInfoProvider SchemaGrantValidator SchemaProvider MessagesMaxPayloadSizeBytes"),
        ("pallet_stateful_storage", "MaxItemizedPageSizeBytes MaxPaginatedPageSizeBytes MaxItemizedBlobSizeBytes MaxPaginatedPageId MaxItemizedActionsCount MsaInfoProvider SchemaGrantValidator SchemaProvider MortalityWindowSize"),
        ("pallet_handles", "MsaInfoProvider HandleSuffixMin HandleSuffixMax MortalityWindowSize"),
        ("pallet_time_release", "MinReleaseTransfer MaxReleaseSchedules"),
        ("pallet_transaction_payment", "WeightToFee LengthToFee"),
        ("pallet_frequency_tx_payment", "Capacity CapacityCalls OnChargeCapacityTransaction BatchProvider MaximumCapacityBatchLength"),
        ("pallet_passkey", "PasskeyCallFilter"),
    ];
    let t = extract(&src, &["frequency-testnet", "std"], &["BaseCallFilter", "CapacityEligibleCalls", "CapacityBatchProvider", "CouncilProposalProvider", "PasskeyCallFilter", "ProxyType", "SignedExtra"], cfgs, true);
    let m = extract(&src, &["frequency", "std"], &["BaseCallFilter"], &[("frame_system", "BaseCallFilter")], true);
    std::fs::write(format!("{out}/testnet.rs"), t.to_string()).unwrap(); std::fs::write(format!("{out}/mainnet.rs"), m.to_string()).unwrap();
}
