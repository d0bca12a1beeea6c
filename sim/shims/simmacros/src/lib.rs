//! Derives and the `#[frame_support::pallet]` attribute of the FRAME stand-in.
extern crate proc_macro;
use proc_macro::TokenStream;
use proc_macro2::TokenStream as TS;
use quote::{format_ident, quote, ToTokens};
use syn::{parse_macro_input, parse_quote, Attribute, Data, DeriveInput, Fields, Generics, Ident, Type};
mod pallet;

fn uses_param(ty: &Type, params: &[Ident]) -> bool {
    let s = ty.to_token_stream();
    fn rec(ts: TS, params: &[Ident]) -> bool {
        ts.into_iter().any(|t| match t {
            proc_macro2::TokenTree::Ident(i) => params.iter().any(|p| *p == i),
            proc_macro2::TokenTree::Group(g) => rec(g.stream(), params),
            _ => false,
        })
    }
    rec(s, params)
}
fn tparams(g: &Generics) -> Vec<Ident> { g.type_params().map(|p| p.ident.clone()).collect() }
fn has_codec(attrs: &[Attribute], what: &str) -> bool {
    attrs.iter().any(|a| a.path().is_ident("codec") && a.meta.to_token_stream().to_string().replace(' ', "").contains(&format!("({})", what)))
}
fn codec_index(attrs: &[Attribute]) -> Option<u8> {
    for a in attrs { if a.path().is_ident("codec") {
        let s = a.meta.to_token_stream().to_string().replace(' ', "");
        if let Some(p) = s.find("index=") { let r: String = s[p + 6..].chars().take_while(|c| c.is_ascii_digit()).collect(); return r.parse().ok() }
    } }
    None
}
fn all_fields(d: &DeriveInput) -> Vec<syn::Field> {
    match &d.data {
        Data::Struct(s) => s.fields.iter().cloned().collect(),
        Data::Enum(e) => e.variants.iter().flat_map(|v| v.fields.iter().cloned()).collect(),
        Data::Union(_) => vec![],
    }
}
fn bounded_generics(d: &DeriveInput, bound: TS) -> Generics {
    let mut g = d.generics.clone();
    let ps = tparams(&g);
    if ps.is_empty() { return g }
    let selfname = vec![d.ident.clone()];
    let fs = all_fields(d);
    let wc = g.make_where_clause();
    for f in fs {
        if has_codec(&f.attrs, "skip") { continue }
        let ty = &f.ty;
        if uses_param(ty, &ps) && !uses_param(ty, &selfname) {
            if has_codec(&f.attrs, "compact") {
                wc.predicates.push(parse_quote!(#ty: ::parity_scale_codec::HasCompact + Copy));
            } else {
                wc.predicates.push(parse_quote!(#ty: #bound));
            }
        }
    }
    g
}
fn variant_indices(e: &syn::DataEnum) -> Vec<TS> {
    e.variants.iter().enumerate().map(|(i, v)| {
        if let Some(x) = codec_index(&v.attrs) { quote!(#x) }
        else if let Some((_, d)) = &v.discriminant { quote!((#d) as u8) }
        else { let i = i as u8; quote!(#i) }
    }).collect()
}

#[proc_macro_derive(Encode, attributes(codec))]
pub fn derive_encode(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let g = bounded_generics(&d, quote!(::parity_scale_codec::Encode));
    let (ig, tg, wc) = g.split_for_impl();
    let name = &d.ident;
    let enc = |f: &syn::Field, acc: TS| -> TS {
        if has_codec(&f.attrs, "skip") { return quote!() }
        let ty = &f.ty;
        if has_codec(&f.attrs, "compact") {
            quote!(::parity_scale_codec::Encode::encode_to(&<<#ty as ::parity_scale_codec::HasCompact>::Type as From<#ty>>::from(*(#acc)), __d);)
        } else { quote!(::parity_scale_codec::Encode::encode_to(#acc, __d);) }
    };
    let body = match &d.data {
        Data::Struct(s) => {
            let parts: Vec<TS> = s.fields.iter().enumerate().map(|(i, f)| match &f.ident {
                Some(id) => enc(f, quote!(&self.#id)),
                None => { let ix = syn::Index::from(i); enc(f, quote!(&self.#ix)) }
            }).collect();
            quote!(#(#parts)*)
        },
        Data::Enum(e) => {
            let idx = variant_indices(e);
            let arms: Vec<TS> = e.variants.iter().zip(idx).map(|(v, ix)| {
                let vn = &v.ident;
                let names: Vec<Ident> = v.fields.iter().enumerate().map(|(i, f)| f.ident.clone().unwrap_or(format_ident!("__f{}", i))).collect();
                let pat = match &v.fields { Fields::Named(_) => quote!({ #(#names),* }), Fields::Unnamed(_) => quote!(( #(#names),* )), Fields::Unit => quote!() };
                let parts: Vec<TS> = v.fields.iter().zip(&names).map(|(f, n)| enc(f, quote!(#n))).collect();
                quote!(#name::#vn #pat => { __d.push_byte(#ix); #(#parts)* })
            }).collect();
            if arms.is_empty() { quote!() } else { quote!(match self { #(#arms),* }) }
        },
        _ => quote!(),
    };
    quote!(
        #[allow(unused, non_shorthand_field_patterns)]
        impl #ig ::parity_scale_codec::Encode for #name #tg #wc {
            fn encode_to<__O: ::parity_scale_codec::Output + ?Sized>(&self, __d: &mut __O) { #body }
        }
        impl #ig ::parity_scale_codec::EncodeLike for #name #tg #wc {}
    ).into()
}
#[proc_macro_derive(Decode, attributes(codec))]
pub fn derive_decode(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let g = bounded_generics(&d, quote!(::parity_scale_codec::Decode));
    let (ig, tg, wc) = g.split_for_impl();
    let name = &d.ident;
    let dec = |f: &syn::Field| -> TS {
        let ty = &f.ty;
        if has_codec(&f.attrs, "skip") { quote!(::core::default::Default::default()) }
        else if has_codec(&f.attrs, "compact") { quote!({ let __c = <<#ty as ::parity_scale_codec::HasCompact>::Type as ::parity_scale_codec::Decode>::decode(__i)?; __c.into() }) }
        else { quote!(<#ty as ::parity_scale_codec::Decode>::decode(__i)?) }
    };
    let build = |fields: &Fields| -> TS {
        let parts: Vec<TS> = fields.iter().map(|f| { let x = dec(f); match &f.ident { Some(id) => quote!(#id: #x), None => x } }).collect();
        match fields { Fields::Named(_) => quote!({ #(#parts),* }), Fields::Unnamed(_) => quote!(( #(#parts),* )), Fields::Unit => quote!() }
    };
    let body = match &d.data {
        Data::Struct(s) => { let b = build(&s.fields); quote!(Ok(#name #b)) },
        Data::Enum(e) => {
            let idx = variant_indices(e);
            let arms: Vec<TS> = e.variants.iter().zip(idx).map(|(v, ix)| { let vn = &v.ident; let b = build(&v.fields); quote!(if __ix == (#ix) { return Ok(#name::#vn #b); }) }).collect();
            quote!(let __ix: u8 = __i.read_byte()?; #(#arms)* Err(::parity_scale_codec::Error("unexpected variant")))
        },
        _ => quote!(),
    };
    let dup1 = |f: &syn::Field, x: TS| -> TS { if has_codec(&f.attrs, "skip") { quote!(::core::default::Default::default()) } else if has_codec(&f.attrs, "compact") { quote!(::parity_scale_codec::sim_bits(#x)) } else { quote!(::parity_scale_codec::Decode::sim_dup(#x)) } };
    let dupb = |fields: &Fields, own: bool| -> (TS, TS) { // (pattern, construction)
        let names: Vec<syn::Ident> = fields.iter().enumerate().map(|(i, _)| quote::format_ident!("__f{}", i)).collect();
        let parts: Vec<TS> = fields.iter().zip(&names).enumerate().map(|(i, (f, n))| { let acc = if own { match &f.ident { Some(id) => quote!(&self.#id), None => { let ix = syn::Index::from(i); quote!(&self.#ix) } } } else { quote!(#n) }; let x = dup1(f, acc); match &f.ident { Some(id) => quote!(#id: #x), None => x } }).collect();
        let pats: Vec<TS> = fields.iter().zip(&names).map(|(f, n)| match &f.ident { Some(id) => quote!(#id: #n), None => quote!(#n) }).collect();
        match fields { Fields::Named(_) => (quote!({ #(#pats),* }), quote!({ #(#parts),* })), Fields::Unnamed(_) => (quote!(( #(#pats),* )), quote!(( #(#parts),* ))), Fields::Unit => (quote!(), quote!()) }
    };
    let dup = match &d.data {
        Data::Struct(s) => { let b = dupb(&s.fields, true).1; quote!(#name #b) },
        Data::Enum(e) if e.variants.iter().any(|v| has_codec(&v.attrs, "skip")) || e.variants.is_empty() => quote!(::parity_scale_codec::sim_bits(self)),
        Data::Enum(e) => { let arms: Vec<TS> = e.variants.iter().map(|v| { let vn = &v.ident; let (p, b) = dupb(&v.fields, false); quote!(#name::#vn #p => #name::#vn #b) }).collect(); quote!(match self { #(#arms),* }) },
        _ => quote!(),
    };
    quote!(
        #[allow(unused, unreachable_code)]
        impl #ig ::parity_scale_codec::Decode for #name #tg #wc {
            fn sim_dup(&self) -> Self { #dup }
            fn decode<__I: ::parity_scale_codec::Input>(__i: &mut __I) -> ::core::result::Result<Self, ::parity_scale_codec::Error> { #body }
        }
    ).into()
}
#[proc_macro_derive(MaxEncodedLen, attributes(codec, max_encoded_len_mod))]
pub fn derive_mel(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let g = bounded_generics(&d, quote!(::parity_scale_codec::MaxEncodedLen));
    let (ig, tg, wc) = g.split_for_impl();
    let name = &d.ident;
    let sum = |fields: &Fields| -> TS {
        let parts: Vec<TS> = fields.iter().filter(|f| !has_codec(&f.attrs, "skip")).map(|f| { let ty = &f.ty; if has_codec(&f.attrs, "compact") { quote!(<<#ty as ::parity_scale_codec::HasCompact>::Type as ::parity_scale_codec::MaxEncodedLen>::max_encoded_len()) } else { quote!(<#ty as ::parity_scale_codec::MaxEncodedLen>::max_encoded_len()) } }).collect();
        quote!(0usize #(+ #parts)*)
    };
    let body = match &d.data {
        Data::Struct(s) => sum(&s.fields),
        Data::Enum(e) => { let vs: Vec<TS> = e.variants.iter().map(|v| sum(&v.fields)).collect(); quote!({ let mut m = 0usize; #( { let x = #vs; if x > m { m = x } } )* m + 1 }) },
        _ => quote!(0),
    };
    // compact bounds on generic compact types are not derivable in general: keep it simple
    if all_fields(&d).iter().any(|f| has_codec(&f.attrs, "compact")) && !tparams(&d.generics).is_empty() {
        return quote!(impl #ig ::parity_scale_codec::MaxEncodedLen for #name #tg #wc { fn max_encoded_len() -> usize { 64 } }).into()
    }
    quote!(#[allow(unused_mut)] impl #ig ::parity_scale_codec::MaxEncodedLen for #name #tg #wc { fn max_encoded_len() -> usize { #body } }).into()
}
#[proc_macro_derive(CompactAs, attributes(codec))]
pub fn derive_compact_as(_input: TokenStream) -> TokenStream { TokenStream::new() }
#[proc_macro_derive(TypeInfo, attributes(scale_info, codec))]
pub fn derive_typeinfo(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let (ig, tg, wc) = d.generics.split_for_impl();
    let name = &d.ident;
    quote!(impl #ig ::scale_info::TypeInfo for #name #tg #wc { type Identity = Self; }).into()
}
#[proc_macro_derive(SerdeNoop, attributes(serde))]
pub fn derive_serde_noop(_input: TokenStream) -> TokenStream { TokenStream::new() }

// ---- NoBound derives -------------------------------------------------------------------------
fn pats(name: &Ident, v: Option<&Ident>, fields: &Fields, pre: &str) -> (TS, Vec<Ident>) {
    let names: Vec<Ident> = (0..fields.len()).map(|i| format_ident!("{}{}", pre, i)).collect();
    let path = match v { Some(v) => quote!(#name::#v), None => quote!(#name) };
    let p = match fields {
        Fields::Named(n) => { let ids: Vec<_> = n.named.iter().map(|f| f.ident.clone().unwrap()).collect(); quote!(#path { #(#ids: #names),* }) },
        Fields::Unnamed(_) => quote!(#path ( #(#names),* )),
        Fields::Unit => quote!(#path),
    };
    (p, names)
}
fn variants(d: &DeriveInput) -> Vec<(Option<Ident>, Fields, Vec<Attribute>)> {
    match &d.data {
        Data::Struct(s) => vec![(None, s.fields.clone(), vec![])],
        Data::Enum(e) => e.variants.iter().map(|v| (Some(v.ident.clone()), v.fields.clone(), v.attrs.clone())).collect(),
        _ => vec![],
    }
}
#[proc_macro_derive(CloneNoBound)]
pub fn clone_nb(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let (ig, tg, wc) = d.generics.split_for_impl();
    let name = &d.ident;
    let arms: Vec<TS> = variants(&d).iter().map(|(v, f, _)| {
        let (p, n) = pats(name, v.as_ref(), f, "a");
        let path = match v { Some(v) => quote!(#name::#v), None => quote!(#name) };
        let b = match f { Fields::Named(nm) => { let ids: Vec<_> = nm.named.iter().map(|f| f.ident.clone().unwrap()).collect(); quote!(#path { #(#ids: ::core::clone::Clone::clone(#n)),* }) }, Fields::Unnamed(_) => quote!(#path(#(::core::clone::Clone::clone(#n)),*)), Fields::Unit => path };
        quote!(#p => #b)
    }).collect();
    quote!(impl #ig ::core::clone::Clone for #name #tg #wc { fn clone(&self) -> Self { match self { #(#arms),* } } }).into()
}
#[proc_macro_derive(PartialEqNoBound)]
pub fn peq_nb(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let (ig, tg, wc) = d.generics.split_for_impl();
    let name = &d.ident;
    let arms: Vec<TS> = variants(&d).iter().map(|(v, f, _)| {
        let (p, n) = pats(name, v.as_ref(), f, "a");
        let (q, m) = pats(name, v.as_ref(), f, "b");
        quote!((#p, #q) => { true #(&& (#n == #m))* })
    }).collect();
    quote!(impl #ig ::core::cmp::PartialEq for #name #tg #wc { #[allow(unreachable_patterns)] fn eq(&self, o: &Self) -> bool { match (self, o) { #(#arms,)* _ => false } } }).into()
}
#[proc_macro_derive(EqNoBound)]
pub fn eq_nb(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let (ig, tg, wc) = d.generics.split_for_impl();
    let name = &d.ident;
    quote!(impl #ig ::core::cmp::Eq for #name #tg #wc {}).into()
}
fn debug_impl(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let (ig, tg, wc) = d.generics.split_for_impl();
    let name = &d.ident;
    let s = name.to_string();
    quote!(impl #ig ::core::fmt::Debug for #name #tg #wc { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str(#s) } }).into()
}
#[proc_macro_derive(DebugNoBound)] pub fn debug_nb(i: TokenStream) -> TokenStream { debug_impl(i) }
#[proc_macro_derive(RuntimeDebugNoBound)] pub fn rdebug_nb(i: TokenStream) -> TokenStream { debug_impl(i) }
#[proc_macro_derive(RuntimeDebug)] pub fn rdebug(i: TokenStream) -> TokenStream { debug_impl(i) }
#[proc_macro_derive(DefaultNoBound, attributes(default))]
pub fn default_nb(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let (ig, tg, wc) = d.generics.split_for_impl();
    let name = &d.ident;
    let vs = variants(&d);
    let pick = vs.iter().find(|(v, _, a)| v.is_none() || a.iter().any(|x| x.path().is_ident("default"))).unwrap_or(&vs[0]);
    let path = match &pick.0 { Some(v) => quote!(#name::#v), None => quote!(#name) };
    let b = match &pick.1 { Fields::Named(nm) => { let ids: Vec<_> = nm.named.iter().map(|f| f.ident.clone().unwrap()).collect(); quote!(#path { #(#ids: ::core::default::Default::default()),* }) }, Fields::Unnamed(u) => { let n = u.unnamed.iter().map(|_| quote!(::core::default::Default::default())); quote!(#path(#(#n),*)) }, Fields::Unit => path };
    quote!(impl #ig ::core::default::Default for #name #tg #wc { fn default() -> Self { #b } }).into()
}

#[proc_macro_attribute]
pub fn pallet(_a: TokenStream, item: TokenStream) -> TokenStream { pallet::expand(parse_macro_input!(item as syn::ItemMod)).into() }
#[proc_macro_attribute]
pub fn noop_attr(_a: TokenStream, item: TokenStream) -> TokenStream { item }
/// `#[storage_alias]`: a storage item declared outside the pallet module.
#[proc_macro_attribute]
pub fn storage_alias(_a: TokenStream, item: TokenStream) -> TokenStream { pallet::storage_alias(parse_macro_input!(item as syn::ItemType)).into() }
/// enumflags2's #[bitflags]: assigns one bit per variant.
#[proc_macro_attribute]
pub fn bitflags(_a: TokenStream, item: TokenStream) -> TokenStream {
    let mut e = parse_macro_input!(item as syn::ItemEnum);
    let name = e.ident.clone();
    let repr: Type = e.attrs.iter().find(|a| a.path().is_ident("repr")).map(|a| a.parse_args::<Type>().unwrap()).unwrap_or(parse_quote!(u32));
    for (i, v) in e.variants.iter_mut().enumerate() {
        if v.discriminant.is_none() { let lit = syn::LitInt::new(&format!("{}", 1u64 << i), proc_macro2::Span::call_site()); v.discriminant = Some((Default::default(), parse_quote!(#lit))); }
    }
    let vs: Vec<Ident> = e.variants.iter().map(|v| v.ident.clone()).collect();
    quote!(#e
        impl ::enumflags2::BitFlag for #name { const ALL: &'static [Self] = &[#(Self::#vs),*]; }
        impl ::enumflags2::RawBitFlags for #name { type Numeric = #repr; const EMPTY: #repr = 0; const ALL_BITS: #repr = 0 #(| (#name::#vs as #repr))*; fn bits(self) -> #repr { self as #repr } }
    ).into()
}
#[proc_macro_attribute]
pub fn async_trait(_a: TokenStream, item: TokenStream) -> TokenStream { item }
/// jsonrpsee's `#[rpc(server)]`: the trait a server implements.
#[proc_macro_attribute]
pub fn rpc(_a: TokenStream, item: TokenStream) -> TokenStream {
    let mut t = parse_macro_input!(item as syn::ItemTrait);
    t.ident = Ident::new(&format!("{}Server", t.ident), t.ident.span());
    for i in t.items.iter_mut() { if let syn::TraitItem::Fn(f) = i { f.attrs.retain(|a| !a.path().is_ident("method") && !a.path().is_ident("subscription")); } }
    quote!(#t).into()
}
/// The client side of a runtime API: each method is asked at a block and can fail.
#[proc_macro]
pub fn decl_runtime_apis(item: TokenStream) -> TokenStream {
    let f = parse_macro_input!(item as syn::File); let mut out = proc_macro2::TokenStream::new();
    for i in f.items {
        let syn::Item::Trait(mut t) = i else { out.extend(quote!(#i)); continue };
        t.attrs.retain(|a| a.path().is_ident("doc"));
        t.generics.params.insert(0, parse_quote!(Block: ::sp_api::BlockT));
        for m in t.items.iter_mut() { if let syn::TraitItem::Fn(f) = m {
            f.attrs.retain(|a| a.path().is_ident("doc"));
            let r: Type = match &f.sig.output { syn::ReturnType::Default => parse_quote!(()), syn::ReturnType::Type(_, t) => (**t).clone() };
            f.sig.output = parse_quote!(-> ::core::result::Result<#r, ::sp_api::ApiError>);
            f.sig.inputs.insert(0, parse_quote!(__at: <Block as ::sp_api::BlockT>::Hash)); f.sig.inputs.insert(0, parse_quote!(&self));
        } }
        out.extend(quote!(#t));
    }
    out.into()
}
