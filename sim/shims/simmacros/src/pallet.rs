use proc_macro2::TokenStream as TS;
use quote::{format_ident, quote, ToTokens};
use syn::{parse_quote, visit_mut::VisitMut, Attribute, FnArg, GenericArgument, Ident, Item, ItemMod, ItemType, Pat, PathArguments, Type};

fn is_pallet(a: &Attribute) -> bool { a.path().segments.first().map(|s| s.ident == "pallet" && a.path().segments.len() > 1).unwrap_or(false) }
fn pallet_attr(attrs: &[Attribute], name: &str) -> bool { attrs.iter().any(|a| is_pallet(a) && a.path().segments[1].ident == name) }
fn get_attr<'a>(attrs: &'a [Attribute], name: &str) -> Option<&'a Attribute> { attrs.iter().find(|a| is_pallet(a) && a.path().segments[1].ident == name) }
struct Strip;
impl VisitMut for Strip {
    fn visit_field_mut(&mut self, i: &mut syn::Field) { i.attrs.retain(|x| !is_pallet(x)); syn::visit_mut::visit_field_mut(self, i) }
}
fn item_attrs(i: &Item) -> Vec<Attribute> {
    match i { Item::Struct(x) => x.attrs.clone(), Item::Enum(x) => x.attrs.clone(), Item::Impl(x) => x.attrs.clone(), Item::Trait(x) => x.attrs.clone(), Item::Type(x) => x.attrs.clone(), Item::Fn(x) => x.attrs.clone(), _ => vec![] }
}
/// (last path segment ident, generic args)
fn storage_parts(ty: &mut Type) -> Option<(Ident, &mut syn::punctuated::Punctuated<GenericArgument, syn::Token![,]>)> {
    if let Type::Path(p) = ty { let seg = p.path.segments.last_mut()?; let id = seg.ident.clone(); if let PathArguments::AngleBracketed(a) = &mut seg.arguments { return Some((id, &mut a.args)) } }
    None
}
const ARGS: &[(&str, &[&str])] = &[
    ("StorageValue", &["Value", "QueryKind", "OnEmpty"]),
    ("StorageMap", &["Hasher", "Key", "Value", "QueryKind", "OnEmpty", "MaxValues"]),
    ("CountedStorageMap", &["Hasher", "Key", "Value", "QueryKind", "OnEmpty", "MaxValues"]),
    ("StorageDoubleMap", &["Hasher1", "Key1", "Hasher2", "Key2", "Value", "QueryKind", "OnEmpty", "MaxValues"]),
    ("StorageNMap", &["Key", "Value", "QueryKind", "OnEmpty", "MaxValues"]),
];
fn expand_storage(t: &mut ItemType) -> TS {
    let name = t.ident.clone();
    t.vis = parse_quote!(pub); // harnesses set up and read storage directly
    let getter = get_attr(&t.attrs, "getter").map(|a| { let ts = a.meta.require_list().unwrap().tokens.clone(); let mut it = ts.into_iter().filter_map(|x| if let proc_macro2::TokenTree::Ident(i) = x { Some(i) } else { None }); let _fn = it.next(); it.next().unwrap() });
    let prefix = format_ident!("_GeneratedPrefixForStorage{}", name);
    let generics = t.generics.clone();
    let has_t = generics.type_params().next().is_some();
    let (kind, args) = storage_parts(&mut t.ty).expect("storage type");
    // named generic arguments (Value = ..., Key = ...) -> positional
    if args.iter().any(|a| matches!(a, GenericArgument::AssocType(_))) {
        let order = ARGS.iter().find(|(k, _)| kind == k).expect("storage kind").1;
        let named: Vec<(String, Type)> = args.iter().filter_map(|a| if let GenericArgument::AssocType(x) = a { Some((x.ident.to_string(), x.ty.clone())) } else { None }).collect();
        let mut out = vec![];
        for o in order { match named.iter().find(|(n, _)| n == o) { Some((_, ty)) => out.push(ty.clone()), None => break } }
        args.clear();
        args.push(GenericArgument::Type(parse_quote!(_)));
        for ty in out { args.push(GenericArgument::Type(ty)) }
    }
    let pty: Type = if has_t { parse_quote!(#prefix<T>) } else { parse_quote!(#prefix) };
    if let Some(f) = args.first_mut() { *f = GenericArgument::Type(pty); }
    let sname = name.to_string();
    let (decl, ig) = if has_t { (quote!(#[doc(hidden)] pub struct #prefix<T>(::core::marker::PhantomData<(T,)>);), quote!(impl<T> ::frame_support::traits::StorageInstance for #prefix<T>)) } else { (quote!(#[doc(hidden)] pub struct #prefix;), quote!(impl ::frame_support::traits::StorageInstance for #prefix)) };
    let mut out = quote!(
        #decl
        #ig {
            const STORAGE_PREFIX: &'static str = #sname;
            fn pallet_prefix() -> &'static str { "Pallet" }
            fn sim_slot() -> *mut *mut () { static mut SLOT: *mut () = ::core::ptr::null_mut(); unsafe { ::core::ptr::addr_of_mut!(SLOT) } }
        }
    );
    if let Some(g) = getter {
        let gt = if has_t { quote!(#name<T>) } else { quote!(#name) };
        let body = match kind.to_string().as_str() {
            "StorageValue" => quote!(pub fn #g() -> <#gt as ::frame_support::storage::SimValue>::Query { <#gt>::get() }),
            "StorageMap" | "CountedStorageMap" => quote!(pub fn #g<KArg>(k: KArg) -> <#gt as ::frame_support::storage::SimMap>::Query where <#gt as ::frame_support::storage::SimMap>::Key: ::parity_scale_codec::SimFrom<KArg> { <#gt>::get(k) }),
            "StorageDoubleMap" => quote!(pub fn #g<KArg1, KArg2>(k1: KArg1, k2: KArg2) -> <#gt as ::frame_support::storage::SimDoubleMap>::Query where <#gt as ::frame_support::storage::SimDoubleMap>::Key1: ::parity_scale_codec::SimFrom<KArg1>, <#gt as ::frame_support::storage::SimDoubleMap>::Key2: ::parity_scale_codec::SimFrom<KArg2> { <#gt>::get(k1, k2) }),
            _ => quote!(pub fn #g<KArg>(k: KArg) -> <#gt as ::frame_support::storage::SimNMap>::Query where <#gt as ::frame_support::storage::SimNMap>::Key: ::frame_support::storage::SimKey<KArg> { <#gt>::get(k) }),
        };
        out.extend(quote!(impl<T: Config> Pallet<T> { #[doc(hidden)] #body }));
    }
    out
}
pub fn storage_alias(mut t: ItemType) -> TS {
    // first argument is the pallet (or prefix) type; replace with a fresh prefix
    if let Some((_, args)) = storage_parts(&mut t.ty) { if let Some(f) = args.first_mut() { *f = GenericArgument::Type(parse_quote!(_)); } }
    t.vis = parse_quote!(pub); // so that harnesses can set up what an older version stored
    let gen = expand_storage(&mut t);
    quote!(#gen #t)
}
pub fn expand(mut m: ItemMod) -> TS {
    let (_, items) = m.content.as_mut().expect("inline pallet module");
    let mut extra = TS::new();
    let mut storage_version: TS = quote!(::frame_support::traits::StorageVersion::new(0));
    let mut has_call = false;
    for it in items.iter_mut() {
        let attrs = item_attrs(it);
        if pallet_attr(&attrs, "pallet") {
            if let Some(a) = get_attr(&attrs, "storage_version") { storage_version = a.meta.require_list().unwrap().tokens.clone(); }
            if let Item::Struct(s) = it {
                s.fields = syn::Fields::Unnamed(parse_quote!((::core::marker::PhantomData<T>)));
                let vis = s.vis.clone();
                s.attrs.retain(|a| !a.path().is_ident("derive"));
                let _ = vis;
                extra.extend(quote!(
                    impl<T> ::core::clone::Clone for Pallet<T> { fn clone(&self) -> Self { Pallet(::core::marker::PhantomData) } }
                    impl<T> ::core::cmp::PartialEq for Pallet<T> { fn eq(&self, _: &Self) -> bool { true } }
                    impl<T> ::core::cmp::Eq for Pallet<T> {}
                    impl<T> ::core::fmt::Debug for Pallet<T> { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str("Pallet") } }
                ));
            }
        } else if pallet_attr(&attrs, "storage") {
            if let Item::Type(t) = it { extra.extend(expand_storage(t)); }
        } else if pallet_attr(&attrs, "error") {
            if let Item::Enum(e) = it {
                let vs: Vec<Ident> = e.variants.iter().map(|v| v.ident.clone()).collect();
                let pats: Vec<TS> = e.variants.iter().map(|v| { let id = &v.ident; match &v.fields { syn::Fields::Unit => quote!(Error::#id), syn::Fields::Unnamed(_) => quote!(Error::#id(..)), syn::Fields::Named(_) => quote!(Error::#id { .. }) } }).collect();
                let ix: Vec<u8> = (0..vs.len() as u8).collect();
                let names: Vec<String> = vs.iter().map(|v| v.to_string()).collect();
                e.variants.push(parse_quote!(#[doc(hidden)] __Ignore(::core::marker::PhantomData<(T,)>, ::frame_support::Never)));
                extra.extend(quote!(
                    impl<T> Error<T> {
                        #[doc(hidden)] pub fn sim_index(&self) -> u8 { match self { #(#pats => #ix,)* Error::__Ignore(..) => unreachable!() } }
                        #[doc(hidden)] pub fn as_str(&self) -> &'static str { match self { #(#pats => #names,)* Error::__Ignore(..) => unreachable!() } }
                    }
                    impl<T> From<Error<T>> for ::frame_support::sp_runtime::DispatchError {
                        fn from(e: Error<T>) -> Self { ::frame_support::sp_runtime::DispatchError::Module(::frame_support::sp_runtime::ModuleError { index: ::frame_support::sim_module_index(env!("CARGO_PKG_NAME")), error: [e.sim_index(), 0, 0, 0], message: None }) }
                    }
                    impl<T> From<Error<T>> for &'static str { fn from(e: Error<T>) -> &'static str { e.as_str() } }
                    impl<T> ::core::fmt::Debug for Error<T> { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str(self.as_str()) } }
                ));
                if !e.attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().contains("PartialEq")) {
                    extra.extend(quote!(impl<T> ::core::cmp::PartialEq for Error<T> { fn eq(&self, o: &Self) -> bool { self.sim_index() == o.sim_index() } }));
                }
            }
        } else if pallet_attr(&attrs, "event") {
            if let Item::Enum(e) = it {
                let gen = get_attr(&attrs, "generate_deposit").map(|a| a.meta.require_list().unwrap().tokens.clone());
                let has_t = e.generics.type_params().next().is_some();
                if has_t { e.variants.push(parse_quote!(#[doc(hidden)] #[codec(skip)] __Ignore(::core::marker::PhantomData<(T,)>, ::frame_support::Never))); }
                e.attrs.push(parse_quote!(#[derive(::frame_support::CloneNoBound, ::frame_support::PartialEqNoBound, ::frame_support::EqNoBound, ::frame_support::RuntimeDebugNoBound, ::frame_support::__private::Encode, ::frame_support::__private::Decode, ::frame_support::__private::TypeInfo)]));
                if let Some(g) = gen {
                    let ev = if has_t { quote!(Event<T>) } else { quote!(Event) };
                    extra.extend(quote!(impl<T: Config> Pallet<T> { #g (event: #ev) {
                        let event = <<T as Config>::RuntimeEvent as From<#ev>>::from(event);
                        let event = <<T as Config>::RuntimeEvent as Into<<T as ::frame_system::Config>::RuntimeEvent>>::into(event);
                        ::frame_system::Pallet::<T>::deposit_event(event)
                    } }));
                }
            }
        } else if pallet_attr(&attrs, "composite_enum") {
            if let Item::Enum(e) = it { e.attrs.push(parse_quote!(#[derive(Copy, Clone, Eq, PartialEq, Debug, ::frame_support::__private::Encode, ::frame_support::__private::Decode, ::frame_support::__private::MaxEncodedLen, ::frame_support::__private::TypeInfo)])); }
        } else if pallet_attr(&attrs, "type_value") {
            if let Item::Fn(f) = it {
                let name = f.sig.ident.clone(); let vis = f.vis.clone(); let ret = match &f.sig.output { syn::ReturnType::Type(_, t) => (**t).clone(), _ => parse_quote!(()) }; let body = f.block.clone();
                let gens = f.sig.generics.clone();
                let has_t = gens.type_params().next().is_some();
                let wc = gens.where_clause.clone();
                *it = if has_t { Item::Verbatim(quote!(#vis struct #name<T>(::core::marker::PhantomData<(T,)>); impl<T: Config> ::frame_support::traits::Get<#ret> for #name<T> #wc { fn get() -> #ret #body })) }
                      else { Item::Verbatim(quote!(#vis struct #name; impl ::frame_support::traits::Get<#ret> for #name { fn get() -> #ret #body })) };
                continue;
            }
        } else if pallet_attr(&attrs, "call") {
            has_call = true;
            if let Item::Impl(im) = it {
                let mut variants = vec![]; let mut disp = vec![]; let mut info = vec![]; let mut enc = vec![]; let mut dec = vec![]; let mut names_all = vec![]; let mut clone = vec![]; let mut eqs = vec![];
                let where_clause = im.generics.where_clause.clone();
                for (fi, f) in im.items.iter_mut().enumerate() { if let syn::ImplItem::Fn(f) = f {
                    let name = f.sig.ident.clone();
                    let weight = get_attr(&f.attrs, "weight").map(|a| a.meta.require_list().unwrap().tokens.clone()).unwrap_or(quote!(::frame_support::weights::Weight::zero()));
                    let index: u8 = get_attr(&f.attrs, "call_index").and_then(|a| a.meta.require_list().unwrap().tokens.to_string().parse().ok()).unwrap_or(fi as u8);
                    let mut an = vec![]; let mut at = vec![];
                    for a in f.sig.inputs.iter().skip(1) { if let FnArg::Typed(p) = a { if let Pat::Ident(i) = &*p.pat {
                        let s = i.ident.to_string(); let s = s.trim_start_matches('_').to_string(); let _ = s;
                        an.push(i.ident.clone()); at.push((*p.ty).clone()); } } }
                    variants.push(quote!(#name { #(#an: #at),* }));
                    disp.push(quote!(Call::#name { #(#an),* } => Pallet::<T>::#name(origin, #(#an),*).map(Into::into).map_err(Into::into)));
                    info.push(quote!(Call::#name { #(#an),* } => { #( let _ = &#an; )* ::frame_support::dispatch::sim_dispatch_info({ #weight }) }));
                    enc.push(quote!(Call::#name { #(#an),* } => { __d.push_byte(#index); #(::parity_scale_codec::Encode::encode_to(#an, __d);)* }));
                    dec.push(quote!(if __ix == #index { return Ok(Call::#name { #(#an: <#at as ::parity_scale_codec::Decode>::decode(__i)?),* }) }));
                    clone.push(quote!(Call::#name { #(#an),* } => Call::#name { #(#an: ::core::clone::Clone::clone(#an)),* }));
                    let bn: Vec<Ident> = an.iter().map(|a| format_ident!("__b_{}", a)).collect();
                    eqs.push(quote!((Call::#name { #(#an),* }, Call::#name { #(#an: #bn),* }) => { true #(&& #an == #bn)* }));
                    names_all.push(name);
                } }
                extra.extend(quote!(
                    #[allow(non_camel_case_types, missing_docs)]
                    pub enum Call<T: Config> { #[doc(hidden)] __Ignore(::core::marker::PhantomData<(T,)>, ::frame_support::Never), #(#variants),* }
                    impl<T: Config> ::core::clone::Clone for Call<T> { fn clone(&self) -> Self { match self { Call::__Ignore(_, _) => unreachable!(), #(#clone),* } } }
                    impl<T: Config> ::core::cmp::PartialEq for Call<T> { fn eq(&self, o: &Self) -> bool { match (self, o) { #(#eqs,)* _ => false } } }
                    impl<T: Config> ::core::cmp::Eq for Call<T> {}
                    impl<T: Config> ::core::fmt::Debug for Call<T> { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str("Call") } }
                    impl<T: Config> ::scale_info::TypeInfo for Call<T> { type Identity = Self; }
                    #[allow(unused)]
                    impl<T: Config> ::parity_scale_codec::Encode for Call<T> { fn encode_to<__O: ::parity_scale_codec::Output + ?Sized>(&self, __d: &mut __O) { match self { Call::__Ignore(_, _) => unreachable!(), #(#enc),* } } }
                    impl<T: Config> ::parity_scale_codec::EncodeLike for Call<T> {}
                    #[allow(unused)]
                    impl<T: Config> ::parity_scale_codec::Decode for Call<T> { fn decode<__I: ::parity_scale_codec::Input>(__i: &mut __I) -> ::core::result::Result<Self, ::parity_scale_codec::Error> { let __ix = __i.read_byte()?; #(#dec)* Err(::parity_scale_codec::Error("call")) } }
                    #[allow(unused)]
                    impl<T: Config> ::frame_support::dispatch::GetDispatchInfo for Call<T> #where_clause { fn get_dispatch_info(&self) -> ::frame_support::dispatch::DispatchInfo { match self { Call::__Ignore(_, _) => unreachable!(), #(#info),* } } }
                    impl<T: Config> ::frame_support::traits::UnfilteredDispatchable for Call<T> #where_clause {
                        type RuntimeOrigin = <T as ::frame_system::Config>::RuntimeOrigin;
                        fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo { match self { Call::__Ignore(_, _) => unreachable!(), #(#disp),* } }
                    }
                    impl<T: Config> ::frame_support::traits::IsSubType<Call<T>> for Call<T> { fn is_sub_type(&self) -> Option<&Call<T>> { Some(self) } }
                ));
            }
        }
        if pallet_attr(&attrs, "genesis_config") { if let Item::Struct(g) = it { for f in g.fields.iter_mut() { f.attrs.retain(|a| !a.path().is_ident("serde")) } } }
        let mut strip = Strip;
        match it {
            Item::Impl(im) => { im.attrs.retain(|a| !is_pallet(a)); for i in im.items.iter_mut() { if let syn::ImplItem::Fn(f) = i { f.attrs.retain(|a| !is_pallet(a)); for a in f.sig.inputs.iter_mut() { if let FnArg::Typed(p) = a { p.attrs.retain(|a| !is_pallet(a)); } } } } },
            Item::Trait(tr) => { tr.attrs.retain(|a| !is_pallet(a)); for i in tr.items.iter_mut() { match i { syn::TraitItem::Type(t) => t.attrs.retain(|a| !is_pallet(a)), syn::TraitItem::Fn(f) => f.attrs.retain(|a| !is_pallet(a)), syn::TraitItem::Const(c) => c.attrs.retain(|a| !is_pallet(a)), _ => {} } } },
            Item::Struct(s) => { s.attrs.retain(|a| !is_pallet(a)); for f in s.fields.iter_mut() { strip.visit_field_mut(f) } },
            Item::Enum(e) => { e.attrs.retain(|a| !is_pallet(a)); for v in e.variants.iter_mut() { v.attrs.retain(|a| !is_pallet(a)); for f in v.fields.iter_mut() { strip.visit_field_mut(f) } } },
            Item::Type(t) => t.attrs.retain(|a| !is_pallet(a)),
            Item::Fn(f) => f.attrs.retain(|a| !is_pallet(a)),
            _ => {},
        }
    }
    if !has_call {
        extra.extend(quote!(pub struct Call<T>(::core::marker::PhantomData<T>);));
    }
    extra.extend(quote!(
        impl<T: Config> ::frame_support::traits::GetStorageVersion for Pallet<T> {
            type CurrentStorageVersion = ::frame_support::traits::StorageVersion;
            fn current_storage_version() -> ::frame_support::traits::StorageVersion { #storage_version }
            fn on_chain_storage_version() -> ::frame_support::traits::StorageVersion { ::frame_support::traits::StorageVersion::get::<Self>() }
        }
        impl<T: Config> ::frame_support::traits::SimVersionSlot for Pallet<T> { fn slot() -> *mut u16 { static mut V: u16 = 0; unsafe { ::core::ptr::addr_of_mut!(V) } } }
        impl<T: Config> ::frame_support::traits::PalletInfoAccess for Pallet<T> { fn index() -> usize { 0 } fn name() -> &'static str { env!("CARGO_PKG_NAME") } }
    ));
    items.push(Item::Verbatim(extra));
    m.to_token_stream()
}
