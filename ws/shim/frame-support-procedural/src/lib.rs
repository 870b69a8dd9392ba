//! Attribute and derive macros of the FRAME stand-in.
//!
//! `#[pallet]` expands the unmodified pallet modules of the repository onto the
//! in-memory state of the `frame-support` stand-in: storage items, getters,
//! events, errors, calls (with a transactional layer around each dispatch),
//! hooks and genesis.

use proc_macro::TokenStream;
use proc_macro2::{Span, TokenStream as Ts};
use quote::{format_ident, quote, ToTokens};
use syn::visit_mut::VisitMut;
use syn::*;

// ---------------------------------------------------------------- no-bound derives

fn no_bound(item: &DeriveInput, tr: Ts, body: Ts) -> Ts {
    let name = &item.ident;
    let (ig, tg, wc) = item.generics.split_for_impl();
    quote! { const _: () = { impl #ig #tr for #name #tg #wc { #body } }; }
}

fn fields_pat(f: &Fields, prefix: &str) -> (Ts, Vec<Ident>, Vec<Option<Ident>>) {
    let mut ids = vec![];
    let mut names = vec![];
    match f {
        Fields::Named(n) => {
            let mut pats = vec![];
            for x in &n.named {
                let id = x.ident.clone().unwrap();
                let b = format_ident!("{}{}", prefix, id);
                pats.push(quote!(#id: #b));
                ids.push(b);
                names.push(Some(id));
            }
            (quote!({ #(#pats),* }), ids, names)
        }
        Fields::Unnamed(u) => {
            for (i, _) in u.unnamed.iter().enumerate() {
                ids.push(format_ident!("{}{}", prefix, i));
                names.push(None);
            }
            (quote!((#(#ids),*)), ids, names)
        }
        Fields::Unit => (quote!(), ids, names),
    }
}

fn variants(item: &DeriveInput) -> Vec<(Ts, Ident, Fields)> {
    let name = &item.ident;
    match &item.data {
        Data::Struct(s) => vec![(quote!(#name), name.clone(), s.fields.clone())],
        Data::Enum(e) => e
            .variants
            .iter()
            .map(|v| {
                let vi = &v.ident;
                (quote!(#name::#vi), vi.clone(), v.fields.clone())
            })
            .collect(),
        Data::Union(_) => panic!("unions not supported"),
    }
}

fn clone_impl(item: &DeriveInput) -> Ts {
    let arms: Vec<Ts> = variants(item)
        .into_iter()
        .map(|(path, _, f)| {
            let (pat, ids, names) = fields_pat(&f, "__f_");
            let cons = match &f {
                Fields::Named(_) => {
                    let n = names.iter().map(|x| x.clone().unwrap());
                    quote!({ #(#n: ::core::clone::Clone::clone(#ids)),* })
                }
                Fields::Unnamed(_) => quote!((#(::core::clone::Clone::clone(#ids)),*)),
                Fields::Unit => quote!(),
            };
            quote!(#path #pat => #path #cons,)
        })
        .collect();
    let body = if arms.is_empty() {
        quote!(fn clone(&self) -> Self { unreachable!() })
    } else {
        quote!(fn clone(&self) -> Self { match self { #(#arms)* } })
    };
    no_bound(item, quote!(::core::clone::Clone), body)
}

fn eq_impl(item: &DeriveInput) -> Ts {
    let a = no_bound(item, quote!(::core::cmp::Eq), quote!());
    a
}

fn partial_eq_impl(item: &DeriveInput) -> Ts {
    let arms: Vec<Ts> = variants(item)
        .into_iter()
        .map(|(path, _, f)| {
            let (p1, i1, _) = fields_pat(&f, "__a_");
            let (p2, i2, _) = fields_pat(&f, "__b_");
            quote!((#path #p1, #path #p2) => true #(&& #i1 == #i2)*,)
        })
        .collect();
    no_bound(
        item,
        quote!(::core::cmp::PartialEq),
        quote!(#[allow(unreachable_patterns)] fn eq(&self, other: &Self) -> bool { match (self, other) { #(#arms)* _ => false } }),
    )
}

fn debug_impl(item: &DeriveInput) -> Ts {
    let arms: Vec<Ts> = variants(item)
        .into_iter()
        .map(|(path, id, f)| {
            let (pat, ids, names) = fields_pat(&f, "__f_");
            let s = id.to_string();
            match &f {
                Fields::Named(_) => {
                    let n = names.iter().map(|x| x.clone().unwrap().to_string());
                    quote!(#path #pat => fmt.debug_struct(#s) #(.field(#n, #ids))* .finish(),)
                }
                Fields::Unnamed(_) => quote!(#path #pat => fmt.debug_tuple(#s) #(.field(#ids))* .finish(),),
                Fields::Unit => quote!(#path => fmt.write_str(#s),),
            }
        })
        .collect();
    let body = if arms.is_empty() {
        quote!(fn fmt(&self, _: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { Ok(()) })
    } else {
        quote!(fn fmt(&self, fmt: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { match self { #(#arms)* } })
    };
    no_bound(item, quote!(::core::fmt::Debug), body)
}

fn default_impl(item: &DeriveInput) -> Ts {
    let (path, f) = match &item.data {
        Data::Struct(s) => {
            let n = &item.ident;
            (quote!(#n), s.fields.clone())
        }
        Data::Enum(e) => {
            let n = &item.ident;
            let v = e
                .variants
                .iter()
                .find(|v| v.attrs.iter().any(|a| a.path().is_ident("default")))
                .expect("no #[default] variant");
            let vi = &v.ident;
            (quote!(#n::#vi), v.fields.clone())
        }
        _ => panic!(),
    };
    let cons = match &f {
        Fields::Named(n) => {
            let ns = n.named.iter().map(|x| x.ident.clone().unwrap());
            quote!({ #(#ns: ::core::default::Default::default()),* })
        }
        Fields::Unnamed(u) => {
            let ds = u.unnamed.iter().map(|_| quote!(::core::default::Default::default()));
            quote!((#(#ds),*))
        }
        Fields::Unit => quote!(),
    };
    no_bound(item, quote!(::core::default::Default), quote!(fn default() -> Self { #path #cons }))
}

#[proc_macro_derive(CloneNoBound)]
pub fn clone_no_bound(i: TokenStream) -> TokenStream {
    clone_impl(&parse_macro_input!(i as DeriveInput)).into()
}
#[proc_macro_derive(EqNoBound)]
pub fn eq_no_bound(i: TokenStream) -> TokenStream {
    eq_impl(&parse_macro_input!(i as DeriveInput)).into()
}
#[proc_macro_derive(PartialEqNoBound)]
pub fn partial_eq_no_bound(i: TokenStream) -> TokenStream {
    partial_eq_impl(&parse_macro_input!(i as DeriveInput)).into()
}
#[proc_macro_derive(DebugNoBound)]
pub fn debug_no_bound(i: TokenStream) -> TokenStream {
    debug_impl(&parse_macro_input!(i as DeriveInput)).into()
}
#[proc_macro_derive(RuntimeDebugNoBound)]
pub fn rdebug_no_bound(i: TokenStream) -> TokenStream {
    debug_impl(&parse_macro_input!(i as DeriveInput)).into()
}
#[proc_macro_derive(DefaultNoBound, attributes(default))]
pub fn default_no_bound(i: TokenStream) -> TokenStream {
    default_impl(&parse_macro_input!(i as DeriveInput)).into()
}
#[proc_macro_derive(PalletError, attributes(codec))]
pub fn pallet_error(_i: TokenStream) -> TokenStream {
    TokenStream::new()
}

// ---------------------------------------------------------------- transactional

#[proc_macro_attribute]
pub fn transactional(_a: TokenStream, item: TokenStream) -> TokenStream {
    let ItemFn { attrs, vis, sig, block } = parse_macro_input!(item as ItemFn);
    quote! {
        #(#attrs)* #vis #sig { ::frame_support::storage::with_storage_layer(|| { #block }) }
    }
    .into()
}

#[proc_macro_attribute]
pub fn require_transactional(_a: TokenStream, item: TokenStream) -> TokenStream {
    let ItemFn { attrs, vis, sig, block } = parse_macro_input!(item as ItemFn);
    quote! {
        #(#attrs)* #vis #sig {
            if !::frame_support::storage::transactional::is_transactional() {
                return Err(::sp_runtime::TransactionalError::NoLayer.into());
            }
            #block
        }
    }
    .into()
}

#[proc_macro_attribute]
pub fn storage_alias(_a: TokenStream, item: TokenStream) -> TokenStream {
    let mut it = parse_macro_input!(item as ItemType);
    let prefix_name = it.ident.to_string();
    let st = format_ident!("_AliasPrefixFor{}", it.ident);
    let params: Vec<Ident> = it.generics.type_params().map(|t| t.ident.clone()).collect();
    let full = it.generics.clone();
    let (ig, _, wc) = full.split_for_impl();
    let mut pallet: Option<Type> = None;
    if let Type::Path(p) = &mut *it.ty {
        if let Some(seg) = p.path.segments.last_mut() {
            if let PathArguments::AngleBracketed(a) = &mut seg.arguments {
                if let Some(GenericArgument::Type(t)) = a.args.first_mut() {
                    pallet = Some(t.clone());
                    *t = parse_quote!(#st<#(#params),*>);
                }
            }
        }
    }
    let _ = pallet;
    for p in it.generics.type_params_mut() {
        p.bounds.clear();
        p.colon_token = None;
    }
    let vis = &it.vis;
    quote! {
        #[allow(dead_code)]
        #vis struct #st<#(#params),*>(::core::marker::PhantomData<(#(#params,)*)>);
        impl #ig ::frame_support::storage::types::StorageInstance for #st<#(#params),*> #wc {
            fn pallet_prefix() -> &'static str { concat!(env!("CARGO_PKG_NAME")) }
            fn instance_prefix() -> &'static str { "" }
            const STORAGE_PREFIX: &'static str = #prefix_name;
        }
        #[allow(dead_code)]
        #it
    }
    .into()
}

// ---------------------------------------------------------------- pallet

struct Strip;
impl Strip {
    fn s(v: &mut Vec<Attribute>) {
        v.retain(|a| !is_pallet_attr(a) && !a.path().is_ident("serde"));
    }
}
impl VisitMut for Strip {
    fn visit_field_mut(&mut self, i: &mut Field) {
        Self::s(&mut i.attrs);
        visit_mut::visit_field_mut(self, i)
    }
    fn visit_variant_mut(&mut self, i: &mut Variant) {
        Self::s(&mut i.attrs);
        visit_mut::visit_variant_mut(self, i)
    }
    fn visit_trait_item_mut(&mut self, i: &mut TraitItem) {
        match i {
            TraitItem::Type(t) => Self::s(&mut t.attrs),
            TraitItem::Fn(t) => Self::s(&mut t.attrs),
            TraitItem::Const(t) => Self::s(&mut t.attrs),
            _ => {}
        }
        visit_mut::visit_trait_item_mut(self, i)
    }
    fn visit_impl_item_fn_mut(&mut self, i: &mut ImplItemFn) {
        Self::s(&mut i.attrs);
        visit_mut::visit_impl_item_fn_mut(self, i)
    }
    fn visit_pat_type_mut(&mut self, i: &mut PatType) {
        Self::s(&mut i.attrs);
        visit_mut::visit_pat_type_mut(self, i)
    }
}

fn is_pallet_attr(a: &Attribute) -> bool {
    a.path().segments.len() >= 2 && a.path().segments[0].ident == "pallet"
}
fn pallet_attr_name(a: &Attribute) -> Option<String> {
    if is_pallet_attr(a) {
        Some(a.path().segments[1].ident.to_string())
    } else {
        None
    }
}
fn take(attrs: &mut Vec<Attribute>) -> Vec<Attribute> {
    let (p, o): (Vec<_>, Vec<_>) = attrs.drain(..).partition(is_pallet_attr);
    *attrs = o;
    p
}
fn has(ps: &[Attribute], n: &str) -> bool {
    ps.iter().any(|a| pallet_attr_name(a).as_deref() == Some(n))
}
fn get<'a>(ps: &'a [Attribute], n: &str) -> Option<&'a Attribute> {
    ps.iter().find(|a| pallet_attr_name(a).as_deref() == Some(n))
}
fn attr_tokens(a: &Attribute) -> Ts {
    match &a.meta {
        Meta::List(l) => l.tokens.clone(),
        Meta::NameValue(n) => n.value.to_token_stream(),
        Meta::Path(_) => Ts::new(),
    }
}

fn mangle_params(g: &Generics) -> (Ts, Ts) {
    // (params without bounds/defaults, args)
    let ids: Vec<Ident> = g.type_params().map(|t| t.ident.clone()).collect();
    (quote!(#(#ids),*), quote!(#(#ids),*))
}

#[proc_macro_attribute]
pub fn pallet(_a: TokenStream, item: TokenStream) -> TokenStream {
    let mut m = parse_macro_input!(item as ItemMod);
    match expand_pallet(&mut m) {
        Ok(t) => t.into(),
        Err(e) => e.to_compile_error().into(),
    }
}

fn expand_pallet(m: &mut ItemMod) -> Result<Ts> {
    let (_, items) = m
        .content
        .take()
        .ok_or_else(|| Error::new(Span::call_site(), "inline pallet module expected"))?;
    let mut out: Vec<Ts> = vec![];
    let mut gen: Vec<Ts> = vec![];
    let mut has_i = false;
    for it in &items {
        if let Item::Trait(t) = it {
            if t.attrs.iter().any(|a| pallet_attr_name(a).as_deref() == Some("config")) {
                has_i = t.generics.type_params().next().is_some();
            }
        }
    }
    let (ig, ta, tcfg, icfg): (Ts, Ts, Ts, Ts) = if has_i {
        (
            quote!(T: Config<I>, I: 'static),
            quote!(T, I),
            quote!(<T as Config<I>>),
            quote!(T: Config<I>, I: 'static),
        )
    } else {
        (quote!(T: Config), quote!(T), quote!(<T as Config>), quote!(T: Config))
    };
    let inst = if has_i {
        quote!(::core::any::type_name::<I>())
    } else {
        quote!("")
    };
    let mut saw_hooks = false;
    let mut saw_call = false;
    for mut it in items {
        match &mut it {
            Item::Trait(t) => {
                take(&mut t.attrs);
                Strip.visit_item_trait_mut(t);
                out.push(it.to_token_stream());
            }
            Item::Type(t) => {
                let ps = take(&mut t.attrs);
                if has(&ps, "storage") {
                    let (a, b) = storage(t, &ps, &ig, &ta, &inst)?;
                    out.push(a);
                    gen.push(b);
                } else {
                    out.push(it.to_token_stream());
                }
            }
            Item::Fn(f) => {
                let ps = take(&mut f.attrs);
                if has(&ps, "type_value") {
                    let name = &f.sig.ident;
                    let g = &f.sig.generics;
                    let (gi, gt, wc) = g.split_for_impl();
                    let ids: Vec<Ident> = g.type_params().map(|t| t.ident.clone()).collect();
                    let ret = match &f.sig.output {
                        ReturnType::Type(_, t) => t.to_token_stream(),
                        _ => quote!(()),
                    };
                    let block = &f.block;
                    let decl = if ids.is_empty() {
                        quote!(#[allow(dead_code)] pub struct #name;)
                    } else {
                        quote!(#[allow(dead_code)] pub struct #name<#(#ids),*>(::core::marker::PhantomData<(#(#ids,)*)>);)
                    };
                    out.push(quote! {
                        #decl
                        impl #gi ::frame_support::traits::Get<#ret> for #name #gt #wc { fn get() -> #ret #block }
                    });
                } else {
                    out.push(it.to_token_stream());
                }
            }
            Item::Enum(e) => {
                let ps = take(&mut e.attrs);
                Strip.visit_item_enum_mut(e);
                if has(&ps, "event") {
                    let (a, b) = event(e, &ps, &ig, &ta, &tcfg)?;
                    out.push(a);
                    gen.push(b);
                } else if has(&ps, "error") {
                    out.push(error(e, has_i)?);
                } else {
                    out.push(it.to_token_stream());
                }
            }
            Item::Struct(s) => {
                let ps = take(&mut s.attrs);
                Strip.visit_item_struct_mut(s);
                s.attrs.retain(|a| !a.path().is_ident("serde"));
                if has(&ps, "pallet") {
                    if let Fields::Unnamed(u) = &mut s.fields {
                        let f = u.unnamed.first_mut().unwrap();
                        f.ty = parse_quote!(::core::marker::PhantomData<(#ta)>);
                    }
                    let st = s.to_token_stream();
                    out.push(quote! {
                        #st
                        impl<#ta> ::core::clone::Clone for Pallet<#ta> { fn clone(&self) -> Self { Self(Default::default()) } }
                        impl<#ta> ::core::cmp::PartialEq for Pallet<#ta> { fn eq(&self, _: &Self) -> bool { true } }
                        impl<#ta> ::core::cmp::Eq for Pallet<#ta> { }
                        impl<#ta> ::core::fmt::Debug for Pallet<#ta> { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str("Pallet") } }
                    });
                    let sv: Ts = get(&ps, "storage_version").map(attr_tokens).unwrap_or(quote!(::frame_support::traits::StorageVersion::new(0)));
                    gen.push(quote! {
                        impl<#ig> ::frame_support::traits::GetStorageVersion for Pallet<#ta> {
                            fn current_storage_version() -> ::frame_support::traits::StorageVersion { #sv }
                            fn on_chain_storage_version() -> ::frame_support::traits::StorageVersion { #sv }
                        }
                        impl<#ig> ::frame_support::traits::PalletInfoAccess for Pallet<#ta> {
                            fn index() -> usize { ::frame_support::pkg_index(env!("CARGO_PKG_NAME")) as usize }
                            fn name() -> &'static str { env!("CARGO_PKG_NAME") }
                            fn module_name() -> &'static str { env!("CARGO_PKG_NAME") }
                        }
                    });
                } else {
                    out.push(it.to_token_stream());
                }
            }
            Item::Impl(i) => {
                let ps = take(&mut i.attrs);
                if has(&ps, "hooks") {
                    saw_hooks = true;
                    Strip.visit_item_impl_mut(i);
                    out.push(it.to_token_stream());
                } else if has(&ps, "call") {
                    saw_call = true;
                    let g = call(i, &ig, &ta, &icfg, has_i)?;
                    Strip.visit_item_impl_mut(i);
                    out.push(it.to_token_stream());
                    gen.push(g);
                } else {
                    Strip.visit_item_impl_mut(i);
                    out.push(it.to_token_stream());
                }
            }
            _ => out.push(it.to_token_stream()),
        }
    }
    if !saw_hooks {
        gen.push(quote!(impl<#ig> ::frame_support::traits::Hooks<::frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet<#ta> {}));
    }
    let _ = saw_call;
    let vis = &m.vis;
    let ident = &m.ident;
    let attrs: Vec<&Attribute> = m.attrs.iter().filter(|a| !a.path().is_ident("cfg_attr")).collect();
    Ok(quote! {
        #(#attrs)*
        #[allow(unused_imports, dead_code, deprecated, type_alias_bounds, unused_variables, non_camel_case_types, clippy::all)]
        #vis mod #ident {
            #(#out)*
            #(#gen)*
        }
    })
}

fn storage(t: &mut ItemType, ps: &[Attribute], ig: &Ts, ta: &Ts, inst: &Ts) -> Result<(Ts, Ts)> {
    let name = t.ident.clone();
    let st = format_ident!("_GeneratedPrefixForStorage{}", name);
    let mut prefix = name.to_string();
    if let Some(a) = get(ps, "storage_prefix") {
        if let Ok(l) = syn::parse2::<LitStr>(attr_tokens(a)) {
            prefix = l.value();
        }
    }
    let mut kind = String::new();
    let mut nkeys = 0;
    let alias_args = mangle_params(&t.generics).1;
    let st_args = ta.clone();
    if let Type::Path(p) = &mut *t.ty {
        let seg = p.path.segments.last_mut().unwrap();
        kind = seg.ident.to_string();
        nkeys = match kind.as_str() {
            "StorageValue" => 0,
            "StorageMap" | "CountedStorageMap" => 1,
            "StorageDoubleMap" => 2,
            _ => return Err(Error::new_spanned(&*t, "unsupported storage kind")),
        };
        if let PathArguments::AngleBracketed(a) = &mut seg.arguments {
            let named = a.args.iter().any(|x| matches!(x, GenericArgument::AssocType(_)));
            if named {
                let order: &[&str] = match nkeys {
                    0 => &["Value", "QueryKind", "OnEmpty"],
                    1 => &["Hasher", "Key", "Value", "QueryKind", "OnEmpty"],
                    _ => &["Hasher1", "Key1", "Hasher2", "Key2", "Value", "QueryKind", "OnEmpty"],
                };
                let mut args: Vec<GenericArgument> = vec![parse_quote!(#st<#st_args>)];
                for o in order {
                    if let Some(GenericArgument::AssocType(at)) = a
                        .args
                        .iter()
                        .find(|x| matches!(x, GenericArgument::AssocType(at) if at.ident == o))
                    {
                        args.push(GenericArgument::Type(at.ty.clone()));
                    }
                }
                a.args = args.into_iter().collect();
            } else if let Some(g) = a.args.first_mut() {
                *g = parse_quote!(#st<#st_args>);
            }
        }
    }
    let mut al = t.clone();
    if al.generics.type_params().next().is_none() {
        al.generics = if ta.to_string().contains('I') {
            parse_quote!(<T: Config<I>, I: 'static>)
        } else {
            parse_quote!(<T: Config>)
        };
    }
    let _ = &alias_args;
    let has_i = ta.to_string().contains('I');
    let decl = if has_i { quote!(T, I = ()) } else { quote!(T) };
    let a = quote! {
        #[doc(hidden)]
        pub struct #st<#decl>(::core::marker::PhantomData<(#ta,)>);
        impl<#ig> ::frame_support::storage::types::StorageInstance for #st<#ta> {
            fn pallet_prefix() -> &'static str { env!("CARGO_PKG_NAME") }
            fn instance_prefix() -> &'static str { #inst }
            const STORAGE_PREFIX: &'static str = #prefix;
        }
        #al
    };
    let mut b = quote!();
    if let Some(g) = get(ps, "getter") {
        // getter(fn name)
        let toks: Vec<proc_macro2::TokenTree> = attr_tokens(g).into_iter().collect();
        let gname = toks
            .iter()
            .rev()
            .find_map(|t| match t {
                proc_macro2::TokenTree::Ident(i) => Some(i.clone()),
                _ => None,
            })
            .unwrap();
        let args = ta.clone();
        b = match nkeys {
            0 => quote! {
                impl<#ig> Pallet<#ta> {
                    pub fn #gname() -> <#name<#args> as ::frame_support::storage::types::StorageMeta>::Query { <#name<#args>>::get() }
                }
            },
            1 => quote! {
                impl<#ig> Pallet<#ta> {
                    pub fn #gname<KArg: ::codec::EncodeLike<<#name<#args> as ::frame_support::storage::types::StorageMeta>::Key1>>(k: KArg)
                      -> <#name<#args> as ::frame_support::storage::types::StorageMeta>::Query { <#name<#args>>::get(k) }
                }
            },
            _ => quote! {
                impl<#ig> Pallet<#ta> {
                    pub fn #gname<KArg1: ::codec::EncodeLike<<#name<#args> as ::frame_support::storage::types::StorageMeta>::Key1>,
                        KArg2: ::codec::EncodeLike<<#name<#args> as ::frame_support::storage::types::StorageMeta>::Key2>>(k1: KArg1, k2: KArg2)
                      -> <#name<#args> as ::frame_support::storage::types::StorageMeta>::Query { <#name<#args>>::get(k1, k2) }
                }
            },
        };
    }
    let _ = kind;
    Ok((a, b))
}

fn event(e: &mut ItemEnum, ps: &[Attribute], ig: &Ts, ta: &Ts, tcfg: &Ts) -> Result<(Ts, Ts)> {
    let gids: Vec<Ident> = e.generics.type_params().map(|t| t.ident.clone()).collect();
    if !gids.is_empty() {
        e.variants.push(parse_quote!(
            #[doc(hidden)]
            __Ignore(::core::marker::PhantomData<(#(#gids,)*)>, ::frame_support::Never)
        ));
    }
    e.attrs.retain(|a| !a.path().is_ident("derive"));
    let name = &e.ident;
    let di: DeriveInput = DeriveInput::from(e.clone());
    let derives = vec![clone_impl(&di), eq_impl(&di), partial_eq_impl(&di), debug_impl(&di)];
    let (eig, etg, ewc) = e.generics.split_for_impl();
    let a = quote! {
        #e
        #(#derives)*
        impl #eig From<#name #etg> for () #ewc { fn from(_: #name #etg) {} }
    };
    let mut b = quote!();
    if let Some(g) = get(ps, "generate_deposit") {
        let toks = attr_tokens(g);
        let sig: TraitItemFnWithVis = syn::parse2(toks)?;
        let vis = sig.vis;
        let f = sig.name;
        b = quote! {
            impl<#ig> Pallet<#ta> {
                #vis fn #f(event: Event #etg) {
                    let event = <#tcfg::RuntimeEvent as From<Event #etg>>::from(event);
                    let event = <#tcfg::RuntimeEvent as Into<<T as ::frame_system::Config>::RuntimeEvent>>::into(event);
                    <::frame_system::Pallet<T>>::deposit_event(event)
                }
            }
        };
    }
    Ok((a, b))
}

struct TraitItemFnWithVis {
    vis: Visibility,
    name: Ident,
}
impl syn::parse::Parse for TraitItemFnWithVis {
    fn parse(input: syn::parse::ParseStream) -> Result<Self> {
        let vis: Visibility = input.parse()?;
        input.parse::<Token![fn]>()?;
        let name: Ident = input.parse()?;
        let _rest: Ts = input.parse()?;
        Ok(Self { vis, name })
    }
}

fn error(e: &mut ItemEnum, _has_i: bool) -> Result<Ts> {
    let gids: Vec<Ident> = e.generics.type_params().map(|t| t.ident.clone()).collect();
    let vs: Vec<(Ident, Fields)> = e.variants.iter().map(|v| (v.ident.clone(), v.fields.clone())).collect();
    e.variants.insert(
        0,
        parse_quote!(
            #[doc(hidden)]
            __Ignore(::core::marker::PhantomData<(#(#gids,)*)>, ::frame_support::Never)
        ),
    );
    e.attrs.retain(|a| !a.path().is_ident("derive"));
    let name = &e.ident;
    // as in FRAME, the impls on the error type do not require `T: Config`
    let arms: Vec<Ts> = vs
        .iter()
        .enumerate()
        .map(|(i, (v, f))| {
            let pat = match f {
                Fields::Unit => quote!(),
                Fields::Named(_) => quote!({ .. }),
                Fields::Unnamed(_) => quote!((..)),
            };
            let s = v.to_string();
            let idx = i as u8;
            quote!(#name::#v #pat => (#idx, #s, concat!(env!("CARGO_PKG_NAME"), "::", #s)),)
        })
        .collect();
    let (ig, tg, wc) = e.generics.split_for_impl();
    Ok(quote! {
        #e
        impl #ig #name #tg #wc {
            #[doc(hidden)]
            pub fn __info(&self) -> (u8, &'static str, &'static str) {
                match self { #name::__Ignore(_, _) => unreachable!(), #(#arms)* }
            }
            #[doc(hidden)]
            pub fn as_str(&self) -> &'static str { self.__info().1 }
        }
        impl #ig ::core::fmt::Debug for #name #tg #wc {
            fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str(self.__info().1) }
        }
        impl #ig ::core::cmp::PartialEq for #name #tg #wc {
            fn eq(&self, o: &Self) -> bool { self.__info().0 == o.__info().0 }
        }
        impl #ig ::core::cmp::Eq for #name #tg #wc {}
        impl #ig ::core::clone::Clone for #name #tg #wc { fn clone(&self) -> Self { unimplemented!() } }
        impl #ig From<#name #tg> for &'static str #wc { fn from(e: #name #tg) -> &'static str { e.__info().1 } }
        impl #ig From<#name #tg> for ::sp_runtime::DispatchError #wc {
            fn from(e: #name #tg) -> ::sp_runtime::DispatchError {
                let (i, _, m) = e.__info();
                ::sp_runtime::DispatchError::Module(::sp_runtime::ModuleError {
                    index: ::frame_support::pkg_index(env!("CARGO_PKG_NAME")), error: [i, 0, 0, 0], message: Some(m)
                })
            }
        }
    })
}

fn call(i: &ItemImpl, ig: &Ts, ta: &Ts, icfg: &Ts, has_i: bool) -> Result<Ts> {
    let wc = &i.generics.where_clause;
    let mut vars = vec![];
    let mut arms = vec![];
    let mut names = vec![];
    let mut name_arms = vec![];
    let mut clone_arms = vec![];
    let mut eq_arms = vec![];
    let mut dbg_arms = vec![];
    let mut idx_auto: u8 = 0;
    for item in &i.items {
        if let ImplItem::Fn(f) = item {
            let fname = &f.sig.ident;
            let mut idx = idx_auto;
            for a in &f.attrs {
                if pallet_attr_name(a).as_deref() == Some("call_index") {
                    idx = syn::parse2::<LitInt>(attr_tokens(a))?.base10_parse()?;
                }
            }
            idx_auto = idx + 1;
            let mut ids = vec![];
            let mut fields = vec![];
            for arg in f.sig.inputs.iter().skip(1) {
                if let FnArg::Typed(p) = arg {
                    let id = match &*p.pat {
                        Pat::Ident(x) => x.ident.clone(),
                        _ => return Err(Error::new_spanned(p, "unsupported call argument")),
                    };
                    let compact = p.attrs.iter().any(|a| pallet_attr_name(a).as_deref() == Some("compact"));
                    let ty = &p.ty;
                    let c = if compact { quote!(#[codec(compact)]) } else { quote!() };
                    fields.push(quote!(#c #id: #ty));
                    ids.push(id);
                }
            }
            let s = fname.to_string();
            let n = ids.len();
            let _ = n;
            vars.push(quote!(#[codec(index = #idx)] #fname { #(#fields),* }));
            let has_ret_info = true;
            let _ = has_ret_info;
            arms.push(quote! {
                Call::#fname { #(#ids),* } => ::frame_support::storage::with_storage_layer::<_, ::frame_support::dispatch::DispatchErrorWithPostInfo, _>(|| {
                    <Pallet<#ta>>::#fname(origin, #(#ids),*).map(Into::into).map_err(Into::into)
                }),
            });
            names.push(s.clone());
            name_arms.push(quote!(Call::#fname { .. } => #s,));
            clone_arms.push(quote!(Call::#fname { #(#ids),* } => Call::#fname { #(#ids: ::core::clone::Clone::clone(#ids)),* },));
            let b: Vec<Ident> = ids.iter().map(|x| format_ident!("__o_{}", x)).collect();
            eq_arms.push(quote!((Call::#fname { #(#ids),* }, Call::#fname { #(#ids: #b),* }) => true #(&& #ids == #b)*,));
            let ss: Vec<String> = ids.iter().map(|x| x.to_string()).collect();
            dbg_arms.push(quote!(Call::#fname { #(#ids),* } => fmt.debug_struct(#s) #(.field(#ss, #ids))* .finish(),));
        }
    }
    let decl = if has_i {
        quote!(T: Config<I>, I: 'static = ())
    } else {
        quote!(T: Config)
    };
    let _ = icfg;
    Ok(quote! {
        #[derive(::codec::Encode, ::codec::Decode)]
        #[codec(encode_bound())]
        #[codec(decode_bound())]
        #[allow(non_camel_case_types)]
        pub enum Call<#decl> #wc {
            #[doc(hidden)]
            #[codec(skip)]
            __Ignore(::core::marker::PhantomData<(#ta,)>, ::frame_support::Never),
            #(#vars),*
        }
        impl<#ig> ::core::clone::Clone for Call<#ta> #wc {
            fn clone(&self) -> Self { match self { Call::__Ignore(_, _) => unreachable!(), #(#clone_arms)* } }
        }
        impl<#ig> ::core::cmp::PartialEq for Call<#ta> #wc {
            fn eq(&self, o: &Self) -> bool { match (self, o) { #(#eq_arms)* _ => false } }
        }
        impl<#ig> ::core::cmp::Eq for Call<#ta> #wc {}
        impl<#ig> ::core::fmt::Debug for Call<#ta> #wc {
            fn fmt(&self, fmt: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { match self { Call::__Ignore(_, _) => unreachable!(), #(#dbg_arms)* } }
        }
        impl<#ig> ::frame_support::traits::UnfilteredDispatchable for Call<#ta> #wc {
            type RuntimeOrigin = <T as ::frame_system::Config>::RuntimeOrigin;
            fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo {
                match self { Call::__Ignore(_, _) => unreachable!(), #(#arms)* }
            }
        }
        impl<#ig> ::frame_support::dispatch::GetDispatchInfo for Call<#ta> #wc {
            fn get_dispatch_info(&self) -> ::frame_support::dispatch::DispatchInfo { Default::default() }
        }
        impl<#ig> ::frame_support::traits::GetCallName for Call<#ta> #wc {
            fn get_call_names() -> &'static [&'static str] { &[#(#names),*] }
            fn get_call_name(&self) -> &'static str { match self { Call::__Ignore(_, _) => unreachable!(), #(#name_arms)* } }
        }
        impl<#ig> ::frame_support::dispatch::Callable<T> for Pallet<#ta> #wc {
            type RuntimeCall = Call<#ta>;
        }
    })
}
