//! Macros of the `salsa` stand-in.
use proc_macro::TokenStream;
use proc_macro2::{Span, TokenStream as Ts};
use quote::{format_ident, quote};
use syn::{parse_macro_input, parse_quote, visit_mut::VisitMut, FnArg, Ident, Item, ItemFn, ItemStruct, Lifetime, Pat, ReturnType, Type};

fn has_flag(args: &Ts, flag: &str) -> bool { args.clone().into_iter().any(|t| t.to_string() == flag) }
fn returns_mode(args: &Ts) -> Option<String> {
    let v: Vec<String> = args.clone().into_iter().map(|t| t.to_string()).collect();
    for (i, t) in v.iter().enumerate() {
        if t == "returns" { return v.get(i + 1).map(|g| g.trim_matches(|c| c == '(' || c == ')').trim().to_string()); }
        if t == "return_ref" { return Some("ref".into()); }
    }
    None
}

#[proc_macro_attribute]
pub fn db(_args: TokenStream, item: TokenStream) -> TokenStream {
    let item2: Ts = item.clone().into();
    let parsed = parse_macro_input!(item as Item);
    match parsed {
        Item::Struct(s) => {
            let name = &s.ident;
            let (ig, tg, wc) = s.generics.split_for_impl();
            quote! {
                #item2
                unsafe impl #ig ::salsa::plumbing::ZalsaDatabase for #name #tg #wc {
                    fn zalsa(&self) -> &::salsa::plumbing::Zalsa { ::salsa::plumbing::storage_zalsa(&self.storage) }
                }
            }.into()
        }
        _ => item2.into(),
    }
}

#[proc_macro_derive(Update)]
pub fn update(_item: TokenStream) -> TokenStream { TokenStream::new() }

struct Field { name: Ident, ty: Type, ret: Option<String>, vis: syn::Visibility, default: bool }
fn fields(s: &ItemStruct) -> Vec<Field> {
    s.fields.iter().map(|f| {
        let mut ret = None;
        let mut default = false;
        for a in &f.attrs {
            if a.path().is_ident("returns") { if let syn::Meta::List(l) = &a.meta { ret = Some(l.tokens.to_string()); } }
            if a.path().is_ident("return_ref") { ret = Some("ref".into()); }
            if a.path().is_ident("default") { default = true; }
        }
        Field { name: f.ident.clone().unwrap(), ty: f.ty.clone(), ret, vis: f.vis.clone(), default }
    }).collect()
}
fn getter_ret(ret: &Option<String>, ty: &Type, lt: &Ts, expr: Ts) -> (Ts, Ts) {
    match ret.as_deref() {
        Some("ref") => (quote!(& #lt #ty), quote!(&#expr)),
        Some("deref") => (quote!(& #lt <#ty as ::std::ops::Deref>::Target), quote!(&*#expr)),
        Some("as_ref") => (quote!(::std::option::Option<& #lt <#ty as ::std::iter::IntoIterator>::Item>), quote!(#expr.as_ref())),
        Some("copy") => (quote!(#ty), quote!(#expr)),
        _ => (quote!(#ty), quote!(::std::clone::Clone::clone(&#expr))),
    }
}
fn outer_attrs(s: &ItemStruct) -> Vec<&syn::Attribute> { s.attrs.iter().collect() }

#[proc_macro_attribute]
pub fn input(args: TokenStream, item: TokenStream) -> TokenStream {
    let args: Ts = args.into();
    let s = parse_macro_input!(item as ItemStruct);
    let (name, vis) = (&s.ident, &s.vis);
    let attrs = outer_attrs(&s);
    let fs = fields(&s);
    let n = fs.len();
    let tys: Vec<&Type> = fs.iter().map(|f| &f.ty).collect();
    let tuple = quote!((#(#tys,)*));
    let req: Vec<&Field> = fs.iter().filter(|f| !f.default).collect();
    let req_names: Vec<&Ident> = req.iter().map(|f| &f.name).collect();
    let req_tys: Vec<&Type> = req.iter().map(|f| &f.ty).collect();
    let init: Vec<Ts> = fs.iter().map(|f| { let n = &f.name; if f.default { quote!(::std::default::Default::default()) } else { quote!(#n) } }).collect();
    let builder = format_ident!("{}Builder", name);
    let setter = format_ident!("{}Setter", name);
    let mut getters = vec![];
    let mut dur_methods = vec![];
    for (i, f) in fs.iter().enumerate() {
        let (fname, ty, fvis) = (&f.name, &f.ty, &f.vis);
        let ix = syn::Index::from(i);
        let set = format_ident!("set_{}", fname);
        let (rt, ex) = getter_ret(&f.ret, ty, &quote!('db), quote!(__f.#ix));
        getters.push(quote! {
            #fvis fn #fname<'db, Db_: ?Sized + ::salsa::Database>(self, db: &'db Db_) -> #rt {
                let __f = ::salsa::plumbing::input_get::<#tuple>(db.zalsa(), &Self::__INDEX, self.0, #i);
                #ex
            }
            #fvis fn #set<'db, Db_: ?Sized + ::salsa::Database>(self, db: &'db mut Db_) -> impl ::salsa::Setter<FieldTy = #ty> + 'db {
                #setter { db, id: self.0, field: #i, durability: ::std::option::Option::None, set: |__f: &mut #tuple, v: #ty| ::std::mem::replace(&mut __f.#ix, v), _p: ::std::marker::PhantomData }
            }
        });
        let dm = format_ident!("{}_durability", fname);
        dur_methods.push(quote! { #fvis fn #dm(mut self, d: ::salsa::Durability) -> Self { self.durs[#i] = d; self } });
    }
    let dbg = if has_flag(&args, "debug") { quote! {
        impl ::std::fmt::Debug for #name { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.debug_tuple(stringify!(#name)).field(&self.0).finish() } }
    } } else { quote!() };
    let cell = format_ident!("__SALSA_INDEX_{}", name.to_string().to_uppercase());
    let bvis = vis;
    quote! {
        #(#attrs)*
        #[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
        #vis struct #name(::salsa::plumbing::Id);
        #dbg
        #[doc(hidden)]
        static #cell: ::salsa::plumbing::IndexCell = ::salsa::plumbing::IndexCell::new();
        #[allow(dead_code)]
        #bvis struct #builder { fields: #tuple, durs: ::std::vec::Vec<::salsa::Durability> }
        #[doc(hidden)]
        struct #setter<'db, Db_: ?Sized, T_> { db: &'db mut Db_, id: ::salsa::plumbing::Id, field: usize, durability: ::std::option::Option<::salsa::Durability>, set: fn(&mut #tuple, T_) -> T_, _p: ::std::marker::PhantomData<T_> }
        impl<'db, Db_: ?Sized + ::salsa::Database, T_> ::salsa::Setter for #setter<'db, Db_, T_> {
            type FieldTy = T_;
            fn with_durability(mut self, d: ::salsa::Durability) -> Self { self.durability = ::std::option::Option::Some(d); self }
            fn to(self, value: T_) -> T_ {
                let set = self.set;
                ::salsa::plumbing::input_set::<#tuple, T_>(self.db.zalsa(), &#cell, self.id, self.field, self.durability, move |__f| set(__f, value))
            }
        }
        #[allow(dead_code)]
        impl #builder {
            #bvis fn durability(mut self, d: ::salsa::Durability) -> Self { for x in self.durs.iter_mut() { *x = d; } self }
            #(#dur_methods)*
            #bvis fn new<Db_: ?Sized + ::salsa::Database>(self, db: &Db_) -> #name { #name(::salsa::plumbing::input_new::<#tuple>(db.zalsa(), &#cell, self.fields, self.durs)) }
        }
        #[allow(dead_code, clippy::all)]
        impl #name {
            const __INDEX: &'static ::salsa::plumbing::IndexCell = &#cell;
            #vis fn new<Db_: ?Sized + ::salsa::Database>(db: &Db_, #(#req_names: #req_tys),*) -> Self { Self::builder(#(#req_names),*).new(db) }
            #bvis fn builder(#(#req_names: #req_tys),*) -> #builder { #builder { fields: (#(#init,)*), durs: ::std::vec![::salsa::Durability::LOW; #n] } }
            #(#getters)*
        }
        impl ::salsa::plumbing::AsId for #name { fn as_id(&self) -> ::salsa::plumbing::Id { self.0 } }
        impl ::salsa::plumbing::FromId for #name { fn from_id(id: ::salsa::plumbing::Id) -> Self { #name(id) } }
    }.into()
}

#[proc_macro_attribute]
pub fn interned(args: TokenStream, item: TokenStream) -> TokenStream {
    let args: Ts = args.into();
    let s = parse_macro_input!(item as ItemStruct);
    let (name, vis) = (&s.ident, &s.vis);
    let attrs = outer_attrs(&s);
    let fs = fields(&s);
    let tys: Vec<Type> = fs.iter().map(|f| { let mut t = f.ty.clone(); Staticize.visit_type_mut(&mut t); t }).collect();
    let names: Vec<&Ident> = fs.iter().map(|f| &f.name).collect();
    let tuple = quote!((#(#tys,)*));
    let no_lt = has_flag(&args, "no_lifetime");
    let (decl, self_ty, impl_g, ctor) = if no_lt {
        (quote!(#vis struct #name(::salsa::plumbing::Id);), quote!(#name), quote!(impl), quote!(#name(id)))
    } else {
        (quote!(#vis struct #name<'db>(::salsa::plumbing::Id, ::std::marker::PhantomData<fn() -> &'db ()>);), quote!(#name<'db>), quote!(impl<'db>), quote!(#name(id, ::std::marker::PhantomData)))
    };
    let fn_lt = if no_lt { quote!('db,) } else { quote!() };
    let cell = format_ident!("__SALSA_INDEX_{}", name.to_string().to_uppercase());
    let mut getters = vec![];
    for (i, f) in fs.iter().enumerate() {
        let (fname, fvis) = (&f.name, &f.vis);
        let ty = &tys[i];
        let ix = syn::Index::from(i);
        let (rt, ex) = getter_ret(&f.ret, ty, &quote!('db), quote!(__f.#ix));
        getters.push(quote! {
            #fvis fn #fname<#fn_lt Db_: ?Sized + ::salsa::Database>(self, db: &'db Db_) -> #rt {
                let __f = ::salsa::plumbing::interned_get::<#tuple>(db.zalsa(), &#cell, self.0);
                #ex
            }
        });
    }
    let dbg = if has_flag(&args, "debug") { quote! {
        #impl_g ::std::fmt::Debug for #self_ty { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.debug_tuple(stringify!(#name)).field(&self.0).finish() } }
    } } else { quote!() };
    quote! {
        #(#attrs)*
        #[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
        #decl
        #dbg
        #[doc(hidden)]
        static #cell: ::salsa::plumbing::IndexCell = ::salsa::plumbing::IndexCell::new();
        #[allow(dead_code, clippy::all)]
        #impl_g #self_ty {
            #vis fn new<#fn_lt Db_: ?Sized + ::salsa::Database>(db: &'db Db_, #(#names: impl ::std::convert::Into<#tys>),*) -> Self {
                let id = ::salsa::plumbing::intern::<#tuple>(db.zalsa(), &#cell, (#(#names.into(),)*));
                #ctor
            }
            #(#getters)*
        }
        #impl_g ::salsa::plumbing::AsId for #self_ty { fn as_id(&self) -> ::salsa::plumbing::Id { self.0 } }
        #impl_g ::salsa::plumbing::FromId for #self_ty { fn from_id(id: ::salsa::plumbing::Id) -> Self { #ctor } }
    }.into()
}

/// replaces every lifetime by 'static
struct Staticize;
impl VisitMut for Staticize {
    fn visit_lifetime_mut(&mut self, l: &mut Lifetime) { *l = Lifetime::new("'static", Span::call_site()); }
    fn visit_type_reference_mut(&mut self, r: &mut syn::TypeReference) {
        if r.lifetime.is_none() { r.lifetime = Some(Lifetime::new("'static", Span::call_site())); }
        syn::visit_mut::visit_type_reference_mut(self, r);
    }
}

#[proc_macro_attribute]
pub fn tracked(args: TokenStream, item: TokenStream) -> TokenStream {
    let args: Ts = args.into();
    let item2: Ts = item.clone().into();
    let f = match syn::parse::<ItemFn>(item) { Ok(f) => f, Err(_) => return item2.into() };
    let ItemFn { attrs, vis, sig, block } = f;
    let name = sig.ident.clone();
    let mut inner_sig = sig.clone();
    inner_sig.ident = format_ident!("__salsa_inner");
    let mut inputs = sig.inputs.iter();
    let db_arg = match inputs.next() { Some(FnArg::Typed(t)) => t.clone(), _ => return syn::Error::new(Span::call_site(), "tracked fn needs a db argument").to_compile_error().into() };
    let db_inner = match &*db_arg.ty { Type::Reference(r) => (*r.elem).clone(), _ => panic!("db must be a reference") };
    let mut db_static = db_inner.clone();
    Staticize.visit_type_mut(&mut db_static);
    let mut arg_names: Vec<Ident> = vec![];
    let mut arg_tys: Vec<Type> = vec![];
    for (i, a) in inputs.enumerate() {
        if let FnArg::Typed(t) = a {
            arg_names.push(match &*t.pat { Pat::Ident(p) => p.ident.clone(), _ => format_ident!("__a{}", i) });
            arg_tys.push((*t.ty).clone());
        }
    }
    let static_tys: Vec<Type> = arg_tys.iter().map(|t| { let mut t = t.clone(); Staticize.visit_type_mut(&mut t); t }).collect();
    let out_ty: Type = match &sig.output { ReturnType::Default => parse_quote!(()), ReturnType::Type(_, t) => (**t).clone() };
    let mut out_static = out_ty.clone();
    Staticize.visit_type_mut(&mut out_static);
    // the outer signature ties the result to the database borrow
    let lt = sig.generics.lifetimes().next().map(|l| l.lifetime.clone());
    let (outer_generics, lt) = match lt { Some(l) => { let g = &sig.generics; (quote!(#g), l) } None => (quote!(<'db>), Lifetime::new("'db", Span::call_site())) };
    let db_name = match &*db_arg.pat { Pat::Ident(p) => p.ident.clone(), _ => format_ident!("db") };
    let mode = returns_mode(&args);
    let (ret_ty, ret_ex) = match mode.as_deref() {
        Some("ref") => (quote!(& #lt #out_ty), quote!(unsafe { ::salsa::plumbing::cast::<& #lt #out_static, & #lt #out_ty>(__v) })),
        Some("deref") => (quote!(& #lt <#out_ty as ::std::ops::Deref>::Target), quote!({ let r: & #lt #out_ty = unsafe { ::salsa::plumbing::cast::<& #lt #out_static, & #lt #out_ty>(__v) }; &**r })),
        Some("as_ref") => (quote!(::std::option::Option<& #lt <#out_ty as ::std::iter::IntoIterator>::Item>), quote!({ let r: & #lt #out_ty = unsafe { ::salsa::plumbing::cast::<& #lt #out_static, & #lt #out_ty>(__v) }; r.as_ref() })),
        _ => (quote!(#out_ty), quote!(unsafe { ::salsa::plumbing::cast::<#out_static, #out_ty>(::std::clone::Clone::clone(__v)) })),
    };
    let idxs: Vec<syn::Index> = (0..arg_names.len()).map(syn::Index::from).collect();
    let no_eq = has_flag(&args, "no_eq");
    let eq = if no_eq { quote!(false) } else { quote!(a == b) };
    let where_ = &sig.generics.where_clause;
    quote! {
        #(#attrs)*
        #[allow(clippy::all)]
        #vis fn #name #outer_generics (#db_name: & #lt #db_inner, #(#arg_names: #arg_tys),*) -> #ret_ty #where_ {
            #[allow(clippy::all)]
            #inner_sig #block
            struct __Cfg;
            static __INDEX: ::salsa::plumbing::IndexCell = ::salsa::plumbing::IndexCell::new();
            impl ::salsa::plumbing::FnConfig for __Cfg {
                const NAME: &'static str = stringify!(#name);
                type Db = #db_static;
                type Key = (#(#static_tys,)*);
                type Value = #out_static;
                fn execute(db: &Self::Db, key: Self::Key) -> Self::Value {
                    let db: &'static Self::Db = unsafe { ::salsa::plumbing::cast::<&Self::Db, &'static Self::Db>(db) };
                    let _ = &key;
                    __salsa_inner(db, #(key.#idxs),*)
                }
                #[allow(unused_variables)]
                fn eq(a: &Self::Value, b: &Self::Value) -> bool { #eq }
            }
            let __key: (#(#static_tys,)*) = unsafe { ::salsa::plumbing::cast::<(#(#arg_tys,)*), (#(#static_tys,)*)>((#(#arg_names,)*)) };
            let __db: & #lt <__Cfg as ::salsa::plumbing::FnConfig>::Db = unsafe { ::salsa::plumbing::cast(#db_name) };
            let __v: & #lt #out_static = ::salsa::plumbing::fetch::<__Cfg>(&__INDEX, __db, ::salsa::plumbing::ZalsaDatabase::zalsa(#db_name), __key);
            #ret_ex
        }
    }.into()
}
