use quote::quote;
#[proc_macro_derive(EnumSetType, attributes(enumset))]
pub fn derive(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let e: syn::ItemEnum = syn::parse_macro_input!(input as syn::ItemEnum);
    let name = &e.ident;
    let vs: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
    quote! {
        #[automatically_derived] impl ::core::marker::Copy for #name {}
        #[automatically_derived] impl ::core::clone::Clone for #name { fn clone(&self) -> Self { *self } }
        #[automatically_derived] impl ::core::cmp::PartialEq for #name { fn eq(&self, o: &Self) -> bool { *self as u32 == *o as u32 } }
        #[automatically_derived] impl ::core::cmp::Eq for #name {}
        #[automatically_derived] unsafe impl ::enumset::EnumSetType for #name {
            const ALL: &'static [Self] = &[#(#name::#vs),*];
            fn to_u32(self) -> u32 { self as u32 }
        }
        #[automatically_derived] impl<O: ::core::convert::Into<::enumset::EnumSet<#name>>> ::core::ops::BitOr<O> for #name { type Output = ::enumset::EnumSet<#name>; fn bitor(self, o: O) -> ::enumset::EnumSet<#name> { ::enumset::EnumSet::only(self) | o.into() } }
        #[automatically_derived] impl<O: ::core::convert::Into<::enumset::EnumSet<#name>>> ::core::ops::BitAnd<O> for #name { type Output = ::enumset::EnumSet<#name>; fn bitand(self, o: O) -> ::enumset::EnumSet<#name> { ::enumset::EnumSet::only(self) & o.into() } }
        #[automatically_derived] impl<O: ::core::convert::Into<::enumset::EnumSet<#name>>> ::core::ops::Sub<O> for #name { type Output = ::enumset::EnumSet<#name>; fn sub(self, o: O) -> ::enumset::EnumSet<#name> { ::enumset::EnumSet::only(self) - o.into() } }
        #[automatically_derived] impl ::core::ops::Not for #name { type Output = ::enumset::EnumSet<#name>; fn not(self) -> ::enumset::EnumSet<#name> { !::enumset::EnumSet::only(self) } }
    }.into()
}
