use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput};
fn variants(d: &DeriveInput) -> Vec<syn::Ident> { match &d.data { Data::Enum(e) => e.variants.iter().map(|v| v.ident.clone()).collect(), _ => panic!("enum expected") } }
#[proc_macro_derive(EnumIter, attributes(strum))]
pub fn enum_iter(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (n, v) = (&d.ident, variants(&d));
    quote! { impl strum::IntoEnumIterator for #n { type Iterator = std::vec::IntoIter<#n>; fn iter() -> Self::Iterator { vec![#(#n::#v),*].into_iter() } } }.into()
}
#[proc_macro_derive(AsRefStr, attributes(strum))]
pub fn as_ref_str(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (n, v) = (&d.ident, variants(&d));
    let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    quote! { impl AsRef<str> for #n { fn as_ref(&self) -> &str { match self { #(#n::#v => #s),* } } } }.into()
}
