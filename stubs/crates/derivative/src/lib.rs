use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields};
#[proc_macro_derive(Derivative, attributes(derivative))]
pub fn derive(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (n, (ig, tg, wc)) = (&d.ident, d.generics.split_for_impl());
    let body = match &d.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(f) => { let k = f.named.iter().map(|x| &x.ident); quote!(Self { #(#k: Default::default()),* }) }
            Fields::Unnamed(f) => { let k = f.unnamed.iter().map(|_| quote!(Default::default())); quote!(Self(#(#k),*)) }
            Fields::Unit => quote!(Self),
        },
        _ => quote!(unimplemented!()),
    };
    quote!(impl #ig Default for #n #tg #wc { fn default() -> Self { #body } }).into()
}
