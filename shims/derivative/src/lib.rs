//! Offline stand-in for `derivative`: supports `#[derivative(Default(bound = ""))]` on structs only.
use quote::quote;
#[proc_macro_derive(Derivative, attributes(derivative))]
pub fn derive(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let d: syn::DeriveInput = syn::parse(input).unwrap();
    let name = &d.ident;
    let (ig, tg, wc) = d.generics.split_for_impl();
    let body = match &d.data {
        syn::Data::Struct(s) => match &s.fields {
            syn::Fields::Named(f) => { let n = f.named.iter().map(|f| &f.ident); quote!(#name { #(#n: ::core::default::Default::default()),* }) }
            syn::Fields::Unnamed(f) => { let n = f.unnamed.iter().map(|_| quote!(::core::default::Default::default())); quote!(#name(#(#n),*)) }
            syn::Fields::Unit => quote!(#name),
        },
        _ => panic!("structs only"),
    };
    quote!(impl #ig ::core::default::Default for #name #tg #wc { fn default() -> Self { #body } }).into()
}
