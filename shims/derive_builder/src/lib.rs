//! Stand-in for `derive_builder` with `#[builder(setter(into, strip_option), default)]` on the struct.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Fields, GenericArgument, PathArguments, Type};
fn opt_inner(t: &Type) -> Option<Type> {
    if let Type::Path(p) = t { let s = p.path.segments.last()?; if s.ident == "Option" { if let PathArguments::AngleBracketed(a) = &s.arguments { if let Some(GenericArgument::Type(t)) = a.args.first() { return Some(t.clone()); } } } }
    None
}
#[proc_macro_derive(Builder, attributes(builder))]
pub fn builder(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (n, b, e) = (&d.ident, format_ident!("{}Builder", d.ident), format_ident!("{}BuilderError", d.ident));
    let Data::Struct(s) = &d.data else { panic!() };
    let Fields::Named(f) = &s.fields else { panic!() };
    let names: Vec<_> = f.named.iter().map(|x| x.ident.clone().unwrap()).collect();
    let tys: Vec<_> = f.named.iter().map(|x| x.ty.clone()).collect();
    let setters = f.named.iter().map(|x| {
        let (id, ty) = (x.ident.as_ref().unwrap(), &x.ty);
        match opt_inner(ty) {
            Some(inner) => quote!(pub fn #id<VALUE: ::core::convert::Into<#inner>>(&mut self, value: VALUE) -> &mut Self { self.#id = Some(Some(value.into())); self }),
            None => quote!(pub fn #id<VALUE: ::core::convert::Into<#ty>>(&mut self, value: VALUE) -> &mut Self { self.#id = Some(value.into()); self }),
        }
    });
    quote!(
        #[derive(Clone)]
        pub struct #b { #(#names: ::core::option::Option<#tys>),* }
        impl ::core::default::Default for #b { fn default() -> Self { Self { #(#names: None),* } } }
        #[derive(Debug)] pub enum #e { UninitializedField(&'static str), ValidationError(String) }
        impl ::std::fmt::Display for #e { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { write!(f, "{:?}", self) } }
        impl ::std::error::Error for #e {}
        impl ::core::convert::From<String> for #e { fn from(s: String) -> Self { Self::ValidationError(s) } }
        impl #b {
            #(#setters)*
            pub fn build(&self) -> ::core::result::Result<#n, #e> {
                let default: #n = ::core::default::Default::default();
                Ok(#n { #(#names: match &self.#names { Some(v) => v.clone(), None => default.#names }),* })
            }
        }
    ).into()
}
