//! Stand-in for `num_enum` derives (unit variants, #[repr(int)], #[num_enum(default)]).
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Ident};
fn repr(d: &DeriveInput) -> Ident {
    for a in &d.attrs { if a.path().is_ident("repr") { if let Ok(i) = a.parse_args::<Ident>() { return i; } } }
    panic!("num_enum stand-in: #[repr(int)] required")
}
#[proc_macro_derive(IntoPrimitive, attributes(num_enum))]
pub fn into_primitive(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput); let (n, r) = (&d.ident, repr(&d));
    quote!(impl From<#n> for #r { fn from(v: #n) -> #r { v as #r } }).into()
}
#[proc_macro_derive(TryFromPrimitive, attributes(num_enum))]
pub fn try_from_primitive(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput); let (n, r) = (&d.ident, repr(&d));
    let Data::Enum(e) = &d.data else { panic!() };
    let mut default = None;
    for v in &e.variants { for a in &v.attrs { if a.path().is_ident("num_enum") { default = Some(v.ident.clone()); } } }
    let arms = e.variants.iter().map(|v| { let vi = &v.ident; quote!(if number == (#n::#vi as #r) { return Ok(#n::#vi); }) });
    let last = match default { Some(x) => quote!(Ok(#n::#x)), None => quote!(Err(format!("No discriminant in enum `{}` matches the value `{}`", stringify!(#n), number))) };
    quote!(impl ::core::convert::TryFrom<#r> for #n { type Error = String; fn try_from(number: #r) -> Result<Self, String> { #(#arms)* #last } }).into()
}
