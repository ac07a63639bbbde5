//! Stand-in for `async-recursion`: boxes the body of an async fn.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, parse_quote, FnArg, ItemFn, Lifetime, ReturnType, Type};
fn add_lt(t: &mut Type) { if let Type::Reference(r) = t { if r.lifetime.is_none() { r.lifetime = Some(Lifetime::new("'life_self", proc_macro2::Span::call_site())); } add_lt(&mut r.elem); } }
#[proc_macro_attribute]
pub fn async_recursion(_a: TokenStream, item: TokenStream) -> TokenStream {
    let mut f = parse_macro_input!(item as ItemFn);
    let ret: Type = match &f.sig.output { ReturnType::Default => parse_quote!(()), ReturnType::Type(_, t) => (**t).clone() };
    f.sig.asyncness = None;
    for a in f.sig.inputs.iter_mut() {
        match a {
            FnArg::Receiver(r) => { if let Some((_, lt)) = &mut r.reference { if lt.is_none() { *lt = Some(Lifetime::new("'life_self", proc_macro2::Span::call_site())); } } let ty = &mut *r.ty; add_lt(ty); }
            FnArg::Typed(t) => add_lt(&mut t.ty),
        }
    }
    for p in f.sig.generics.params.iter_mut() {
        if let syn::GenericParam::Lifetime(l) = p { l.bounds.push(Lifetime::new("'life_self", proc_macro2::Span::call_site())); }
    }
    f.sig.generics.params.insert(0, parse_quote!('life_self));
    f.sig.output = parse_quote!(-> ::core::pin::Pin<Box<dyn ::core::future::Future<Output = #ret> + Send + 'life_self>>);
    let body = &f.block;
    f.block = Box::new(parse_quote!({ Box::pin(async move #body) }));
    quote!(#f).into()
}
