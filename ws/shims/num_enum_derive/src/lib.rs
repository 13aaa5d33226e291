//! Stand-in for num_enum_derive 0.7.
use proc_macro::TokenStream;
use quote::quote;
use syn::{Data, DeriveInput, Ident};
fn repr(ast: &DeriveInput) -> Ident {
    for a in ast.attrs.iter().filter(|a| a.path().is_ident("repr")) {
        return a.parse_args().unwrap();
    }
    panic!("repr required")
}
#[proc_macro_derive(IntoPrimitive, attributes(num_enum))]
pub fn into_primitive(i: TokenStream) -> TokenStream {
    let ast: DeriveInput = syn::parse(i).unwrap();
    let (n, r) = (&ast.ident, repr(&ast));
    quote!(impl From<#n> for #r { #[inline] fn from(x: #n) -> #r { x as #r } }).into()
}
#[proc_macro_derive(TryFromPrimitive, attributes(num_enum))]
pub fn try_from_primitive(i: TokenStream) -> TokenStream {
    let ast: DeriveInput = syn::parse(i).unwrap();
    let (n, r) = (&ast.ident, repr(&ast));
    let name = n.to_string();
    let Data::Enum(e) = &ast.data else { panic!() };
    let v: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
    quote!(impl ::core::convert::TryFrom<#r> for #n {
            type Error = ::num_enum::TryFromPrimitiveError<#r>;
            fn try_from(x: #r) -> Result<Self, Self::Error> { <#n as ::num_enum::TryFromPrimitive>::try_from_primitive(x) }
        }
        impl ::num_enum::TryFromPrimitive for #n {
            type Primitive = #r;
            type Error = ::num_enum::TryFromPrimitiveError<#r>;
            fn try_from_primitive(x: #r) -> Result<Self, ::num_enum::TryFromPrimitiveError<#r>> { #(if x == #n::#v as #r { return Ok(#n::#v); })* Err(::num_enum::TryFromPrimitiveError::new(x, #name)) }
        }).into()
}
