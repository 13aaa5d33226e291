//! Stand-in for strum_macros 0.27 (unit variants only; `serialize_all = "snake_case"` and `serialize`).
use proc_macro::TokenStream;
use quote::quote;
use syn::{Data, DeriveInput, LitStr, Ident};

fn variants(ast: &DeriveInput) -> Vec<(Ident, String, Vec<String>)> {
    let mut snake = false;
    for a in ast.attrs.iter().filter(|a| a.path().is_ident("strum")) {
        a.parse_nested_meta(|m| {
            let v: LitStr = m.value()?.parse()?;
            match (m.path.is_ident("serialize_all"), v.value().as_str()) {
                (true, "snake_case") => snake = true,
                _ => panic!("unsupported strum attribute"),
            }
            Ok(())
        })
        .unwrap();
    }
    let Data::Enum(e) = &ast.data else { panic!("enums only") };
    e.variants
        .iter()
        .map(|v| {
            assert!(v.fields.is_empty(), "unit variants only");
            let mut ser = vec![];
            for a in v.attrs.iter().filter(|a| a.path().is_ident("strum")) {
                a.parse_nested_meta(|m| {
                    let s: LitStr = m.value()?.parse()?;
                    ser.push(s.value());
                    Ok(())
                })
                .unwrap();
            }
            let mut name = v.ident.to_string();
            if snake {
                let mut o = String::new();
                for (i, c) in name.chars().enumerate() {
                    if c.is_uppercase() && i > 0 {
                        o.push('_');
                    }
                    o.extend(c.to_lowercase());
                }
                name = o;
            }
            if ser.is_empty() {
                ser.push(name.clone());
            }
            (v.ident.clone(), ser.iter().max_by_key(|s| s.len()).unwrap().clone(), ser)
        })
        .collect()
}
fn parse(i: TokenStream) -> DeriveInput { syn::parse(i).unwrap() }

#[proc_macro_derive(Display, attributes(strum))]
pub fn display(i: TokenStream) -> TokenStream {
    let ast = parse(i);
    let n = &ast.ident;
    let arms = variants(&ast).into_iter().map(|(v, s, _)| quote!(#n::#v => #s));
    quote!(impl ::core::fmt::Display for #n { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.pad(match self { #(#arms),* }) } }).into()
}
#[proc_macro_derive(IntoStaticStr, attributes(strum))]
pub fn into_static(i: TokenStream) -> TokenStream {
    let ast = parse(i);
    let n = &ast.ident;
    let arms: Vec<_> = variants(&ast).into_iter().map(|(v, s, _)| quote!(#n::#v => #s)).collect();
    quote!(impl From<#n> for &'static str { fn from(x: #n) -> &'static str { match x { #(#arms),* } } }
           impl<'a> From<&'a #n> for &'static str { fn from(x: &'a #n) -> &'static str { match x { #(#arms),* } } }).into()
}
#[proc_macro_derive(EnumString, attributes(strum))]
pub fn enum_string(i: TokenStream) -> TokenStream {
    let ast = parse(i);
    let n = &ast.ident;
    let arms: Vec<_> = variants(&ast).into_iter().map(|(v, _, s)| quote!(#(#s)|* => Ok(#n::#v))).collect();
    quote!(impl ::core::str::FromStr for #n { type Err = ::strum::ParseError; fn from_str(s: &str) -> Result<Self, ::strum::ParseError> { match s { #(#arms,)* _ => Err(::strum::ParseError::VariantNotFound) } } }
           impl<'a> ::core::convert::TryFrom<&'a str> for #n { type Error = ::strum::ParseError; fn try_from(s: &'a str) -> Result<Self, ::strum::ParseError> { s.parse() } }).into()
}
#[proc_macro_derive(EnumIter, attributes(strum))]
pub fn enum_iter(i: TokenStream) -> TokenStream {
    let ast = parse(i);
    let n = &ast.ident;
    let v: Vec<_> = variants(&ast).into_iter().map(|x| x.0).collect();
    quote!(impl ::strum::IntoEnumIterator for #n { type Iterator = ::std::vec::IntoIter<#n>; fn iter() -> Self::Iterator { vec![#(#n::#v),*].into_iter() } }).into()
}
#[proc_macro_derive(EnumCount, attributes(strum))]
pub fn enum_count(i: TokenStream) -> TokenStream {
    let ast = parse(i);
    let n = &ast.ident;
    let c = variants(&ast).len();
    quote!(impl ::strum::EnumCount for #n { const COUNT: usize = #c; }).into()
}
