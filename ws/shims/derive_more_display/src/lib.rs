//! `Display` of derive_more 0.99, for enums whose variants all say `#[display(fmt = "...")]`.
use proc_macro::TokenStream;
use quote::{format_ident, quote};

#[proc_macro_derive(Display, attributes(display))]
pub fn display(input: TokenStream) -> TokenStream {
    let d: syn::DeriveInput = syn::parse(input).unwrap();
    let syn::Data::Enum(e) = d.data else { panic!("an enum") };
    let name = d.ident;
    let arms = e.variants.iter().map(|v| {
        let mut fmt = v.ident.to_string();
        for a in v.attrs.iter().filter(|a| a.path().is_ident("display")) {
            a.parse_nested_meta(|m| {
                fmt = m.value()?.parse::<syn::LitStr>()?.value();
                Ok(())
            })
            .unwrap();
        }
        let id = &v.ident;
        let pat = match &v.fields {
            syn::Fields::Named(f) => {
                let n = f.named.iter().map(|f| f.ident.clone());
                quote!({ #(#n),* })
            }
            syn::Fields::Unnamed(f) => {
                let n = (0..f.unnamed.len()).map(|i| format_ident!("_{}", i));
                quote!(( #(#n),* ))
            }
            syn::Fields::Unit => quote!(),
        };
        quote!(#name::#id #pat => write!(f, #fmt))
    });
    quote! {
        impl ::std::fmt::Display for #name {
            #[allow(unused_variables)]
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                match self { #(#arms),* }
            }
        }
    }
    .into()
}
