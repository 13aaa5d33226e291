//! Stand-in for protobuf-convert 0.4: `#[derive(ProtobufConvert)]`.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{Attribute, Data, DeriveInput, Fields, LitStr, Path};

fn attrs(attrs: &[Attribute]) -> (Option<Path>, bool) {
    let (mut source, mut skip) = (None, false);
    for a in attrs.iter().filter(|a| a.path().is_ident("protobuf_convert")) {
        a.parse_nested_meta(|m| {
            if m.path.is_ident("skip") {
                skip = true;
            } else if m.path.is_ident("source") || m.path.is_ident("pb") {
                source = Some(m.value()?.parse::<LitStr>()?.parse()?);
            } else {
                panic!("unsupported protobuf_convert attribute");
            }
            Ok(())
        })
        .unwrap();
    }
    (source, skip)
}

#[proc_macro_derive(ProtobufConvert, attributes(protobuf_convert))]
pub fn derive(input: TokenStream) -> TokenStream {
    let ast: DeriveInput = syn::parse(input).unwrap();
    let name = &ast.ident;
    let (source, _) = attrs(&ast.attrs);
    let pb = source.expect("protobuf_convert(source) is required");
    let (to, from) = match &ast.data {
        Data::Struct(s) => {
            let (mut to, mut from) = (vec![], vec![]);
            assert!(!matches!(s.fields, Fields::Unnamed(_)), "named fields only");
            for f in &s.fields {
                let id = f.ident.as_ref().unwrap();
                if attrs(&f.attrs).1 {
                    from.push(quote!(#id: Default::default()));
                    continue;
                }
                let (set, get) = (format_ident!("set_{}", id), format_ident!("get_{}", id));
                to.push(quote!(msg.#set(ProtobufConvert::to_pb(&self.#id).into());));
                from.push(quote!(#id: ProtobufConvert::from_pb(pb.#get().to_owned())?));
            }
            (
                quote!(let mut msg = Self::ProtoStruct::new(); #(#to)* msg),
                quote!(Ok(Self { #(#from),* })),
            )
        }
        Data::Enum(e) => {
            let mut oneof = pb.clone();
            let last = oneof.segments.last_mut().unwrap();
            last.ident = format_ident!("{}_oneof_kind", last.ident);
            let (mut to, mut from) = (vec![], vec![]);
            for v in &e.variants {
                let id = &v.ident;
                let set = format_ident!("set_{}", id);
                to.push(quote!(#name::#id(x) => msg.#set(ProtobufConvert::to_pb(x).into())));
                from.push(quote!(Some(#oneof::#id(x)) => ProtobufConvert::from_pb(x).map(#name::#id)));
            }
            (
                quote!(let mut msg = Self::ProtoStruct::new(); match self { #(#to),* } msg),
                quote!(match pb.kind { #(#from,)* None => Err(::anyhow::format_err!("Failed to decode protobuf")) }),
            )
        }
        Data::Union(_) => panic!("unions are not supported"),
    };
    quote! {
        impl ProtobufConvert for #name {
            type ProtoStruct = #pb;
            fn to_pb(&self) -> Self::ProtoStruct { #to }
            fn from_pb(pb: Self::ProtoStruct) -> ::std::result::Result<Self, ::anyhow::Error> { #from }
        }
    }
    .into()
}
