use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields, Index};

fn members(d: &Data) -> Vec<proc_macro2::TokenStream> {
    match d {
        Data::Struct(s) => match &s.fields {
            Fields::Named(n) => n.named.iter().map(|f| { let i = f.ident.clone().unwrap(); quote!(#i) }).collect(),
            Fields::Unnamed(n) => (0..n.unnamed.len()).map(|i| { let i = Index::from(i); quote!(#i) }).collect(),
            Fields::Unit => vec![],
        },
        _ => panic!("only structs"),
    }
}
#[proc_macro_derive(CanonicalSerialize)]
pub fn ser(input: TokenStream) -> TokenStream {
    let ast = parse_macro_input!(input as DeriveInput);
    let name = &ast.ident;
    let (ig, tg, wc) = ast.generics.split_for_impl();
    let m = members(&ast.data);
    quote! {
        impl #ig ark_serialize::CanonicalSerialize for #name #tg #wc {
            fn serialize<W: std::io::Write>(&self, mut writer: W) -> Result<(), ark_serialize::SerializationError> {
                #( ark_serialize::CanonicalSerialize::serialize(&self.#m, &mut writer)?; )* Ok(())
            }
            fn serialized_size(&self) -> usize { 0 #( + ark_serialize::CanonicalSerialize::serialized_size(&self.#m) )* }
            fn serialize_uncompressed<W: std::io::Write>(&self, mut writer: W) -> Result<(), ark_serialize::SerializationError> {
                #( ark_serialize::CanonicalSerialize::serialize_uncompressed(&self.#m, &mut writer)?; )* Ok(())
            }
            fn uncompressed_size(&self) -> usize { 0 #( + ark_serialize::CanonicalSerialize::uncompressed_size(&self.#m) )* }
        }
    }.into()
}
#[proc_macro_derive(CanonicalDeserialize)]
pub fn de(input: TokenStream) -> TokenStream {
    let ast = parse_macro_input!(input as DeriveInput);
    let name = &ast.ident;
    let (ig, tg, wc) = ast.generics.split_for_impl();
    let body = |f: &str| {
        let f = syn::Ident::new(f, proc_macro2::Span::call_site());
        match &ast.data {
            Data::Struct(s) => match &s.fields {
                Fields::Named(n) => { let i = n.named.iter().map(|f| f.ident.clone().unwrap());
                    quote!( Ok(#name { #( #i: ark_serialize::CanonicalDeserialize::#f(&mut reader)? ),* }) ) }
                Fields::Unnamed(n) => { let i = n.unnamed.iter().map(|_| quote!(ark_serialize::CanonicalDeserialize::#f(&mut reader)?));
                    quote!( Ok(#name ( #( #i ),* )) ) }
                Fields::Unit => quote!(Ok(#name)),
            },
            _ => panic!("only structs"),
        }
    };
    let (a, b, c) = (body("deserialize"), body("deserialize_uncompressed"), body("deserialize_unchecked"));
    quote! {
        impl #ig ark_serialize::CanonicalDeserialize for #name #tg #wc {
            fn deserialize<R: std::io::Read>(mut reader: R) -> Result<Self, ark_serialize::SerializationError> { #a }
            fn deserialize_uncompressed<R: std::io::Read>(mut reader: R) -> Result<Self, ark_serialize::SerializationError> { #b }
            fn deserialize_unchecked<R: std::io::Read>(mut reader: R) -> Result<Self, ark_serialize::SerializationError> { #c }
        }
    }.into()
}
