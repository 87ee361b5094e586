use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Fields, Index};

fn fields(input: &DeriveInput) -> (Vec<proc_macro2::TokenStream>, Vec<syn::Type>, bool, Vec<Option<syn::Ident>>) {
    match &input.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(n) => (
                n.named.iter().map(|f| { let i = &f.ident; quote!(#i) }).collect(),
                n.named.iter().map(|f| f.ty.clone()).collect(), true,
                n.named.iter().map(|f| f.ident.clone()).collect()),
            Fields::Unnamed(u) => (
                (0..u.unnamed.len()).map(|i| { let i = Index::from(i); quote!(#i) }).collect(),
                u.unnamed.iter().map(|f| f.ty.clone()).collect(), false,
                u.unnamed.iter().map(|_| None).collect()),
            Fields::Unit => (vec![], vec![], false, vec![]),
        },
        _ => panic!("only structs are supported by the stand-in derive"),
    }
}

#[proc_macro_derive(CanonicalSerialize)]
pub fn ser(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    let (accs, _, _, _) = fields(&input);
    quote! {
        impl #ig ark_serialize::CanonicalSerialize for #name #tg #wc {
            #[allow(unused_mut, unused_variables)]
            fn serialize_with_mode<W_: ark_serialize::Write>(&self, mut writer: W_, compress: ark_serialize::Compress) -> ::core::result::Result<(), ark_serialize::SerializationError> {
                #( ark_serialize::CanonicalSerialize::serialize_with_mode(&self.#accs, &mut writer, compress)?; )*
                Ok(())
            }
            #[allow(unused_mut, unused_variables)]
            fn serialized_size(&self, compress: ark_serialize::Compress) -> usize {
                let mut n = 0;
                #( n += ark_serialize::CanonicalSerialize::serialized_size(&self.#accs, compress); )*
                n
            }
        }
    }.into()
}

#[proc_macro_derive(CanonicalDeserialize)]
pub fn de(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    let (accs, tys, named, idents) = fields(&input);
    let vars: Vec<_> = (0..accs.len()).map(|i| format_ident!("f{}", i)).collect();
    let build = if named {
        let ids: Vec<_> = idents.iter().map(|i| i.clone().unwrap()).collect();
        quote!( Self { #( #ids: #vars ),* } )
    } else if accs.is_empty() { quote!(Self) } else { quote!( Self( #( #vars ),* ) ) };
    quote! {
        impl #ig ark_serialize::Valid for #name #tg #wc {
            fn check(&self) -> ::core::result::Result<(), ark_serialize::SerializationError> {
                #( ark_serialize::Valid::check(&self.#accs)?; )*
                Ok(())
            }
        }
        impl #ig ark_serialize::CanonicalDeserialize for #name #tg #wc {
            #[allow(unused_mut, unused_variables)]
            fn deserialize_with_mode<R_: ark_serialize::Read>(mut reader: R_, compress: ark_serialize::Compress, validate: ark_serialize::Validate) -> ::core::result::Result<Self, ark_serialize::SerializationError> {
                #( let #vars = <#tys as ark_serialize::CanonicalDeserialize>::deserialize_with_mode(&mut reader, compress, validate)?; )*
                Ok(#build)
            }
        }
    }.into()
}
