//! Derives of the `ssz_rs` stand-in: containers (named fields) and transparent enums.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Fields};

enum Shape {
    Struct(Vec<(syn::Ident, syn::Type)>),
    Enum(Vec<(syn::Ident, syn::Type)>),
}
fn shape(i: &DeriveInput) -> Shape {
    match &i.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(f) => Shape::Struct(f.named.iter().map(|f| (f.ident.clone().unwrap(), f.ty.clone())).collect()),
            _ => panic!("named fields only"),
        },
        Data::Enum(e) => Shape::Enum(
            e.variants
                .iter()
                .map(|v| match &v.fields {
                    Fields::Unnamed(f) if f.unnamed.len() == 1 => (v.ident.clone(), f.unnamed[0].ty.clone()),
                    _ => panic!("transparent enums only"),
                })
                .collect(),
        ),
        _ => panic!("unsupported"),
    }
}
fn wrap(i: &DeriveInput, tr: proc_macro2::TokenStream, body: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    let n = &i.ident;
    let (g, t, w) = i.generics.split_for_impl();
    quote!(impl #g #tr for #n #t #w { #body })
}
fn serializable(i: &DeriveInput) -> proc_macro2::TokenStream {
    match shape(i) {
        Shape::Struct(fs) => {
            let tys: Vec<_> = fs.iter().map(|f| &f.1).collect();
            let ids: Vec<_> = fs.iter().map(|f| &f.0).collect();
            let vars: Vec<_> = (0..fs.len()).map(|k| format_ident!("r{}", k)).collect();
            let a = wrap(i, quote!(::ssz_rs::Serializable), quote! {
                fn is_variable_size() -> bool { false #( || <#tys as ::ssz_rs::Serializable>::is_variable_size() )* }
                fn size_hint() -> usize {
                    if <Self as ::ssz_rs::Serializable>::is_variable_size() { return 0; }
                    0 #( + <#tys as ::ssz_rs::Serializable>::size_hint() )*
                }
            });
            let b = wrap(i, quote!(::ssz_rs::Serialize), quote! {
                fn serialize(&self, buffer: &mut ::std::vec::Vec<u8>) -> ::core::result::Result<usize, ::ssz_rs::SerializeError> {
                    let mut s = ::ssz_rs::__private::Parts::default();
                    #( s.add(&self.#ids)?; )*
                    s.finish(buffer)
                }
            });
            let c = wrap(i, quote!(::ssz_rs::Deserialize), quote! {
                fn deserialize(encoding: &[u8]) -> ::core::result::Result<Self, ::ssz_rs::DeserializeError> {
                    let layout = [ #( <#tys as ::ssz_rs::__private::Fixed>::fixed() ),* ];
                    let mut rs = ::ssz_rs::__private::split(encoding, &layout)?.into_iter();
                    #( let #vars = <#tys as ::ssz_rs::Deserialize>::deserialize(rs.next().unwrap())?; )*
                    ::core::result::Result::Ok(Self { #( #ids: #vars ),* })
                }
            });
            quote!(#a #b #c)
        }
        Shape::Enum(vs) => {
            let ids: Vec<_> = vs.iter().map(|v| &v.0).collect();
            let tys: Vec<_> = vs.iter().map(|v| &v.1).collect();
            let a = wrap(i, quote!(::ssz_rs::Serializable), quote! {
                fn is_variable_size() -> bool { true }
                fn size_hint() -> usize { 0 }
            });
            let b = wrap(i, quote!(::ssz_rs::Serialize), quote! {
                fn serialize(&self, buffer: &mut ::std::vec::Vec<u8>) -> ::core::result::Result<usize, ::ssz_rs::SerializeError> {
                    match self { #( Self::#ids(x) => ::ssz_rs::Serialize::serialize(x, buffer) ),* }
                }
            });
            let c = wrap(i, quote!(::ssz_rs::Deserialize), quote! {
                fn deserialize(encoding: &[u8]) -> ::core::result::Result<Self, ::ssz_rs::DeserializeError> {
                    #( if let ::core::result::Result::Ok(x) = <#tys as ::ssz_rs::Deserialize>::deserialize(encoding) {
                        return ::core::result::Result::Ok(Self::#ids(x));
                    } )*
                    ::core::result::Result::Err(::ssz_rs::DeserializeError::InvalidInput)
                }
            });
            quote!(#a #b #c)
        }
    }
}
fn hash_tree_root(i: &DeriveInput) -> proc_macro2::TokenStream {
    let body = match shape(i) {
        Shape::Struct(fs) => {
            let ids: Vec<_> = fs.iter().map(|f| &f.0).collect();
            quote! { ::ssz_rs::__private::container(vec![ #( ::ssz_rs::HashTreeRoot::tree(&self.#ids) ),* ]) }
        }
        Shape::Enum(vs) => {
            let ids: Vec<_> = vs.iter().map(|v| &v.0).collect();
            quote! { match self { #( Self::#ids(x) => ::ssz_rs::HashTreeRoot::tree(x) ),* } }
        }
    };
    wrap(i, quote!(::ssz_rs::HashTreeRoot), quote! { fn tree(&self) -> ::ssz_rs::Tree { #body } })
}
fn indexable(i: &DeriveInput) -> proc_macro2::TokenStream {
    let body = match shape(i) {
        Shape::Struct(fs) => {
            let n = fs.len();
            let tys: Vec<_> = fs.iter().map(|f| &f.1).collect();
            let names: Vec<_> = fs.iter().map(|f| f.0.to_string()).collect();
            let k: Vec<_> = (0..n).collect();
            quote! {
                fn chunk_count() -> usize { #n }
                fn compute_generalized_index(parent: ::ssz_rs::GeneralizedIndex, path: ::ssz_rs::Path) -> ::core::result::Result<::ssz_rs::GeneralizedIndex, ::ssz_rs::MerkleizationError> {
                    match path.split_first() {
                        None => ::core::result::Result::Ok(parent),
                        Some((::ssz_rs::PathElement::Field(f), rest)) => match f.as_str() {
                            #( #names => <#tys as ::ssz_rs::GeneralizedIndexable>::compute_generalized_index(
                                parent * #n.next_power_of_two() + #k, rest), )*
                            _ => ::core::result::Result::Err(::ssz_rs::MerkleizationError::InvalidPathElement),
                        },
                        _ => ::core::result::Result::Err(::ssz_rs::MerkleizationError::InvalidPathElement),
                    }
                }
            }
        }
        Shape::Enum(_) => quote! {
            fn chunk_count() -> usize { 1 }
            fn compute_generalized_index(parent: ::ssz_rs::GeneralizedIndex, path: ::ssz_rs::Path) -> ::core::result::Result<::ssz_rs::GeneralizedIndex, ::ssz_rs::MerkleizationError> {
                if path.is_empty() { return ::core::result::Result::Ok(parent); }
                ::core::result::Result::Err(::ssz_rs::MerkleizationError::InvalidPathElement)
            }
        },
    };
    wrap(i, quote!(::ssz_rs::GeneralizedIndexable), body)
}
fn prove(i: &DeriveInput) -> proc_macro2::TokenStream { wrap(i, quote!(::ssz_rs::Prove), quote!()) }

#[proc_macro_derive(Serializable, attributes(ssz))]
pub fn d_serializable(t: TokenStream) -> TokenStream { serializable(&parse_macro_input!(t as DeriveInput)).into() }
#[proc_macro_derive(HashTreeRoot, attributes(ssz))]
pub fn d_htr(t: TokenStream) -> TokenStream { hash_tree_root(&parse_macro_input!(t as DeriveInput)).into() }
#[proc_macro_derive(GeneralizedIndexable, attributes(ssz))]
pub fn d_gi(t: TokenStream) -> TokenStream { indexable(&parse_macro_input!(t as DeriveInput)).into() }
#[proc_macro_derive(Prove, attributes(ssz))]
pub fn d_prove(t: TokenStream) -> TokenStream { prove(&parse_macro_input!(t as DeriveInput)).into() }
#[proc_macro_derive(SimpleSerialize, attributes(ssz))]
pub fn d_all(t: TokenStream) -> TokenStream {
    let i = parse_macro_input!(t as DeriveInput);
    let (a, b, c, d) = (serializable(&i), hash_tree_root(&i), indexable(&i), prove(&i));
    let e = wrap(&i, quote!(::ssz_rs::SimpleSerialize), quote!());
    quote!(#a #b #c #d #e).into()
}
