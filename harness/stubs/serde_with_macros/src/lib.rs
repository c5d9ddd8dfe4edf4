//! Stand-in for `#[serde_as]`: rewrites `#[serde_as(as = "T")]` on fields to `#[serde(with = "As::<T>")]`.
use proc_macro::TokenStream;
use quote::quote;
use syn::visit_mut::VisitMut;
struct R;
impl VisitMut for R {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let syn::Type::Infer(_) = t {
            *t = syn::parse_quote!(::serde_with::Same);
        } else {
            syn::visit_mut::visit_type_mut(self, t);
        }
    }
}
fn fix(f: &mut syn::Field) {
    let mut out = Vec::new();
    for a in f.attrs.drain(..) {
        if !a.path().is_ident("serde_as") {
            out.push(a);
            continue;
        }
        a.parse_nested_meta(|m| {
            let key = m.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
            let s: syn::LitStr = m.value()?.parse()?;
            let mut ty: syn::Type = s.parse()?;
            R.visit_type_mut(&mut ty);
            let txt = format!("::serde_with::As::<{}>", quote!(#ty));
            match key.as_str() {
                "r#as" | "as" => out.push(syn::parse_quote!(#[serde(with = #txt)])),
                "serialize_as" => { let t = format!("{txt}::serialize"); out.push(syn::parse_quote!(#[serde(serialize_with = #t)])) }
                "deserialize_as" => { let t = format!("{txt}::deserialize"); out.push(syn::parse_quote!(#[serde(deserialize_with = #t)])) }
                _ => return Err(m.error("unsupported serde_as key")),
            }
            Ok(())
        })
        .expect("serde_as attribute");
    }
    f.attrs = out;
}
#[proc_macro_attribute]
pub fn serde_as(_args: TokenStream, input: TokenStream) -> TokenStream {
    let mut item = syn::parse_macro_input!(input as syn::Item);
    match &mut item {
        syn::Item::Struct(s) => s.fields.iter_mut().for_each(fix),
        syn::Item::Enum(e) => e.variants.iter_mut().for_each(|v| v.fields.iter_mut().for_each(fix)),
        _ => panic!("serde_as on unsupported item"),
    }
    quote!(#item).into()
}
