//! Stand-in: the traits it is used on here are declared with native async functions.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn async_trait(_a: TokenStream, item: TokenStream) -> TokenStream { item }
