//! Documentation-only macro of the crate under test, without the SVG renderer (build time only:
//! it expands to the text of a doc attribute and never to code).
use proc_macro::TokenStream;
#[proc_macro]
pub fn transform(_input: TokenStream) -> TokenStream {
    "\"\"".parse().unwrap()
}
#[proc_macro_attribute]
pub fn transform_mdstr(_a: TokenStream, item: TokenStream) -> TokenStream {
    item
}
