//! The attribute leaves the item as it is: no glue for JavaScript is generated.
#[proc_macro_attribute]
pub fn wasm_bindgen(_: proc_macro::TokenStream, item: proc_macro::TokenStream) -> proc_macro::TokenStream { item }
