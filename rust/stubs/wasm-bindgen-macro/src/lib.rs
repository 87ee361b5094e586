#[proc_macro_attribute]
pub fn wasm_bindgen(_a: proc_macro::TokenStream, item: proc_macro::TokenStream) -> proc_macro::TokenStream { item }
