//! Stand-in for js-sys: byte arrays only.
pub use wasm_bindgen::JsValue;
#[derive(Clone, Debug)]
pub struct Uint8Array(Vec<u8>);
impl Uint8Array { pub fn to_vec(&self) -> Vec<u8> { self.0.clone() } pub fn length(&self) -> u32 { self.0.len() as u32 } }
impl From<&[u8]> for Uint8Array { fn from(b: &[u8]) -> Self { Uint8Array(b.to_vec()) } }
