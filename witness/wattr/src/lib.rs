//! A derive that expands to nothing and makes `#[serde(...)]` known, as serde's own derive does.
use proc_macro::TokenStream;

#[proc_macro_derive(Serde, attributes(serde))]
pub fn serde(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
