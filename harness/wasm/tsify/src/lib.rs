//! `#[derive(Tsify)]` only writes TypeScript declarations and conversions that
//! go through serde: nothing to do here.
use proc_macro::TokenStream;

#[proc_macro_derive(Tsify, attributes(tsify))]
pub fn tsify(_item: TokenStream) -> TokenStream {
    TokenStream::new()
}
