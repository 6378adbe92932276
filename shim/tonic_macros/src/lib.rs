//! Stand-in for `tonic::async_trait`: native `async fn` in traits is enough here.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn async_trait(_attr: TokenStream, item: TokenStream) -> TokenStream {
    item
}
