#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
#[derive(schemars::JsonSchema)] pub struct G<'a, 'b: 'a, 'gen_, 'de, 's, T: 'a> { a: &'a T, b: &'b str, c: &'gen_ str, d: &'de [u8], e: ::std::borrow::Cow<'s, str> }
fn main() {}
