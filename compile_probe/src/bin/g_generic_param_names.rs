#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
macro_rules! g { ($($m:ident $t:ident)*) => { $(mod $m { #[derive(schemars::JsonSchema)] pub struct G<$t> { x: $t, y: ::core::option::Option<$t>, #[serde(default)] z: ::std::vec::Vec<$t> } #[derive(schemars::JsonSchema)] pub enum E<$t> { A($t), B { x: $t } } })* } }
g! { a T b S c D d E_ e Schema f Generator g Value h Option i Result j String k JsonSchema l Cow m Some n None o Self_ p V q K r Serializer s SchemaGenerator t Map u Default }
fn main() {}
