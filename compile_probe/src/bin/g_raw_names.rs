#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
#[derive(schemars::JsonSchema)] pub struct r#type { r#struct: u8, r#in: Option<u8> }
#[derive(schemars::JsonSchema)] pub enum r#match { r#enum, r#mod(u8), r#impl { r#use: u8 } }
#[derive(schemars::JsonSchema)] pub struct G<r#fn> { x: r#fn }
fn main() {}
