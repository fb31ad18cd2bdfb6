#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
#[derive(schemars::JsonSchema)] pub struct S { schema: u8, generator: u8, gen: u8, r#type: u8, r#fn: u8, r#async: u8, SCHEMA: u8, GENERATOR: u8, value: u8, schemars: u8, core: u8, std: u8, alloc: u8, self_: u8, props: u8, obj: u8, def: u8, _x: u8, __: u8, #[serde(default)] default: u8, TITLE: u8, T: u8, u8: u8, str: u8, bool: bool }
fn main() {}
