#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::JsonSchema_repr;
#[derive(JsonSchema_repr)]
#[repr(u8)] enum E { A, B {} }
fn main() {}
