#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
use schemars::JsonSchema_repr; macro_rules! r { ($($n:ident $t:ident),*) => { $(#[derive(JsonSchema_repr)] #[repr($t)] #[schemars(title = "x")] enum $n { A = 1, #[schemars(title = "x")] B, C = 5 })* } } r!(A u8, B u16, C u32, D u64, E i8, F i16, G i32, H i64, I usize, J isize);
fn main() {}
