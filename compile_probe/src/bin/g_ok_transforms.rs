#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
use schemars::transform::*;
#[derive(JsonSchema)] #[schemars(transform = f, transform = RestrictFormats::default(), transform = RecursiveTransform(f))] struct S { #[schemars(transform = m::g)] x: u8 } fn f(_: &mut Schema) {} mod m { pub fn g(_: &mut schemars::Schema) {} } #[derive(JsonSchema)] enum E { #[schemars(transform = f)] A, #[schemars(transform = f)] B { #[schemars(transform = f)] x: u8 } }
fn main() {}
