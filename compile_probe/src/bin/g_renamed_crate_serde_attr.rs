#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
pub extern crate schemars as renamed; pub mod schemars {}
#[derive(renamed::JsonSchema)] #[schemars(crate = "renamed")] pub struct A<T> { #[schemars(length(min = 1))] a: String, t: T }
pub mod reexport { pub mod deep { pub use renamed as sch; } }
#[derive(renamed::JsonSchema)] #[schemars(crate = "crate::reexport::deep::sch")] pub enum E<T> { A(T), #[schemars(title = "x")] B { x: u8 }, C }
#[derive(renamed::JsonSchema_repr)] #[schemars(crate = "self::reexport::deep::sch")] #[repr(i8)] pub enum R { A = -1 }
#[derive(renamed::JsonSchema)] #[schemars(crate = "renamed", with = "u8")] pub struct W;
#[derive(renamed::JsonSchema)] #[schemars(crate = "renamed", transparent)] pub struct T2<T>(T);
fn main() {}
