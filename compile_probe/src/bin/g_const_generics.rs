#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::JsonSchema;
#[derive(JsonSchema)] pub struct A<const N: usize> { a: u8 }
#[derive(JsonSchema)] pub struct B<T, const N: usize, const M: bool, const K: char> { a: T }
#[derive(JsonSchema)] #[schemars(rename = "C{N}x{M}")] pub struct C<const N: usize, const M: i8> { a: u8 }
#[derive(JsonSchema)] pub enum E<const N: usize> { A, B(u8) }
fn main() { fn is<T: JsonSchema>() {} is::<A<3>>(); is::<B<u8, 3, true, 'c'>>(); is::<C<1, -2>>(); is::<E<5>>(); }
