#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
#![deny(warnings)]
#![deny(unused, missing_docs, missing_debug_implementations, unreachable_pub, non_camel_case_types, non_snake_case, non_upper_case_globals, deprecated, unsafe_code, trivial_casts, trivial_numeric_casts, unused_lifetimes, single_use_lifetimes, unused_import_braces, let_underscore_drop, elided_lifetimes_in_paths, explicit_outlives_requirements)]
//! Docs.
use schemars::{JsonSchema, JsonSchema_repr};
/// A
#[derive(JsonSchema, Debug)]
#[schemars(title = "t", example = 1, extend("x" = 2))]
pub(crate) struct A<T> { /// a
    a: T, #[schemars(length(min = 1), required)] b: Option<String>, #[serde(default)] c: u8, #[schemars(range(min = 1, max = 2))] d: u8, #[serde(flatten)] e: B }
#[derive(JsonSchema, Debug)] #[serde(rename_all = "camelCase")] struct B { some_field: u8 }
#[derive(JsonSchema, Debug)] enum E { A, B(u8), C { x: u8 } }
#[derive(JsonSchema, Debug)] #[serde(tag = "t")] enum I { A, C { x: u8 } }
#[derive(JsonSchema, Debug)] #[serde(untagged)] enum U { A(u8), C { x: u8 } }
#[derive(JsonSchema_repr, Debug)] #[repr(u8)] enum R { A = 1, B = 2 }
#[derive(JsonSchema, Debug)] #[schemars(transparent)] struct T(u8);
#[derive(JsonSchema, Debug)] #[schemars(with = "u8")] struct W(u8);
fn main() { fn is<T: JsonSchema>() {} is::<A<u8>>(); is::<E>(); is::<I>(); is::<U>(); is::<R>(); is::<T>(); is::<W>();
  let a = A { a: 1, b: None, c: 2, d: 3, e: B { some_field: 4 } }; let _x = (a.a, a.b, a.c, a.d, a.e.some_field); let _y = (E::A, E::B(1), E::C { x: 1 }, I::A, I::C { x: 1 }, U::A(1), U::C { x: 1 }, R::A, R::B);
  if let E::B(x) | E::C { x } = _y.1 { println!("{x}") } if let E::C { x } = _y.2 { println!("{x}") } if let I::C { x } = _y.4 { println!("{x}") } if let U::A(x) = _y.5 { println!("{x}") } if let U::C { x } = _y.6 { println!("{x}") } println!("{} {}", T(1).0, W(1).0); }
