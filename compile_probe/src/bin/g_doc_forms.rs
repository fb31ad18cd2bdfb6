#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::JsonSchema;
/** block
 * doc
 */
#[derive(JsonSchema)] pub struct A { #[doc = "attr doc"] a: u8, #[doc = concat!("a", "b")] b: u8, #[doc(hidden)] c: u8, /// 
 d: u8, /// #
 e: u8, /// # Only title
 f: u8, /// ```
/// code {} {{ " \ '
/// ```
 g: u8 }
/// Uses {braces} and "quotes" \n and ünïcödé
#[derive(JsonSchema)] pub enum E<T> { /// {T}
 A(T) }
fn main() {}
