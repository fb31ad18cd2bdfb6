#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::JsonSchema;
macro_rules! mk { ($n:ident, $f:ident: $t:ty, $d:literal, $v:ident, $e:expr) => { #[derive(JsonSchema)] #[schemars(title = $d)] pub struct $n { #[doc = $d] #[schemars(example = $e)] pub $f: $t, pub g: Option<$t> } #[derive(JsonSchema)] pub enum $v { $n($n), #[doc = $d] B } } }
mk!(A, a: u8, "doc", V, 3 + 4);
mk!(A2, b: Vec<String>, "doc2", W, Vec::<String>::new());
fn main() {}
