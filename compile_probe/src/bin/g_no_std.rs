#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
#![no_std]
extern crate std as mystd;
pub mod m {
    use ::schemars;

    /// Title
    ///
    /// Some text
    #[derive(::schemars::JsonSchema)]
    
    #[schemars(title = "t", description = "d", example = 3, extend("x" = {"a": [1, null]}), deny_unknown_fields, transform = tr)]
    #[deprecated]
    pub struct S {
        /// Doc
        #[schemars(length(min = 1, max = 5), regex(pattern = "^x$"), extend("y" = true))]
        pub a: ::mystd::string::String,
        #[schemars(range(min = 1, max = 5))]
        pub b: ::core::option::Option<i32>,
        #[serde(default)]
        pub c: bool,
        #[schemars(required, contains("ab"))]
        pub d: ::core::option::Option<::mystd::string::String>,
        #[schemars(inner(url))]
        pub e: [::mystd::string::String; 2],
        #[schemars(email, title = "t2")]
        pub f: ::mystd::string::String,
        #[schemars(default = "dflt")]
        pub g: u8,
        #[serde(rename = "hh", skip_serializing)]
        pub h: (u8, ::mystd::string::String),
        #[schemars(with = "u64")]
        pub i: u16,
        #[schemars(schema_with = "sw")]
        pub j: u16,
        #[serde(skip)]
        pub k: u8,
        #[serde(flatten)]
        pub l: ::core::option::Option<F>,
    }
    #[derive(::schemars::JsonSchema)]
    
    pub struct F { pub z: u8 }
    #[derive(::schemars::JsonSchema)]
    
    pub enum Ext { A, B(u8), C(u8, ::mystd::string::String), D { x: u8, #[serde(default)] y: ::core::option::Option<u8> }, /// doc
        E, #[deprecated] G, #[serde(skip)] I, #[schemars(untagged)] H(u8) }
    #[derive(::schemars::JsonSchema)]
    
    #[serde(tag = "t", deny_unknown_fields)]
    pub enum Int { A, B(F), D { x: u8 } }
    #[derive(::schemars::JsonSchema)]
    
    #[serde(tag = "t", content = "c", rename_all = "kebab-case")]
    pub enum Adj { A, B(u8), C(u8, ::mystd::string::String), D { x: u8 } }
    #[derive(::schemars::JsonSchema)]
    
    #[serde(untagged)]
    pub enum Unt { A, B(u8), C(u8, ::mystd::string::String), D { x: u8 } }
    #[derive(::schemars::JsonSchema)]
    
    pub struct Unit;
    #[derive(::schemars::JsonSchema)]
    
    pub struct New(pub u8);
    #[derive(::schemars::JsonSchema)]
    
    pub struct Tup(pub u8, #[serde(skip)] pub u8, #[schemars(title = "x", range(min = 1))] pub u8);
    #[derive(::schemars::JsonSchema)]
    
    #[schemars(transparent)]
    pub struct Tr { #[schemars(description = "x")] pub x: u8 }
    #[derive(::schemars::JsonSchema)]
    
    #[schemars(rename = "G_{T}_{N}")]
    pub struct G<'a, T: ?::core::marker::Sized + 'a, U, const N: usize> where U: ::core::marker::Copy { pub t: &'a T, pub u: ::mystd::vec::Vec<U>, #[serde(default, serialize_with = "serw")] pub v: [u8; 3], #[serde(default, serialize_with = "serw")] pub w: ::core::option::Option<U> }
    pub fn serw<T, S: ::serde::Serializer>(_: &T, s: S) -> ::core::result::Result<S::Ok, S::Error> { ::serde::Serializer::serialize_u8(s, 1) }
    #[derive(::schemars::JsonSchema)]
    
    #[serde(default)]
    pub struct Dft { pub a: u8, #[serde(skip_serializing_if = "Self::no")] pub b: ::core::option::Option<u8> }
    impl Dft { pub fn no<T>(_: &T) -> bool { true } }
    impl ::core::default::Default for Dft { fn default() -> Self { loop {} } }
    #[derive(::schemars::JsonSchema_repr)]
    
    #[repr(u8)]
    pub enum R { A = 1, /// doc
        B = 5, C }
    #[derive(::schemars::JsonSchema)]
    
    #[schemars(_unstable_ref_variants, rename_all_fields = "camelCase")]
    pub enum RvE { A { some_x: ::mystd::vec::Vec<RvE> }, B(u8), C(u8, ::mystd::string::String), D, #[schemars(title = "x", with = "u8")] E(u8) }
    #[derive(::schemars::JsonSchema)]
    
    #[schemars(_unstable_ref_variants, tag = "t")]
    pub enum RvI<'a, T: ?::core::marker::Sized, const N: usize> where T: 'a { A { x: &'a T }, B(F), D }
    #[derive(::schemars::JsonSchema)]
    
    #[schemars(_unstable_ref_variants, tag = "t", content = "c")]
    pub enum RvA<T> { A { x: T }, B(F), D, #[schemars(untagged)] U(u8) }
    #[derive(::schemars::JsonSchema)]
    
    #[schemars(_unstable_ref_variants, untagged)]
    pub enum RvU { A { x: u8 }, B(F), D }
    /// doc
    #[derive(::schemars::JsonSchema)]
    
    #[schemars(inline, example = ex(), example = &"e", transform = <::schemars::transform::RemoveRefSiblings as ::core::default::Default>::default(), rename_all = "SCREAMING-KEBAB-CASE", bound = "T: ::schemars::JsonSchema", description = DESC_)]
    pub struct Big<T> {
        #[schemars(length(equal = 2), pattern("^x$"), description = DESC_, extend("a" = null, "b" = [1, {"c": true}]))]
        pub a: ::mystd::string::String,
        #[schemars(range(min = MIN_, max = MIN_ + 1), example = 1, example = ex())]
        pub b: ::core::option::Option<i32>,
        #[serde(default = "dflt", skip_serializing_if = "never")]
        pub c: u8,
        #[schemars(ip, inner(length(max = MIN_)))]
        pub d: ::mystd::vec::Vec<::mystd::string::String>,
        #[schemars(regex(pattern = PAT_))]
        pub e: ::mystd::string::String,
        #[schemars(flatten, transform = tr)]
        pub f: F,
        #[schemars(with = "::mystd::vec::Vec<T>", default)]
        pub g: u8,
        #[garde(length(min = 1), ascii)] #[validate(range(min = 1.5))]
        pub h: T,
        #[serde(with = "proxy", default)] #[schemars(with = "u8")]
        pub i: u8,
        #[schemars(schema_with = "m2::sw2", required)]
        pub j: ::core::option::Option<u8>,
        #[serde(rename(serialize = "ks", deserialize = "kd"), alias = "kk", skip_deserializing)]
        pub k: u8,
    }
    pub mod proxy { pub fn serialize<T, S: ::serde::Serializer>(_: &T, s: S) -> ::core::result::Result<S::Ok, S::Error> { ::serde::Serializer::serialize_u8(s, 1) } }
    impl ::schemars::JsonSchema for proxy_::P { fn schema_name() -> ::mystd::borrow::Cow<'static, str> { ::mystd::borrow::Cow::Borrowed("P") } fn json_schema(_: &mut ::schemars::SchemaGenerator) -> ::schemars::Schema { ::core::default::Default::default() } }
    pub mod proxy_ { pub struct P; }
    pub mod m2 { pub fn sw2(_: &mut ::schemars::SchemaGenerator) -> ::schemars::Schema { ::core::default::Default::default() } }
    #[derive(::schemars::JsonSchema)]
    
    #[serde(remote = "F")]
    pub struct FRem { pub z: u8 }
    #[derive(::schemars::JsonSchema)]
    
    #[schemars(with = "F")]
    pub struct Wi;
    #[derive(::schemars::JsonSchema)]
    
    #[serde(from = "F", into = "F")]
    pub struct Fi { pub q: u8 }
    #[derive(::schemars::JsonSchema)]
    
    #[serde(try_from = "F")]
    pub struct Tfi { pub q: u8 }
    #[derive(::schemars::JsonSchema)]
    
    pub enum Vw { #[schemars(with = "u8")] A(u16), #[schemars(schema_with = "sw")] B { z: u8 }, #[serde(with = "proxy_")] #[schemars(with = "proxy_::P")] C(u8), #[schemars(title = "z", extend("q" = 1))] D, #[serde(other)] O, #[schemars(transform = tr, example = 3)] E((u8,)) }
    #[derive(::schemars::JsonSchema)]
    
    #[serde(tag = "t")]
    pub struct Tagged { pub z: u8 }
    #[derive(::schemars::JsonSchema)]
    
    pub enum Never {}
    pub const DESC_: &'static str = "d";
    pub const MIN_: i32 = 1;
    pub const PAT_: &'static str = "^y$";
    pub fn ex() -> ::mystd::string::String { ::core::default::Default::default() }
    pub fn never(_: &u8) -> bool { false }
    pub fn tr(_: &mut ::schemars::Schema) {}
    pub fn dflt() -> u8 { 3 }
    pub fn sw(_: &mut ::schemars::SchemaGenerator) -> ::schemars::Schema { ::core::default::Default::default() }
}
fn main() {}
