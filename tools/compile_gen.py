#!/usr/bin/env python3
"""Writes the compile witnesses of C42: compile_probe/src/bin/{g,b}_*.rs."""
import os, re, shutil
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'compile_probe', 'src', 'bin')
cases = {}
HEAD = '#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]\n'
def add(kind, name, body):
    k = kind + '_' + name
    assert k not in cases, k
    cases[k] = HEAD + body.strip('\n') + '\n' + ('' if 'fn main' in body else 'fn main() {}\n')
def good(name, body): add('g', name, body)
def bad(name, body): add('b', name, body)
U = 'use schemars::{JsonSchema, Schema, SchemaGenerator};\n'
IS = 'fn is<T: JsonSchema>() {}\nstruct No;\n'

# ------------------------------------------------------------ hygiene
ALL = '''
    /// Title
    ///
    /// Some text
    #[derive({P}JsonSchema)]
    {A}
    #[schemars(title = "t", description = "d", example = 3, extend("x" = {{"a": [1, null]}}), deny_unknown_fields, transform = tr)]
    #[deprecated]
    pub struct S {{
        /// Doc
        #[schemars(length(min = 1, max = 5), regex(pattern = "^x$"), extend("y" = true))]
        pub a: {STR},
        #[schemars(range(min = 1, max = 5))]
        pub b: {OPT}<i32>,
        #[serde(default)]
        pub c: bool,
        #[schemars(required, contains("ab"))]
        pub d: {OPT}<{STR}>,
        #[schemars(inner(url))]
        pub e: [{STR}; 2],
        #[schemars(email, title = "t2")]
        pub f: {STR},
        #[schemars(default = "dflt")]
        pub g: u8,
        #[serde(rename = "hh", skip_serializing)]
        pub h: (u8, {STR}),
        #[schemars(with = "u64")]
        pub i: u16,
        #[schemars(schema_with = "sw")]
        pub j: u16,
        #[serde(skip)]
        pub k: u8,
        #[serde(flatten)]
        pub l: {OPT}<F>,
    }}
    #[derive({P}JsonSchema)]
    {A}
    pub struct F {{ pub z: u8 }}
    #[derive({P}JsonSchema)]
    {A}
    pub enum Ext {{ A, B(u8), C(u8, {STR}), D {{ x: u8, #[serde(default)] y: {OPT}<u8> }}, /// doc
        E, #[deprecated] G, #[serde(skip)] I, #[schemars(untagged)] H(u8) }}
    #[derive({P}JsonSchema)]
    {A}
    #[serde(tag = "t", deny_unknown_fields)]
    pub enum Int {{ A, B(F), D {{ x: u8 }} }}
    #[derive({P}JsonSchema)]
    {A}
    #[serde(tag = "t", content = "c", rename_all = "kebab-case")]
    pub enum Adj {{ A, B(u8), C(u8, {STR}), D {{ x: u8 }} }}
    #[derive({P}JsonSchema)]
    {A}
    #[serde(untagged)]
    pub enum Unt {{ A, B(u8), C(u8, {STR}), D {{ x: u8 }} }}
    #[derive({P}JsonSchema)]
    {A}
    pub struct Unit;
    #[derive({P}JsonSchema)]
    {A}
    pub struct New(pub u8);
    #[derive({P}JsonSchema)]
    {A}
    pub struct Tup(pub u8, #[serde(skip)] pub u8, #[schemars(title = "x", range(min = 1))] pub u8);
    #[derive({P}JsonSchema)]
    {A}
    #[schemars(transparent)]
    pub struct Tr {{ #[schemars(description = "x")] pub x: u8 }}
    #[derive({P}JsonSchema)]
    {A}
    #[schemars(rename = "G_{{T}}_{{N}}")]
    pub struct G<'a, T: ?::core::marker::Sized + 'a, U, const N: usize> where U: {CPY} {{ pub t: &'a T, pub u: {VEC}<U>, #[serde(default, serialize_with = "serw")] pub v: [u8; 3], #[serde(default, serialize_with = "serw")] pub w: {OPT}<U> }}
    pub fn serw<T, S: ::serde::Serializer>(_: &T, s: S) -> ::core::result::Result<S::Ok, S::Error> {{ ::serde::Serializer::serialize_u8(s, 1) }}
    #[derive({P}JsonSchema)]
    {A}
    #[serde(default)]
    pub struct Dft {{ pub a: u8, #[serde(skip_serializing_if = "Self::no")] pub b: {OPT}<u8> }}
    impl Dft {{ pub fn no<T>(_: &T) -> bool {{ true }} }}
    impl ::core::default::Default for Dft {{ fn default() -> Self {{ loop {{}} }} }}
    #[derive({P}JsonSchema_repr)]
    {A}
    #[repr(u8)]
    pub enum R {{ A = 1, /// doc
        B = 5, C }}
    #[derive({P}JsonSchema)]
    {A}
    #[schemars(_unstable_ref_variants, rename_all_fields = "camelCase")]
    pub enum RvE {{ A {{ some_x: {VEC}<RvE> }}, B(u8), C(u8, {STR}), D, #[schemars(title = "x", with = "u8")] E(u8) }}
    #[derive({P}JsonSchema)]
    {A}
    #[schemars(_unstable_ref_variants, tag = "t")]
    pub enum RvI<'a, T: ?::core::marker::Sized, const N: usize> where T: 'a {{ A {{ x: &'a T }}, B(F), D }}
    #[derive({P}JsonSchema)]
    {A}
    #[schemars(_unstable_ref_variants, tag = "t", content = "c")]
    pub enum RvA<T> {{ A {{ x: T }}, B(F), D, #[schemars(untagged)] U(u8) }}
    #[derive({P}JsonSchema)]
    {A}
    #[schemars(_unstable_ref_variants, untagged)]
    pub enum RvU {{ A {{ x: u8 }}, B(F), D }}
    /// doc
    #[derive({P}JsonSchema)]
    {A}
    #[schemars(inline, example = ex(), example = &"e", transform = <{X}transform::RemoveRefSiblings as ::core::default::Default>::default(), rename_all = "SCREAMING-KEBAB-CASE", bound = "T: {X}JsonSchema", description = DESC_)]
    pub struct Big<T> {{
        #[schemars(length(equal = 2), pattern("^x$"), description = DESC_, extend("a" = null, "b" = [1, {{"c": true}}]))]
        pub a: {STR},
        #[schemars(range(min = MIN_, max = MIN_ + 1), example = 1, example = ex())]
        pub b: {OPT}<i32>,
        #[serde(default = "dflt", skip_serializing_if = "never")]
        pub c: u8,
        #[schemars(ip, inner(length(max = MIN_)))]
        pub d: {VEC}<{STR}>,
        #[schemars(regex(pattern = PAT_))]
        pub e: {STR},
        #[schemars(flatten, transform = tr)]
        pub f: F,
        #[schemars(with = "{VEC}<T>", default)]
        pub g: u8,
        #[garde(length(min = 1), ascii)] #[validate(range(min = 1.5))]
        pub h: T,
        #[serde(with = "proxy", default)] #[schemars(with = "u8")]
        pub i: u8,
        #[schemars(schema_with = "m2::sw2", required)]
        pub j: {OPT}<u8>,
        #[serde(rename(serialize = "ks", deserialize = "kd"), alias = "kk", skip_deserializing)]
        pub k: u8,
    }}
    pub mod proxy {{ pub fn serialize<T, S: ::serde::Serializer>(_: &T, s: S) -> ::core::result::Result<S::Ok, S::Error> {{ ::serde::Serializer::serialize_u8(s, 1) }} }}
    impl {X}JsonSchema for proxy_::P {{ fn schema_name() -> {COW}<'static, str> {{ {COW}::Borrowed("P") }} fn json_schema(_: &mut {X}SchemaGenerator) -> {X}Schema {{ {DEF} }} }}
    pub mod proxy_ {{ pub struct P; }}
    pub mod m2 {{ pub fn sw2(_: &mut {X2}SchemaGenerator) -> {X2}Schema {{ {DEF} }} }}
    #[derive({P}JsonSchema)]
    {A}
    #[serde(remote = "F")]
    pub struct FRem {{ pub z: u8 }}
    #[derive({P}JsonSchema)]
    {A}
    #[schemars(with = "F")]
    pub struct Wi;
    #[derive({P}JsonSchema)]
    {A}
    #[serde(from = "F", into = "F")]
    pub struct Fi {{ pub q: u8 }}
    #[derive({P}JsonSchema)]
    {A}
    #[serde(try_from = "F")]
    pub struct Tfi {{ pub q: u8 }}
    #[derive({P}JsonSchema)]
    {A}
    pub enum Vw {{ #[schemars(with = "u8")] A(u16), #[schemars(schema_with = "sw")] B {{ z: u8 }}, #[serde(with = "proxy_")] #[schemars(with = "proxy_::P")] C(u8), #[schemars(title = "z", extend("q" = 1))] D, #[serde(other)] O, #[schemars(transform = tr, example = 3)] E((u8,)) }}
    #[derive({P}JsonSchema)]
    {A}
    #[serde(tag = "t")]
    pub struct Tagged {{ pub z: u8 }}
    #[derive({P}JsonSchema)]
    {A}
    pub enum Never {{}}
    pub const DESC_: &'static str = "d";
    pub const MIN_: i32 = 1;
    pub const PAT_: &'static str = "^y$";
    pub fn ex() -> {STR} {{ ::core::default::Default::default() }}
    pub fn never(_: &u8) -> bool {{ false }}
    pub fn tr(_: &mut {X}Schema) {{}}
    pub fn dflt() -> u8 {{ 3 }}
    pub fn sw(_: &mut {X}SchemaGenerator) -> {X}Schema {{ {DEF} }}
'''
def mod(pre, VEC='::std::vec::Vec', STR='::std::string::String', OPT='::core::option::Option', CPY='::core::marker::Copy', P='::schemars::', X='::schemars::', X2='', COW='::std::borrow::Cow', A='', DEF='::core::default::Default::default()'):
    X2 = X2 or X
    return 'pub mod m {\n' + pre + ALL.format(**locals()) + '}\n'
ALIAS = '    use ::schemars;\n'
good('no_std', '#![no_std]\nextern crate std as mystd;\n' + mod(ALIAS, VEC='::mystd::vec::Vec', STR='::mystd::string::String', COW='::mystd::borrow::Cow'))
good('plain', mod(ALIAS))
def shadow(name, items): good('shadow_' + name, mod(ALIAS + '    ' + items.strip() + '\n'))
shadow('option', 'pub struct Option; pub struct Some; pub struct None;')
shadow('option_fns', 'pub fn Some() {} pub fn Ok() {} pub const None: u8 = 0; pub fn Err() {}')
shadow('option_enum', 'pub enum Bogus { Some, None, Ok, Err } pub use Bogus::*;')
shadow('result', 'pub struct Result; pub struct Ok; pub struct Err;')
shadow('result_alias', 'pub type Result<T> = ::core::result::Result<T, ()>; pub type Option = u8;')
shadow('string', 'pub struct String; pub struct Vec; pub struct Box; pub struct ToString; pub struct ToOwned;')
shadow('traits', 'pub trait Into {} pub trait From {} pub trait Default {} pub trait Iterator {} pub trait IntoIterator {} pub trait Extend {} pub trait Clone {} pub trait AsRef {}')
shadow('traits2', 'pub trait Copy {} pub trait Send {} pub trait Sync {} pub trait Sized {} pub trait Drop {} pub trait Fn {} pub trait FnOnce {} pub trait FnMut {} pub trait PartialEq {} pub trait Eq {} pub trait Ord {}')
shadow('std_mod', 'pub mod std {}')
shadow('core_mod', 'pub mod core {}')
shadow('alloc_mod', 'pub mod alloc {}')
shadow('serde_json_mod', 'pub mod serde_json {} pub mod serde {}')
shadow('cow', 'pub struct Cow; pub struct Value; pub struct Map; pub struct Number;')
shadow('schema_types', 'pub struct Schema; pub struct SchemaGenerator; pub struct JsonSchema; pub struct Transform; pub struct Contract;')
shadow('schema_traits', 'pub trait JsonSchema {} pub trait Transform {} pub trait GenTransform {}')
shadow('private_mods', 'pub mod _private {} pub mod transform {} pub mod generate {} pub mod consts {}')
shadow('macros', '''macro_rules! format { () => {} } macro_rules! vec { () => {} } macro_rules! json { () => {} } macro_rules! json_schema { () => {} } macro_rules! concat { () => {} } macro_rules! module_path { () => {} }
    macro_rules! stringify { () => {} } macro_rules! assert { () => {} } macro_rules! panic { () => {} } macro_rules! matches { () => {} } macro_rules! line { () => {} } macro_rules! env { () => {} }''')
shadow('macros2', 'macro_rules! schema_for { () => {} } macro_rules! _schemars_maybe_to_value { () => {} } macro_rules! _schemars_maybe_schema_id { () => {} } macro_rules! write { () => {} } macro_rules! unreachable { () => {} } macro_rules! todo { () => {} }')
shadow('vars', 'pub const SCHEMA: u8 = 0; pub static GENERATOR: u8 = 0; pub const GEN: u8 = 0; pub const CONTRACT: u8 = 0; pub const STRUCT_DEFAULT: u8 = 0; pub static MAP: u8 = 0; pub const X: u8 = 0; pub const T_: u8 = 0;')
shadow('title_consts', 'pub const TITLE: u8 = 0; pub const DESCRIPTION: u8 = 0; pub const DEFAULT: u8 = 0; pub const NAME: u8 = 0;')
shadow('fns', 'pub fn drop() {} pub fn into() {} pub fn insert() {} pub fn new_unit_enum_variant() {} pub fn flatten() {} pub fn insert_object_property() {} pub fn to_value() {} pub fn format() {} pub fn size_of() {}')
shadow('helper_fns', 'pub fn json_schema() {} pub fn schema_name() {} pub fn schema_id() {} pub fn inline_schema() {} pub fn is_option() {} pub fn default() {} pub fn serialize() {}')
shadow('generic_names', 'pub struct T; pub struct U; pub struct D; pub struct S_; pub struct K; pub struct V; pub struct A;')
shadow('methods', '''pub trait Ext1 { fn into(&self) -> u8 { 0 } fn insert(&self) {} fn to_string(&self) -> u8 { 0 } fn extend(&self) {} fn collect(&self) {} fn to_value(&self) {} }
    impl Ext1 for S {} impl Ext1 for Tr {} impl Ext1 for G<'_, u8, u8, 1> {}''')
shadow('self_assoc', '''impl S { pub fn json_schema() {} pub fn schema_name() -> u8 { 0 } pub fn schema_id() -> u8 { 0 } pub fn inline_schema() -> u8 { 0 } pub fn _schemars_private_is_option() {} pub fn to_string(&self) {} pub fn serialize(&self) {} pub fn default() {} } impl Dft { pub fn default(_: u8) {} }
    impl Ext { pub fn json_schema() {} pub fn schema_name() {} } impl Tr { pub fn schema_name() {} pub fn json_schema() {} }''')
for n in ('Option', 'Result', 'String', 'Vec', 'Box', 'Schema', 'SchemaGenerator', 'JsonSchema', 'Cow', 'Value', 'Map', 'Serialize', 'Default', 'Self_', 'Some', 'None', 'Ok', 'Err', 'Object'):
    if n in ('Some', 'None', 'Ok', 'Err', 'Object', 'Self_'):
        good('named_' + n.lower(), '#[derive(schemars::JsonSchema)] pub struct %s { a: u8, #[serde(default)] b: ::core::option::Option<u8>, #[schemars(title = "x", range(min = 1))] c: u8 }' % n)
    else:
        good('named_' + n.lower(), '#[derive(schemars::JsonSchema)] pub struct %s { a: u8, #[serde(default)] b: ::core::option::Option<u8>, #[schemars(title = "x", range(min = 1))] c: u8 }\n#[derive(schemars::JsonSchema)] pub enum E { %s, B(%s) }' % (n, n, n))
good('variant_names', '#[derive(schemars::JsonSchema)] pub enum E { Some, None, Ok, Err, Option, Result, String, Vec, Schema, JsonSchema, Cow(u8), Value { Map: u8 }, Object, Default, T, U }\n'
     '#[derive(schemars::JsonSchema)] #[serde(tag = "t")] pub enum I { Some, None, Ok { String: u8 }, Err, Option, Result }\n#[derive(schemars::JsonSchema)] #[serde(untagged)] pub enum N { Some(u8), None, Ok { Box: u8 } }')
good('field_names', '#[derive(schemars::JsonSchema)] pub struct S { schema: u8, generator: u8, gen: u8, r#type: u8, r#fn: u8, r#async: u8, SCHEMA: u8, GENERATOR: u8, value: u8, schemars: u8, core: u8, std: u8, alloc: u8, self_: u8, props: u8, obj: u8, def: u8, _x: u8, __: u8, #[serde(default)] default: u8, TITLE: u8, T: u8, u8: u8, str: u8, bool: bool }')
good('raw_names', '#[derive(schemars::JsonSchema)] pub struct r#type { r#struct: u8, r#in: Option<u8> }\n#[derive(schemars::JsonSchema)] pub enum r#match { r#enum, r#mod(u8), r#impl { r#use: u8 } }\n#[derive(schemars::JsonSchema)] pub struct G<r#fn> { x: r#fn }')
good('generic_param_names', 'macro_rules! g { ($($m:ident $t:ident)*) => { $(mod $m { #[derive(schemars::JsonSchema)] pub struct G<$t> { x: $t, y: ::core::option::Option<$t>, #[serde(default)] z: ::std::vec::Vec<$t> } #[derive(schemars::JsonSchema)] pub enum E<$t> { A($t), B { x: $t } } })* } }\n'
     'g! { a T b S c D d E_ e Schema f Generator g Value h Option i Result j String k JsonSchema l Cow m Some n None o Self_ p V q K r Serializer s SchemaGenerator t Map u Default }')
good('lifetime_names', "#[derive(schemars::JsonSchema)] pub struct G<'a, 'b: 'a, 'gen_, 'de, 's, T: 'a> { a: &'a T, b: &'b str, c: &'gen_ str, d: &'de [u8], e: ::std::borrow::Cow<'s, str> }")
good('const_generics', 'use schemars::JsonSchema;\n#[derive(JsonSchema)] pub struct A<const N: usize> { a: u8 }\n#[derive(JsonSchema)] pub struct B<T, const N: usize, const M: bool, const K: char> { a: T }\n#[derive(JsonSchema)] #[schemars(rename = "C{N}x{M}")] pub struct C<const N: usize, const M: i8> { a: u8 }\n#[derive(JsonSchema)] pub enum E<const N: usize> { A, B(u8) }\n'
     'fn main() { fn is<T: JsonSchema>() {} is::<A<3>>(); is::<B<u8, 3, true, \'c\'>>(); is::<C<1, -2>>(); is::<E<5>>(); }')
good('renamed_crate', 'extern crate schemars as renamed; pub mod schemars {}\n' + mod('', P='::renamed::', X='::renamed::', A='#[schemars(crate = "::renamed")]'))
good('renamed_crate_serde_attr', 'pub extern crate schemars as renamed; pub mod schemars {}\n#[derive(renamed::JsonSchema)] #[schemars(crate = "renamed")] pub struct A<T> { #[schemars(length(min = 1))] a: String, t: T }\n'
     'pub mod reexport { pub mod deep { pub use renamed as sch; } }\n#[derive(renamed::JsonSchema)] #[schemars(crate = "crate::reexport::deep::sch")] pub enum E<T> { A(T), #[schemars(title = "x")] B { x: u8 }, C }\n#[derive(renamed::JsonSchema_repr)] #[schemars(crate = "self::reexport::deep::sch")] #[repr(i8)] pub enum R { A = -1 }\n'
     '#[derive(renamed::JsonSchema)] #[schemars(crate = "renamed", with = "u8")] pub struct W;\n#[derive(renamed::JsonSchema)] #[schemars(crate = "renamed", transparent)] pub struct T2<T>(T);')
good('no_import', '#[derive(schemars::JsonSchema)] pub struct A<T> { a: T, #[serde(default)] b: u8, #[schemars(example = 1, extend("x" = 1))] c: u8 }\n#[derive(schemars::JsonSchema)] pub enum E { A, B { x: u8 } }')
good('in_fn', 'use schemars::JsonSchema;\nfn f() { #[derive(JsonSchema)] struct L { a: u8 } #[derive(JsonSchema)] enum E { A(L) } fn is<T: JsonSchema>() {} is::<E>(); }')
good('via_macro_rules', 'use schemars::JsonSchema;\nmacro_rules! mk { ($n:ident, $f:ident: $t:ty, $d:literal, $v:ident, $e:expr) => { #[derive(JsonSchema)] #[schemars(title = $d)] pub struct $n { #[doc = $d] #[schemars(example = $e)] pub $f: $t, pub g: Option<$t> } #[derive(JsonSchema)] pub enum $v { $n($n), #[doc = $d] B } } }\nmk!(A, a: u8, "doc", V, 3 + 4);\nmk!(A2, b: Vec<String>, "doc2", W, Vec::<String>::new());')
good('doc_forms', 'use schemars::JsonSchema;\n/** block\n * doc\n */\n#[derive(JsonSchema)] pub struct A { #[doc = "attr doc"] a: u8, #[doc = concat!("a", "b")] b: u8, #[doc(hidden)] c: u8, /// \n d: u8, /// #\n e: u8, /// # Only title\n f: u8, /// ```\n/// code {} {{ " \\ \'\n/// ```\n g: u8 }\n/// Uses {braces} and "quotes" \\n and ünïcödé\n#[derive(JsonSchema)] pub enum E<T> { /// {T}\n A(T) }')
good('private_types', 'mod m { use schemars::JsonSchema; #[derive(JsonSchema)] pub(crate) struct A(B); #[derive(JsonSchema)] struct B { c: Vec<C> } #[derive(JsonSchema)] enum C { X(Box<B>) } }')
good('lints', '''#![deny(warnings)]
#![deny(unused, missing_docs, missing_debug_implementations, unreachable_pub, non_camel_case_types, non_snake_case, non_upper_case_globals, deprecated, unsafe_code, trivial_casts, trivial_numeric_casts, unused_lifetimes, single_use_lifetimes, unused_import_braces, let_underscore_drop, elided_lifetimes_in_paths, explicit_outlives_requirements)]
//! Docs.
use schemars::{JsonSchema, JsonSchema_repr};
/// A
#[derive(JsonSchema, Debug)]
#[schemars(title = "t", example = 1, extend("x" = 2))]
pub(crate) struct A<T> { /// a
    a: T, #[schemars(length(min = 1), required)] b: Option<String>, #[serde(default)] c: u8, #[schemars(range(min = 1, max = 2))] d: u8, #[serde(flatten)] e: B }
#[derive(JsonSchema, Debug)] #[serde(rename_all = "camelCase")] struct B { some_field: u8 }
#[derive(JsonSchema, Debug)] enum E { A, B(u8), C { x: u8 } }
#[derive(JsonSchema, Debug)] #[serde(tag = "t")] enum I { A, C { x: u8 } }
#[derive(JsonSchema, Debug)] #[serde(untagged)] enum U { A(u8), C { x: u8 } }
#[derive(JsonSchema_repr, Debug)] #[repr(u8)] enum R { A = 1, B = 2 }
#[derive(JsonSchema, Debug)] #[schemars(transparent)] struct T(u8);
#[derive(JsonSchema, Debug)] #[schemars(with = "u8")] struct W(u8);
fn main() { fn is<T: JsonSchema>() {} is::<A<u8>>(); is::<E>(); is::<I>(); is::<U>(); is::<R>(); is::<T>(); is::<W>();
  let a = A { a: 1, b: None, c: 2, d: 3, e: B { some_field: 4 } }; let _x = (a.a, a.b, a.c, a.d, a.e.some_field); let _y = (E::A, E::B(1), E::C { x: 1 }, I::A, I::C { x: 1 }, U::A(1), U::C { x: 1 }, R::A, R::B);
  if let E::B(x) | E::C { x } = _y.1 { println!("{x}") } if let E::C { x } = _y.2 { println!("{x}") } if let I::C { x } = _y.4 { println!("{x}") } if let U::A(x) = _y.5 { println!("{x}") } if let U::C { x } = _y.6 { println!("{x}") } println!("{} {}", T(1).0, W(1).0); }
''')
# ------------------------------------------------------------ bounds
BD = U + IS
def bgood(name, decl, *uses): good('bound_' + name, BD + decl + '\nfn main() { %s }' % ' '.join('is::<%s>();' % u for u in uses))
def bbad(name, decl, use): bad('bound_' + name, BD + decl + '\nfn main() { is::<%s>(); }' % use)
bgood('used', '#[derive(JsonSchema)] struct G<T> { t: T }', 'G<u8>', 'G<G<String>>')
bbad('used', '#[derive(JsonSchema)] struct G<T> { t: T }', 'G<No>')
bgood('skip', '#[derive(JsonSchema)] struct G<T> { #[serde(skip)] t: T, u: u8 }', 'G<No>')
bgood('skip_both', '#[derive(JsonSchema)] struct G<T> { #[serde(skip_serializing, skip_deserializing)] t: T, u: u8 }', 'G<No>')
bgood('skip_schemars', '#[derive(JsonSchema)] struct G<T> { #[schemars(skip)] t: T, u: u8 }', 'G<No>')
bgood('skip_variant', '#[derive(JsonSchema)] enum G<T> { A, #[serde(skip)] B(T), C { #[serde(skip)] x: T } }', 'G<No>')
bgood('phantom', '#[derive(JsonSchema)] struct G<T> { t: std::marker::PhantomData<T>, u: u8 }\n#[derive(JsonSchema)] struct H<T>(core::marker::PhantomData<T>);', 'G<No>', 'H<No>')
bgood('with', '#[derive(JsonSchema)] struct G<T> { #[schemars(with = "u8")] t: T, #[serde(with = "String")] u: Vec<T> }', 'G<No>')
bgood('schema_with', 'fn f(_: &mut SchemaGenerator) -> Schema { Schema::default() }\nfn f2<T>(_: &mut SchemaGenerator) -> Schema { Schema::default() }\n#[derive(JsonSchema)] struct G<T> { #[schemars(schema_with = "f")] t: T, #[schemars(schema_with = "f2::<T>")] u: Vec<T> }\n#[derive(JsonSchema)] enum E<T> { A(#[schemars(schema_with = "f")] T) }', 'G<No>', 'E<No>')
bgood('half_skip_ok', '#[derive(JsonSchema)] struct G<T> { #[serde(skip_serializing)] t: T }\n#[derive(JsonSchema)] struct H<T: Default> { #[serde(skip_deserializing)] t: T }', 'G<u8>', 'H<u8>')
bgood('assoc', 'trait Tr { type A; } impl Tr for No { type A = u8; }\n#[derive(JsonSchema)] #[schemars(bound = "T::A: JsonSchema")] struct G<T: Tr> { t: T::A }\n#[derive(JsonSchema)] struct H<T: Tr> { #[schemars(bound = "T::A: JsonSchema")] t: T::A, #[serde(skip)] x: Option<T> }', 'G<No>', 'H<No>')
TA = 'trait Tr { type A; } impl Tr for No { type A = u8; } impl JsonSchema for No { fn schema_name() -> std::borrow::Cow<\'static, str> { "No".into() } fn json_schema(_: &mut SchemaGenerator) -> Schema { Schema::default() } }\n'
bgood('assoc_renamed', TA + '#[derive(JsonSchema)] #[schemars(rename = "G{T}")] struct G<T: Tr> { #[schemars(bound = "T::A: JsonSchema")] t: T::A }\n#[derive(JsonSchema)] #[schemars(rename = "E{T}")] enum E<T: Tr> { A, B { #[schemars(bound = "T::A: JsonSchema")] t: T::A } }', 'G<No>', 'E<No>')
bgood('variant', 'trait Tr { type A; } impl Tr for No { type A = u8; }\n#[derive(JsonSchema)] enum G<T: Tr> { #[schemars(bound = "T::A: JsonSchema")] A(T::A), B }', 'G<No>')
bbad('variant', 'trait Tr {}\n#[derive(JsonSchema)] enum G<T> { #[schemars(bound = "T: JsonSchema + Tr")] A(T), B }', 'G<u8>')
bgood('variant_unused', '#[derive(JsonSchema)] enum G<T> { #[schemars(bound = "")] #[schemars(with = "u8")] A(T), B }', 'G<No>')
bgood('explicit_container', '#[derive(JsonSchema)] #[schemars(bound = "")] struct G<T> { #[schemars(with = "u8")] t: T }\n#[derive(JsonSchema)] #[schemars(bound = "T: JsonSchema")] struct H<T> { t: T }', 'G<No>', 'H<u8>')
bbad('explicit_container', '#[derive(JsonSchema)] #[schemars(bound = "T: JsonSchema + Copy")] struct H<T> { t: T }', 'H<String>')
bbad('explicit_field', 'trait Tr {}\n#[derive(JsonSchema)] struct H<T> { #[schemars(bound = "T: JsonSchema + Tr")] t: T }', 'H<u8>')
bgood('explicit_serde_ignored', 'trait Tr {}\n#[derive(JsonSchema)] #[serde(bound = "T: Tr")] struct H<T> { t: T }', 'H<u8>')
bgood('rename_param', '#[derive(JsonSchema)] #[schemars(rename = "G_{T}")] struct G<T> { #[serde(skip)] t: T, u: u8 }', 'G<u8>')
bbad('rename_param', '#[derive(JsonSchema)] #[schemars(rename = "G_{T}")] struct G<T> { #[serde(skip)] t: T, u: u8 }', 'G<No>')
bgood('container_with', '#[derive(JsonSchema)] #[schemars(with = "u8")] struct G<T> { #[serde(skip)] t: T }', 'G<No>')
bgood('nested', '''use std::collections::BTreeMap;
#[derive(JsonSchema)] struct G<'a, A: ?Sized, B, C, D, E, F> { a: &'a A, b: Option<Box<B>>, c: (u8, C), d: [D; 3], e: BTreeMap<String, E>, f: Vec<Option<F>> }
#[derive(JsonSchema)] enum E2<A, B, C> { A(A), B { x: Vec<B> }, C(u8, C) }
#[derive(JsonSchema)] struct Tp<A>(A, Option<A>);
#[derive(JsonSchema)] struct Qs<A>(Vec<<Option<A> as IntoIterator>::Item>);''', "G<'static, str, u8, u8, u8, u8, u8>", 'E2<u8, u8, u8>', 'Tp<u8>', 'Qs<u8>')
for i, f in enumerate(['a: &\'static T', 'a: Option<Box<T>>', 'a: (u8, T)', 'a: [T; 3]', 'a: std::collections::BTreeMap<String, T>', 'a: Vec<Option<T>>']):
    bbad('nested%d' % i, "#[derive(JsonSchema)] struct G<T: 'static> { %s }" % f, 'G<No>')
bgood('where_kept', '#[derive(JsonSchema)] struct G<T> where T: Copy, Vec<T>: Sized { t: T }\n#[derive(JsonSchema)] struct H<T: Copy + Into<u64> = u8> { t: T }', 'G<u8>', 'H', 'H<u32>')
bbad('where_kept', 'struct Y; impl JsonSchema for Y { fn schema_name() -> std::borrow::Cow<\'static, str> { "Y".into() } fn json_schema(_: &mut SchemaGenerator) -> Schema { Schema::default() } }\n#[derive(JsonSchema)] struct G<T> where T: Copy { t: T }', 'G<Y>')
bgood('recursive', '#[derive(JsonSchema)] struct G<T> { t: T, n: Option<Box<G<T>>> }\n#[derive(JsonSchema)] enum L<T> { N, C(T, Box<L<T>>) }', 'G<u8>', 'L<u8>')
bgood('unused_param', "#[derive(JsonSchema)] struct G<T: 'static> { #[schemars(skip)] t: fn(T), u: u8 }\n#[derive(JsonSchema)] enum E<T> { A(#[serde(skip)] T, u8) }", 'G<No>', 'E<No>')
bgood('field_proxy', '#[derive(JsonSchema)] struct P<T> { t: T }\n#[derive(JsonSchema)] struct G<T> { #[schemars(with = "P<T>")] t: No, #[serde(skip)] x: Option<T> }', 'G<u8>')
bbad('field_proxy', '#[derive(JsonSchema)] struct P<T> { t: T }\n#[derive(JsonSchema)] struct G<T> { #[schemars(with = "P<T>")] t: No, #[serde(skip)] x: Option<T> }', 'G<No>')
bad('field_without_impl', U + 'struct No;\n#[derive(JsonSchema)] struct S { a: No }')
bad('variant_without_impl', U + 'struct No;\n#[derive(JsonSchema)] enum S { A(u8), B { x: No } }')
bad('flatten_without_impl', U + 'struct No;\n#[derive(JsonSchema)] struct S { #[serde(flatten)] x: No }')
bad('with_without_impl', U + 'struct No;\n#[derive(JsonSchema)] struct S { #[schemars(with = "No")] x: u8 }')
bad('container_with_without_impl', U + 'struct No;\n#[derive(JsonSchema)] #[schemars(with = "No")] struct S { x: u8 }')
bad('from_without_impl', U + 'struct No;\n#[derive(JsonSchema)] #[serde(from = "No")] struct S { x: u8 }')
bad('into_without_impl', U + 'struct No;\n#[derive(JsonSchema)] #[serde(into = "No")] struct S { x: u8 }')
bad('schema_with_wrong_type', U + 'fn f() -> u8 { 0 }\n#[derive(JsonSchema)] struct S { #[schemars(schema_with = "f")] x: u8 }')
bad('schema_with_missing', U + '#[derive(JsonSchema)] struct S { #[schemars(schema_with = "f")] x: u8 }')
bad('transform_wrong_type', U + '#[derive(JsonSchema)] #[schemars(transform = 3)] struct S { x: u8 }')
bad('example_not_serialize', U + 'struct No;\n#[derive(JsonSchema)] #[schemars(example = No)] struct S { x: u8 }')
bad('schema_for_value', 'fn main() { let _ = schemars::schema_for!(123); }')
bad('schema_for_without_impl', 'struct No;\nfn main() { let _ = schemars::schema_for!(No); }')
# ------------------------------------------------------------ rejected attributes
def cont(name, attr, item='struct S { x: String }'): bad('cont_' + name, U + '#[derive(JsonSchema)]\n%s\n%s' % (attr, item))
def field(name, attr, ty='String'): bad('field_' + name, U + '#[derive(JsonSchema)]\nstruct S { %s x: %s }' % (attr, ty))
def var(name, attr, v='A(String)'): bad('var_' + name, U + '#[derive(JsonSchema)]\nenum S { %s %s }' % (attr, v))
for p, fn in (('cont', cont), ('field', field), ('var', var)):
    fn('unknown', '#[schemars(foo)]'); fn('unknown_value', '#[schemars(foo = 1)]'); fn('unknown_list', '#[schemars(foo(1))]'); fn('unknown_path', '#[schemars(a::path)]')
    fn('unknown_second', '#[schemars(title = "x", foo)]'); fn('unknown_second_attr', '#[schemars(title = "x")] #[schemars(foo)]')
    for k in ('title', 'description'):
        fn(k + '_twice', '#[schemars(%s = "a", %s = "b")]' % (k, k)); fn(k + '_twice_attrs', '#[schemars(%s = "a")] #[schemars(%s = "b")]' % (k, k))
        fn(k + '_path', '#[schemars(%s)]' % k); fn(k + '_list', '#[schemars(%s("x"))]' % k)
    fn('example_path_str', '#[schemars(example = "my_fn")]'); fn('example_path_str2', '#[schemars(example = "a::my_fn")]'); fn('example_path', '#[schemars(example)]')
    fn('example_second', '#[schemars(example = 1, example = "my_fn")]')
    fn('extend_path', '#[schemars(extend)]'); fn('extend_value', '#[schemars(extend = 1)]'); fn('extend_ident', '#[schemars(extend(x))]'); fn('extend_no_value', '#[schemars(extend("x"))]'); fn('extend_empty_value', '#[schemars(extend("x" = ))]')
    fn('extend_twice', '#[schemars(extend("x" = 1, "x" = 2))]'); fn('extend_twice_items', '#[schemars(extend("x" = 1), extend("x" = 2))]'); fn('extend_twice_attrs', '#[schemars(extend("x" = 1))] #[schemars(extend("x" = 2))]'); fn('extend_escaped_twice', '#[schemars(extend("x" = 1, "\\u{78}" = 2))]')
    fn('transform_str', '#[schemars(transform = "x")]'); fn('transform_path', '#[schemars(transform)]')
    fn('syntax', '#[schemars(= 3)]'); fn('syntax2', '#[schemars(title = )]')
    fn('with_bad_type', '#[schemars(with = "1 2 3")]'); fn('with_not_string', '#[schemars(with = u64)]'); fn('with_path', '#[schemars(with)]'); fn('with_twice', '#[schemars(with = "u8", with = "u8")]')
    fn('schema_with_bad', '#[schemars(schema_with = "1 2 3")]'); fn('schema_with_not_string', '#[schemars(schema_with = f)]'); fn('schema_with_path', '#[schemars(schema_with)]')
    fn('schema_with_twice', '#[schemars(schema_with = "f", schema_with = "f")]\n'); fn('with_and_schema_with', '#[schemars(with = "u8", schema_with = "f")]\n'); fn('schema_with_and_with', '#[schemars(schema_with = "f", with = "u8")]\n')
    fn('unset_useless', '#[schemars(!default)]'); fn('unset_unknown', '#[schemars(!foo)]'); fn('unset_twice', '#[serde(rename_all = "camelCase")] #[schemars(!rename_all, !rename_all)]' if p != 'field' else '#[serde(default)] #[schemars(!default, !default)]')
    fn('unset_and_set', '#[serde(rename = "y")] #[schemars(!rename, rename = "z")]')
    fn('serialize_with', '#[schemars(serialize_with = "f")]'); fn('deserialize_with', '#[schemars(deserialize_with = "f")]')
    fn('literal', '#[schemars("x")]'); fn('rename_twice', '#[schemars(rename = "a", rename = "b")]')
for k, v in dict(crate_twice='crate = "schemars", crate = "schemars"', crate_value='crate = 1', crate_path='crate', crate_parse='crate = "1 2"', inline_value='inline = 1', inline_list='inline(x)', inline_twice='inline, inline', rename_value='rename = 1', rename_path='rename', ref_variants_struct='_unstable_ref_variants',
                 bad_case='rename_all = "bogus"', default_value='default = 0', deny_twice='deny_unknown_fields, deny_unknown_fields', deny_value='deny_unknown_fields = true', from_try='from = "u8", try_from = "u8"', transparent_from='transparent, from = "u8"', transparent_into='transparent, into = "u8"', bound_bad='bound = "1 2"', bound_value='bound = 1',
                 tag_value='tag = 1', content_only='content = "c"', untagged_struct='untagged', from_bad='from = "1 2"', into_twice='into = "u8", into = "u8"', fields_case_struct='rename_all_fields = "camelCase"', flatten='flatten', skip='skip', email='email', length='length(min = 1)', range='range(min = 1)', regex='regex(pattern = "x")', required='required', inner='inner(email)', pattern='pattern("x")', contains='contains("x")').items():
    cont(k, '#[schemars(%s)]' % v)
cont('inline_twice_attrs', '#[schemars(inline)] #[schemars(inline)]')
cont('ref_variants_twice', '#[schemars(_unstable_ref_variants, _unstable_ref_variants)]', 'enum E { A(u8) }'); cont('ref_variants_value', '#[schemars(_unstable_ref_variants = 1)]', 'enum E { A(u8) }')
cont('transparent_two', '#[schemars(transparent)]', 'struct S { a: u8, b: u8 }'); cont('transparent_enum', '#[schemars(transparent)]', 'enum S { A(u8) }'); cont('transparent_unit', '#[serde(transparent)]', 'struct S;')
cont('tag_tuple', '#[serde(tag = "t")]', 'enum S { A(u8, u8) }'); cont('tag_untagged', '#[serde(tag = "t", untagged)]', 'enum S { A(u8) }'); cont('tag_content_untagged', '#[serde(tag = "t", content = "c", untagged)]', 'enum S { A(u8) }'); cont('tag_eq_content', '#[serde(tag = "t", content = "t")]', 'enum S { A(u8) }')
cont('tag_conflict', '#[serde(tag = "t")]', 'enum S { A { t: u8 } }'); cont('tag_tuple_struct', '#[serde(tag = "t")]', 'struct S(u8, u8);')
cont('schemars_tag_tuple', '#[schemars(tag = "t")]', 'enum S { A(u8, u8) }')
cont('rename_brace', '#[schemars(rename = "{T}}")]', 'struct S<T> { t: T }'); cont('rename_open', '#[schemars(rename = "{T")]', 'struct S<T> { t: T }'); cont('rename_unknown_param', '#[schemars(rename = "{U}")]', 'struct S<T> { t: T }'); cont('rename_path_param', '#[schemars(rename = "{T::x}")]', 'struct S<T> { t: T }'); cont('rename_nongeneric', '#[schemars(rename = "{T}")]'); cont('rename_lifetime', "#[schemars(rename = \"{'a}\")]", "struct S<'a> { t: &'a str }"); cont('rename_empty_param', '#[schemars(rename = "x{}")]', 'struct S<T> { t: T }')
cont('serde_crate_value', '#[serde(default = 0)]'); cont('serde_bad_case', '#[serde(rename_all = "bogus")]'); cont('serde_deny_twice', '#[serde(deny_unknown_fields, deny_unknown_fields)]')
cont('union', '', 'union S { a: u8, b: u16 }')
cont('flatten_tuple', '', 'struct S(#[serde(flatten)] Vec<u8>, u8);')
cont('remote_bad', '#[schemars(remote = "1 2")]')
for k, v in dict(email_value='email = "x"', email_list='email(code = "x")', email_twice='email, email', email_url='email, url', url_ip='url, ip', ip_ipv4='ip, ipv4', ipv4_ipv6='ipv4, ipv6', length_path='length', length_value='length = 3', length_unknown='length(foo = 1)', length_min_twice='length(min = 1, min = 2)', length_max_twice='length(max = 1, max = 2)', length_equal_twice='length(equal = 1, equal = 2)',
                 length_min_equal='length(min = 1, equal = 2)', length_equal_min='length(equal = 2, min = 1)', length_max_equal='length(max = 1, equal = 2)', length_equal_max='length(equal = 1, max = 2)', length_twice='length(min = 1), length(max = 2)', length_min_path='length(min)', length_bad_str='length(min = "1 2")',
                 range_path='range', range_unknown='range(foo = 1)', range_min_twice='range(min = 1, min = 2)', range_twice='range(min = 1), range(max = 2)', range_min_equal='range(min = 1, equal = 2)', range_max_path='range(max)', required_value='required = true', required_twice='required, required', required_list='required(x)',
                 regex_path='regex', regex_value='regex = "x"', regex_list_path='regex(path = "x")', regex_unknown='regex(pattern = "x", foo = 1)', regex_empty='regex()', regex_twice='regex(pattern = "x"), regex(pattern = "y")', regex_pattern_twice='regex(pattern = "x", pattern = "y")', regex_contains='regex(pattern = "x"), contains("y")', regex_pattern='regex(pattern = "x"), pattern("y")',
                 pattern_path='pattern', pattern_value='pattern = "x"', pattern_twice='pattern("x"), pattern("y")', pattern_regex='pattern("x"), regex(pattern = "y")', pattern_contains='pattern("x"), contains("y")', contains_path='contains', contains_value='contains = "x"', contains_twice='contains("x"), contains("y")', contains_regex='contains("x"), regex(pattern = "y")', contains_pattern='contains("x"), pattern("y")', contains_unknown='contains(pattern = "x", foo = 1)', contains_no_pattern='contains(foo = 1)', contains_pattern_twice='contains(pattern = "x", pattern = "y")',
                 inner_path='inner', inner_value='inner = 1', inner_unknown='inner(foo)', inner_email_twice='inner(email, email)', inner_email_url='inner(email, url)', inner_twice_email='inner(email), inner(email)', inner_length_unknown='inner(length(foo = 1))', inner_nested_unknown='inner(inner(foo))', inner_title='inner(title = "x")', inner_with='inner(with = "u8")', phone='phone', min='min = 1',
                 rename_value='rename = 1', default_value='default = 0', skip_value='skip = true', flatten_value='flatten = true', skip_if_value='skip_serializing_if = 1', inline='inline', crate_='crate = "schemars"', transparent='transparent', deny='deny_unknown_fields', tag='tag = "t"', untagged='untagged', from_='from = "u8"', ref_variants='_unstable_ref_variants', rename_all='rename_all = "camelCase"', flatten_skip_twice='flatten, flatten', default_twice='default, default').items():
    field(k, '#[schemars(%s)]' % v)
field('skip_and_unset', '#[serde(skip)] #[schemars(!skip_serializing)]')
for k, v in dict(regex_value='regex = "foo"', contains_value='contains = "bar"', regex_pattern='regex(pattern = "baz")', regex_path='regex', length_min_path='length(min)', length_syntax='length(=)').items():
    field('validate_' + k, '#[validate(%s)]' % v)
for k, v in dict(pattern_path='pattern', length_path='length', email_value='email = 1', inner_path='inner').items():
    field('garde_' + k, '#[garde(%s)]' % v)
for k, v in dict(bad_case='rename_all = "bogus"', rename_value='rename = 1', inline='inline', crate_='crate = "schemars"', deny='deny_unknown_fields', flatten='flatten', default='default', email='email', length='length(min = 1)', required='required', tag='tag = "t"', transparent='transparent', from_='from = "u8"', ref_variants='_unstable_ref_variants', skip_twice='skip, skip', untagged_value='untagged = 1', fields_case='rename_all_fields = "camelCase"').items():
    var(k, '#[schemars(%s)]' % v)
RU = 'use schemars::JsonSchema_repr;\n#[derive(JsonSchema_repr)]\n'
bad('repr_missing', RU + 'enum E { A }'); bad('repr_c', RU + '#[repr(C)] enum E { A }') if False else None
bad('repr_tuple', RU + '#[repr(u8)] enum E { A, B() }'); bad('repr_struct_variant', RU + '#[repr(u8)] enum E { A, B {} }'); bad('repr_newtype', RU + '#[repr(u8)] enum E { A, B(u8) }'); bad('repr_struct', RU + '#[repr(transparent)] struct E(u8);'); bad('repr_unknown', RU + '#[schemars(foo)] #[repr(u8)] enum E { A }'); bad('repr_variant_unknown', RU + '#[repr(u8)] enum E { #[schemars(foo)] A }'); bad('repr_union', RU + '#[repr(C)] union E { a: u8 }')
# ------------------------------------------------------------ accepted attributes
def ok(name, text): good('ok_' + name, U + text)
ok('foreign_serde', '#[derive(JsonSchema)] #[serde(foo, bar = 1, baz(x), inline2, a::path, expecting = "x")] struct S { #[serde(foo, deserialize_with = "x", getter = "g", borrow)] x: u8 }')
ok('foreign_validate', '#[derive(JsonSchema)] #[validate(schema(function = "f"))] struct S { #[validate(phone, custom(function = "f"), nested, length(min = 1, message = "m", code = "c"), email(message = "x"), must_match(other = "y"), credit_card)] x: String, #[validate(range(min = 1, exclusive_max = 5))] y: u8, #[validate(url, url)] z: String, #[validate(contains(pattern = "x", code = "c"))] w: String }')
ok('foreign_garde', '#[derive(JsonSchema)] #[garde(context(C))] struct S { #[garde(skip)] x: String, #[garde(length(min = 1, max = 2), ascii, alphanumeric, custom(f), dive, byte_length(min = 1))] y: String, #[garde(pattern("x"))] z: String, #[garde(inner(length(min = 1), ascii))] w: Vec<String>, #[garde(contains("x"), prefix("y"))] v: String }')
ok('schemars_over_serde', '#[derive(JsonSchema)] #[serde(rename_all = "camelCase", rename = "A")] #[schemars(rename_all = "kebab-case", rename = "B")] struct S { #[serde(rename = "a", default)] #[schemars(rename = "b", default)] x: u8, #[serde(with = "nothing::here")] #[schemars(with = "u8")] y: u8, #[serde(with = "nothing::here")] #[schemars(schema_with = "f")] z: u8 } fn f(_: &mut SchemaGenerator) -> Schema { Schema::default() }') if False else None
ok('unset', '#[derive(JsonSchema)] #[serde(deny_unknown_fields, default, rename_all = "camelCase")] #[schemars(!deny_unknown_fields, !default, !rename_all)] struct S { #[serde(default, skip_serializing)] #[schemars(!default, !skip_serializing)] x: u8 }')
ok('examples', '#[derive(JsonSchema)] #[schemars(example = 1, example = &"str", example = "not a path!", example = f(), example = Some(1))] struct S { #[schemars(example = "two words")] x: u8 } fn f() -> u8 { 1 }')
ok('extends', '#[derive(JsonSchema)] #[schemars(extend("a" = 1, "b" = "x",), extend("c" = [1, {"d": null}]), extend("e" = 1 + 2, "f" = f()))] #[schemars(extend("g" = true))] struct S { #[schemars(extend("x" = -1.5))] x: u8 } fn f() -> u8 { 1 }')
ok('transforms', 'use schemars::transform::*;\n#[derive(JsonSchema)] #[schemars(transform = f, transform = RestrictFormats::default(), transform = RecursiveTransform(f))] struct S { #[schemars(transform = m::g)] x: u8 } fn f(_: &mut Schema) {} mod m { pub fn g(_: &mut schemars::Schema) {} } #[derive(JsonSchema)] enum E { #[schemars(transform = f)] A, #[schemars(transform = f)] B { #[schemars(transform = f)] x: u8 } }')
ok('validations', 'const C: usize = 3; static RE: &str = "x"; struct Rx; impl Rx { fn as_str(&self) -> &str { "x" } }\n#[derive(JsonSchema)] struct S { #[schemars(length(min = 1, max = C))] a: String, #[schemars(length(equal = 2))] b: Vec<u8>, #[schemars(range(min = -1.5, max = 2.5e3))] c: f64, #[schemars(range(min = "C", max = "10"))] d: u8, #[schemars(regex(pattern = RE))] e: String, #[schemars(pattern("x"))] f: String, #[schemars(pattern(Rx.as_str()))] g: String, #[schemars(contains("x"))] h: String, #[schemars(contains(pattern = "x"))] i: String, #[schemars(inner(inner(length(min = 1)), length(max = 3)), length(min = 2))] j: Vec<Vec<String>>, #[schemars(required)] k: Option<u8>, #[schemars(ip)] l: String, #[schemars(ipv4)] m: String, #[schemars(ipv6)] n: String, #[schemars(url)] o: String, #[schemars(email)] p: String, #[schemars(length(min = 1), length = 1)] q: String }'.replace(', #[schemars(length(min = 1), length = 1)] q: String', ''))
ok('tuple_variant_attrs', '#[derive(JsonSchema)] enum E { #[schemars(title = "x", description = "y", example = 1, extend("z" = 1))] A(#[schemars(title = "x", length(min = 1))] String, #[schemars(with = "u8")] u16), #[schemars(with = "String")] B(u8), #[schemars(schema_with = "f")] C { x: u8 }, #[schemars(rename = "q")] P, #[schemars(rename = "q", untagged)] D(u8) } fn f(_: &mut SchemaGenerator) -> Schema { Schema::default() }')
ok('ref_variants', '#[derive(JsonSchema)] #[schemars(_unstable_ref_variants)] enum E { A, B(u8), C { x: u8 } } #[derive(JsonSchema)] #[schemars(_unstable_ref_variants)] #[serde(untagged)] enum F<T> { A, B(T), C { x: u8 } } #[derive(JsonSchema)] #[schemars(_unstable_ref_variants)] #[serde(tag = "t", content = "c")] enum G { A, B(u8), C { x: u8 } } #[derive(JsonSchema)] #[schemars(_unstable_ref_variants)] #[serde(tag = "t")] enum H { A, C { x: u8 } }')
ok('reprs', 'use schemars::JsonSchema_repr; macro_rules! r { ($($n:ident $t:ident),*) => { $(#[derive(JsonSchema_repr)] #[repr($t)] #[schemars(title = "x")] enum $n { A = 1, #[schemars(title = "x")] B, C = 5 })* } } r!(A u8, B u16, C u32, D u64, E i8, F i16, G i32, H i64, I usize, J isize);')
ok('proxies', '#[derive(JsonSchema, Clone)] #[serde(from = "u8", into = "String")] struct A(u8); #[derive(JsonSchema)] #[serde(try_from = "u8")] enum B { X } #[derive(JsonSchema)] #[schemars(with = "Vec<u8>")] enum C { X(std::rc::Rc<std::cell::Cell<u8>>) } #[derive(JsonSchema)] #[schemars(schema_with = "f")] struct D(*const u8); fn f(_: &mut SchemaGenerator) -> Schema { Schema::default() } #[derive(JsonSchema)] #[serde(remote = "std::time::Duration")] struct Dur { #[serde(getter = "x")] secs: u64 }')
ok('empty_types', '#[derive(JsonSchema)] enum E {} #[derive(JsonSchema)] struct A {} #[derive(JsonSchema)] struct B(); #[derive(JsonSchema)] #[serde(untagged)] enum F {} #[derive(JsonSchema)] #[serde(tag = "t")] enum G {} #[derive(JsonSchema)] enum H { #[serde(skip)] A } #[derive(JsonSchema)] enum I { A {}, B() }')
ok('discriminants', '#[derive(JsonSchema)] #[repr(u8)] enum E { A = 1, B = 4 } #[derive(JsonSchema)] #[repr(C)] struct S { x: u8 } #[derive(JsonSchema)] #[repr(transparent)] struct T(u8);')
ok('type_forms', "use std::collections::*; trait Tr { type A; } impl Tr for u8 { type A = u16; }\n#[derive(JsonSchema)] struct S<'a> { a: &'a str, b: &'a [u8], c: [u8; 4], d: (u8,), e: (u8, String), f: Box<str>, g: std::rc::Rc<[u8]>, h: std::borrow::Cow<'a, str>, i: <u8 as Tr>::A, j: BTreeMap<String, Vec<Option<u8>>>, k: (), l: Box<S<'a>>, m: HashSet<u8>, n: std::sync::Arc<std::sync::Mutex<u8>>, o: Result<u8, String>, p: std::ops::Range<u8>, q: Option<Option<u8>>, r: &'a mut u8 }")
ok('default_expr', "#[derive(JsonSchema)] #[serde(default)] struct S { a: u8, #[serde(default = \"f\")] b: u8, #[serde(default, skip_serializing_if = \"Option::is_none\")] c: Option<u8>, #[serde(default, serialize_with = \"ser\")] d: No, #[serde(default)] e: No2 } #[derive(Default, JsonSchema)] struct No2; #[derive(Default)] struct No; impl JsonSchema for No { fn schema_name() -> std::borrow::Cow<'static, str> { \"No\".into() } fn json_schema(_: &mut SchemaGenerator) -> Schema { Schema::default() } } impl Default for S { fn default() -> Self { loop {} } } fn f() -> u8 { 1 } fn ser<S: serde::Serializer>(_: &No, s: S) -> Result<S::Ok, S::Error> { s.serialize_u8(1) }")

if __name__ == '__main__':
    shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
    for k, v in cases.items():
        open(os.path.join(D, k + '.rs'), 'w').write(v)
    print(len([k for k in cases if k[0] == 'g']), 'good', len([k for k in cases if k[0] == 'b']), 'bad')
