//! Values of every kind of the serde data model, for schema inference.
use schemars::*;
use serde::ser::*;
use serde::Serialize;
use serde_json::Error;
use std::collections::*;

/// Leaf value whose inferred schema is chosen by the analyses (by number).
pub struct V(pub u32);
pub fn h_ser<S: Serializer>(_n: u32, _s: S) -> Result<S::Ok, S::Error> { unimplemented!() }
impl Serialize for V {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { h_ser(self.0, s) }
}
#[derive(Serialize)] pub struct Unit;
#[derive(Serialize)] pub struct New(pub V);
#[derive(Serialize)] pub struct NewNew(pub New);
#[derive(Serialize)] pub struct Tup(pub V, pub V, pub V);
#[derive(Serialize)] pub struct Rec { pub a: V, pub b: V, pub c: V }
#[derive(Serialize)] pub struct Empty {}
#[derive(Serialize)] #[serde(rename = "")] pub struct NoName { pub a: V }
#[derive(Serialize)] pub struct Skip { #[serde(skip_serializing_if = "Option::is_none")] pub a: Option<V>, pub b: Option<V> }
#[derive(Serialize)] pub struct Outer { pub inner: Rec, pub opt: Option<Rec>, pub new: New, pub tup: Tup, pub list: Vec<Rec>, pub unit: Unit }
#[derive(Serialize)] pub struct NewRec(pub Rec);
#[derive(Serialize)] pub enum En { Unit, New(V), Tup(V, V), Rec { a: V, b: V } }
#[derive(Serialize, PartialEq, Eq, PartialOrd, Ord)] pub enum Key { Alpha, Beta }
pub struct Raw;
impl Serialize for Raw {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(b"xyz") }
}
pub struct Disp;
impl std::fmt::Display for Disp {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("disp") }
}
impl Serialize for Disp {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str("disp") }
}
/// sequence with unknown length
pub struct Seq(pub Vec<V>);
impl Serialize for Seq {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_seq(self.0.iter()) }
}
/// map serialized entry by entry
pub struct Ents(pub Vec<(String, V)>);
impl Serialize for Ents {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(None)?;
        for (k, v) in &self.0 { m.serialize_entry(k, v)?; }
        m.end()
    }
}
/// map serialized through collect_map
pub struct Coll(pub Vec<(String, V)>);
impl Serialize for Coll {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_map(self.0.iter().map(|(k, v)| (k, v))) }
}
/// key that is not a string
pub struct EntsI(pub Vec<(i32, V)>);
impl Serialize for EntsI {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(None)?;
        for (k, v) in &self.0 { m.serialize_entry(k, v)?; }
        m.end()
    }
}
pub struct Ent1<K>(pub K, pub V);
impl<K: Serialize> Serialize for Ent1<K> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(Some(1))?;
        m.serialize_entry(&self.0, &self.1)?;
        m.end()
    }
}

macro_rules! roots {
    ($($n:ident : $t:ty),* $(,)?) => { $(
        pub fn $n(g: &mut SchemaGenerator, v: &$t) -> Result<Schema, Error> { g.root_schema_for_value(v) }
    )* };
}
roots! {
    v_v: V, v_bool: bool, v_i8: i8, v_i16: i16, v_i32: i32, v_i64: i64, v_i128: i128, v_u8: u8, v_u16: u16, v_u32: u32, v_u64: u64, v_u128: u128,
    v_f32: f32, v_f64: f64, v_char: char, v_str: str, v_string: String, v_unit: (), v_unit_struct: Unit, v_new: New, v_newnew: NewNew, v_newrec: NewRec,
    v_tup3: (V, V, V), v_tup: Tup, v_rec: Rec, v_empty: Empty, v_noname: NoName, v_skip: Skip, v_outer: Outer, v_en: En, v_raw: Raw, v_disp: Disp,
    v_vec: Vec<V>, v_seq: Seq, v_ents: Ents, v_coll: Coll, v_entsi: EntsI, v_option: Option<V>, v_option2: Option<Option<V>>, v_arr2: [V; 2],
    v_box: Box<V>, v_vecvec: Vec<Vec<V>>, v_optrec: Option<Rec>,
    v_ent_key: Ent1<Key>, v_ent_bool: Ent1<bool>, v_ent_char: Ent1<char>, v_ent_str: Ent1<&'static str>, v_ent_u8: Ent1<u8>, v_ent_optstr: Ent1<Option<&'static str>>,
}

/// inference of concretely shaped values (leaves decided by the analyses)
fn infer<T: ?Sized + Serialize>(v: &T) -> Result<Schema, Error> {
    let mut s = schemars::generate::SchemaSettings::default();
    s.meta_schema = None;
    s.into_generator().into_root_schema_for_value(v)
}
fn k(s: &str) -> String { s.to_owned() }
fn rec() -> Rec { Rec { a: V(1), b: V(2), c: V(3) } }
macro_rules! inf {
    ($($n:ident : $e:expr),* $(,)?) => { $( pub fn $n() -> Result<Schema, Error> { infer(&$e) } )* };
}
inf! {
    i_v: V(1), i_true: true, i_false: false, i_i8: -1i8, i_i16: 5i16, i_i32: 0i32, i_i64: i64::MIN, i_i128: 7i128, i_u8: 0u8, i_u16: 1u16, i_u32: 2u32, i_u64: u64::MAX, i_u128: 3u128,
    i_char: 'x', i_str: "s", i_string: k(""), i_unit: (), i_unit_struct: Unit, i_new: New(V(1)), i_newnew: NewNew(New(V(1))), i_newrec: NewRec(rec()),
    i_tup3: (V(1), V(2), V(1)), i_tup: Tup(V(1), V(2), V(3)), i_rec: rec(), i_empty: Empty {}, i_noname: NoName { a: V(1) },
    i_skip0: Skip { a: None, b: None }, i_skip1: Skip { a: Some(V(1)), b: Some(V(2)) },
    i_outer: Outer { inner: rec(), opt: Some(rec()), new: New(V(1)), tup: Tup(V(1), V(2), V(3)), list: vec![rec(), rec()], unit: Unit },
    i_en_u: En::Unit, i_en_n: En::New(V(1)), i_en_t: En::Tup(V(1), V(2)), i_en_r: En::Rec { a: V(1), b: V(2) },
    i_raw: Raw, i_disp: Disp, i_vec0: Vec::<V>::new(), i_vec1: vec![V(1)], i_vec2: vec![V(1), V(2)], i_vec3: vec![V(1), V(2), V(3)], i_vec4: vec![V(1), V(2), V(1), V(3)],
    i_seq0: Seq(vec![]), i_seq2: Seq(vec![V(1), V(2)]), i_seq3: Seq(vec![V(1), V(2), V(3)]),
    i_ents0: Ents(vec![]), i_ents1: Ents(vec![(k("k"), V(1))]), i_ents3: Ents(vec![(k("k"), V(1)), (k("q\"\\\n"), V(2)), (k(""), V(3))]),
    i_coll0: Coll(vec![]), i_coll1: Coll(vec![(k("k"), V(1))]), i_coll2: Coll(vec![(k("k"), V(1)), (k("l"), V(2))]), i_coll3: Coll(vec![(k("k"), V(1)), (k("l"), V(2)), (k("m"), V(3))]),
    i_entsi: EntsI(vec![(1, V(1)), (-2, V(2))]), i_some: Some(V(1)), i_none: Option::<V>::None, i_somesome: Some(Some(V(1))), i_somenone: Some(Option::<V>::None),
    i_arr2: [V(1), V(2)], i_arr0: [0u8; 0], i_box: Box::new(V(1)), i_vecvec: vec![vec![V(1)], vec![V(2)]], i_someveco: Some(vec![Some(V(1)), None]), i_optrec: Some(rec()),
    i_tupnest: ((V(1), V(2)), New(V(3))), i_vectup: vec![Tup(V(1), V(2), V(3)), Tup(V(1), V(2), V(3))], i_vecen: vec![En::Unit, En::New(V(1))], i_vecopt: vec![None, Some(V(1))], i_vecopt2: vec![Some(V(1)), None, Some(V(2))],
    i_k_enum: Ent1(Key::Alpha, V(1)), i_k_bool: Ent1(true, V(1)), i_k_char: Ent1('c', V(1)), i_k_str: Ent1("s\"t", V(1)), i_k_u8: Ent1(7u8, V(1)), i_k_esc: Ent1("\u{e9}\t\u{1F680}/", V(1)),
    i_btree: std::collections::BTreeMap::<String, V>::new(), i_recnest: NewNewRec(NewRec(rec())),
    i_vec12: vec![V(1), V(2), V(3), V(4), V(5), V(6), V(7), V(8), V(9), V(10), V(11), V(12)], i_tup9: (V(1), V(2), V(3), V(4), V(5), V(6), V(7), V(8), V(9)),
    i_ents12: Ents(vec![(k("k1"), V(1)), (k("k2"), V(2)), (k("k3"), V(3)), (k("k4"), V(4)), (k("k5"), V(5)), (k("k6"), V(6)), (k("k7"), V(7)), (k("k8"), V(8)), (k("k9"), V(9)), (k("k10"), V(10)), (k("k11"), V(11)), (k("k12"), V(12))]),
    i_deep: vec![Some(vec![vec![Some(vec![(V(1), vec![V(2)])])]])], i_k_i64: Ent1(i64::MIN, V(1)), i_k_u64: Ent1(u64::MAX, V(1)), i_k_i128: Ent1(-5i128, V(1)), i_k_long: Ent1("a rather long key, with / and ~ and # in it, longer than any inline buffer", V(1)),
    i_vec_str_int: (vec!["a", "b"], vec![1, 2], vec![true], vec![1.0, 2.0]),
}
#[derive(Serialize)] pub struct NewNewRec(pub NewRec);
pub fn i_f32(x: f32) -> Result<Schema, Error> { infer(&x) }
pub fn i_f64(x: f64) -> Result<Schema, Error> { infer(&x) }
pub fn i_somef64(x: f64) -> Result<Schema, Error> { infer(&Some(x)) }
pub fn i_vecf64(x: f64, y: f64) -> Result<Schema, Error> { infer(&vec![x, y]) }
