//! Plain-Rust models of std/serde_json collection routines, substituted (by the fact
//! extractor) for implementations written with raw pointers or specialization.
use serde_json::{Map, Value};
use std::collections::*;
pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    for x in it { v.push(x); }
    v
}
pub fn box_slice_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Box<[T]> {
    let mut v = Vec::new();
    for x in it { v.push(x); }
    v.into_boxed_slice()
}
pub fn vec_extend<T, A, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    for x in it { v.push(x); }
}
pub fn vec_extend_ref<'a, T: Copy + 'a, A, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, it: I) {
    for x in it { v.push(*x); }
}
pub fn string_from_iter_char<I: IntoIterator<Item = char>>(it: I) -> String {
    let mut s = String::new();
    for x in it { s.push(x); }
    s
}
pub fn string_from_iter_str<'a, I: IntoIterator<Item = &'a str>>(it: I) -> String {
    let mut s = String::new();
    for x in it { s.push_str(x); }
    s
}
pub fn string_from_iter_string<I: IntoIterator<Item = String>>(it: I) -> String {
    let mut s = String::new();
    for x in it { s.push_str(&x); }
    s
}
pub fn string_extend_char<I: IntoIterator<Item = char>>(s: &mut String, it: I) {
    for x in it { s.push(x); }
}
pub fn string_extend_str<'a, I: IntoIterator<Item = &'a str>>(s: &mut String, it: I) {
    for x in it { s.push_str(x); }
}
pub fn string_extend_string<I: IntoIterator<Item = String>>(s: &mut String, it: I) {
    for x in it { s.push_str(&x); }
}
pub fn jmap_from_iter<I: IntoIterator<Item = (String, Value)>>(it: I) -> Map<String, Value> {
    let mut m = Map::new();
    for (k, v) in it { m.insert(k, v); }
    m
}
pub fn jmap_extend<I: IntoIterator<Item = (String, Value)>>(m: &mut Map<String, Value>, it: I) {
    for (k, v) in it { m.insert(k, v); }
}
pub fn bset_from_iter<T: Ord, I: IntoIterator<Item = T>>(it: I) -> BTreeSet<T> {
    let mut m = BTreeSet::new();
    for k in it { m.insert(k); }
    m
}
pub fn bset_extend<T: Ord, A, I: IntoIterator<Item = T>>(m: &mut BTreeSet<T>, it: I) {
    for k in it { m.insert(k); }
}
pub fn bset_extend_ref<'a, T: Ord + Copy + 'a, A, I: IntoIterator<Item = &'a T>>(m: &mut BTreeSet<T>, it: I) {
    for k in it { m.insert(*k); }
}
pub fn bmap_from_iter<K: Ord, V, I: IntoIterator<Item = (K, V)>>(it: I) -> BTreeMap<K, V> {
    let mut m = BTreeMap::new();
    for (k, v) in it { m.insert(k, v); }
    m
}
pub fn bmap_extend<K: Ord, V, A, I: IntoIterator<Item = (K, V)>>(m: &mut BTreeMap<K, V>, it: I) {
    for (k, v) in it { m.insert(k, v); }
}
pub fn vec_retain<T, A, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = core::mem::take(v);
    for x in old { if f(&x) { v.push(x); } }
}
pub fn vec_retain_mut<T, A, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = core::mem::take(v);
    for mut x in old { if f(&mut x) { v.push(x); } }
}
pub fn jmap_retain<F: FnMut(&String, &mut Value) -> bool>(m: &mut Map<String, Value>, mut f: F) {
    let old = core::mem::take(m);
    for (k, mut v) in old { if f(&k, &mut v) { m.insert(k, v); } }
}
pub fn slice_eq<T: PartialEq<U>, U>(a: &[T], b: &[U]) -> bool {
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] { return false; }
        i += 1;
    }
    true
}
pub fn slice_contains<T: PartialEq>(a: &[T], x: &T) -> bool {
    for y in a { if y == x { return true; } }
    false
}
pub fn vec_eq<T: PartialEq<U>, U, A1, A2>(a: &Vec<T>, b: &Vec<U>) -> bool { slice_eq(a, b) }
