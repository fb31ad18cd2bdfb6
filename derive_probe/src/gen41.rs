// Written by tools/derive_gen.py from sa/dspec41.py.
pub mod m1 {
use crate::support::*; use schemars::{JsonSchema, JsonSchema_repr};
#[derive(JsonSchema)]
pub struct Plain { pub a: A }
#[derive(JsonSchema)]
pub enum PlainE { X(A), Y }
#[derive(JsonSchema)]
pub struct Tup(pub A, pub B);
#[derive(JsonSchema)]
pub struct Unit;
#[derive(JsonSchema)]
pub struct r#raw { pub a: A }
#[derive(JsonSchema)]
pub struct Newt(pub A);
#[derive(JsonSchema)]
#[schemars(rename = "ren")]
pub struct Ren1 { pub a: A }
#[derive(JsonSchema)]
#[serde(rename = "sren")]
pub struct Ren2 { pub a: A }
#[derive(JsonSchema)]
#[serde(rename = "sr")]
#[schemars(rename = "xr")]
pub struct Ren3 { pub a: A }
#[derive(JsonSchema)]
#[schemars(rename = "a b/c~d")]
pub enum Ren4 { X(A), Y }
#[derive(JsonSchema)]
#[schemars(rename = "{{lit}}")]
pub struct Ren5 { pub a: A }
#[derive(JsonSchema)]
pub struct G1<T> { pub a: T }
#[derive(JsonSchema)]
pub struct G1v<T> { pub a: Vec<T>, pub b: Option<T> }
#[derive(JsonSchema)]
pub struct Gn<T>(pub T);
#[derive(JsonSchema)]
pub struct Gt<T>(pub u8, pub T);
#[derive(JsonSchema)]
pub enum Ge<T> { X(T), Y { y: T }, Z(T, T), W }
#[derive(JsonSchema)]
#[serde(tag = "t")]
pub enum Gi<T> { X { a: T } }
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum Gu<T, U> { X(T), Y(U) }
#[derive(JsonSchema)]
pub struct G2<T, U> { pub a: T, pub b: U }
#[derive(JsonSchema)]
pub struct G2r<Z, Y> { pub a: Z, pub b: Y }
#[derive(JsonSchema)]
pub struct G2s<U, T> { pub a: T, pub b: U }
#[derive(JsonSchema)]
pub struct G3<T, U, V> { pub a: T, pub b: (U, V) }
#[derive(JsonSchema)]
pub struct Gl<'a, T> { pub a: &'a T, pub b: std::borrow::Cow<'a, str> }
#[derive(JsonSchema)]
pub struct Gw<T> where T: Clone { pub a: [T; 2] }
#[derive(JsonSchema)]
pub struct Gd<T = A> { pub a: T }
#[derive(JsonSchema)]
pub struct Gf<T> { #[serde(flatten)] pub a: T }
#[derive(JsonSchema)]
pub struct Gwith<T> { #[schemars(with = "Vec<T>")] pub a: NoSchema, pub p: std::marker::PhantomData<T> }
#[derive(JsonSchema)]
pub struct Gsw<T: JsonSchema> { #[schemars(schema_with = "sub_of::<T>")] pub a: NoSchema, pub p: std::marker::PhantomData<T> }
#[derive(JsonSchema)]
pub struct Gsw2<T: JsonSchema, U> { #[schemars(schema_with = "sub_of::<Vec<T>>")] pub a: NoSchema, pub b: U, pub p: std::marker::PhantomData<T> }
#[derive(JsonSchema)]
pub enum Gsw3<T: JsonSchema> { X(#[schemars(schema_with = "sub_of::<T>")] NoSchema), Y { #[schemars(schema_with = "sub_of::<T>")] b: std::marker::PhantomData<T> } }
#[derive(JsonSchema)]
pub struct Gph<T, U> { pub a: T, pub p: std::marker::PhantomData<U> }
#[derive(JsonSchema)]
pub struct Gsk<T, U> { pub a: T, #[serde(skip)] pub p: Option<U> }
#[derive(JsonSchema)]
pub struct Gso<T> { #[serde(skip_serializing)] pub a: T, #[serde(skip_deserializing, default)] pub b: u8 }
#[derive(JsonSchema)]
pub struct Gsd<T> { #[serde(skip_deserializing, default)] pub a: Vec<T>, pub b: u8 }
#[derive(JsonSchema)]
pub enum Gsv<T> { #[serde(skip_serializing)] X(T), Y }
#[derive(JsonSchema)]
pub struct Gas<I: Tr> { pub a: I::Assoc }
#[derive(JsonSchema)]
pub struct Gas2<I: Tr> { pub a: Vec<<I as Tr>::Assoc> }
#[derive(JsonSchema)]
#[schemars(bound = "I::Assoc: JsonSchema")]
pub struct Gas3<I: Tr> { pub a: I::Assoc }
#[derive(JsonSchema)]
pub struct K1<const N: usize> { #[schemars(range(max = N))] pub a: u32 }
#[derive(JsonSchema)]
pub struct K2<const N: usize, const M: usize> { #[schemars(range(min = N, max = M))] pub a: u32 }
#[derive(JsonSchema)]
pub struct K3<const CH: char, const BO: bool, const IN: i8> { #[schemars(extend("x-c" = CH, "x-b" = BO, "x-i" = IN))] pub a: u32 }
#[derive(JsonSchema)]
pub struct K4<T, const N: usize> { pub a: T, #[schemars(length(max = N))] pub b: String }
#[derive(JsonSchema)]
pub enum K5<const N: usize> { #[schemars(extend("x-n" = N))] X }
#[derive(JsonSchema)]
#[schemars(rename = "R1-{T}")]
pub struct R1<T> { pub a: T }
#[derive(JsonSchema)]
#[schemars(rename = "{U}{T}{U}")]
pub struct R2<T, U> { pub a: T, pub b: U }
#[derive(JsonSchema)]
#[schemars(rename = "R3<{T}>")]
pub struct R3<T, U> { pub a: T, pub b: U }
#[derive(JsonSchema)]
#[schemars(rename = "R4{{{T}}}{{T}}")]
pub struct R4<T> { pub a: T }
#[derive(JsonSchema)]
#[schemars(rename = "R5-{N}-{T}-{M}")]
pub struct R5<T, const N: usize, const M: char> { pub a: T }
#[derive(JsonSchema)]
#[schemars(rename = "R6")]
pub struct R6<T> { pub a: T }
#[derive(JsonSchema)]
#[schemars(rename = "R7 {T} é/~")]
pub enum R7<T> { X(T), Y }
#[derive(JsonSchema)]
#[schemars(rename = "R8{T}")]
pub struct R8<T> { pub p: std::marker::PhantomData<T> }
#[derive(JsonSchema)]
#[serde(rename = "R9-{T}")]
pub struct R9<T> { pub a: T }
#[derive(JsonSchema_repr)]
#[repr(u8)]
pub enum Rep { P = 1, Q = 2 }
#[derive(JsonSchema)]
#[serde(remote = "RemoteT")]
pub struct RemDef { pub a: A, pub b: B }
#[derive(JsonSchema)]
#[serde(remote = "sup::RemoteT")]
#[schemars(rename = "RenRem")]
pub struct RemDef2 { pub a: A, pub b: B }
#[derive(JsonSchema)]
#[serde(transparent)]
#[schemars(title = "t")]
pub struct TrTitle<T>(pub T);
#[derive(JsonSchema)]
pub struct Fmut<'a, T> { pub a: &'a mut T }
#[derive(JsonSchema)]
#[schemars(bound = "T: JsonSchema")]
pub struct Fmut2<'a, T> { pub a: &'a mut T, pub b: std::marker::PhantomData<u8> }
#[derive(JsonSchema)]
#[schemars(bound = "T: JsonSchema")]
pub struct Fref2<'a, T> { pub a: &'a T }
#[derive(JsonSchema)]
#[schemars(bound = "T: JsonSchema")]
pub struct Farr<T> { pub a: [T; 2] }
#[derive(JsonSchema)]
#[schemars(bound = "T: JsonSchema")]
pub struct Fsl<T> { pub a: Box<[T]> }
#[derive(JsonSchema)]
#[schemars(bound = "T: JsonSchema")]
pub struct Fpar<T> { pub a: (T) }
#[derive(JsonSchema)]
#[schemars(bound = "T: JsonSchema, U: JsonSchema")]
pub struct Ftup<T, U> { pub a: (u8, (T, (U,))) }
#[derive(JsonSchema)]
#[schemars(bound = "T: JsonSchema")]
pub struct Fq<T: JsonSchema> { pub a: <(T,) as Is>::T }
#[derive(JsonSchema)]
#[schemars(bound = "T: JsonSchema")]
pub struct Ffn<T> { pub a: Ty<fn(T) -> u8> }
#[derive(JsonSchema)]
#[schemars(bound = "T: JsonSchema, U: JsonSchema")]
pub struct Ffn2<T, U> { pub a: Ty<fn(T) -> U> }
#[derive(JsonSchema)]
#[schemars(bound = "T: JsonSchema")]
pub struct Fpt<T> { pub a: Ty<*const T> }
#[derive(JsonSchema)]
#[schemars(bound = "T: JsonSchema + 'static")]
pub struct Fdyn<T: 'static> { pub a: Ty<dyn Tq<T>> }
#[derive(JsonSchema)]
#[schemars(bound = "T: JsonSchema + 'static")]
pub struct Fdyn2<T: 'static> { pub a: Ty<dyn Tr2<O = T>> }
#[derive(JsonSchema)]
#[schemars(bound = "T: JsonSchema + 'static, U: JsonSchema + 'static")]
pub struct Fdyn3<T: 'static, U: 'static> { pub a: Ty<dyn Fn(T) -> U> }
#[derive(JsonSchema)]
#[schemars(bound = "T: JsonSchema")]
pub struct Fsls<T> { pub a: Ty<[T]> }
#[derive(JsonSchema)]
#[schemars(bound = "T: JsonSchema")]
pub enum Fen<T> { X, Y { #[serde(default)] a: Option<Box<(u8, T)>> } }
#[derive(JsonSchema)]
#[schemars(bound = "I::Assoc: JsonSchema")]
pub struct Fas<I: Tr> { #[schemars(with = "I::Assoc")] pub a: u8, pub p: std::marker::PhantomData<I> }
#[derive(JsonSchema)]
#[schemars(schema_with = "sub_of::<T>")]
pub struct TwinF<T: JsonSchema>(pub std::marker::PhantomData<T>);
#[derive(JsonSchema)]
#[schemars(with = "Vec<T>", title = "t")]
pub struct TwinW<T: JsonSchema>(pub std::marker::PhantomData<T>);
#[derive(JsonSchema)]
#[serde(from = "Vec<T>", into = "Vec<T>")]
pub struct TwinG<T: JsonSchema>(pub std::marker::PhantomData<T>);
#[derive(JsonSchema)]
#[serde(try_from = "Vec<T>", into = "Vec<U>")]
pub struct TwinT<T: JsonSchema, U: JsonSchema>(pub std::marker::PhantomData<(T, U)>);
#[derive(JsonSchema)]
pub enum TwinV<T: JsonSchema> { A(std::marker::PhantomData<T>), #[schemars(with = "Vec<T>")] B }
#[derive(JsonSchema)]
#[serde(tag = "t", content = "c")]
pub enum TwinV2<T: JsonSchema> { A(std::marker::PhantomData<T>), #[schemars(schema_with = "sub_of::<T>")] B { x: u8 } }
#[derive(JsonSchema)]
#[schemars(rename = "Twin")]
pub struct TwinP { pub a: A }
#[derive(JsonSchema)]
#[schemars(rename = "Twin")]
pub struct TwinQ { pub b: B }
#[derive(JsonSchema)]
#[schemars(extend("x-k" = T::K))]
pub struct TwinK<T: Kt> { pub p: std::marker::PhantomData<T> }

pub fn twin_local_1() -> std::borrow::Cow<'static, str> { #[derive(JsonSchema)] struct Local { a: A } <Local as JsonSchema>::schema_id() }
pub fn twin_local_2() -> std::borrow::Cow<'static, str> { #[derive(JsonSchema)] struct Local { b: B } <Local as JsonSchema>::schema_id() }

}
pub mod m2 {
use crate::support::*; use schemars::{JsonSchema, JsonSchema_repr};
#[derive(JsonSchema)]
pub struct Plain { pub a: B }
#[derive(JsonSchema)]
pub struct G1<T> { pub b: T }
pub mod m3 {
use crate::support::*; use schemars::{JsonSchema, JsonSchema_repr};
#[derive(JsonSchema)]
pub struct Plain { pub a: C }
}
}
pub mod g {
use super::*; use crate::support::*;
types! {
    i0_0: crate::gen41::m1::Plain,
    i1_0: crate::gen41::m2::Plain,
    i2_0: crate::gen41::m2::m3::Plain,
    i3_0: crate::gen41::m1::PlainE,
    i4_0: crate::gen41::m1::Tup,
    i5_0: crate::gen41::m1::Unit,
    i6_0: crate::gen41::m1::r#raw,
    i7_0: crate::gen41::m1::Newt,
    i8_0: crate::gen41::m1::Ren1,
    i9_0: crate::gen41::m1::Ren2,
    i10_0: crate::gen41::m1::Ren3,
    i11_0: crate::gen41::m1::Ren4,
    i12_0: crate::gen41::m1::Ren5,
    i13_0: crate::gen41::m1::G1<A>,
    i13_1: crate::gen41::m1::G1<B>,
    i13_2: crate::gen41::m1::G1<C>,
    i13_3: crate::gen41::m1::G1<D>,
    i13_4: crate::gen41::m1::G1<Option<A>>,
    i13_5: crate::gen41::m1::G1<Vec<A>>,
    i13_6: crate::gen41::m1::G1<Vec<B>>,
    i13_7: crate::gen41::m1::G1<Vec<Vec<A>>>,
    i13_8: crate::gen41::m1::G1<(A, B)>,
    i13_9: crate::gen41::m1::G1<(B, A)>,
    i13_10: crate::gen41::m1::G1<u8>,
    i13_11: crate::gen41::m1::G1<()>,
    i13_12: crate::gen41::m1::G1<[A; 2]>,
    i13_13: crate::gen41::m1::G1<[A; 3]>,
    i14_0: crate::gen41::m2::G1<A>,
    i14_1: crate::gen41::m2::G1<B>,
    i14_2: crate::gen41::m2::G1<C>,
    i14_3: crate::gen41::m2::G1<D>,
    i15_0: crate::gen41::m1::G1v<A>,
    i15_1: crate::gen41::m1::G1v<B>,
    i15_2: crate::gen41::m1::G1v<C>,
    i15_3: crate::gen41::m1::G1v<D>,
    i16_0: crate::gen41::m1::Gn<A>,
    i16_1: crate::gen41::m1::Gn<B>,
    i16_2: crate::gen41::m1::Gn<C>,
    i16_3: crate::gen41::m1::Gn<D>,
    i17_0: crate::gen41::m1::Gt<A>,
    i17_1: crate::gen41::m1::Gt<B>,
    i17_2: crate::gen41::m1::Gt<C>,
    i17_3: crate::gen41::m1::Gt<D>,
    i18_0: crate::gen41::m1::Ge<A>,
    i18_1: crate::gen41::m1::Ge<B>,
    i18_2: crate::gen41::m1::Ge<C>,
    i18_3: crate::gen41::m1::Ge<D>,
    i19_0: crate::gen41::m1::Gi<A>,
    i19_1: crate::gen41::m1::Gi<B>,
    i19_2: crate::gen41::m1::Gi<C>,
    i19_3: crate::gen41::m1::Gi<D>,
    i20_0: crate::gen41::m1::Gu<A, A>,
    i20_1: crate::gen41::m1::Gu<A, B>,
    i20_2: crate::gen41::m1::Gu<A, C>,
    i20_3: crate::gen41::m1::Gu<B, A>,
    i20_4: crate::gen41::m1::Gu<B, B>,
    i20_5: crate::gen41::m1::Gu<B, C>,
    i20_6: crate::gen41::m1::Gu<C, A>,
    i20_7: crate::gen41::m1::Gu<C, B>,
    i20_8: crate::gen41::m1::Gu<C, C>,
    i20_9: crate::gen41::m1::Gu<Vec<A>, B>,
    i20_10: crate::gen41::m1::Gu<A, Vec<B>>,
    i20_11: crate::gen41::m1::Gu<(A, B), C>,
    i20_12: crate::gen41::m1::Gu<A, (B, C)>,
    i21_0: crate::gen41::m1::G2<A, A>,
    i21_1: crate::gen41::m1::G2<A, B>,
    i21_2: crate::gen41::m1::G2<A, C>,
    i21_3: crate::gen41::m1::G2<B, A>,
    i21_4: crate::gen41::m1::G2<B, B>,
    i21_5: crate::gen41::m1::G2<B, C>,
    i21_6: crate::gen41::m1::G2<C, A>,
    i21_7: crate::gen41::m1::G2<C, B>,
    i21_8: crate::gen41::m1::G2<C, C>,
    i21_9: crate::gen41::m1::G2<Vec<A>, B>,
    i21_10: crate::gen41::m1::G2<A, Vec<B>>,
    i21_11: crate::gen41::m1::G2<(A, B), C>,
    i21_12: crate::gen41::m1::G2<A, (B, C)>,
    i22_0: crate::gen41::m1::G2r<A, A>,
    i22_1: crate::gen41::m1::G2r<A, B>,
    i22_2: crate::gen41::m1::G2r<A, C>,
    i22_3: crate::gen41::m1::G2r<B, A>,
    i22_4: crate::gen41::m1::G2r<B, B>,
    i22_5: crate::gen41::m1::G2r<B, C>,
    i22_6: crate::gen41::m1::G2r<C, A>,
    i22_7: crate::gen41::m1::G2r<C, B>,
    i22_8: crate::gen41::m1::G2r<C, C>,
    i22_9: crate::gen41::m1::G2r<Vec<A>, B>,
    i22_10: crate::gen41::m1::G2r<A, Vec<B>>,
    i22_11: crate::gen41::m1::G2r<(A, B), C>,
    i22_12: crate::gen41::m1::G2r<A, (B, C)>,
    i23_0: crate::gen41::m1::G2s<A, A>,
    i23_1: crate::gen41::m1::G2s<A, B>,
    i23_2: crate::gen41::m1::G2s<A, C>,
    i23_3: crate::gen41::m1::G2s<B, A>,
    i23_4: crate::gen41::m1::G2s<B, B>,
    i23_5: crate::gen41::m1::G2s<B, C>,
    i23_6: crate::gen41::m1::G2s<C, A>,
    i23_7: crate::gen41::m1::G2s<C, B>,
    i23_8: crate::gen41::m1::G2s<C, C>,
    i23_9: crate::gen41::m1::G2s<Vec<A>, B>,
    i23_10: crate::gen41::m1::G2s<A, Vec<B>>,
    i23_11: crate::gen41::m1::G2s<(A, B), C>,
    i23_12: crate::gen41::m1::G2s<A, (B, C)>,
    i24_0: crate::gen41::m1::G3<A, B, C>,
    i24_1: crate::gen41::m1::G3<B, A, C>,
    i24_2: crate::gen41::m1::G3<A, C, B>,
    i24_3: crate::gen41::m1::G3<C, B, A>,
    i24_4: crate::gen41::m1::G3<A, A, B>,
    i24_5: crate::gen41::m1::G3<A, B, B>,
    i24_6: crate::gen41::m1::G3<(A, B), C, D>,
    i24_7: crate::gen41::m1::G3<A, (B, C), D>,
    i25_0: crate::gen41::m1::Gl<'static, A>,
    i25_1: crate::gen41::m1::Gl<'static, B>,
    i26_0: crate::gen41::m1::Gw<A>,
    i26_1: crate::gen41::m1::Gw<B>,
    i26_2: crate::gen41::m1::Gw<C>,
    i26_3: crate::gen41::m1::Gw<D>,
    i27_0: crate::gen41::m1::Gd<A>,
    i27_1: crate::gen41::m1::Gd<B>,
    i28_0: crate::gen41::m1::Gf<A>,
    i28_1: crate::gen41::m1::Gf<B>,
    i28_2: crate::gen41::m1::Gf<C>,
    i28_3: crate::gen41::m1::Gf<D>,
    i29_0: crate::gen41::m1::Gwith<A>,
    i29_1: crate::gen41::m1::Gwith<B>,
    i29_2: crate::gen41::m1::Gwith<C>,
    i29_3: crate::gen41::m1::Gwith<D>,
    i30_0: crate::gen41::m1::Gsw<A>,
    i30_1: crate::gen41::m1::Gsw<B>,
    i30_2: crate::gen41::m1::Gsw<C>,
    i30_3: crate::gen41::m1::Gsw<D>,
    i31_0: crate::gen41::m1::Gsw2<A, A>,
    i31_1: crate::gen41::m1::Gsw2<A, B>,
    i31_2: crate::gen41::m1::Gsw2<A, C>,
    i31_3: crate::gen41::m1::Gsw2<B, A>,
    i31_4: crate::gen41::m1::Gsw2<B, B>,
    i31_5: crate::gen41::m1::Gsw2<B, C>,
    i31_6: crate::gen41::m1::Gsw2<C, A>,
    i31_7: crate::gen41::m1::Gsw2<C, B>,
    i31_8: crate::gen41::m1::Gsw2<C, C>,
    i32_0: crate::gen41::m1::Gsw3<A>,
    i32_1: crate::gen41::m1::Gsw3<B>,
    i32_2: crate::gen41::m1::Gsw3<C>,
    i32_3: crate::gen41::m1::Gsw3<D>,
    i33_0: crate::gen41::m1::Gph<A, B>,
    i33_1: crate::gen41::m1::Gph<B, A>,
    i33_2: crate::gen41::m1::Gph<A, C>,
    i34_0: crate::gen41::m1::Gsk<A, B>,
    i34_1: crate::gen41::m1::Gsk<B, A>,
    i35_0: crate::gen41::m1::Gso<A>,
    i35_1: crate::gen41::m1::Gso<B>,
    i35_2: crate::gen41::m1::Gso<C>,
    i35_3: crate::gen41::m1::Gso<D>,
    i36_0: crate::gen41::m1::Gsd<A>,
    i36_1: crate::gen41::m1::Gsd<B>,
    i36_2: crate::gen41::m1::Gsd<C>,
    i36_3: crate::gen41::m1::Gsd<D>,
    i37_0: crate::gen41::m1::Gsv<A>,
    i37_1: crate::gen41::m1::Gsv<B>,
    i37_2: crate::gen41::m1::Gsv<C>,
    i37_3: crate::gen41::m1::Gsv<D>,
    i38_0: crate::gen41::m1::Gas<Ta>,
    i38_1: crate::gen41::m1::Gas<Tb>,
    i39_0: crate::gen41::m1::Gas2<Ta>,
    i39_1: crate::gen41::m1::Gas2<Tb>,
    i40_0: crate::gen41::m1::Gas3<Na>,
    i40_1: crate::gen41::m1::Gas3<Nb>,
    i41_0: crate::gen41::m1::K1<0>,
    i41_1: crate::gen41::m1::K1<1>,
    i41_2: crate::gen41::m1::K1<12>,
    i41_3: crate::gen41::m1::K1<123>,
    i42_0: crate::gen41::m1::K2<1, 11>,
    i42_1: crate::gen41::m1::K2<11, 1>,
    i42_2: crate::gen41::m1::K2<1, 1>,
    i42_3: crate::gen41::m1::K2<11, 11>,
    i42_4: crate::gen41::m1::K2<111, 1>,
    i42_5: crate::gen41::m1::K2<1, 111>,
    i42_6: crate::gen41::m1::K2<12, 3>,
    i42_7: crate::gen41::m1::K2<1, 23>,
    i43_0: crate::gen41::m1::K3<'a', true, 1>,
    i43_1: crate::gen41::m1::K3<'b', true, 1>,
    i43_2: crate::gen41::m1::K3<'a', false, 1>,
    i43_3: crate::gen41::m1::K3<'a', true, -1>,
    i43_4: crate::gen41::m1::K3<'1', true, 11>,
    i44_0: crate::gen41::m1::K4<A, 1>,
    i44_1: crate::gen41::m1::K4<A, 2>,
    i44_2: crate::gen41::m1::K4<B, 1>,
    i44_3: crate::gen41::m1::K4<B, 12>,
    i45_0: crate::gen41::m1::K5<1>,
    i45_1: crate::gen41::m1::K5<2>,
    i46_0: crate::gen41::m1::R1<A>,
    i46_1: crate::gen41::m1::R1<B>,
    i46_2: crate::gen41::m1::R1<C>,
    i46_3: crate::gen41::m1::R1<D>,
    i46_4: crate::gen41::m1::R1<Option<A>>,
    i46_5: crate::gen41::m1::R1<Vec<A>>,
    i47_0: crate::gen41::m1::R2<A, A>,
    i47_1: crate::gen41::m1::R2<A, B>,
    i47_2: crate::gen41::m1::R2<A, C>,
    i47_3: crate::gen41::m1::R2<B, A>,
    i47_4: crate::gen41::m1::R2<B, B>,
    i47_5: crate::gen41::m1::R2<B, C>,
    i47_6: crate::gen41::m1::R2<C, A>,
    i47_7: crate::gen41::m1::R2<C, B>,
    i47_8: crate::gen41::m1::R2<C, C>,
    i48_0: crate::gen41::m1::R3<A, A>,
    i48_1: crate::gen41::m1::R3<A, B>,
    i48_2: crate::gen41::m1::R3<A, C>,
    i48_3: crate::gen41::m1::R3<B, A>,
    i48_4: crate::gen41::m1::R3<B, B>,
    i48_5: crate::gen41::m1::R3<B, C>,
    i48_6: crate::gen41::m1::R3<C, A>,
    i48_7: crate::gen41::m1::R3<C, B>,
    i48_8: crate::gen41::m1::R3<C, C>,
    i49_0: crate::gen41::m1::R4<A>,
    i49_1: crate::gen41::m1::R4<B>,
    i49_2: crate::gen41::m1::R4<C>,
    i49_3: crate::gen41::m1::R4<D>,
    i50_0: crate::gen41::m1::R5<A, 1, 'x'>,
    i50_1: crate::gen41::m1::R5<A, 2, 'x'>,
    i50_2: crate::gen41::m1::R5<B, 1, 'y'>,
    i51_0: crate::gen41::m1::R6<A>,
    i51_1: crate::gen41::m1::R6<B>,
    i51_2: crate::gen41::m1::R6<C>,
    i51_3: crate::gen41::m1::R6<D>,
    i52_0: crate::gen41::m1::R7<A>,
    i52_1: crate::gen41::m1::R7<B>,
    i52_2: crate::gen41::m1::R7<C>,
    i52_3: crate::gen41::m1::R7<D>,
    i53_0: crate::gen41::m1::R8<A>,
    i53_1: crate::gen41::m1::R8<B>,
    i53_2: crate::gen41::m1::R8<C>,
    i53_3: crate::gen41::m1::R8<D>,
    i54_0: crate::gen41::m1::R9<A>,
    i54_1: crate::gen41::m1::R9<B>,
    i54_2: crate::gen41::m1::R9<C>,
    i55_0: crate::gen41::m1::Rep,
    i56_0: crate::gen41::m1::RemDef,
    i57_0: crate::gen41::m1::RemDef2,
    i58_0: crate::gen41::m1::TrTitle<A>,
    i58_1: crate::gen41::m1::TrTitle<B>,
    i58_2: crate::gen41::m1::TrTitle<C>,
    i58_3: crate::gen41::m1::TrTitle<D>,
    i59_0: crate::gen41::m1::Fmut<'static, A>,
    i59_1: crate::gen41::m1::Fmut<'static, B>,
    i60_0: crate::gen41::m1::Fmut2<'static, A>,
    i60_1: crate::gen41::m1::Fmut2<'static, B>,
    i61_0: crate::gen41::m1::Fref2<'static, A>,
    i61_1: crate::gen41::m1::Fref2<'static, B>,
    i62_0: crate::gen41::m1::Farr<A>,
    i62_1: crate::gen41::m1::Farr<B>,
    i62_2: crate::gen41::m1::Farr<C>,
    i63_0: crate::gen41::m1::Fsl<A>,
    i63_1: crate::gen41::m1::Fsl<B>,
    i63_2: crate::gen41::m1::Fsl<C>,
    i64_0: crate::gen41::m1::Fpar<A>,
    i64_1: crate::gen41::m1::Fpar<B>,
    i64_2: crate::gen41::m1::Fpar<C>,
    i65_0: crate::gen41::m1::Ftup<A, A>,
    i65_1: crate::gen41::m1::Ftup<A, B>,
    i65_2: crate::gen41::m1::Ftup<A, C>,
    i65_3: crate::gen41::m1::Ftup<B, A>,
    i65_4: crate::gen41::m1::Ftup<B, B>,
    i65_5: crate::gen41::m1::Ftup<B, C>,
    i65_6: crate::gen41::m1::Ftup<C, A>,
    i65_7: crate::gen41::m1::Ftup<C, B>,
    i65_8: crate::gen41::m1::Ftup<C, C>,
    i66_0: crate::gen41::m1::Fq<A>,
    i66_1: crate::gen41::m1::Fq<B>,
    i66_2: crate::gen41::m1::Fq<C>,
    i67_0: crate::gen41::m1::Ffn<A>,
    i67_1: crate::gen41::m1::Ffn<B>,
    i67_2: crate::gen41::m1::Ffn<C>,
    i68_0: crate::gen41::m1::Ffn2<A, A>,
    i68_1: crate::gen41::m1::Ffn2<A, B>,
    i68_2: crate::gen41::m1::Ffn2<A, C>,
    i68_3: crate::gen41::m1::Ffn2<B, A>,
    i68_4: crate::gen41::m1::Ffn2<B, B>,
    i68_5: crate::gen41::m1::Ffn2<B, C>,
    i68_6: crate::gen41::m1::Ffn2<C, A>,
    i68_7: crate::gen41::m1::Ffn2<C, B>,
    i68_8: crate::gen41::m1::Ffn2<C, C>,
    i69_0: crate::gen41::m1::Fpt<A>,
    i69_1: crate::gen41::m1::Fpt<B>,
    i69_2: crate::gen41::m1::Fpt<C>,
    i70_0: crate::gen41::m1::Fdyn<A>,
    i70_1: crate::gen41::m1::Fdyn<B>,
    i70_2: crate::gen41::m1::Fdyn<C>,
    i71_0: crate::gen41::m1::Fdyn2<A>,
    i71_1: crate::gen41::m1::Fdyn2<B>,
    i71_2: crate::gen41::m1::Fdyn2<C>,
    i72_0: crate::gen41::m1::Fdyn3<A, A>,
    i72_1: crate::gen41::m1::Fdyn3<A, B>,
    i72_2: crate::gen41::m1::Fdyn3<A, C>,
    i72_3: crate::gen41::m1::Fdyn3<B, A>,
    i72_4: crate::gen41::m1::Fdyn3<B, B>,
    i72_5: crate::gen41::m1::Fdyn3<B, C>,
    i72_6: crate::gen41::m1::Fdyn3<C, A>,
    i72_7: crate::gen41::m1::Fdyn3<C, B>,
    i72_8: crate::gen41::m1::Fdyn3<C, C>,
    i73_0: crate::gen41::m1::Fsls<A>,
    i73_1: crate::gen41::m1::Fsls<B>,
    i73_2: crate::gen41::m1::Fsls<C>,
    i74_0: crate::gen41::m1::Fen<A>,
    i74_1: crate::gen41::m1::Fen<B>,
    i74_2: crate::gen41::m1::Fen<C>,
    i75_0: crate::gen41::m1::Fas<Ta>,
    i75_1: crate::gen41::m1::Fas<Tb>,
    i76_0: crate::gen41::m1::TwinF<A>,
    i76_1: crate::gen41::m1::TwinF<B>,
    i76_2: crate::gen41::m1::TwinF<C>,
    i77_0: crate::gen41::m1::TwinW<A>,
    i77_1: crate::gen41::m1::TwinW<B>,
    i77_2: crate::gen41::m1::TwinW<C>,
    i78_0: crate::gen41::m1::TwinG<A>,
    i78_1: crate::gen41::m1::TwinG<B>,
    i78_2: crate::gen41::m1::TwinG<C>,
    i79_0: crate::gen41::m1::TwinT<A, A>,
    i79_1: crate::gen41::m1::TwinT<A, B>,
    i79_2: crate::gen41::m1::TwinT<A, C>,
    i79_3: crate::gen41::m1::TwinT<B, A>,
    i79_4: crate::gen41::m1::TwinT<B, B>,
    i79_5: crate::gen41::m1::TwinT<B, C>,
    i79_6: crate::gen41::m1::TwinT<C, A>,
    i79_7: crate::gen41::m1::TwinT<C, B>,
    i79_8: crate::gen41::m1::TwinT<C, C>,
    i80_0: crate::gen41::m1::TwinV<A>,
    i80_1: crate::gen41::m1::TwinV<B>,
    i80_2: crate::gen41::m1::TwinV<C>,
    i81_0: crate::gen41::m1::TwinV2<A>,
    i81_1: crate::gen41::m1::TwinV2<B>,
    i81_2: crate::gen41::m1::TwinV2<C>,
    tw_renamed_in_one_module_a: crate::gen41::m1::TwinP,
    tw_renamed_in_one_module_b: crate::gen41::m1::TwinQ,
    tw_attribute_expression_a: crate::gen41::m1::TwinK<Ka>,
    tw_attribute_expression_b: crate::gen41::m1::TwinK<Kb>,
}
}
