"""Generic and renamed witness types for derived names and ids (C41)."""

class D:
    """src: declaration; insts: lists of arguments; name: expected name, {X} standing for the name of argument X;
    params: parameters in declaration order; mod: module"""
    def __init__(self, src, insts, name=None, params='', mod='m1'):
        self.src = src; self.insts = insts; self.params = params.split(); self.mod = mod
        head = src[:src.index('{')] if '{' in src.split('pub', 1)[1] and 0 else src
        import re
        self.ty = re.search(r'pub (?:struct|enum) (?:r#)?(\w+)', src).group(1)
        self.raw = bool(re.search(r'pub (?:struct|enum) r#', src))
        self.name = name if name is not None else self.ty

ABCD = ['A', 'B', 'C', 'D']
ONE = [[a] for a in ABCD] + [['Option<A>'], ['Vec<A>'], ['Vec<B>'], ['Vec<Vec<A>>'], ['(A, B)'], ['(B, A)'], ['u8'], ['()'], ['[A; 2]'], ['[A; 3]']]
TWO = [[a, b] for a in ABCD[:3] for b in ABCD[:3]] + [['Vec<A>', 'B'], ['A', 'Vec<B>'], ['(A, B)', 'C'], ['A', '(B, C)']]
J = '#[derive(JsonSchema)]\n'
DECLS = [
    D(J + 'pub struct Plain { pub a: A }', [[]]),
    D(J + 'pub struct Plain { pub a: B }', [[]], mod='m2'),
    D(J + 'pub struct Plain { pub a: C }', [[]], mod='m2::m3'),
    D(J + 'pub enum PlainE { X(A), Y }', [[]]),
    D(J + 'pub struct Tup(pub A, pub B);', [[]]),
    D(J + 'pub struct Unit;', [[]]),
    D(J + 'pub struct r#raw { pub a: A }', [[]]),
    D(J + 'pub struct Newt(pub A);', [[]]),
    D(J + '#[schemars(rename = "ren")]\npub struct Ren1 { pub a: A }', [[]], 'ren'),
    D(J + '#[serde(rename = "sren")]\npub struct Ren2 { pub a: A }', [[]], 'sren'),
    D(J + '#[serde(rename = "sr")]\n#[schemars(rename = "xr")]\npub struct Ren3 { pub a: A }', [[]], 'xr'),
    D(J + '#[schemars(rename = "a b/c~d")]\npub enum Ren4 { X(A), Y }', [[]], 'a b/c~d'),
    D(J + '#[schemars(rename = "{{lit}}")]\npub struct Ren5 { pub a: A }', [[]], '{{lit}}'),
    D(J + 'pub struct G1<T> { pub a: T }', ONE, params='T'),
    D(J + 'pub struct G1<T> { pub b: T }', ONE[:4], params='T', mod='m2'),
    D(J + 'pub struct G1v<T> { pub a: Vec<T>, pub b: Option<T> }', ONE[:4], params='T'),
    D(J + 'pub struct Gn<T>(pub T);', ONE[:4], params='T'),
    D(J + 'pub struct Gt<T>(pub u8, pub T);', ONE[:4], params='T'),
    D(J + 'pub enum Ge<T> { X(T), Y { y: T }, Z(T, T), W }', ONE[:4], params='T'),
    D(J + '#[serde(tag = "t")]\npub enum Gi<T> { X { a: T } }', ONE[:4], params='T'),
    D(J + '#[serde(untagged)]\npub enum Gu<T, U> { X(T), Y(U) }', TWO, params='T U'),
    D(J + 'pub struct G2<T, U> { pub a: T, pub b: U }', TWO, params='T U'),
    D(J + 'pub struct G2r<Z, Y> { pub a: Z, pub b: Y }', TWO, params='Z Y'),
    D(J + 'pub struct G2s<U, T> { pub a: T, pub b: U }', TWO, params='U T'),
    D(J + 'pub struct G3<T, U, V> { pub a: T, pub b: (U, V) }', [['A', 'B', 'C'], ['B', 'A', 'C'], ['A', 'C', 'B'], ['C', 'B', 'A'], ['A', 'A', 'B'], ['A', 'B', 'B'], ['(A, B)', 'C', 'D'], ['A', '(B, C)', 'D']], params='T U V'),
    D(J + "pub struct Gl<'a, T> { pub a: &'a T, pub b: std::borrow::Cow<'a, str> }", [["'static, A"], ["'static, B"]], params='T'),
    D(J + 'pub struct Gw<T> where T: Clone { pub a: [T; 2] }', ONE[:4], params='T'),
    D(J + 'pub struct Gd<T = A> { pub a: T }', [['A'], ['B']], params='T'),
    D(J + 'pub struct Gf<T> { #[serde(flatten)] pub a: T }', ONE[:4], params='T'),
    D(J + 'pub struct Gwith<T> { #[schemars(with = "Vec<T>")] pub a: NoSchema, pub p: std::marker::PhantomData<T> }', ONE[:4], params='T'),
    D(J + 'pub struct Gsw<T: JsonSchema> { #[schemars(schema_with = "sub_of::<T>")] pub a: NoSchema, pub p: std::marker::PhantomData<T> }', ONE[:4], params='T'),
    D(J + 'pub struct Gsw2<T: JsonSchema, U> { #[schemars(schema_with = "sub_of::<Vec<T>>")] pub a: NoSchema, pub b: U, pub p: std::marker::PhantomData<T> }', TWO[:9], params='T U'),
    D(J + 'pub enum Gsw3<T: JsonSchema> { X(#[schemars(schema_with = "sub_of::<T>")] NoSchema), Y { #[schemars(schema_with = "sub_of::<T>")] b: std::marker::PhantomData<T> } }', ONE[:4], params='T'),
    D(J + 'pub struct Gph<T, U> { pub a: T, pub p: std::marker::PhantomData<U> }', [['A', 'B'], ['B', 'A'], ['A', 'C']], params='T U'),
    D(J + 'pub struct Gsk<T, U> { pub a: T, #[serde(skip)] pub p: Option<U> }', [['A', 'B'], ['B', 'A']], params='T U'),
    D(J + 'pub struct Gso<T> { #[serde(skip_serializing)] pub a: T, #[serde(skip_deserializing, default)] pub b: u8 }', ONE[:4], params='T'),
    D(J + 'pub struct Gsd<T> { #[serde(skip_deserializing, default)] pub a: Vec<T>, pub b: u8 }', ONE[:4], params='T'),
    D(J + 'pub enum Gsv<T> { #[serde(skip_serializing)] X(T), Y }', ONE[:4], params='T'),
    D(J + 'pub struct Gas<I: Tr> { pub a: I::Assoc }', [['Ta'], ['Tb']], params='I'),
    D(J + 'pub struct Gas2<I: Tr> { pub a: Vec<<I as Tr>::Assoc> }', [['Ta'], ['Tb']], params='I'),
    D(J + '#[schemars(bound = "I::Assoc: JsonSchema")]\npub struct Gas3<I: Tr> { pub a: I::Assoc }', [['Na'], ['Nb']], params='I'),
    D(J + 'pub struct K1<const N: usize> { #[schemars(range(max = N))] pub a: u32 }', [['0'], ['1'], ['12'], ['123']], params='N'),
    D(J + 'pub struct K2<const N: usize, const M: usize> { #[schemars(range(min = N, max = M))] pub a: u32 }', [['1', '11'], ['11', '1'], ['1', '1'], ['11', '11'], ['111', '1'], ['1', '111'], ['12', '3'], ['1', '23']], params='N M'),
    D(J + 'pub struct K3<const CH: char, const BO: bool, const IN: i8> { #[schemars(extend("x-c" = CH, "x-b" = BO, "x-i" = IN))] pub a: u32 }', [["'a'", 'true', '1'], ["'b'", 'true', '1'], ["'a'", 'false', '1'], ["'a'", 'true', '-1'], ["'1'", 'true', '11']], params="CH BO IN"),
    D(J + 'pub struct K4<T, const N: usize> { pub a: T, #[schemars(length(max = N))] pub b: String }', [['A', '1'], ['A', '2'], ['B', '1'], ['B', '12']], params='T N'),
    D(J + 'pub enum K5<const N: usize> { #[schemars(extend("x-n" = N))] X }', [['1'], ['2']], params='N'),
    D(J + '#[schemars(rename = "R1-{T}")]\npub struct R1<T> { pub a: T }', ONE[:6], 'R1-{T}', 'T'),
    D(J + '#[schemars(rename = "{U}{T}{U}")]\npub struct R2<T, U> { pub a: T, pub b: U }', TWO[:9], '{U}{T}{U}', 'T U'),
    D(J + '#[schemars(rename = "R3<{T}>")]\npub struct R3<T, U> { pub a: T, pub b: U }', TWO[:9], 'R3<{T}>', 'T U'),
    D(J + '#[schemars(rename = "R4{{{T}}}{{T}}")]\npub struct R4<T> { pub a: T }', ONE[:4], 'R4{{{T}}}{{T}}', 'T'),
    D(J + '#[schemars(rename = "R5-{N}-{T}-{M}")]\npub struct R5<T, const N: usize, const M: char> { pub a: T }', [['A', '1', "'x'"], ['A', '2', "'x'"], ['B', '1', "'y'"]], 'R5-{N}-{T}-{M}', 'T N M'),
    D(J + '#[schemars(rename = "R6")]\npub struct R6<T> { pub a: T }', ONE[:4], 'R6', 'T'),
    D(J + '#[schemars(rename = "R7 {T} é/~")]\npub enum R7<T> { X(T), Y }', ONE[:4], 'R7 {T} é/~', 'T'),
    D(J + '#[schemars(rename = "R8{T}")]\npub struct R8<T> { pub p: std::marker::PhantomData<T> }', ONE[:4], 'R8{T}', 'T'),
    D(J + '#[serde(rename = "R9-{T}")]\npub struct R9<T> { pub a: T }', ONE[:3], 'R9-{T}', 'T'),
    D('#[derive(JsonSchema_repr)]\n#[repr(u8)]\npub enum Rep { P = 1, Q = 2 }', [[]]),
    D(J + '#[serde(remote = "RemoteT")]\npub struct RemDef { pub a: A, pub b: B }', [[]], 'RemoteT'),
    D(J + '#[serde(remote = "sup::RemoteT")]\n#[schemars(rename = "RenRem")]\npub struct RemDef2 { pub a: A, pub b: B }', [[]], 'RenRem'),
    D(J + '#[serde(transparent)]\n#[schemars(title = "t")]\npub struct TrTitle<T>(pub T);', ONE[:4], params='T'),
    D(J + "pub struct Fmut<'a, T> { pub a: &'a mut T }", [["'static, A"], ["'static, B"]], params='T'),
    D(J + "#[schemars(bound = \"T: JsonSchema\")]\npub struct Fmut2<'a, T> { pub a: &'a mut T, pub b: std::marker::PhantomData<u8> }", [["'static, A"], ["'static, B"]], params='T'),
    D(J + "#[schemars(bound = \"T: JsonSchema\")]\npub struct Fref2<'a, T> { pub a: &'a T }", [["'static, A"], ["'static, B"]], params='T'),
    D(J + '#[schemars(bound = "T: JsonSchema")]\npub struct Farr<T> { pub a: [T; 2] }', ONE[:3], params='T'),
    D(J + '#[schemars(bound = "T: JsonSchema")]\npub struct Fsl<T> { pub a: Box<[T]> }', ONE[:3], params='T'),
    D(J + '#[schemars(bound = "T: JsonSchema")]\npub struct Fpar<T> { pub a: (T) }', ONE[:3], params='T'),
    D(J + '#[schemars(bound = "T: JsonSchema, U: JsonSchema")]\npub struct Ftup<T, U> { pub a: (u8, (T, (U,))) }', TWO[:9], params='T U'),
    D(J + '#[schemars(bound = "T: JsonSchema")]\npub struct Fq<T: JsonSchema> { pub a: <(T,) as Is>::T }', ONE[:3], params='T'),
    D(J + '#[schemars(bound = "T: JsonSchema")]\npub struct Ffn<T> { pub a: Ty<fn(T) -> u8> }', ONE[:3], params='T'),
    D(J + '#[schemars(bound = "T: JsonSchema, U: JsonSchema")]\npub struct Ffn2<T, U> { pub a: Ty<fn(T) -> U> }', TWO[:9], params='T U'),
    D(J + '#[schemars(bound = "T: JsonSchema")]\npub struct Fpt<T> { pub a: Ty<*const T> }', ONE[:3], params='T'),
    D(J + '#[schemars(bound = "T: JsonSchema + \'static")]\npub struct Fdyn<T: \'static> { pub a: Ty<dyn Tq<T>> }', ONE[:3], params='T'),
    D(J + '#[schemars(bound = "T: JsonSchema + \'static")]\npub struct Fdyn2<T: \'static> { pub a: Ty<dyn Tr2<O = T>> }', ONE[:3], params='T'),
    D(J + '#[schemars(bound = "T: JsonSchema + \'static, U: JsonSchema + \'static")]\npub struct Fdyn3<T: \'static, U: \'static> { pub a: Ty<dyn Fn(T) -> U> }', TWO[:9], params='T U'),
    D(J + '#[schemars(bound = "T: JsonSchema")]\npub struct Fsls<T> { pub a: Ty<[T]> }', ONE[:3], params='T'),
    D(J + '#[schemars(bound = "T: JsonSchema")]\npub enum Fen<T> { X, Y { #[serde(default)] a: Option<Box<(u8, T)>> } }', ONE[:3], params='T'),
    D(J + '#[schemars(bound = "I::Assoc: JsonSchema")]\npub struct Fas<I: Tr> { #[schemars(with = "I::Assoc")] pub a: u8, pub p: std::marker::PhantomData<I> }', [['Ta'], ['Tb']], params='I'),
    D(J + '#[schemars(schema_with = "sub_of::<T>")]\npub struct TwinF<T: JsonSchema>(pub std::marker::PhantomData<T>);', ONE[:3], params='T'),
    D(J + '#[schemars(with = "Vec<T>", title = "t")]\npub struct TwinW<T: JsonSchema>(pub std::marker::PhantomData<T>);', ONE[:3], params='T'),
    D(J + '#[serde(from = "Vec<T>", into = "Vec<T>")]\npub struct TwinG<T: JsonSchema>(pub std::marker::PhantomData<T>);', ONE[:3], params='T'),
    D(J + '#[serde(try_from = "Vec<T>", into = "Vec<U>")]\npub struct TwinT<T: JsonSchema, U: JsonSchema>(pub std::marker::PhantomData<(T, U)>);', TWO[:9], params='T U'),
    D(J + 'pub enum TwinV<T: JsonSchema> { A(std::marker::PhantomData<T>), #[schemars(with = "Vec<T>")] B }', ONE[:3], params='T'),
    D(J + '#[serde(tag = "t", content = "c")]\npub enum TwinV2<T: JsonSchema> { A(std::marker::PhantomData<T>), #[schemars(schema_with = "sub_of::<T>")] B { x: u8 } }', ONE[:3], params='T'),
]
# pairs that real code can produce and that share an id although their schemas differ
TWINS = [
    ('renamed-in-one-module', J + '#[schemars(rename = "Twin")]\npub struct TwinP { pub a: A }\n' + J + '#[schemars(rename = "Twin")]\npub struct TwinQ { pub b: B }', 'TwinP', 'TwinQ',
     'two types of one module renamed to the same name'),
    ('attribute-expression', J + '#[schemars(extend("x-k" = T::K))]\npub struct TwinK<T: Kt> { pub p: std::marker::PhantomData<T> }', 'TwinK<Ka>', 'TwinK<Kb>',
     'a type parameter used only in the expression of an attribute'),
]
LOCAL = '''
pub fn twin_local_1() -> std::borrow::Cow<'static, str> { #[derive(JsonSchema)] struct Local { a: A } <Local as JsonSchema>::schema_id() }
pub fn twin_local_2() -> std::borrow::Cow<'static, str> { #[derive(JsonSchema)] struct Local { b: B } <Local as JsonSchema>::schema_id() }
'''
