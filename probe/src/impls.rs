use crate::markers::*;
use std::collections::*;
types! {
    t_u8: u8, t_u16: u16, t_u32: u32, t_u64: u64, t_u128: u128, t_usize: usize,
    t_i8: i8, t_i16: i16, t_i32: i32, t_i64: i64, t_i128: i128, t_isize: isize,
    t_bool: bool, t_f32: f32, t_f64: f64, t_char: char, t_str: str, t_string: String, t_unit: (),
    t_option: Option<A>, t_option2: Option<Option<A>>, t_result: Result<A, B>, t_bound: std::ops::Bound<A>,
    t_range: std::ops::Range<A>, t_rangei: std::ops::RangeInclusive<A>, t_phantom: std::marker::PhantomData<A>,
    t_args: std::fmt::Arguments<'static>,
    t_box: Box<A>, t_rc: std::rc::Rc<A>, t_arc: std::sync::Arc<A>, t_ref: &'static A, t_refmut: &'static mut A,
    t_weak: std::rc::Weak<A>, t_aweak: std::sync::Weak<A>, t_mutex: std::sync::Mutex<A>, t_rwlock: std::sync::RwLock<A>,
    t_cell: std::cell::Cell<A>, t_refcell: std::cell::RefCell<A>, t_cow: std::borrow::Cow<'static, A>,
    t_wrapping: std::num::Wrapping<A>, t_reverse: std::cmp::Reverse<A>,
    t_boxstr: Box<str>, t_boxslice: Box<[A]>,
    t_vec: Vec<A>, t_vecdeque: VecDeque<A>, t_slice: [A], t_linkedlist: LinkedList<A>, t_binheap: BinaryHeap<A>,
    t_btreeset: BTreeSet<A>, t_hashset: HashSet<A>, t_btreemap: BTreeMap<A, B>, t_hashmap: HashMap<A, B>,
    t_arr0: [A; 0], t_arr1: [A; 1], t_arr3: [A; 3], t_arr32: [A; 32],
    t_tup1: (A,), t_tup2: (A, B), t_tup3: (A, B, C), t_tup4: (A, B, C, D), t_tup16: (A,B,C,D,A,B,C,D,A,B,C,D,A,B,C,D),
    t_map_string: BTreeMap<String, B>, t_map_u8: BTreeMap<u8, B>, t_map_i32: BTreeMap<i32, B>, t_map_char: BTreeMap<char, B>,
    t_nz_u8: std::num::NonZeroU8, t_nz_u32: std::num::NonZeroU32, t_nz_i32: std::num::NonZeroI32, t_nz_i8: std::num::NonZeroI8,
    t_nz_u16: std::num::NonZeroU16, t_nz_u64: std::num::NonZeroU64, t_nz_u128: std::num::NonZeroU128, t_nz_usize: std::num::NonZeroUsize,
    t_nz_i16: std::num::NonZeroI16, t_nz_i64: std::num::NonZeroI64, t_nz_i128: std::num::NonZeroI128, t_nz_isize: std::num::NonZeroIsize,
    t_at_u8: std::sync::atomic::AtomicU8, t_at_bool: std::sync::atomic::AtomicBool, t_at_i64: std::sync::atomic::AtomicI64,
    t_at_i8: std::sync::atomic::AtomicI8, t_at_i16: std::sync::atomic::AtomicI16, t_at_i32: std::sync::atomic::AtomicI32,
    t_at_isize: std::sync::atomic::AtomicIsize, t_at_u16: std::sync::atomic::AtomicU16, t_at_u32: std::sync::atomic::AtomicU32,
    t_at_u64: std::sync::atomic::AtomicU64, t_at_usize: std::sync::atomic::AtomicUsize,
    t_duration: std::time::Duration, t_systemtime: std::time::SystemTime,
    t_path: std::path::Path, t_pathbuf: std::path::PathBuf, t_osstr: std::ffi::OsStr, t_osstring: std::ffi::OsString,
    t_cstr: std::ffi::CStr, t_cstring: std::ffi::CString,
    t_ipv4: std::net::Ipv4Addr, t_ipv6: std::net::Ipv6Addr, t_ip: std::net::IpAddr,
    t_sock: std::net::SocketAddr, t_sock4: std::net::SocketAddrV4, t_sock6: std::net::SocketAddrV6,
    t_value: serde_json::Value, t_jsonmap: serde_json::Map<String, serde_json::Value>, t_number: serde_json::Number, t_rawvalue: serde_json::value::RawValue,
    t_schema: schemars::Schema,
    t_arrayvec: arrayvec07::ArrayVec<A, 5>, t_arraystring: arrayvec07::ArrayString<5>,
    t_bytes: bytes1::Bytes, t_bytesmut: bytes1::BytesMut,
    t_date: chrono04::NaiveDate, t_ndt: chrono04::NaiveDateTime, t_ntime: chrono04::NaiveTime, t_dt: chrono04::DateTime<chrono04::Utc>, t_weekday: chrono04::Weekday,
    t_chrono_dur: chrono04::TimeDelta,
    t_bigdec: bigdecimal04::BigDecimal, t_rustdec: rust_decimal1::Decimal,
    t_either: either1::Either<A, B>, t_indexmap: indexmap2::IndexMap<A, B>, t_indexset: indexmap2::IndexSet<A>,
    t_jts: jiff02::Timestamp, t_jz: jiff02::Zoned, t_jd: jiff02::civil::Date, t_jt: jiff02::civil::Time, t_jdt: jiff02::civil::DateTime,
    t_jspan: jiff02::Span, t_jsd: jiff02::SignedDuration,
    t_semver: semver1::Version, t_smallvec: smallvec1::SmallVec<[A; 2]>, t_smol2: smol_str02::SmolStr, t_smol3: smol_str03::SmolStr,
    t_url: url2::Url, t_uuid: uuid1::Uuid,
    t_tup5: (A,B,C,D,A,),
    t_tup6: (A,B,C,D,A,B,),
    t_tup7: (A,B,C,D,A,B,C,),
    t_tup8: (A,B,C,D,A,B,C,D,),
    t_tup9: (A,B,C,D,A,B,C,D,A,),
    t_tup10: (A,B,C,D,A,B,C,D,A,B,),
    t_tup11: (A,B,C,D,A,B,C,D,A,B,C,),
    t_tup12: (A,B,C,D,A,B,C,D,A,B,C,D,),
    t_tup13: (A,B,C,D,A,B,C,D,A,B,C,D,A,),
    t_tup14: (A,B,C,D,A,B,C,D,A,B,C,D,A,B,),
    t_tup15: (A,B,C,D,A,B,C,D,A,B,C,D,A,B,C,),
    t_arr2: [A; 2], t_arr4: [A; 4], t_arr5: [A; 5], t_arr6: [A; 6], t_arr7: [A; 7], t_arr8: [A; 8], t_arr9: [A; 9], t_arr10: [A; 10], t_arr11: [A; 11], t_arr12: [A; 12], t_arr13: [A; 13], t_arr14: [A; 14], t_arr15: [A; 15], t_arr16: [A; 16], t_arr17: [A; 17], t_arr18: [A; 18], t_arr19: [A; 19], t_arr20: [A; 20], t_arr21: [A; 21], t_arr22: [A; 22], t_arr23: [A; 23], t_arr24: [A; 24], t_arr25: [A; 25], t_arr26: [A; 26], t_arr27: [A; 27], t_arr28: [A; 28], t_arr29: [A; 29], t_arr30: [A; 30], t_arr31: [A; 31],
    t_boxopt: Box<Option<A>>, t_rcstr: std::rc::Rc<str>, t_cowstr: std::borrow::Cow<'static, str>, t_cowslice: std::borrow::Cow<'static, [A]>,
    t_mutexvec: std::sync::Mutex<Vec<A>>, t_refstr: &'static str, t_arcslice: std::sync::Arc<[A]>, t_optbox: Option<Box<A>>,
    t_map_nz: BTreeMap<std::num::NonZeroU16, B>, t_map_u128: HashMap<u128, B>, t_map_isize: BTreeMap<isize, B>, t_map_boxu8: HashMap<Box<u8>, B>, t_map_cow: BTreeMap<std::borrow::Cow<'static, str>, B>,
    t_map_refstr: HashMap<&'static str, B>, t_map_bool: BTreeMap<bool, B>, t_map_ip: BTreeMap<std::net::Ipv4Addr, B>, t_map_uuid: indexmap2::IndexMap<uuid1::Uuid, B>, t_map_weekday: BTreeMap<std::cmp::Reverse<String>, B>,
    t_dtfix: chrono04::DateTime<chrono04::FixedOffset>, t_semvervec: Vec<semver1::Version>, t_arrayvec7: arrayvec07::ArrayVec<B, 7>, t_arraystring9: arrayvec07::ArrayString<9>,
    t_smallvec9: smallvec1::SmallVec<[B; 9]>, t_range_b: std::ops::Range<B>, t_set_b: BTreeSet<B>, t_result_ba: Result<B, A>, t_either_ba: either1::Either<B, A>, t_tup_ba: (B, A), t_tup_aa: (A, A), t_map_ba: BTreeMap<B, A>,
    t_arr_b3: [B; 3], t_opt_b: Option<B>, t_bound_b: std::ops::Bound<B>, t_vec_b: Vec<B>,
}
