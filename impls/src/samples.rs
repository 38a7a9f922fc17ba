//! Sample values of every type with a built-in schema.
use schemars::JsonSchema;
use serde::{Deserialize, Serialize};
use std::collections::*;
use std::hash::Hash;

pub trait Smp: Sized {
    fn smp() -> Vec<Self>;
}
macro_rules! smp {
    ($($t:ty => [$($e:expr),* $(,)?];)*) => {$(impl Smp for $t { fn smp() -> Vec<Self> { vec![$($e),*] } })*};
}
macro_rules! ints {
    ($($t:ident $nz:ident $at:ident,)*) => {$(
        impl Smp for $t { fn smp() -> Vec<Self> { let mut v = vec![0, 1, 2, 3, $t::MIN, $t::MAX, $t::MIN + 1, $t::MAX - 1, $t::MAX / 2, $t::MAX / 2 + 1]; v.dedup(); v } }
        impl Smp for std::num::$nz { fn smp() -> Vec<Self> { <$t>::smp().into_iter().filter_map(std::num::$nz::new).collect() } }
        impl Smp for std::sync::atomic::$at { fn smp() -> Vec<Self> { <$t>::smp().into_iter().map(std::sync::atomic::$at::new).collect() } }
    )*};
}
ints! { u8 NonZeroU8 AtomicU8, u16 NonZeroU16 AtomicU16, u32 NonZeroU32 AtomicU32, u64 NonZeroU64 AtomicU64, usize NonZeroUsize AtomicUsize,
        i8 NonZeroI8 AtomicI8, i16 NonZeroI16 AtomicI16, i32 NonZeroI32 AtomicI32, i64 NonZeroI64 AtomicI64, isize NonZeroIsize AtomicIsize, }
macro_rules! bigs {
    ($($t:ident $nz:ident),*) => {$(
        impl Smp for $t { fn smp() -> Vec<Self> { vec![0, 1, u64::MAX as $t, i64::MAX as $t, $t::MIN, $t::MAX] } }
        impl Smp for std::num::$nz { fn smp() -> Vec<Self> { <$t>::smp().into_iter().filter_map(std::num::$nz::new).collect() } }
    )*};
}
bigs!(u128 NonZeroU128, i128 NonZeroI128);
fn s(x: &str) -> String {
    x.into()
}
smp! {
    bool => [false, true];
    std::sync::atomic::AtomicBool => [true.into(), false.into()];
    char => ['a', '\u{0}', '"', 'é', '\u{20ac}', '🚀', '\u{10ffff}', '\n'];
    String => [s(""), s("a"), s("é🚀"), s("\u{0}\"\\\n"), s("0"), s("null")];
    () => [()];
    f32 => [0.0, -0.0, 1.5, f32::MIN, f32::MAX, f32::MIN_POSITIVE, f32::EPSILON];
    f64 => [0.0, -0.0, 1.5, f64::MIN, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e300];
    std::time::Duration => [std::time::Duration::ZERO, std::time::Duration::MAX, std::time::Duration::new(1, 999_999_999)];
    std::time::SystemTime => [std::time::UNIX_EPOCH, std::time::UNIX_EPOCH + std::time::Duration::new(7, 999_999_999), std::time::UNIX_EPOCH - std::time::Duration::new(1, 0)];
    std::net::Ipv4Addr => ["0.0.0.0".parse().unwrap(), "255.255.255.255".parse().unwrap(), "127.0.0.1".parse().unwrap()];
    std::net::Ipv6Addr => ["::".parse().unwrap(), "::1".parse().unwrap(), "::ffff:1.2.3.4".parse().unwrap(), "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff".parse().unwrap()];
    std::net::IpAddr => ["0.0.0.0".parse().unwrap(), "::1".parse().unwrap()];
    std::net::SocketAddr => ["0.0.0.0:0".parse().unwrap(), "[::1]:65535".parse().unwrap()];
    std::net::SocketAddrV4 => ["255.0.0.0:65535".parse().unwrap()];
    std::net::SocketAddrV6 => ["[::]:1".parse().unwrap(), "[fe80::1%4]:1".parse().unwrap()];
    std::path::PathBuf => [std::path::PathBuf::new(), "/a/ü".into(), bad_os().into()];
    std::ffi::OsString => [s("").into(), s("a\u{ff}").into(), bad_os()];
    std::ffi::CString => [std::ffi::CString::new("").unwrap(), std::ffi::CString::new(vec![1u8, 127, 128, 255]).unwrap(), std::ffi::CString::new("é").unwrap()];
    serde_json::Value => [serde_json::json!(null), serde_json::json!(1), serde_json::json!({"a": [1.5, "x", {}]})];
    serde_json::Number => [0.into(), u64::MAX.into(), i64::MIN.into(), serde_json::Number::from_f64(1.5e300).unwrap()];
    serde_json::Map<String, serde_json::Value> => [serde_json::Map::new(), serde_json::json!({"a": null, "": 3}).as_object().unwrap().clone()];
    bytes1::Bytes => [bytes1::Bytes::new(), bytes1::Bytes::from_static(&[0, 255, 7])];
    bytes1::BytesMut => [bytes1::BytesMut::new(), bytes1::BytesMut::from(&[0u8, 255, 7][..])];
    smol_str02::SmolStr => ["".into(), "é".into()];
    smol_str03::SmolStr => ["".into(), "é".into()];
    arrayvec07::ArrayString<4> => [arrayvec07::ArrayString::from("").unwrap(), arrayvec07::ArrayString::from("🚀").unwrap(), arrayvec07::ArrayString::from("abcd").unwrap()];
    uuid1::Uuid => [uuid1::Uuid::nil(), uuid1::Uuid::from_u128(u128::MAX), uuid1::Uuid::from_u128(0x0123456789abcdef0123456789abcdef)];
    url2::Url => ["http://a/b?c#d".parse().unwrap(), "mailto:x@y".parse().unwrap(), "file:///".parse().unwrap()];
    semver1::Version => [semver1::Version::new(0, 0, 0), semver1::Version::new(u64::MAX, 10, 20), "1.2.3-rc.1-x.0a+build.01.-".parse().unwrap(), "1.0.0-0.a.-".parse().unwrap(), "1.0.0+0".parse().unwrap()];
    rust_decimal1::Decimal => [rust_decimal1::Decimal::MAX, rust_decimal1::Decimal::MIN, rust_decimal1::Decimal::ZERO, rust_decimal1::Decimal::new(-1, 28), rust_decimal1::Decimal::new(150, 2), rust_decimal1::Decimal::new(0, 5)];
    bigdecimal04::BigDecimal => ["0".parse().unwrap(), "-1.50".parse().unwrap(), "123456789012345678901234567890.5".parse().unwrap(), "1e-3".parse().unwrap(), "1e3".parse().unwrap(), "1e-30".parse().unwrap(), "-12e-30".parse().unwrap(), "1e40".parse().unwrap(), "12e400".parse().unwrap(), "-12e400".parse().unwrap()];
    chrono04::Weekday => [chrono04::Weekday::Mon, chrono04::Weekday::Tue, chrono04::Weekday::Wed, chrono04::Weekday::Thu, chrono04::Weekday::Fri, chrono04::Weekday::Sat, chrono04::Weekday::Sun];
    chrono04::TimeDelta => [chrono04::TimeDelta::zero(), chrono04::TimeDelta::MAX, chrono04::TimeDelta::MIN, chrono04::TimeDelta::nanoseconds(-1), chrono04::TimeDelta::nanoseconds(999_999_999)];
    chrono04::NaiveDate => [chrono04::NaiveDate::from_ymd_opt(1, 1, 1).unwrap(), chrono04::NaiveDate::from_ymd_opt(9999, 12, 31).unwrap(), chrono04::NaiveDate::from_ymd_opt(2024, 2, 29).unwrap()];
    chrono04::NaiveTime => [chrono04::NaiveTime::from_hms_opt(0, 0, 0).unwrap(), chrono04::NaiveTime::from_hms_nano_opt(23, 59, 59, 999_999_999).unwrap()];
    chrono04::NaiveDateTime => [chrono04::NaiveDate::from_ymd_opt(2024, 2, 29).unwrap().and_hms_opt(1, 2, 3).unwrap(), chrono04::NaiveDate::from_ymd_opt(1, 1, 1).unwrap().and_hms_milli_opt(23, 59, 59, 5).unwrap()];
    chrono04::DateTime<chrono04::Utc> => [chrono04::DateTime::from_timestamp(0, 0).unwrap(), chrono04::DateTime::from_timestamp(253402300799, 5).unwrap()];
    chrono04::DateTime<chrono04::FixedOffset> => [chrono04::DateTime::from_timestamp(0, 1_000_000).unwrap().fixed_offset(), chrono04::DateTime::parse_from_rfc3339("2024-02-29T23:59:59.5-12:30").unwrap()];
    jiff02::SignedDuration => [jiff02::SignedDuration::ZERO, jiff02::SignedDuration::new(3661, 5), jiff02::SignedDuration::new(-3661, 0)];
    jiff02::Span => [jiff02::Span::new(), jiff02::Span::new().days(3).hours(2), jiff02::Span::new().years(1).months(2).seconds(5)];
    jiff02::Timestamp => [jiff02::Timestamp::UNIX_EPOCH, jiff02::Timestamp::new(253402207200, 999_999_999).unwrap()];
    jiff02::Zoned => [jiff02::Timestamp::UNIX_EPOCH.to_zoned(jiff02::tz::TimeZone::UTC), jiff02::Timestamp::UNIX_EPOCH.to_zoned(jiff02::tz::TimeZone::fixed(jiff02::tz::offset(-5)))];
    jiff02::civil::Date => [jiff02::civil::date(2024, 2, 29), jiff02::civil::date(9999, 12, 31)];
    jiff02::civil::Time => [jiff02::civil::time(0, 0, 0, 0), jiff02::civil::time(23, 59, 59, 999_999_999)];
    jiff02::civil::DateTime => [jiff02::civil::date(2024, 2, 29).at(1, 2, 3, 4), jiff02::civil::date(1, 1, 1).at(0, 0, 0, 0)];
}
fn bad_os() -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    std::ffi::OsString::from_vec(vec![b'a', 0xff])
}

// ---- wrappers
fn few<T: Smp>(n: usize) -> Vec<T> {
    T::smp().into_iter().take(n).collect()
}
macro_rules! each1 {
    ($($t:ty : $f:expr;)*) => {$(impl<T: Smp> Smp for $t { fn smp() -> Vec<Self> { T::smp().into_iter().map($f).collect() } })*};
}
each1! {
    Box<T>: Box::new;
    std::rc::Rc<T>: std::rc::Rc::new;
    std::sync::Arc<T>: std::sync::Arc::new;
    std::sync::Mutex<T>: std::sync::Mutex::new;
    std::sync::RwLock<T>: std::sync::RwLock::new;
    std::cell::RefCell<T>: std::cell::RefCell::new;
    std::num::Wrapping<T>: std::num::Wrapping;
    std::cmp::Reverse<T>: std::cmp::Reverse;
    (T,): |x| (x,);
}
impl<T: Smp + Copy> Smp for std::cell::Cell<T> {
    fn smp() -> Vec<Self> {
        T::smp().into_iter().map(std::cell::Cell::new).collect()
    }
}
/// Dangling and live weak references; the live ones are kept alive for good.
impl<T: Smp + 'static> Smp for std::rc::Weak<T> {
    fn smp() -> Vec<Self> {
        let mut v = vec![std::rc::Weak::new()];
        for x in few::<T>(2) {
            let rc = std::rc::Rc::new(x);
            v.push(std::rc::Rc::downgrade(&rc));
            std::mem::forget(rc);
        }
        v
    }
}
impl<T: Smp + 'static> Smp for std::sync::Weak<T> {
    fn smp() -> Vec<Self> {
        let mut v = vec![std::sync::Weak::new()];
        for x in few::<T>(2) {
            let rc = std::sync::Arc::new(x);
            v.push(std::sync::Arc::downgrade(&rc));
            std::mem::forget(rc);
        }
        v
    }
}
impl<T: Smp> Smp for Option<T> {
    fn smp() -> Vec<Self> {
        std::iter::once(None).chain(T::smp().into_iter().map(Some)).collect()
    }
}
impl<T: Smp + Clone + 'static> Smp for std::borrow::Cow<'static, T> {
    fn smp() -> Vec<Self> {
        T::smp().into_iter().map(std::borrow::Cow::Owned).collect()
    }
}
impl<T> Smp for std::marker::PhantomData<T> {
    fn smp() -> Vec<Self> {
        vec![std::marker::PhantomData]
    }
}
macro_rules! coll {
    ($([$($b:tt)*] $t:ty;)*) => {$(impl<T: Smp $($b)*> Smp for $t { fn smp() -> Vec<Self> {
        vec![std::iter::empty().collect(), T::smp().into_iter().take(1).collect(), T::smp().into_iter().take(2).collect(), T::smp().into_iter().collect()]
    } })*};
}
coll! {
    [] Vec<T>; [] VecDeque<T>; [] LinkedList<T>; [+ Ord] BTreeSet<T>; [+ Ord] BinaryHeap<T>; [+ Hash + Eq] HashSet<T>; [+ Hash + Eq] indexmap2::IndexSet<T>;
}
impl<T: Smp> Smp for smallvec1::SmallVec<[T; 2]> {
    fn smp() -> Vec<Self> {
        vec![Default::default(), few(1).into(), few::<T>(5).into_iter().collect()]
    }
}
impl<T: Smp> Smp for arrayvec07::ArrayVec<T, 2> {
    fn smp() -> Vec<Self> {
        vec![Default::default(), few::<T>(1).into_iter().collect(), few::<T>(2).into_iter().collect()]
    }
}
impl<T: Smp> Smp for arrayvec07::ArrayVec<T, 0> {
    fn smp() -> Vec<Self> {
        vec![Default::default()]
    }
}
impl<T: Smp, const N: usize> Smp for [T; N]
where
    T: Clone,
{
    fn smp() -> Vec<Self> {
        let v = T::smp();
        (0..2).map(|k| std::array::from_fn(|i| v[(i + k) % v.len()].clone())).collect()
    }
}
macro_rules! maps {
    ($([$($b:tt)*] $t:ty;)*) => {$(impl<K: Smp $($b)*, V: Smp> Smp for $t { fn smp() -> Vec<Self> {
        let mut out: Vec<Self> = vec![std::iter::empty().collect(), K::smp().into_iter().zip(V::smp()).collect()];
        out.extend(K::smp().into_iter().zip(V::smp().into_iter().chain(V::smp()).chain(V::smp()).chain(V::smp()).chain(V::smp())).map(|x| std::iter::once(x).collect::<Self>()));
        out
    } })*};
}
maps! { [+ Ord] BTreeMap<K, V>; [+ Hash + Eq] HashMap<K, V>; [+ Hash + Eq] indexmap2::IndexMap<K, V>; }
impl<T: Smp, E: Smp> Smp for Result<T, E> {
    fn smp() -> Vec<Self> {
        T::smp().into_iter().map(Ok).chain(E::smp().into_iter().map(Err)).collect()
    }
}
impl<T: Smp, E: Smp> Smp for either1::Either<T, E> {
    fn smp() -> Vec<Self> {
        T::smp().into_iter().map(either1::Either::Left).chain(E::smp().into_iter().map(either1::Either::Right)).collect()
    }
}
impl<T: Smp> Smp for std::ops::Bound<T> {
    fn smp() -> Vec<Self> {
        use std::ops::Bound::*;
        std::iter::once(Unbounded).chain(T::smp().into_iter().map(Included)).chain(T::smp().into_iter().map(Excluded)).collect()
    }
}
impl<T: Smp> Smp for std::ops::Range<T> {
    fn smp() -> Vec<Self> {
        T::smp().into_iter().zip(T::smp().into_iter().rev()).map(|(a, b)| a..b).collect()
    }
}
impl<T: Smp> Smp for std::ops::RangeInclusive<T> {
    fn smp() -> Vec<Self> {
        T::smp().into_iter().zip(T::smp().into_iter().rev()).map(|(a, b)| a..=b).collect()
    }
}
macro_rules! tuples {
    ($($($n:ident)+;)*) => {$(impl<$($n: Smp),+> Smp for ($($n,)+) {
        #[allow(non_snake_case, unused_assignments, unused_mut)]
        fn smp() -> Vec<Self> {
            let mut out = vec![];
            for k in 0..2 {
                let mut i = k;
                $(let $n = { let mut v = $n::smp(); let l = v.len(); i += 1; v.swap_remove(i % l) };)+
                out.push(($($n,)+));
            }
            out
        }
    })*};
}
tuples! {
    A B; A B C; A B C D; A B C D E; A B C D E F; A B C D E F G; A B C D E F G H; A B C D E F G H I; A B C D E F G H I J;
    A B C D E F G H I J K; A B C D E F G H I J K L; A B C D E F G H I J K L M; A B C D E F G H I J K L M N; A B C D E F G H I J K L M N O; A B C D E F G H I J K L M N O P;
}

// ---- derived types used inside containers and as map keys
macro_rules! ty {
    ($item:item, $n:ident, $($v:expr),*) => {
        #[derive(Serialize, Deserialize, JsonSchema, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
        $item
        impl Smp for $n { fn smp() -> Vec<Self> { vec![$($v),*] } }
    };
}
ty!(pub struct Rec { pub a: u8, pub b: Option<String> }, Rec, Rec{a:1,b:None}, Rec{a:255,b:Some(s("x"))});
ty!(pub enum KUnit { Aa, #[serde(rename = "b/b~")] Bb }, KUnit, KUnit::Aa, KUnit::Bb);
ty!(pub enum KDoc { #[doc = "doc"] Aa, Bb, Cc }, KDoc, KDoc::Aa, KDoc::Bb, KDoc::Cc);
ty!(pub struct KStr(pub String);, KStr, KStr(s("x")), KStr(s("")));
ty!(pub struct KInt(pub i16);, KInt, KInt(-5), KInt(7));
ty!(#[serde(transparent)] pub struct KTr { pub x: u8 }, KTr, KTr{x:0}, KTr{x:255});
ty!(#[schemars(rename = "K% /é")] pub struct KOdd(pub u8);, KOdd, KOdd(0), KOdd(255));
ty!(#[serde(untagged)] pub enum KAny { S(KUnit), I(i8), T(String) }, KAny, KAny::S(KUnit::Aa), KAny::I(-3), KAny::T(s("other")));
ty!(#[serde(untagged)] pub enum KAnyU { S(KUnit), I(u8) }, KAnyU, KAnyU::S(KUnit::Bb), KAnyU::I(3));
ty!(#[serde(untagged)] pub enum KAny2 { S(KUnit), R(KOdd) }, KAny2, KAny2::S(KUnit::Bb), KAny2::R(KOdd(9)));
ty!(#[serde(untagged)] pub enum KDocAny { #[doc = "documented"] S(KUnit), I(KInt), #[doc = "too"] D(KDoc) }, KDocAny, KDocAny::S(KUnit::Bb), KDocAny::I(KInt(9)), KDocAny::D(KDoc::Cc));
ty!(#[schemars(inline)] pub struct KInl(pub u16);, KInl, KInl(0), KInl(65535));
ty!(#[schemars(with = "KPatS")] pub enum KPat { #[serde(rename = "k1")] A, #[serde(rename = "k/")] B }, KPat, KPat::A, KPat::B);
pub struct KPatS;
impl JsonSchema for KPatS {
    fn schema_name() -> std::borrow::Cow<'static, str> {
        "KPatS".into()
    }
    fn json_schema(_: &mut schemars::SchemaGenerator) -> schemars::Schema {
        schemars::json_schema!({"type": "string", "pattern": "^k[1/]$"})
    }
}
ty!(pub enum KNum { #[serde(rename = "1")] One, #[serde(rename = "")] Empty }, KNum, KNum::One, KNum::Empty);
