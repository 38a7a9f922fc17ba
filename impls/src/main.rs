//! I01, I02: the built-in schemas of standard-library and third-party types, with serde as oracle.
mod samples;
use samples::*;
use schemars::generate::SchemaSettings;
use schemars::{JsonSchema, SchemaGenerator};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::*;
use vcore::jsv::{json_eq, Dialect, Doc};
use vcore::report::par_for;
use vcore::{uni, Report};

struct Case {
    name: &'static str,
    vals: fn() -> Vec<Result<Value, String>>,
    de: Option<fn(&Value) -> Option<Result<Value, String>>>,
    root: fn(SchemaGenerator) -> schemars::Schema,
    sub: fn(&mut SchemaGenerator) -> schemars::Schema,
    /// the type as the only field of a struct, and whether that struct deserializes from `{}`
    field: Option<(fn(SchemaGenerator) -> schemars::Schema, fn() -> bool)>,
}

/// A struct with one field.
#[derive(Serialize, serde::Deserialize, JsonSchema)]
struct Field<T> {
    f: T,
}

struct Cases(Vec<Case>);
impl Cases {
    fn ser<T: ?Sized + JsonSchema>(&mut self, vals: fn() -> Vec<Result<Value, String>>) {
        self.0.push(Case { name: std::any::type_name::<T>(), vals, de: None, root: |g| g.into_root_schema_for::<T>(), sub: |g| g.subschema_for::<T>(), field: None });
    }
    fn add<T: Smp + Serialize + DeserializeOwned + JsonSchema>(&mut self) {
        self.0.push(Case {
            name: std::any::type_name::<T>(),
            vals: || T::smp().iter().map(|x| serde_json::to_value(x).map_err(|e| e.to_string())).collect(),
            // through text, as JSON map keys and borrowed data behave differently from a Value
            de: Some(|v| serde_json::from_str::<T>(&v.to_string()).ok().map(|x| serde_json::to_value(&x).map_err(|e| e.to_string()))),
            root: |g| g.into_root_schema_for::<T>(),
            sub: |g| g.subschema_for::<T>(),
            field: Some((|g| g.into_root_schema_for::<Field<T>>(), || serde_json::from_str::<Field<T>>("{}").is_ok())),
        });
    }
    /// Containers of any type.
    fn wrap<T: Smp + Clone + Serialize + DeserializeOwned + JsonSchema + 'static>(&mut self) {
        use std::ops::*;
        self.add::<Option<T>>();
        self.add::<Box<T>>();
        self.add::<Vec<T>>();
        self.add::<VecDeque<T>>();
        self.add::<LinkedList<T>>();
        self.add::<[T; 0]>();
        self.add::<[T; 1]>();
        self.add::<[T; 2]>();
        self.add::<(T,)>();
        self.add::<(T, u8)>();
        self.add::<(String, T, T)>();
        self.add::<BTreeMap<String, T>>();
        self.add::<HashMap<String, T>>();
        self.add::<indexmap2::IndexMap<String, T>>();
        self.add::<Result<T, String>>();
        self.add::<Result<u8, T>>();
        self.add::<either1::Either<T, bool>>();
        self.add::<either1::Either<String, T>>();
        self.add::<Bound<T>>();
        self.add::<Range<T>>();
        self.add::<RangeInclusive<T>>();
        self.add::<std::rc::Rc<T>>();
        self.add::<std::sync::Arc<T>>();
        self.add::<std::rc::Weak<T>>();
        self.add::<std::sync::Weak<T>>();
        self.add::<std::sync::Mutex<T>>();
        self.add::<std::sync::RwLock<T>>();
        self.add::<std::cell::RefCell<T>>();
        self.add::<std::cmp::Reverse<T>>();
        self.add::<std::num::Wrapping<T>>();
        self.add::<std::borrow::Cow<'static, T>>();
        self.add::<smallvec1::SmallVec<[T; 2]>>();
        self.add::<arrayvec07::ArrayVec<T, 2>>();
        self.add::<arrayvec07::ArrayVec<T, 0>>();
        self.add::<std::marker::PhantomData<T>>();
        self.ser::<&T>(|| T::smp().iter().map(|x| serde_json::to_value(&x).map_err(|e| e.to_string())).collect());
        self.ser::<&mut T>(|| T::smp().iter_mut().map(|x| serde_json::to_value(&x).map_err(|e| e.to_string())).collect());
        self.ser::<[T]>(|| {
            let s = T::smp();
            (0..3).map(|n| serde_json::to_value(&s[..n.min(s.len())]).map_err(|e| e.to_string())).collect()
        });
    }
    /// Types that serde can flatten.
    fn flat<T: Smp + Clone + Serialize + DeserializeOwned + JsonSchema + 'static>(&mut self) {
        self.add::<Flat<T>>();
        self.add::<Flat<Option<T>>>();
        self.add::<Flat<Box<T>>>();
        self.add::<Flat<std::rc::Rc<T>>>();
        self.add::<Flat<std::borrow::Cow<'static, T>>>();
        self.add::<Flat<Option<Box<T>>>>();
        self.add::<Flat2<Flat<T>>>();
    }
    fn ord<T: Smp + Ord + std::hash::Hash + Serialize + DeserializeOwned + JsonSchema>(&mut self) {
        self.add::<BTreeSet<T>>();
        self.add::<HashSet<T>>();
        self.add::<indexmap2::IndexSet<T>>();
        self.add::<BinaryHeap<T>>();
    }
    fn key<K: Smp + Ord + std::hash::Hash + Serialize + DeserializeOwned + JsonSchema>(&mut self) {
        self.add::<BTreeMap<K, u8>>();
        self.add::<HashMap<K, Rec>>();
        self.add::<indexmap2::IndexMap<K, Option<bool>>>();
        self.add::<Vec<BTreeMap<K, Vec<u8>>>>();
    }
}

macro_rules! all {
    ($c:ident . $m:ident : $($t:ty),* $(,)?) => { $($c.$m::<$t>();)* };
}
macro_rules! arrays { ($c:ident $($n:literal)*) => { $($c.add::<[u8; $n]>(); $c.add::<[Rec; $n]>();)* }; }

fn cases() -> Vec<Case> {
    let mut c = Cases(vec![]);
    all!(c.add: u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, u128, i128, f32, f64, bool, char, String, (),
        std::num::NonZeroU8, std::num::NonZeroU16, std::num::NonZeroU32, std::num::NonZeroU64, std::num::NonZeroUsize, std::num::NonZeroU128,
        std::num::NonZeroI8, std::num::NonZeroI16, std::num::NonZeroI32, std::num::NonZeroI64, std::num::NonZeroIsize, std::num::NonZeroI128,
        std::sync::atomic::AtomicU8, std::sync::atomic::AtomicU16, std::sync::atomic::AtomicU32, std::sync::atomic::AtomicU64, std::sync::atomic::AtomicUsize,
        std::sync::atomic::AtomicI8, std::sync::atomic::AtomicI16, std::sync::atomic::AtomicI32, std::sync::atomic::AtomicI64, std::sync::atomic::AtomicIsize, std::sync::atomic::AtomicBool,
        std::time::Duration, std::time::SystemTime, std::net::Ipv4Addr, std::net::Ipv6Addr, std::net::IpAddr, std::net::SocketAddr, std::net::SocketAddrV4, std::net::SocketAddrV6,
        std::path::PathBuf, std::ffi::OsString, std::ffi::CString, Value, serde_json::Number, serde_json::Map<String, Value>,
        bytes1::Bytes, bytes1::BytesMut, smol_str02::SmolStr, smol_str03::SmolStr, arrayvec07::ArrayString<4>, uuid1::Uuid, url2::Url, semver1::Version,
        rust_decimal1::Decimal, bigdecimal04::BigDecimal,
        chrono04::Weekday, chrono04::TimeDelta, chrono04::NaiveDate, chrono04::NaiveTime, chrono04::NaiveDateTime, chrono04::DateTime<chrono04::Utc>, chrono04::DateTime<chrono04::FixedOffset>,
        jiff02::SignedDuration, jiff02::Span, jiff02::Timestamp, jiff02::Zoned, jiff02::civil::Date, jiff02::civil::Time, jiff02::civil::DateTime,
        Rec, KUnit, KDoc, KStr, KInt, KTr, KOdd, KInl,
    );
    c.add::<Box<str>>();
    c.add::<std::rc::Rc<str>>();
    c.add::<std::sync::Arc<str>>();
    c.add::<Box<[u8]>>();
    c.add::<std::borrow::Cow<'static, str>>();
    c.add::<Box<std::path::Path>>();
    c.add::<Box<std::ffi::CStr>>();
    c.add::<Box<std::ffi::OsStr>>();
    c.add::<std::cell::Cell<u8>>();
    c.add::<std::cell::Cell<Option<bool>>>();
    c.ser::<NonFinite>(|| [f64::NAN, f64::INFINITY, f64::NEG_INFINITY].iter().map(|x| serde_json::to_value(x).map_err(|e| e.to_string())).collect());
    c.ser::<str>(|| ["", "é"].iter().map(|x| Ok(json!(x))).collect());
    c.ser::<std::path::Path>(|| vec![serde_json::to_value(std::path::Path::new("/x")).map_err(|e| e.to_string())]);
    c.ser::<std::fmt::Arguments<'static>>(|| vec![serde_json::to_value(format_args!("a{}", 1)).map_err(|e| e.to_string())]);
    c.ser::<serde_json::value::RawValue>(|| {
        ["null", "1", "{\"a\":[1]}"].iter().map(|t| serde_json::to_value(serde_json::value::RawValue::from_string(t.to_string()).unwrap()).map_err(|e| e.to_string())).collect()
    });
    arrays!(c 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
    all!(c.add: (u8, u8), (u8, bool, u8), (u8, String, u8, ()), (u8, u8, u8, u8, bool), (bool, bool, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, Rec),
        (u8, u8, u8, u8, u8, u8, u8, bool), (u8, u8, u8, u8, u8, u8, u8, u8, String), (bool, u8, u8, u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, bool),
        (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, bool), (bool, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8), (u8, u8, bool, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8),
        (u8, u8, u8, u8, u8, u8, u8, u8, bool, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, bool));
    all!(c.wrap: u8, i64, String, bool, (), f64, char, Option<u8>, Rec, KUnit, Value, std::num::NonZeroU8, uuid1::Uuid, Vec<u8>, [bool; 2], (u8, String),
        BTreeMap<String, u8>, BTreeMap<i8, bool>, Result<u8, String>, Option<Option<bool>>, BTreeSet<u8>, std::ops::Bound<u8>, std::time::Duration,
        chrono04::NaiveDate, chrono04::Weekday, rust_decimal1::Decimal, semver1::Version, bytes1::Bytes, Option<Rec>, Option<Value>, either1::Either<u8, String>, KDoc, Box<Option<KUnit>>);
    all!(c.ord: u8, i32, String, bool, char, (), Option<u8>, KUnit, (u8, bool), Vec<u8>, Rec, std::net::IpAddr, uuid1::Uuid);
    all!(c.key: String, char, bool, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, std::num::NonZeroU8, std::num::NonZeroI64, KUnit, KDoc, KStr, KInt, KTr, KOdd, KInl, KPat, KNum,
        KAny, KAnyU, KAny2, KDocAny, Box<KUnit>, std::borrow::Cow<'static, String>, std::rc::Rc<u8>, std::cmp::Reverse<u8>, std::num::Wrapping<i8>, Box<str>,
        std::net::Ipv4Addr, std::net::IpAddr, std::net::SocketAddr, uuid1::Uuid, url2::Url, semver1::Version, rust_decimal1::Decimal, bigdecimal04::BigDecimal,
        chrono04::NaiveDate, chrono04::NaiveTime, jiff02::civil::Date, jiff02::Timestamp, std::path::PathBuf,
        smol_str02::SmolStr, smol_str03::SmolStr, arrayvec07::ArrayString<4>, u128, i128);
    all!(c.flat: Rec, BTreeMap<String, u8>, HashMap<String, Rec>, indexmap2::IndexMap<String, bool>, BTreeMap<KUnit, u8>, BTreeMap<KDoc, u8>, BTreeMap<KPat, u8>, BTreeMap<uuid1::Uuid, u8>,
        Value, serde_json::Map<String, Value>, Result<u8, String>, std::ops::Bound<u8>, either1::Either<Rec, BTreeMap<String, bool>>, either1::Either<BTreeMap<String, u8>, BTreeMap<String, bool>>,
        std::time::Duration, std::time::SystemTime, std::ops::Range<u8>, std::ops::RangeInclusive<i8>, ());
    c.add::<HashMap<chrono04::Weekday, u8>>();
    c.add::<indexmap2::IndexMap<chrono04::Weekday, Rec>>();
    c.0
}

/// A struct that flattens the type.
#[derive(Serialize, serde::Deserialize, JsonSchema)]
struct Flat<T> {
    own: Option<u8>,
    #[serde(flatten)]
    f: T,
}
impl<T: Smp> Smp for Flat<T> {
    fn smp() -> Vec<Self> {
        T::smp().into_iter().enumerate().map(|(i, f)| Flat { own: (i % 2 == 0).then_some(1), f }).collect()
    }
}

/// The same with a required field, and a flattened option beside.
#[derive(Serialize, serde::Deserialize, JsonSchema)]
struct Flat2<T> {
    #[serde(flatten)]
    f: T,
    own2: bool,
}
impl<T: Smp> Smp for Flat2<T> {
    fn smp() -> Vec<Self> {
        T::smp().into_iter().map(|f| Flat2 { f, own2: true }).collect()
    }
}

impl Smp for Box<str> {
    fn smp() -> Vec<Self> {
        String::smp().into_iter().map(Into::into).collect()
    }
}
impl Smp for std::rc::Rc<str> {
    fn smp() -> Vec<Self> {
        String::smp().into_iter().map(Into::into).collect()
    }
}
impl Smp for std::sync::Arc<str> {
    fn smp() -> Vec<Self> {
        String::smp().into_iter().map(Into::into).collect()
    }
}
impl Smp for Box<[u8]> {
    fn smp() -> Vec<Self> {
        Vec::<u8>::smp().into_iter().map(Into::into).collect()
    }
}
impl Smp for std::borrow::Cow<'static, str> {
    fn smp() -> Vec<Self> {
        String::smp().into_iter().map(Into::into).collect()
    }
}
impl Smp for Box<std::path::Path> {
    fn smp() -> Vec<Self> {
        std::path::PathBuf::smp().into_iter().map(Into::into).collect()
    }
}
impl Smp for Box<std::ffi::CStr> {
    fn smp() -> Vec<Self> {
        std::ffi::CString::smp().into_iter().map(Into::into).collect()
    }
}
impl Smp for Box<std::ffi::OsStr> {
    fn smp() -> Vec<Self> {
        std::ffi::OsString::smp().into_iter().map(Into::into).collect()
    }
}

/// f64, for its values that are not numbers in JSON.
struct NonFinite;
impl JsonSchema for NonFinite {
    fn schema_name() -> std::borrow::Cow<'static, str> {
        f64::schema_name()
    }
    fn json_schema(g: &mut SchemaGenerator) -> schemars::Schema {
        f64::json_schema(g)
    }
}

struct D {
    name: &'static str,
    doc: Value,
    /// the document read with `patternProperties` (which OpenAPI 3.0 lacks)
    lax: Option<Doc>,
    ev: Result<Doc, String>,
}
fn docs(c: &Case, de: bool) -> Vec<D> {
    let contract = |s: SchemaSettings| if de { s.for_deserialize() } else { s.for_serialize() };
    let mut out = vec![];
    for (name, s, d) in [
        ("2020-12", SchemaSettings::draft2020_12(), Dialect::D2020),
        ("2019-09", SchemaSettings::draft2019_09(), Dialect::D2019),
        ("draft-07", SchemaSettings::draft07(), Dialect::D7),
        ("2020-12 inline", SchemaSettings::draft2020_12().with(|s| s.inline_subschemas = true), Dialect::D2020),
    ] {
        let doc = (c.root)(contract(s).into_generator()).to_value();
        let ev = Doc::new(&doc, d).map(Doc::with_formats);
        out.push(D { name, doc, lax: None, ev });
    }
    let mut g = contract(SchemaSettings::openapi3()).into_generator();
    let mut s = (c.sub)(&mut g);
    let defs = g.take_definitions(true);
    for t in g.transforms_mut() {
        t.transform(&mut s);
    }
    let doc = json!({"components": {"schemas": defs}, "allOf": [s]});
    let ev = Doc::new(&doc, Dialect::OA3).map(Doc::with_formats);
    let lax = Doc::with_pattern_properties(&doc, Dialect::OA3).ok();
    out.push(D { name: "openapi3", doc, lax, ev });
    out
}

fn atoms() -> Vec<Value> {
    let mut a = vec![json!(null), json!(true), json!(1.5), json!("a"), json!("ab"), json!(""), json!("é"), json!("0"), json!("🚀🚀"), json!([]), json!({}), json!([1]), json!({"a": 1})];
    for b in [8u32, 16, 32, 63, 64] {
        let m = (1i128 << b) - 1;
        let h = (1i128 << (b - 1)) - 1;
        for x in [m, m + 1, h, h + 1, -h - 1, -h - 2] {
            if let Ok(u) = u64::try_from(x) {
                a.push(json!(u));
            } else if let Ok(i) = i64::try_from(x) {
                a.push(json!(i));
            }
        }
    }
    a.extend([0, 1, 2, -1].map(|x| json!(x)));
    uni::dedup(a)
}
const KEYS: [&str; 16] = ["zz", "", "a", "ab", "0", "-1", "1", "127", "300", "-129", "01", "+1", "1.5", "Aa", "Ok", "start"];

/// Calls `f` with every value of the universe around the seeds: in the thorough tier also with all values one more edit
/// away, which are not kept.
fn universe(seeds: &[Value], thorough: bool, f: &mut dyn FnMut(&Value)) -> u64 {
    let atoms = atoms();
    let few: Vec<Value> = [json!(null), json!(true), json!(1), json!(300), json!("a"), json!([]), json!({})].to_vec();
    let mut keys: BTreeSet<String> = KEYS.iter().map(|k| k.to_string()).collect();
    for s in seeds {
        if let Value::Object(o) = s {
            keys.extend(o.keys().cloned());
        }
    }
    let keys: Vec<String> = keys.into_iter().collect();
    let mut out = atoms.clone();
    out.extend(seeds.iter().cloned());
    out.extend(uni::arrays(&few, 2));
    out.extend(uni::objects(&keys, &few, 1));
    for s in seeds {
        // long strings of digits and the like stay whole: only structure is edited
        dlib::universe::edits(s, &atoms, &keys, &mut out);
    }
    let out = uni::dedup(out);
    out.iter().for_each(&mut *f);
    let mut n = out.len() as u64;
    if thorough {
        // (a bounded amount per type: those with long values have fewer)
        let mut budget = 12_000_000usize;
        for w in out.iter().filter(|v| v.is_array() || v.is_object()) {
            let mut next = vec![];
            dlib::universe::edits(w, &few, &keys, &mut next);
            let cost = next.len() * (8 + w.to_string().len());
            if cost > budget {
                break;
            }
            budget -= cost;
            n += next.len() as u64;
            next.iter().for_each(&mut *f);
        }
    }
    n
}

fn setup(c: &Case, thorough: bool, f: &mut dyn FnMut(&Value)) -> (Vec<Value>, u64) {
    let vals = uni::dedup((c.vals)().into_iter().flatten().collect());
    let n = if c.de.is_some() { universe(&vals[..vals.len().min(if thorough { 12 } else { 5 })], thorough, f) } else { 0 };
    (vals, n)
}

fn each(r: &Report, cs: &[Case], f: impl Fn(&Case) + Sync) {
    par_for(cs.len(), |i| {
        if r.saturated() {
            return;
        }
        if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&cs[i]))) {
            let msg = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            r.fail(cs[i].name, &format!("{}: panicked: {msg}", cs[i].name), json!({"type": cs[i].name, "panic": msg}));
        }
    });
}
fn replay(c: &Case, v: &Value, d: &D) -> Value {
    json!({"type": c.name, "value": v, "dialect": d.name, "schema": d.doc})
}

fn i01(r: &Report, cs: &[Case]) {
    each(r, cs, |c| {
        let (ser, de) = (docs(c, false), docs(c, true));
        for d in ser.iter().chain(&de) {
            if let Err(e) = &d.ev {
                r.fail(c.name, &format!("{}: schema is not valid in {}: {e}: {}", c.name, d.name, d.doc), replay(c, &Value::Null, d));
                return;
            }
        }
        let judge = |what: &str, v: &Value, ds: &[D]| {
            for d in ds {
                if !d.ev.as_ref().unwrap().accepts(v) {
                    let key = known(c, v, d).unwrap_or(c.name);
                    r.fail(key, &format!("{} {what} {v}, which its {} schema rejects: {}", c.name, d.name, d.doc), replay(c, v, d));
                    return;
                }
            }
            r.valid(ds.len() as u64);
        };
        let mut n = 0;
        let (vals, u) = setup(c, r.thorough(), &mut |v| {
            if let Some(Ok(w)) = c.de.unwrap()(v) {
                if json_eq(v, &w) {
                    n += 1;
                    judge("deserializes from", v, &de);
                }
                judge("serializes to", &w, &ser);
            }
        });
        for v in &vals {
            judge("serializes to", v, &ser);
        }
        missing(r, c, true);
        r.state(vals.len() as u64 + u);
        r.step(vals.len() as u64 + u + 10);
        r.sample(|| json!({"type": c.name, "serialized": vals.len(), "universe": u, "deserialized in serialized form": n}));
    });
}

/// A field of the type: whether it may be missing. `want`: report the schemas that reject (I01) or accept (I02) wrongly.
fn missing(r: &Report, c: &Case, want: bool) {
    let Some((root, may)) = c.field else { return };
    let may = may();
    let empty = json!({});
    for (name, s, d) in [
        ("2020-12", SchemaSettings::draft2020_12(), Dialect::D2020),
        ("2019-09", SchemaSettings::draft2019_09(), Dialect::D2019),
        ("draft-07", SchemaSettings::draft07(), Dialect::D7),
    ] {
        for (de, may) in [(true, may), (false, false)] {
            let doc = root(if de { s.clone().for_deserialize() } else { s.clone().for_serialize() }.into_generator()).to_value();
            let accepts = Doc::new(&doc, d).map(|e| e.accepts(&empty));
            r.step(1);
            if may == want && accepts != Ok(may) {
                let what = if may { "may be missing, but the schema requires it" } else { "may not be missing, but the schema does not require it" };
                let dir = if de { "deserialize" } else { "serialize" };
                r.fail(c.name, &format!("a field of type {} {what} ({name}, {dir}): {doc}", c.name), json!({"field type": c.name, "dialect": name, "direction": dir, "schema": doc}));
                return;
            }
            r.valid(1);
        }
    }
}

/// Findings recorded in known-findings.json (I01).
fn known(c: &Case, v: &Value, d: &D) -> Option<&'static str> {
    if d.lax.as_ref().is_some_and(|l| l.accepts(v)) {
        return Some("openapi3-pattern-properties");
    }
    if c.name.contains("NonFinite") && v.is_null() {
        return Some("nonfinite-floats");
    }
    if c.name.contains("BigDecimal") && v.to_string().to_uppercase().contains("E") {
        return Some("bigdecimal-exponent");
    }
    None
}

/// Types written as strings (or numbers) whose exact set JSON Schema, or the schema's `format`, cannot describe; I02 leaves
/// types that contain them out.
const OPAQUE: [&str; 22] = [
    "SocketAddr", "ArrayString", "chrono::", "jiff::", "uuid::", "url::", "semver::", "rust_decimal::", "bigdecimal::", "IpAddr", "Ipv4", "Ipv6", "net::ip", "CString", "CStr", "OsStr", "Path",
    "TimeDelta", "BorrowedBytes", "socket_addr", "serde_json::number", "RawValue",
];

/// Removes all keys that stand beside one of the keys of `Result`, `Bound`, `Range`, `Duration`, `SystemTime`, `OsString`.
fn strip_extra(v: &Value) -> Vec<Value> {
    const GROUPS: [&[&str]; 9] =
        [&["Ok"], &["Err"], &["Included"], &["Excluded"], &["start", "end"], &["secs", "nanos"], &["secs_since_epoch", "nanos_since_epoch"], &["Unix"], &["Windows"]];
    match v {
        Value::Array(a) => product(a.iter().map(strip_extra)).into_iter().map(Value::Array).collect(),
        Value::Object(o) => {
            let mut out = vec![];
            let full = product(o.values().map(strip_extra));
            for g in std::iter::once(None).chain(GROUPS.iter().filter(|g| g.iter().all(|k| o.contains_key(*k))).map(Some)) {
                for vs in &full {
                    out.push(Value::Object(o.keys().zip(vs).filter(|(k, _)| g.is_none_or(|g| g.contains(&k.as_str()))).map(|(k, v)| (k.clone(), v.clone())).collect()));
                }
            }
            uni::dedup(out)
        }
        _ => vec![v.clone()],
    }
}
fn product(parts: impl Iterator<Item = Vec<Value>>) -> Vec<Vec<Value>> {
    parts.fold(vec![vec![]], |acc, p| acc.iter().flat_map(|a| p.iter().map(move |x| [a.clone(), vec![x.clone()]].concat())).take(64).collect())
}
/// Removes all object keys of which `f` holds, at any depth.
fn strip_keys(v: &Value, f: &dyn Fn(&str) -> bool) -> Value {
    match v {
        Value::Array(a) => a.iter().map(|x| strip_keys(x, f)).collect::<Vec<_>>().into(),
        Value::Object(o) => Value::Object(o.iter().filter(|(k, _)| !f(k)).map(|(k, v)| (k.clone(), strip_keys(v, f))).collect()),
        _ => v.clone(),
    }
}
fn integer_key(k: &str) -> bool {
    let d = k.strip_prefix('-').unwrap_or(k);
    !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit())
}
/// Findings recorded in known-findings.json (I02): each holds only if undoing precisely that looseness makes serde accept.
fn known2(c: &Case, v: &Value) -> Option<&'static str> {
    let f = c.de.unwrap();
    let ok = |w: &Value| f(w).is_some() || time_overflow(c, w, &f);
    // (several of them may be at work in one value)
    let extra = ["Result<", "Bound<", "Range", "Duration", "SystemTime", "OsString", "OsStr"].iter().any(|t| c.name.contains(t));
    let vs = if extra { strip_extra(v) } else { vec![v.clone()] };
    if extra && vs.iter().any(ok) {
        return Some("builtin-extra-keys");
    }
    // integer map keys: only sign and digits are checked
    let int_map = ["Map<u", "Map<i", "KAny", "Map<alloc::rc::Rc<u8", "Map<core::num", "Map<core::cmp::Reverse<u8", "KInt", "KInl", "KTr", "KOdd"].iter().any(|t| c.name.contains(t));
    if int_map && vs.iter().any(|v| ok(&strip_keys(v, &integer_key))) {
        return Some("integer-map-key-range");
    }
    // keys that are neither integers, patterns nor plain string enums are not checked
    let any_map = ["Map<char", "Map<bool", "KDoc"].iter().any(|t| c.name.contains(t));
    if any_map && vs.iter().any(|v| ok(&strip_keys(v, &|_| true))) {
        return Some("map-keys-unconstrained");
    }
    None
}

fn integral_float(v: &Value) -> bool {
    match v {
        Value::Array(a) => a.iter().any(integral_float),
        Value::Object(o) => o.values().any(integral_float),
        Value::Number(n) => n.is_f64() && n.as_f64().unwrap().fract() == 0.0,
        _ => false,
    }
}

fn time_overflow(c: &Case, v: &Value, f: &impl Fn(&Value) -> Option<Result<Value, String>>) -> bool {
    fn zero(v: &Value) -> Value {
        match v {
            Value::Array(a) => a.iter().map(zero).collect::<Vec<_>>().into(),
            Value::Object(o) => Value::Object(
                o.iter().map(|(k, v)| (k.clone(), if k.starts_with("secs") && v.as_u64().is_some_and(|n| n >= (1 << 63) - 1) { json!(0) } else { zero(v) })).collect(),
            ),
            _ => v.clone(),
        }
    }
    (c.name.contains("Duration") || c.name.contains("SystemTime")) && f(&zero(v)).is_some()
}

fn i02(r: &Report, cs: &[Case]) {
    each(r, cs, |c| {
        let Some(f) = c.de else { return };
        missing(r, c, false);
        // (flattening gives up the maps' restrictions of unknown keys)
        if c.name.contains("Flat") || OPAQUE.iter().any(|o| c.name.contains(o)) {
            return;
        }
        let (ser, de) = (docs(c, false), docs(c, true));
        if ser.iter().chain(&de).any(|d| d.ev.is_err()) {
            return; // reported by I01
        }
        let same = ser[0].doc == de[0].doc;
        let mut n = 0;
        let (vals, u) = setup(c, r.thorough(), &mut |v| {
            // 1.0 is an integer in JSON Schema, and not to serde
            if integral_float(v) {
                return;
            }
            // sums too large for Duration and SystemTime: beyond JSON Schema
            if f(v).is_some() || time_overflow(c, v, &f) {
                return;
            }
            n += 1;
            for d in de.iter().take(3).chain(ser.iter().take(same as usize)) {
                if d.ev.as_ref().unwrap().accepts(v) {
                    let key = known2(c, v).unwrap_or(c.name);
                    r.fail(key, &format!("{}: {v} is valid against its {} schema but does not deserialize: {}", c.name, d.name, d.doc), replay(c, v, d));
                    break;
                }
            }
        });
        r.state(vals.len() as u64 + u);
        r.step(u + 10);
        r.valid(n);
        r.sample(|| json!({"type": c.name, "universe": u, "rejected by serde": n}));
    });
}

fn main() {
    if std::env::var("MC_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let id = std::env::args().nth(1).expect("usage: impls <property> [quick|thorough]");
    let r = Report::new(&id);
    let mut cs = cases();
    if let Ok(f) = std::env::var("ONLY") {
        cs.retain(|c| c.name.contains(&f));
    }
    r.note("types", cs.len());
    match id.as_str() {
        "I01" => i01(&r, &cs),
        "I02" => i02(&r, &cs),
        _ => std::process::exit(2),
    }
    r.finish();
}
