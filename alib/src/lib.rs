//! Helper types for the generated schema-only programs (D04-D08).
use schemars::{JsonSchema, Schema, SchemaGenerator};
use serde::{Deserialize, Serialize};

pub struct Entry {
    pub id: &'static str,
    pub src: &'static str,
    pub root: fn(SchemaGenerator) -> Schema,
    pub sub: fn(&mut SchemaGenerator) -> Schema,
}
pub fn entry<T: JsonSchema>(id: &'static str, src: &'static str) -> Entry {
    Entry { id, src, root: |g| g.into_root_schema_for::<T>(), sub: |g| g.subschema_for::<T>() }
}

#[derive(JsonSchema, Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct In {
    pub in_a: bool,
    pub in_b: Option<u8>,
}
pub struct AsStr;
impl JsonSchema for AsStr {
    fn inline_schema() -> bool {
        true
    }
    fn schema_name() -> std::borrow::Cow<'static, str> {
        "AsStr".into()
    }
    fn json_schema(g: &mut SchemaGenerator) -> Schema {
        let mut s = String::json_schema(g);
        s.insert("x-as".into(), "str".into());
        s
    }
}
impl AsStr {
    pub fn serialize<T, S: serde::Serializer>(_: &T, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str("as-str")
    }
}
#[derive(JsonSchema)]
pub struct AsBool(pub bool);
impl AsBool {
    pub fn serialize<T, S: serde::Serializer>(_: &T, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bool(true)
    }
}
pub fn ser_str<T, S: serde::Serializer>(_: &T, s: S) -> Result<S::Ok, S::Error> {
    s.serialize_str("ser-str")
}
pub fn seven() -> u8 {
    7
}
pub fn eight() -> u8 {
    8
}
pub fn some_seven() -> Option<u8> {
    Some(7)
}
pub fn some_eight() -> Option<u8> {
    Some(8)
}
pub fn an_in() -> In {
    In { in_a: true, in_b: Some(1) }
}
pub fn other_in() -> In {
    In { in_a: false, in_b: Some(2) }
}
pub fn never<T>(_: &T) -> bool {
    false
}
pub fn never2<T>(_: &T) -> bool {
    false
}
pub mod other {
    pub struct Rem {
        pub fo_o: u8,
        pub ba_r: Option<u8>,
    }
    impl Default for Rem {
        fn default() -> Rem {
            Rem { fo_o: 3, ba_r: None }
        }
    }
}

// validation attributes (D05)
pub struct N<const K: i64>;
impl<const K: i64> N<K> {
    pub const V: i64 = K;
}
/// something whose target is a regular expression (as `LazyLock<Regex>` would be)
pub fn re(s: &'static str) -> Box<str> {
    s.into()
}
pub fn schema_str(_: &mut SchemaGenerator) -> Schema {
    schemars::json_schema!({"type": "string"})
}
pub fn schema_nums(_: &mut SchemaGenerator) -> Schema {
    schemars::json_schema!({"type": ["array", "null"], "items": {"type": "number"}})
}
pub fn schema_int(_: &mut SchemaGenerator) -> Schema {
    schemars::json_schema!({"type": "integer"})
}
#[derive(JsonSchema)]
#[serde(tag = "ta")]
pub enum Adj {
    Y { y: u8 },
    Z,
}

// annotations and defaults (D06)
pub const TITLE: &str = "const title";
/// JSON has no such map
pub fn bad_map() -> std::collections::HashMap<(u8, u8), u8> {
    [((1, 2), 3)].into()
}
/// A transform that writes down what it finds.
pub struct Log(pub u8);
impl schemars::transform::Transform for Log {
    fn transform(&mut self, s: &mut Schema) {
        let mut e = vec![serde_json::json!(self.0)];
        for k in ["title", "description", "deprecated", "examples", "x-a", "default", "minLength", "readOnly"] {
            e.push(s.get(k).cloned().unwrap_or_default());
        }
        match s.ensure_object().entry("x-log").or_insert_with(|| serde_json::json!([])) {
            serde_json::Value::Array(a) => a.push(e.into()),
            _ => unreachable!(),
        }
    }
}
pub fn log_two(s: &mut Schema) {
    schemars::transform::Transform::transform(&mut Log(2), s)
}
pub struct RtEntry {
    pub id: &'static str,
    pub src: &'static str,
    pub root: fn(SchemaGenerator) -> Schema,
    pub rt: fn(&str) -> Result<serde_json::Value, String>,
}
pub fn rt_entry<T: JsonSchema + Serialize + serde::de::DeserializeOwned>(id: &'static str, src: &'static str) -> RtEntry {
    fn rt<T: Serialize + serde::de::DeserializeOwned>(s: &str) -> Result<serde_json::Value, String> {
        let t: T = serde_json::from_str(s).map_err(|e| e.to_string())?;
        dv::MARK_FAILURES.set(true);
        let v = serde_json::to_value(&t).map_err(|e| e.to_string());
        dv::MARK_FAILURES.set(false);
        v
    }
    RtEntry { id, src, root: |g| g.into_root_schema_for::<T>(), rt: rt::<T> }
}
pub mod dv {
    use super::In;
    use schemars::JsonSchema;
    use serde::{Deserialize, Serialize, Serializer};
    use serde_json::{json, Value};
    use std::collections::BTreeMap;
    use std::fmt::Debug;
    #[derive(JsonSchema, Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
    pub struct Unit;
    #[derive(JsonSchema, Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
    pub enum En {
        #[default]
        A,
        B,
        C {
            x: u8,
        },
    }
    #[derive(JsonSchema, Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
    pub struct New(pub u8);
    /// serialized as something else than it looks
    #[derive(JsonSchema, Deserialize, Clone, Debug, Default, PartialEq)]
    pub struct BySerde(pub u8);
    impl Serialize for BySerde {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.collect_str(&format_args!("#{}", self.0))
        }
    }
    thread_local! {
        /// what cannot be serialized is serialized as FAILS instead
        pub static MARK_FAILURES: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    }
    pub const FAILS: &str = "<cannot be serialized>";
    fn failure<S: Serializer>(s: S) -> Result<S::Ok, S::Error> {
        if MARK_FAILURES.get() {
            return FAILS.serialize(s);
        }
        Err(serde::ser::Error::custom("a seven"))
    }
    /// cannot be serialized when it holds 7
    #[derive(JsonSchema, Deserialize, Clone, Debug, Default, PartialEq)]
    pub struct Fails(pub u8);
    impl Serialize for Fails {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            if self.0 == 7 {
                return failure(s);
            }
            self.0.serialize(s)
        }
    }
    pub fn ser_fails_if_debug_has_7<T: Debug, S: Serializer>(t: &T, s: S) -> Result<S::Ok, S::Error> {
        if has_7(t) {
            return failure(s);
        }
        ser_debug(t, s)
    }
    pub struct With;
    impl JsonSchema for With {
        fn schema_name() -> std::borrow::Cow<'static, str> {
            "With".into()
        }
        fn json_schema(_: &mut schemars::SchemaGenerator) -> schemars::Schema {
            schemars::json_schema!({"type": "string"})
        }
    }
    impl With {
        pub fn serialize<T: Debug, S: Serializer>(t: &T, s: S) -> Result<S::Ok, S::Error> {
            s.collect_str(&format_args!("with {t:?}"))
        }
        pub fn deserialize<'de, T: Default, D: serde::Deserializer<'de>>(d: D) -> Result<T, D::Error> {
            String::deserialize(d).map(|_| T::default())
        }
    }
    pub fn ser_debug<T: Debug, S: Serializer>(t: &T, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(&format_args!("{t:?}"))
    }
    pub fn has_7<T: Debug>(t: &T) -> bool {
        format!("{t:?}").contains('7')
    }
    pub fn ser_err_if_debug_has_7<T: Debug, S: Serializer>(t: &T, s: S) -> Result<S::Ok, S::Error> {
        if has_7(t) {
            return Err(serde::ser::Error::custom("a seven"));
        }
        ser_debug(t, s)
    }
    pub fn always<T>(_: &T) -> bool {
        true
    }
    pub fn is_default<T: Default + PartialEq>(t: &T) -> bool {
        *t == T::default()
    }
    macro_rules! values {
        ($($n:ident: $t:ty = $v:expr;)*) => { $(pub fn $n() -> $t { $v })* };
    }
    values! {
        none: Option<u8> = None;
        string: String = "a \"7\" é".into();
        yes: bool = true;
        half: f64 = 0.5;
        nan: f64 = f64::NAN;
        vec: Vec<u8> = vec![1, 7];
        some_in: Option<In> = Some(super::an_in());
        map: BTreeMap<String, u8> = [("b".to_owned(), 7), (String::new(), 0)].into();
        pair: (u8, bool) = (7, false);
        arr: [i8; 2] = [-7, 0];
        boxed: Box<u8> = Box::new(7);
        value: Value = json!({"a": [null, 1.5]});
        unit: () = ();
        ch: char = '7';
        mk_unit: Unit = Unit;
        en_b: En = En::B;
        en_c: En = En::C { x: 7 };
        new: New = New(7);
        fails: Fails = Fails(7);
        vec_fails: Vec<Fails> = vec![Fails(1), Fails(7)];
        dur: std::time::Duration = std::time::Duration::new(7, 1);
        big: u64 = u64::MAX;
        opt_opt: Option<Option<u8>> = Some(None);
        by_serde: BySerde = BySerde(7);
        vec_in: Vec<Option<In>> = vec![None, Some(super::an_in())];
    }
}
pub trait HasItem {
    type Item;
}
impl HasItem for In {
    type Item = bool;
}
pub fn any_default<T: Default>() -> T {
    T::default()
}
pub fn some_in() -> Option<In> {
    Some(an_in())
}
pub mod reexport {
    pub use schemars;
}
#[macro_export]
macro_rules! same {
    ($t:ty) => { $t };
}
