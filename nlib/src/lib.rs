//! Helper types for D08's generated programs.
pub use serde_json;
pub use {arrayvec07, bigdecimal04, bytes1, chrono04, either1, indexmap2, jiff02, rust_decimal1, semver1, smallvec1, smol_str02, smol_str03, url2, uuid1};
use schemars::{JsonSchema, Schema, SchemaGenerator};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::borrow::Cow;

type Sub = fn(&mut SchemaGenerator) -> Schema;
pub struct Entry {
    pub id: &'static str,
    pub src: &'static str,
    /// expected `schema_name`, if the documentation says what it is
    pub name: Option<&'static str>,
    /// the family's definition: entries of the same program
    pub prog: &'static str,
    pub root: fn(SchemaGenerator) -> Schema,
    pub sub: Sub,
    pub schema_name: fn() -> Cow<'static, str>,
    pub inline: fn() -> bool,
    /// other paths to the same type
    pub same: Vec<(&'static str, Sub)>,
    /// types that contain it
    pub around: Vec<(&'static str, Sub)>,
    pub twin: Sub,
    pub twin_root: fn(SchemaGenerator) -> Schema,
}

pub fn entry<T: JsonSchema + 'static, W: JsonSchema>(id: &'static str, prog: &'static str, src: &'static str, name: Option<&'static str>) -> Entry {
    fn s<X: JsonSchema + ?Sized>() -> Sub {
        |g| g.subschema_for::<X>()
    }
    Entry {
        id,
        src,
        name,
        prog,
        root: |g| g.into_root_schema_for::<T>(),
        sub: s::<T>(),
        schema_name: T::schema_name,
        inline: T::inline_schema,
        same: vec![
            ("&T", s::<&T>()),
            ("&mut T", s::<&mut T>()),
            ("Box<T>", s::<Box<T>>()),
            ("Rc<T>", s::<std::rc::Rc<T>>()),
            ("Arc<T>", s::<std::sync::Arc<T>>()),
            ("Mutex<T>", s::<std::sync::Mutex<T>>()),
            ("RefCell<T>", s::<std::cell::RefCell<T>>()),
            ("Reverse<T>", s::<std::cmp::Reverse<T>>()),
            ("Box<&Box<T>>", s::<Box<&Box<T>>>()),
        ],
        around: vec![
            ("Vec<T>", s::<Vec<T>>()),
            ("[T]", s::<[T]>()),
            ("Option<T>", s::<Option<T>>()),
            ("Option<Box<T>>", s::<Option<Box<T>>>()),
            ("(T, &T)", s::<(T, &'static T)>()),
            ("[T; 2]", s::<[T; 2]>()),
            ("BTreeMap<String, T>", s::<std::collections::BTreeMap<String, T>>()),
            ("Weak<T>", s::<std::sync::Weak<T>>()),
        ],
        twin: s::<W>(),
        twin_root: |g| g.into_root_schema_for::<W>(),
    }
}

/// What generic definitions may take from their parameters, besides the schema.
pub trait Tr {
    type Out: JsonSchema + Default + Serialize + 'static;
    const K: usize;
    const S: &'static str;
    fn mark(s: &mut Schema) {
        s.insert("x-mark".into(), Self::S.into());
    }
}
pub trait HasOut {
    type Out: JsonSchema;
}
pub trait HasK {
    const K: usize;
}
pub fn ser_k<S: serde::Serializer, T: Tr>(_: &u8, s: S) -> Result<S::Ok, S::Error> {
    s.serialize_u64(T::K as u64)
}
pub trait HasSch {
    fn sch(g: &mut SchemaGenerator) -> Schema;
}
macro_rules! tr {
    ($($t:ty, $out:ty, $k:literal;)*) => {$(
        impl Tr for $t {
            type Out = $out;
            const K: usize = $k;
            const S: &'static str = stringify!($k);
        }
    )*};
}
tr! {
    u8, i8, 1;
    bool, f64, 11;
    String, bool, 111;
    Leaf, char, 4;
    other::Leaf, (u8, u8), 5;
    m::X, [u8; 3], 6;
    n::X, Vec<char>, 7;
    Vec<u8>, Vec<String>, 8;
    Vec<m::X>, Option<bool>, 9;
    Vec<n::X>, Option<char>, 10;
}

macro_rules! leaf {
    ($id:literal, $k:literal) => {
        #[derive(Default, Serialize, Deserialize, Clone)]
        pub struct Leaf;
        impl JsonSchema for Leaf {
            fn schema_name() -> Cow<'static, str> {
                "Leaf".into()
            }
            fn schema_id() -> Cow<'static, str> {
                $id.into()
            }
            fn json_schema(_: &mut SchemaGenerator) -> Schema {
                schemars::json_schema!({ "type": "object", "properties": { $k: true }, "required": [$k] })
            }
        }
    };
}
leaf!("nlib:leaf one", "one");
pub mod other {
    use super::*;
    leaf!("nlib:leaf two", "two");
}
pub mod m {
    use super::*;
    #[derive(JsonSchema, Serialize, Deserialize, Default, Clone)]
    pub struct X {
        pub mx: u8,
    }
    #[derive(JsonSchema, Serialize, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub enum K {
        Ma,
        Mb,
    }
}
pub mod n {
    use super::*;
    #[derive(JsonSchema, Serialize, Deserialize, Default, Clone)]
    pub struct X {
        pub nx: bool,
    }
    #[derive(JsonSchema, Serialize, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub enum K {
        Na,
    }
}
pub mod rem1 {
    pub struct R;
}
pub mod rem2 {
    pub struct R;
}
pub mod rem3 {
    pub struct R<T>(pub T);
}

/// The schema for an array of at least one `T`.
pub fn f<T: JsonSchema>(g: &mut SchemaGenerator) -> Schema {
    let t = g.subschema_for::<T>();
    schemars::json_schema!({ "type": "array", "items": t, "minItems": 1 })
}
pub fn k<T: Tr>() -> usize {
    T::K
}
pub fn never<T>(_: &T) -> bool {
    false
}
pub fn n<const N: usize>(_: &mut SchemaGenerator) -> Schema {
    schemars::json_schema!({ "const": N })
}
pub struct AddK<T>(pub std::marker::PhantomData<T>);
impl<T: Tr> schemars::transform::Transform for AddK<T> {
    fn transform(&mut self, s: &mut Schema) {
        s.insert("x-k".into(), T::K.into());
    }
}
#[macro_export]
macro_rules! same {
    ($t:ty) => { $t };
}
/// A type with parameters that no schema mentions by default.
pub struct F<T>(pub std::marker::PhantomData<T>);
impl<T: JsonSchema + 'static> JsonSchema for F<T> {
    fn inline_schema() -> bool {
        true
    }
    fn schema_name() -> Cow<'static, str> {
        "F".into()
    }
    fn schema_id() -> Cow<'static, str> {
        std::any::type_name::<F<T>>().into()
    }
    fn json_schema(g: &mut SchemaGenerator) -> Schema {
        let t = g.subschema_for::<T>();
        schemars::json_schema!({ "type": "object", "properties": { "f": t }, "required": ["f"] })
    }
}
pub fn value_of(s: Schema) -> Value {
    json!(s)
}
