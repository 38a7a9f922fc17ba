//! Derive checks: generated programs (types with derived Serialize, Deserialize and JsonSchema)
//! are run against every value of a bounded universe; serde is the oracle, the reference
//! JSON-Schema evaluator reads the generated schema.
pub mod names;
pub mod types;
pub mod universe;
use schemars::{JsonSchema, Schema, SchemaGenerator};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;

pub trait Vals: Sized {
    fn vals() -> Vec<Self>;
}

/// Outcome of deserializing a value as the program's type: an error, or the re-serialized value
/// (None when it cannot be serialized).
pub type De = Result<Option<Value>, String>;

pub struct Prog {
    pub id: &'static str,
    pub src: &'static str,
    pub hints: &'static str,
    pub de: fn(Value) -> De,
    pub vals: fn() -> Vec<(usize, Option<Value>)>,
    pub sub: fn(&mut SchemaGenerator) -> Schema,
    pub root: fn(SchemaGenerator) -> Schema,
    pub names: fn() -> names::Names,
}

impl Prog {
    /// Some type in the program denies unknown fields.
    pub fn denies(&self) -> bool {
        self.src.contains("deny_unknown_fields") || self.src.contains("InDeny") || self.src.contains("IeD") || self.src.contains("InFeD") || self.src.contains("NeD")
    }
}

pub fn prog<T: Serialize + DeserializeOwned + JsonSchema>(
    id: &'static str,
    src: &'static str,
    hints: &'static str,
    vals: fn() -> Vec<(usize, Option<Value>)>,
) -> Prog {
    Prog {
        id,
        src,
        hints,
        // (serde_json's from_value, unlike from_str, cannot read `{"Va": []}` as an empty tuple variant)
        de: |v| {
            let text = v.to_string();
            serde_json::from_value::<T>(v).or_else(|e| serde_json::from_str::<T>(&text).map_err(|_| e)).map(ser).map_err(|e| e.to_string())
        },
        vals,
        sub: |g| g.subschema_for::<T>(),
        root: |g| g.into_root_schema_for::<T>(),
        names: names::of::<T>,
    }
}
/// Serialize; None if the value cannot be serialized, or not as JSON whose keys are unique (fields
/// of flattened types that collide).
pub fn ser<T: Serialize>(t: T) -> Option<Value> {
    let v = serde_json::to_value(&t).ok()?;
    (serde_json::to_string(&t).ok()? == v.to_string()).then_some(v)
}
