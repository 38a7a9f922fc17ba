//! What a Deserialize impl asks its deserializer for at the top level: field and variant names.
use serde::de::{self, DeserializeOwned, Deserializer, Visitor};

#[derive(Default, Debug, Clone)]
pub struct Names {
    pub fields: Option<&'static [&'static str]>,
    pub variants: Option<&'static [&'static str]>,
}
struct Probe<'a>(&'a mut Names);
type E = de::value::Error;
macro_rules! no {
    ($($f:ident($($a:ty),*);)*) => {$(
        fn $f<V: Visitor<'de>>(self, $(_: $a,)* _: V) -> Result<V::Value, E> { Err(de::Error::custom("probe")) }
    )*};
}
impl<'de> Deserializer<'de> for Probe<'_> {
    type Error = E;
    no! {
        deserialize_any(); deserialize_bool(); deserialize_i8(); deserialize_i16(); deserialize_i32(); deserialize_i64();
        deserialize_u8(); deserialize_u16(); deserialize_u32(); deserialize_u64(); deserialize_f32(); deserialize_f64();
        deserialize_char(); deserialize_str(); deserialize_string(); deserialize_bytes(); deserialize_byte_buf();
        deserialize_option(); deserialize_unit(); deserialize_seq(); deserialize_map(); deserialize_identifier();
        deserialize_ignored_any(); deserialize_unit_struct(&'static str);
        deserialize_tuple(usize); deserialize_tuple_struct(&'static str, usize);
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], _: V) -> Result<V::Value, E> {
        self.0.fields = Some(f);
        Err(de::Error::custom("probe"))
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], _: V) -> Result<V::Value, E> {
        self.0.variants = Some(f);
        Err(de::Error::custom("probe"))
    }
}
pub fn of<T: DeserializeOwned>() -> Names {
    let mut n = Names::default();
    let _ = T::deserialize(Probe(&mut n));
    n
}
