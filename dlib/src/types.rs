//! Helper types that generated programs use as field and variant contents.
use crate::Vals;
use schemars::JsonSchema;
use serde::{Deserialize, Serialize};
pub use serde_json::Value;
use std::collections::BTreeMap;
pub use std::collections::BTreeMap as BMap;

impl Vals for u8 {
    fn vals() -> Vec<u8> {
        vec![0, 7]
    }
}
impl Vals for i32 {
    fn vals() -> Vec<i32> {
        vec![0, -7]
    }
}
impl Vals for bool {
    fn vals() -> Vec<bool> {
        vec![false, true]
    }
}
impl Vals for String {
    fn vals() -> Vec<String> {
        vec!["".into(), "x".into()]
    }
}
impl Vals for () {
    fn vals() -> Vec<()> {
        vec![()]
    }
}
impl Vals for Value {
    fn vals() -> Vec<Value> {
        vec![Value::Null, 1.into(), serde_json::json!({"q": 1})]
    }
}
impl<T: Vals> Vals for Option<T> {
    fn vals() -> Vec<Self> {
        std::iter::once(None).chain(T::vals().into_iter().map(Some)).collect()
    }
}
impl<T: Vals> Vals for Box<T> {
    fn vals() -> Vec<Self> {
        T::vals().into_iter().map(Box::new).collect()
    }
}
impl<T: Vals> Vals for Vec<T> {
    fn vals() -> Vec<Self> {
        vec![vec![], T::vals()]
    }
}
impl<T: Vals> Vals for BTreeMap<String, T> {
    fn vals() -> Vec<Self> {
        let mut v = vec![BTreeMap::new()];
        v.extend(T::vals().into_iter().take(2).map(|x| [("m".to_string(), x)].into_iter().collect()));
        v
    }
}
impl<A: Vals + Clone, B: Vals + Clone> Vals for (A, B) {
    fn vals() -> Vec<Self> {
        A::vals().into_iter().flat_map(|a| B::vals().into_iter().map(move |b| (a.clone(), b))).collect()
    }
}

fn s(x: &str) -> String {
    x.into()
}

macro_rules! ty {
    ($item:item, $n:ident, $($v:expr),*) => {
        #[derive(Serialize, Deserialize, JsonSchema, Clone, Debug, PartialEq)]
        $item
        impl Vals for $n { fn vals() -> Vec<Self> { vec![$($v),*] } }
    };
}
ty!(pub struct In1 { pub s: String, pub n: Option<u8> }, In1, In1{s:s("x"),n:None}, In1{s:s(""),n:Some(1)});
impl Default for In1 {
    fn default() -> Self {
        In1 { s: "dflt".into(), n: Some(9) }
    }
}
ty!(#[serde(deny_unknown_fields)] pub struct InDeny { pub s: String, pub n: Option<u8> }, InDeny, InDeny{s:s("x"),n:None}, InDeny{s:s(""),n:Some(1)});
ty!(#[serde(default)] #[derive(Default)] pub struct InDef { pub d: u8, pub e: String }, InDef, InDef{d:0,e:s("")}, InDef{d:3,e:s("e")});
ty!(pub struct In2 { pub w: u8, #[serde(flatten)] pub inner: In1 }, In2, In2{w:1,inner:In1{s:s("x"),n:None}}, In2{w:0,inner:In1{s:s(""),n:Some(2)}});
ty!(pub struct InFe { pub w: u8, #[serde(flatten)] pub e: XeS }, InFe, InFe{w:1,e:XeS::Nb(1)}, InFe{w:0,e:XeS::Sc{q:1}});
ty!(#[serde(deny_unknown_fields)] pub struct InFeD { pub w: u8, #[serde(flatten)] pub e: XeS }, InFeD, InFeD{w:1,e:XeS::Nb(1)}, InFeD{w:0,e:XeS::Sc{q:1}});
ty!(pub struct InFo { pub w: u8, #[serde(flatten)] pub e: Option<Req1> }, InFo, InFo{w:1,e:None}, InFo{w:0,e:Some(Req1{r:1})});
ty!(pub struct InFm { pub w: u8, #[serde(flatten)] pub e: M8 }, InFm, InFm{w:1,e:M8::vals().pop().unwrap()}, InFm{w:0,e:M8::new()});
ty!(#[serde(untagged, deny_unknown_fields)] pub enum NeD { S1 { q: u8 }, S2 { r: String } }, NeD, NeD::S1{q:2}, NeD::S2{r:s("x")});
ty!(pub struct Req1 { pub r: u8 }, Req1, Req1{r:0}, Req1{r:8});
ty!(pub struct Us;, Us, Us);
ty!(pub struct Nt(pub u8);, Nt, Nt(0), Nt(5));
ty!(pub struct NtIn(pub In1);, NtIn, NtIn(In1{s:s("x"),n:None}));
ty!(pub struct Ts(pub u8, pub bool);, Ts, Ts(0, true));
ty!(pub enum Ue { Aa, Bb }, Ue, Ue::Aa, Ue::Bb);
ty!(pub enum Xe { Ua, Nb(u8), Sc { q: u8 } }, Xe, Xe::Ua, Xe::Nb(1), Xe::Sc{q:2});
ty!(pub enum XeS { Nb(u8), Sc { q: u8 } }, XeS, XeS::Nb(1), XeS::Sc{q:2});
ty!(#[serde(tag = "k")] pub enum Ie { Ua, Sc { q: u8 }, Ni(In1) }, Ie, Ie::Ua, Ie::Sc{q:2}, Ie::Ni(In1{s:s("x"),n:None}));
ty!(#[serde(tag = "k", content = "v")] pub enum Ae { Ua, Nb(u8), Sc { q: u8 } }, Ae, Ae::Ua, Ae::Nb(1), Ae::Sc{q:2});
ty!(#[serde(untagged)] pub enum Ne { S1 { q: u8 }, S2 { r: String } }, Ne, Ne::S1{q:2}, Ne::S2{r:s("x")});
ty!(#[serde(untagged)] pub enum NeU { Nb(u8), St(String), Sn }, NeU, NeU::Nb(2), NeU::St(s("x")), NeU::Sn);
ty!(#[serde(tag = "k", deny_unknown_fields)] pub enum IeD { Ua, Sc { q: u8 } }, IeD, IeD::Ua, IeD::Sc{q:2});
ty!(pub enum XeD { #[doc = "doc"] Ua, Ub, #[schemars(title = "t")] Nb(u8) }, XeD, XeD::Ua, XeD::Ub, XeD::Nb(1));
ty!(pub enum XeU { Ua, Nb(u8), #[serde(untagged)] Un { s: String } }, XeU, XeU::Ua, XeU::Nb(1), XeU::Un{s:s("x")});
ty!(#[serde(transparent)] pub struct Tr { pub t: In1 }, Tr, Tr{t:In1{s:s("x"),n:None}});
pub type M8 = BTreeMap<String, u8>;
pub type MV = BTreeMap<String, Value>;
pub type O<T> = Option<T>;
pub type OO = Option<Option<u8>>;

impl Default for Ue {
    fn default() -> Self {
        Ue::Bb
    }
}
impl Default for Xe {
    fn default() -> Self {
        Xe::Nb(3)
    }
}
impl Default for Ts {
    fn default() -> Self {
        Ts(1, false)
    }
}

/// Writes and reads a u8 as a string; as a schema type it is a string.
#[derive(Clone, Copy, JsonSchema)]
#[schemars(with = "String", inline)]
pub struct AsStr;
impl AsStr {
    pub fn serialize<S: serde::Serializer>(v: &u8, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&v.to_string())
    }
    pub fn deserialize<'de, De: serde::Deserializer<'de>>(d: De) -> Result<u8, De::Error> {
        String::deserialize(d)?.len().try_into().map_err(serde::de::Error::custom)
    }
}
/// Same for an In1, written as an array of one string.
#[derive(Clone, Copy, JsonSchema)]
#[schemars(with = "Vec<String>", inline)]
pub struct AsArr;
impl AsArr {
    pub fn serialize<S: serde::Serializer>(v: &In1, s: S) -> Result<S::Ok, S::Error> {
        vec![v.s.clone()].serialize(s)
    }
    pub fn deserialize<'de, De: serde::Deserializer<'de>>(d: De) -> Result<In1, De::Error> {
        Ok(In1 { s: Vec::<String>::deserialize(d)?.concat(), n: None })
    }
}
pub fn is_zero(v: &u8) -> bool {
    *v == 0
}
pub fn never<T>(_: &T) -> bool {
    false
}
pub fn seven() -> u8 {
    7
}
pub fn some_seven() -> Option<u8> {
    Some(7)
}
/// Passes an In1 through unchanged.
#[derive(Clone, Copy, JsonSchema)]
#[schemars(with = "In1")]
pub struct PassIn;
impl PassIn {
    pub fn serialize<S: serde::Serializer>(v: &In1, s: S) -> Result<S::Ok, S::Error> {
        v.serialize(s)
    }
    pub fn deserialize<'de, De: serde::Deserializer<'de>>(d: De) -> Result<In1, De::Error> {
        In1::deserialize(d)
    }
}
