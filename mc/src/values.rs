//! V01: every small value of the serde data model.
use schemars::generate::SchemaSettings;
use serde::ser::{Error as _, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
use serde::{Serialize, Serializer};
use serde_json::{json, Value};
use vcore::jsv::{Dialect, Doc};
use vcore::report::par_for;
use vcore::Report;

#[derive(Clone, Debug)]
enum Key {
    S(&'static str),
    I(i64),
    U128(u128),
    B(bool),
    C(char),
    F(f32),
    Variant(&'static str),
    Newtype(&'static str),
    SomeOf(&'static str),
}
impl Serialize for Key {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Key::S(x) => s.serialize_str(x),
            Key::I(x) => s.serialize_i64(*x),
            Key::U128(x) => s.serialize_u128(*x),
            Key::B(x) => s.serialize_bool(*x),
            Key::C(x) => s.serialize_char(*x),
            Key::F(x) => s.serialize_f32(*x),
            Key::Variant(x) => s.serialize_unit_variant("E", 0, x),
            Key::Newtype(x) => s.serialize_newtype_struct("N", x),
            Key::SomeOf(x) => s.serialize_some(x),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum MapHow {
    Collect,
    Entry,
    KeyThenValue,
}

#[derive(Clone, Debug)]
enum V {
    Unit,
    UnitStruct,
    UnitVariant,
    Bool(bool),
    I8(i8),
    I64(i64),
    I128(i128),
    U8(u8),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(&'static str),
    CollectStr(&'static str),
    Bytes(&'static [u8]),
    None,
    Fail,
    Some(Box<V>),
    Newtype(Box<V>),
    NewtypeVariant(Box<V>),
    Seq(Vec<V>, bool),
    Tuple(Vec<V>),
    TupleStruct(Vec<V>),
    TupleVariant(Vec<V>),
    Struct(Vec<(&'static str, V)>),
    StructVariant(Vec<(&'static str, V)>),
    Map(Vec<(Key, V)>, MapHow),
}
impl Serialize for V {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            V::Unit => s.serialize_unit(),
            V::UnitStruct => s.serialize_unit_struct("US"),
            V::UnitVariant => s.serialize_unit_variant("E", 0, "UV"),
            V::Bool(x) => s.serialize_bool(*x),
            V::I8(x) => s.serialize_i8(*x),
            V::I64(x) => s.serialize_i64(*x),
            V::I128(x) => s.serialize_i128(*x),
            V::U8(x) => s.serialize_u8(*x),
            V::U64(x) => s.serialize_u64(*x),
            V::U128(x) => s.serialize_u128(*x),
            V::F32(x) => s.serialize_f32(*x),
            V::F64(x) => s.serialize_f64(*x),
            V::Char(x) => s.serialize_char(*x),
            V::Str(x) => s.serialize_str(x),
            V::CollectStr(x) => s.collect_str(x),
            V::Bytes(x) => s.serialize_bytes(x),
            V::None => s.serialize_none(),
            V::Fail => Err(S::Error::custom("refused")),
            V::Some(x) => s.serialize_some(&**x),
            V::Newtype(x) => s.serialize_newtype_struct("NS", &**x),
            V::NewtypeVariant(x) => s.serialize_newtype_variant("E", 1, "NV", &**x),
            V::Seq(x, true) => s.collect_seq(x),
            V::Seq(x, false) => {
                let mut q = s.serialize_seq(None)?;
                for y in x {
                    q.serialize_element(y)?;
                }
                q.end()
            }
            V::Tuple(x) => {
                let mut q = s.serialize_tuple(x.len())?;
                for y in x {
                    q.serialize_element(y)?;
                }
                q.end()
            }
            V::TupleStruct(x) => {
                let mut q = s.serialize_tuple_struct("TS", x.len())?;
                for y in x {
                    q.serialize_field(y)?;
                }
                q.end()
            }
            V::TupleVariant(x) => {
                let mut q = s.serialize_tuple_variant("E", 2, "TV", x.len())?;
                for y in x {
                    q.serialize_field(y)?;
                }
                q.end()
            }
            V::Struct(x) => {
                let mut q = s.serialize_struct("S", x.len())?;
                for (k, y) in x {
                    q.serialize_field(k, y)?;
                }
                q.end()
            }
            V::StructVariant(x) => {
                let mut q = s.serialize_struct_variant("E", 3, "SV", x.len())?;
                for (k, y) in x {
                    q.serialize_field(k, y)?;
                }
                q.end()
            }
            V::Map(x, how) => match how {
                MapHow::Collect => s.collect_map(x.iter().map(|(k, v)| (k, v))),
                MapHow::Entry => {
                    let mut q = s.serialize_map(Some(x.len()))?;
                    for (k, y) in x {
                        q.serialize_entry(k, y)?;
                    }
                    q.end()
                }
                MapHow::KeyThenValue => {
                    let mut q = s.serialize_map(None)?;
                    for (k, y) in x {
                        q.serialize_key(k)?;
                        q.serialize_value(y)?;
                    }
                    q.end()
                }
            },
        }
    }
}

const HOWS: [MapHow; 3] = [MapHow::Collect, MapHow::Entry, MapHow::KeyThenValue];

fn keys() -> Vec<Key> {
    let mut k: Vec<Key> = ["a", "b", "", "\"", "\\", "\\\\", "\"a\"", "a\nb", "a\\nb", "é\u{1}", "$ref", "type", "~/", "1", "true"].map(Key::S).to_vec();
    k.extend([Key::I(-1), Key::I(1), Key::U128(u128::MAX), Key::B(true), Key::C('"'), Key::C('a'), Key::F(0.1), Key::F(1.0), Key::Variant("a"), Key::Variant("q\"q"), Key::Newtype("\""), Key::SomeOf("a")]);
    k
}

fn leaves() -> Vec<V> {
    vec![
        V::Unit, V::UnitStruct, V::UnitVariant, V::Bool(true), V::Bool(false), V::I8(-128), V::I64(i64::MIN), V::I128(i128::MIN), V::U8(255), V::U64(u64::MAX), V::U128(u128::MAX), V::U128(3), V::F32(f32::MAX), V::F32(f32::NAN), V::F32(1.0), V::F64(0.5),
        V::F64(f64::INFINITY), V::F64(f64::MIN_POSITIVE), V::F64(-0.0), V::F64(1e300), V::Char('a'), V::Char('\u{10ffff}'), V::Char('\0'), V::Str(""), V::Str("x"), V::Str("\u{1f600}"), V::CollectStr("17"), V::Bytes(b""), V::Bytes(b"\0\xff"), V::None, V::Fail,
    ]
}

/// All values with one constructor on top of up to two of `kids`.
fn wrap(kids: &[V], keys: &[Key], out: &mut Vec<V>) {
    let b = |v: &V| Box::new(v.clone());
    for a in kids {
        out.extend([V::Some(b(a)), V::Newtype(b(a)), V::NewtypeVariant(b(a))]);
    }
    let mut lists: Vec<Vec<V>> = vec![vec![]];
    for a in kids {
        lists.push(vec![a.clone()]);
        for c in kids {
            lists.push(vec![a.clone(), c.clone()]);
        }
    }
    for l in &lists {
        out.extend([V::Seq(l.clone(), true), V::Seq(l.clone(), false), V::Tuple(l.clone()), V::TupleStruct(l.clone()), V::TupleVariant(l.clone())]);
        let f: Vec<_> = ["f", "g"].into_iter().zip(l.iter().cloned()).collect();
        out.extend([V::Struct(f.clone()), V::StructVariant(f)]);
        for h in HOWS {
            out.push(V::Map(keys.iter().cloned().zip(l.iter().cloned()).collect(), h));
        }
    }
}

fn fails(v: &V) -> bool {
    match v {
        V::Fail => true,
        V::Some(x) | V::Newtype(x) | V::NewtypeVariant(x) => fails(x),
        V::Seq(x, _) | V::Tuple(x) | V::TupleStruct(x) | V::TupleVariant(x) => x.iter().any(fails),
        V::Struct(x) | V::StructVariant(x) => x.iter().any(|y| fails(&y.1)),
        V::Map(x, _) => x.iter().any(|y| fails(&y.1)),
        _ => false,
    }
}

pub fn v01(r: &Report) {
    let lv = leaves();
    let ks = keys();
    let mut all = lv.clone();
    wrap(&lv, &[Key::S("a"), Key::S("b")], &mut all);
    // three elements: what an earlier element decided must still hold for the later ones
    let few = [V::None, V::U8(1), V::Str("x"), V::UnitVariant, V::Some(Box::new(V::Str("y"))), V::Seq(vec![V::U8(1)], true), V::Struct(vec![("f", V::U8(1))]), V::Struct(vec![("f", V::Str("x"))]), V::F64(f64::NAN), V::Unit];
    for a in &few {
        for b in &few {
            for c in &few {
                let l = vec![a.clone(), b.clone(), c.clone()];
                all.push(V::Seq(l.clone(), true));
                all.push(V::Tuple(l.clone()));
                for h in HOWS {
                    all.push(V::Map(ks.iter().cloned().zip(l.iter().cloned()).collect(), h));
                }
            }
        }
    }
    // every pair of keys
    for k1 in &ks {
        for k2 in &ks {
            for (x, y) in [(V::U8(1), V::Str("x")), (V::None, V::Bool(true)), (V::U8(1), V::U8(2))] {
                for h in HOWS {
                    all.push(V::Map(vec![(k1.clone(), x.clone()), (k2.clone(), y.clone())], h));
                }
            }
        }
    }
    // one level deeper
    let mut one = vec![];
    wrap(&few[..if r.thorough() { 8 } else { 4 }], &[Key::S("\""), Key::S("\\")], &mut one);
    let mut two = vec![];
    if r.thorough() {
        wrap(&one[..one.len().min(420)], &[Key::S("\""), Key::I(1)], &mut two);
    } else {
        wrap(&one, &[Key::S("\""), Key::I(1)], &mut two);
    }
    let n1 = all.len();
    all.extend(two);
    let settings: [(&str, fn() -> SchemaSettings, Dialect); 4] = [
        ("2020-12", SchemaSettings::draft2020_12, Dialect::D2020),
        ("2019-09", SchemaSettings::draft2019_09, Dialect::D2019),
        ("draft-07", SchemaSettings::draft07, Dialect::D7),
        ("openapi3", SchemaSettings::openapi3, Dialect::OA3),
    ];
    par_for(all.len(), |i| {
        if r.saturated() {
            return;
        }
        let v = &all[i];
        let js = serde_json::to_value(v);
        let refused = fails(v);
        r.state(1);
        if i % 5003 == 17 {
            r.sample(|| json!(format!("{v:?}")));
        }
        for (name, st, d) in &settings[..if i < n1 { 4 } else { 1 }] {
            r.step(2);
            let res = std::panic::catch_unwind(|| (st().into_generator().into_root_schema_for_value(v), st().into_generator().root_schema_for_value(v)));
            let Ok((a, b)) = res else {
                r.fail("value", &format!("{name}: panic for {v:?}"), json!(format!("{v:?}")));
                continue;
            };
            r.valid(1);
            let a = match (a, b) {
                (Ok(a), Ok(b)) => {
                    if a != b {
                        r.fail("value", &format!("{name}: the two entry points differ for {v:?}: {} and {}", a.as_value(), b.as_value()), json!(format!("{v:?}")));
                    }
                    a
                }
                (Err(_), Err(_)) => {
                    // values refusing to serialize, or (e.g. keys) ones that JSON cannot hold
                    if js.is_ok() {
                        r.fail("value", &format!("{name}: generation fails for {v:?}, which serializes to {}", js.as_ref().unwrap()), json!(format!("{v:?}")));
                    }
                    continue;
                }
                _ => {
                    r.fail("value", &format!("{name}: only one entry point fails for {v:?}"), json!(format!("{v:?}")));
                    continue;
                }
            };
            let Ok(js) = &js else { continue };
            if refused {
                r.fail("value", &format!("{name}: {v:?} refuses to be serialized but has JSON {js}"), json!(format!("{v:?}")));
                continue;
            }
            let a = a.to_value();
            let doc = match Doc::new(&a, *d) {
                Ok(x) => x,
                Err(e) => {
                    r.fail("value", &format!("{name}: schema of {v:?} is malformed: {e}: {a}"), json!(format!("{v:?}")));
                    continue;
                }
            };
            if !doc.accepts(js) {
                r.fail("value", &format!("{name}: the schema inferred from {js} rejects it: {a}"), json!({"value": js, "schema": a, "shape": format!("{v:?}")}));
            }
            let ex = if *d == Dialect::OA3 { a.get("example").cloned() } else { a.get("examples").and_then(Value::as_array).filter(|x| x.len() == 1).map(|x| x[0].clone()) };
            if ex.as_ref() != Some(js) {
                r.fail("value", &format!("{name}: the example is {ex:?}, the value is {js}"), json!({"value": js, "schema": a}));
            }
        }
    });
    r.note("bound", format!("{} values: every serde data-model constructor over up to 2 of {} leaves (3 of 10), {} kinds of map key in all pairs, 3 ways of serializing maps; then a second level of constructors; first level in 4 dialects", all.len(), lv.len(), ks.len()));
    r.assume("values that serde_json cannot represent (e.g. 128-bit integers out of range, keys that are not strings) need not have a schema");
}
