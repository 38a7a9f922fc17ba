//! S01: every sequence of operations on a Schema against a plain JSON model.
use schemars::transform::{transform_subschemas, AddNullable, RemoveRefSiblings, ReplaceBoolSchemas, ReplaceConstValue, Transform};
use schemars::Schema;
use serde_json::{json, Map, Value};
use std::collections::HashSet;
use std::sync::Mutex;
use vcore::jsv::{Dialect, Doc};
use vcore::report::par_for;
use vcore::uni;
use vcore::Report;

#[derive(Clone, Debug)]
enum Op {
    Insert(&'static str, Value),
    Remove(&'static str),
    GetMut(&'static str, Value),
    Ensure,
    ObjInsert(&'static str, Value),
    ObjClear,
    PointerMut(&'static str, Value),
    Get(&'static str),
    JsonRound,
    ValueRound,
    RefMutRound,
    CloneIt,
    SubTransform,
    Builtin(u8),
}
use Op::*;

fn ensure(v: &mut Value) -> &mut Map<String, Value> {
    if let Value::Bool(b) = v {
        *v = if *b { json!({}) } else { json!({"not": {}}) };
    }
    v.as_object_mut().unwrap()
}

/// Apply to the real schema; return what the call returned.
fn real(s: &mut Schema, op: &Op) -> Option<Value> {
    match op {
        Insert(k, v) => s.insert(k.to_string(), v.clone()),
        Remove(k) => s.remove(*k),
        GetMut(k, v) => s.get_mut(*k).map(|x| std::mem::replace(x, v.clone())),
        Ensure => Some(Value::Object(s.ensure_object().clone())),
        ObjInsert(k, v) => s.as_object_mut().and_then(|o| o.insert(k.to_string(), v.clone())),
        ObjClear => s.as_object_mut().map(|o| {
            o.clear();
            json!(0)
        }),
        PointerMut(p, v) => s.pointer_mut(p).map(|x| std::mem::replace(x, v.clone())),
        Get(k) => s.get(*k).cloned(),
        JsonRound => {
            let t = serde_json::to_string(s).unwrap();
            *s = serde_json::from_str(&t).expect("a serialized schema is a schema");
            None
        }
        ValueRound => {
            let v: Value = s.clone().into();
            *s = v.try_into().expect("to_value gives a schema");
            None
        }
        RefMutRound => {
            let mut v = s.clone().to_value();
            let m: &mut Schema = (&mut v).try_into().unwrap();
            m.insert("x".into(), json!(1));
            let r: &Schema = (&v).try_into().unwrap();
            *s = r.clone();
            None
        }
        CloneIt => {
            let c = s.clone();
            s.insert("scratch".into(), json!(1));
            *s = c;
            None
        }
        SubTransform => {
            transform_subschemas(
                &mut |x: &mut Schema| {
                    x.insert("seen".into(), json!(true));
                },
                s,
            );
            None
        }
        Builtin(n) => {
            match n {
                0 => ReplaceBoolSchemas::default().transform(s),
                1 => RemoveRefSiblings::default().transform(s),
                2 => ReplaceConstValue::default().transform(s),
                _ => AddNullable::default().transform(s),
            }
            None
        }
    }
}

/// The same on a plain JSON value. `None` as outer result: the model does not predict the new value
/// (built-in transforms are judged by T01..T04); only the invariants are checked.
fn model(v: &mut Value, op: &Op) -> Option<Option<Value>> {
    Some(match op {
        Insert(k, x) => ensure(v).insert(k.to_string(), x.clone()),
        Remove(k) => v.as_object_mut().and_then(|o| o.remove(*k)),
        GetMut(k, x) => v.as_object_mut().and_then(|o| o.get_mut(*k)).map(|y| std::mem::replace(y, x.clone())),
        Ensure => Some(Value::Object(ensure(v).clone())),
        ObjInsert(k, x) => v.as_object_mut().and_then(|o| o.insert(k.to_string(), x.clone())),
        ObjClear => v.as_object_mut().map(|o| {
            o.clear();
            json!(0)
        }),
        PointerMut(p, x) => v.pointer_mut(p.trim_start_matches('#')).map(|y| std::mem::replace(y, x.clone())),
        Get(k) => v.as_object().and_then(|o| o.get(*k)).cloned(),
        JsonRound | ValueRound | CloneIt => None,
        RefMutRound => {
            ensure(v).insert("x".into(), json!(1));
            None
        }
        SubTransform => {
            let f = |y: &mut Value| {
                if y.is_object() || y.is_boolean() {
                    ensure(y).insert("seen".into(), json!(true));
                }
            };
            for (k, y) in v.as_object_mut().into_iter().flatten() {
                match k.as_str() {
                    "not" => f(y),
                    "allOf" => y.as_array_mut().into_iter().flatten().for_each(f),
                    "properties" | "$defs" => y.as_object_mut().into_iter().flat_map(|m| m.values_mut()).for_each(f),
                    _ => {}
                }
            }
            None
        }
        Builtin(_) => return None,
    })
}

#[derive(Clone, Copy)]
enum Kind {
    Schema,
    Map, // property names to schemas
    Data,
    Any, // a keyword whose order is not documented
}
const START: [&str; 7] = ["$id", "$schema", "title", "description", "type", "format", "properties"];
const END: [&str; 2] = ["$defs", "definitions"];

fn kind_of(k: &str) -> Kind {
    match k {
        "properties" | "patternProperties" | "dependentSchemas" | "$defs" | "definitions" => Kind::Map,
        "examples" | "default" | "const" | "enum" | "example" | "dependentRequired" => Kind::Data,
        _ if k.starts_with("x-") => Kind::Data,
        "not" | "if" | "then" | "else" | "items" | "prefixItems" | "contains" | "additionalProperties" | "propertyNames" | "unevaluatedProperties" | "allOf" | "anyOf" | "oneOf" => Kind::Schema,
        _ => Kind::Any,
    }
}

/// `out` was parsed (keeping order) from the serialization of `held`: is its order as documented?
fn ordered(held: &Value, out: &Value, kind: Kind) -> Result<(), String> {
    match (held, out) {
        (Value::Object(h), Value::Object(o)) => {
            if let Kind::Any = kind {
                return Ok(());
            }
            let hk: Vec<&str> = h.keys().map(String::as_str).collect();
            let want: Vec<&str> = match kind {
                Kind::Schema => START.iter().filter(|k| h.contains_key(**k)).copied().chain(hk.iter().filter(|k| !START.contains(k) && !END.contains(k)).copied()).chain(END.iter().filter(|k| h.contains_key(**k)).copied()).collect(),
                _ => hk,
            };
            let got: Vec<&str> = o.keys().map(String::as_str).collect();
            if want != got {
                return Err(format!("keys come out as {got:?}, expected {want:?}"));
            }
            for (k, x) in h {
                let kk = match kind {
                    Kind::Schema => kind_of(k),
                    Kind::Map => Kind::Schema,
                    Kind::Data => Kind::Data,
                    Kind::Any => Kind::Any,
                };
                ordered(x, &o[k], kk).map_err(|e| format!("{k}: {e}"))?;
            }
            Ok(())
        }
        (Value::Array(h), Value::Array(o)) => {
            for (x, y) in h.iter().zip(o) {
                let kk = match kind {
                    Kind::Map => Kind::Any,
                    k => k,
                };
                ordered(x, y, kk)?;
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

/// What must hold of a schema whenever it can be looked at.
fn invariants(s: &Schema) -> Result<(), String> {
    let v = s.as_value();
    if !v.is_object() && !v.is_boolean() {
        return Err(format!("the schema holds {v}"));
    }
    if s.as_bool() != v.as_bool() || s.as_object() != v.as_object() || s.as_bool().is_none() == s.as_object().is_none() {
        return Err(format!("as_bool/as_object disagree with {v}"));
    }
    if s.clone().to_value() != *v || Value::from(s.clone()) != *v || s != v || v != s {
        return Err(format!("to_value, into or == disagree with {v}"));
    }
    if let Some(b) = s.as_bool() {
        if *s != b || *s == !b || b != *s {
            return Err("== bool is wrong".into());
        }
    } else if *s == true || *s == false || *s != *s.as_object().unwrap() {
        return Err("== bool or == Map is wrong".into());
    }
    let ser = serde_json::to_value(s).map_err(|e| format!("to_value: {e}"))?;
    if ser != *v {
        return Err(format!("serializes to {ser}, but holds {v}"));
    }
    let text = serde_json::to_string(s).map_err(|e| format!("to_string: {e}"))?;
    let back: Value = serde_json::from_str(&text).map_err(|e| format!("{text} is not JSON: {e}"))?;
    if back != *v {
        return Err(format!("serializes to {text}, but holds {v}"));
    }
    // a map must not be emitted with a key twice: compare text lengths with the plain value's
    if text.len() != v.to_string().len() {
        return Err(format!("serializes to {text}, but holds {v}"));
    }
    let again: Schema = serde_json::from_str(&text).map_err(|e| format!("reading {text} back: {e}"))?;
    if again != *s {
        return Err(format!("{text} reads back as another schema"));
    }
    ordered(v, &back, Kind::Schema).map_err(|e| format!("order of {text}: {e}"))
}

pub fn s01(r: &Report) {
    // 1. construction from every small JSON value
    let atoms = [json!(null), json!(true), json!(false), json!(0), json!(-1), json!(1.5), json!(18446744073709551615u64), json!(""), json!("a"), json!([]), json!({})];
    let mut vals: Vec<Value> = atoms.to_vec();
    vals.extend(uni::arrays(&atoms, 2));
    vals.extend(uni::objects(&uni::strs(&["type", "", "$ref", "properties", "not"]), &atoms, 2));
    vals.extend(uni::objects(&uni::strs(&["allOf", "$defs"]), &uni::objects(&uni::strs(&["a", "type"]), &atoms, 1), 2));
    // every keyword (and some others) with every sort of value, two at a time, plain and as a subschema
    let kws = uni::strs(&["$id", "$schema", "title", "description", "type", "format", "properties", "$defs", "definitions", "allOf", "items", "const", "enum", "examples", "default", "patternProperties", "dependentSchemas", "dependencies", "dependentRequired", "$ref", "x-a", "a", "\u{e9}"]);
    let kinds = [json!(true), json!(1), json!("a"), json!([{"type": 1, "$id": 2, "b": true, "$defs": {}}]), json!({"type": 1, "b": {"a": 1, "$schema": 1}, "$id": 2, "$defs": true, "definitions": []})];
    let two = uni::objects(&kws, &kinds, 2);
    vals.extend(uni::objects(&uni::strs(&["properties", "const", "if"]), &two.iter().filter(|v| v.as_object().is_some_and(|o| o.len() == 1)).cloned().collect::<Vec<_>>(), 1));
    vals.extend(two);
    let vals = uni::dedup(vals);
    for v in &vals {
        r.state(1);
        r.step(6);
        let ok = v.is_object() || v.is_boolean();
        let a = Schema::try_from(v.clone());
        let b = <&Schema>::try_from(v).map(|s| s.clone());
        let mut w = v.clone();
        let c = <&mut Schema>::try_from(&mut w).map(|s| s.clone());
        let d = serde_json::from_value::<Schema>(v.clone());
        let e = serde_json::from_str::<Schema>(&v.to_string());
        let f = serde_json::from_slice::<Schema>(v.to_string().as_bytes());
        for (n, x) in [("TryFrom<Value>", a), ("TryFrom<&Value>", b), ("TryFrom<&mut Value>", c), ("from_value", d), ("from_str", e), ("from_slice", f)] {
            r.valid(1);
            match x {
                Ok(s) if ok => {
                    if s.as_value() != v {
                        r.fail("construct", &format!("{n} of {v} gives {}", s.as_value()), json!(v));
                    }
                    if let Err(e) = invariants(&s) {
                        r.fail("construct", &format!("{n} of {v}: {e}"), json!(v));
                    }
                }
                Err(_) if !ok => {}
                Ok(_) => r.fail("construct", &format!("{n} accepts {v}, which is neither an object nor a boolean"), json!(v)),
                Err(e) => r.fail("construct", &format!("{n} rejects {v}: {e}"), json!(v)),
            }
        }
        if let Some(o) = v.as_object() {
            if Schema::from(o.clone()) != *v {
                r.fail("construct", &format!("From<Map> of {v}"), json!(v));
            }
        }
        if let Some(b) = v.as_bool() {
            if Schema::from(b) != *v {
                r.fail("construct", &format!("From<bool> of {v}"), json!(v));
            }
        }
    }
    if Schema::default() != json!({}) || Schema::new_ref("#/x".into()) != json!({"$ref": "#/x"}) {
        r.fail("construct", "default or new_ref", json!({}));
    }
    // 2. making a boolean an object keeps its meaning (and leaves objects alone)
    for v in vals.iter().filter(|v| v.is_boolean() || v.is_object()) {
        let mut s = Schema::try_from(v.clone()).unwrap();
        s.ensure_object();
        r.state(1);
        r.step(1);
        r.valid(1);
        if v.is_object() && s != *v {
            r.fail("ensure", &format!("ensure_object changes {v} into {}", s.as_value()), json!(v));
        }
        if let Some(b) = v.as_bool() {
            let d = Doc::new(s.as_value(), Dialect::D2020);
            match d {
                Ok(d) if s.as_value().is_object() => {
                    for i in &vals {
                        if d.accepts(i) != b {
                            r.fail("ensure", &format!("{v} became {}, which treats {i} differently", s.as_value()), json!(i));
                        }
                    }
                }
                _ => r.fail("ensure", &format!("{v} became {}", s.as_value()), json!(v)),
            }
        }
    }
    // 3. every sequence of operations (states are deduplicated: all values reachable in `depth` operations)
    let subs = [json!(true), json!(false), json!({"type": "null"}), json!("str"), json!(null)];
    let mut ops = vec![Ensure, ObjClear, JsonRound, ValueRound, RefMutRound, CloneIt, SubTransform, Get("not"), Get("type"), Builtin(0), Builtin(1), Builtin(2), Builtin(3)];
    for s in &subs {
        ops.push(Insert("not", s.clone()));
        ops.push(GetMut("not", s.clone()));
        ops.push(PointerMut("/not", s.clone()));
    }
    ops.extend([
        Insert("type", json!("null")), Insert("type", json!(["null", "string"])), Insert("type", json!(5)), Insert("$ref", json!("#")), Insert("const", json!({"b": 1, "title": 2})), Insert("const", json!(null)),
        Insert("allOf", json!([true, {"$ref": "#", "title": "x"}, 3])), Insert("properties", json!({"z": true, "$defs": false, "title": {"x": 1, "type": "null"}})), Insert("$defs", json!({"a": {"not": true}})),
        Insert("", json!(1)), Insert("definitions", json!(true)), Insert("description", json!(null)), Insert("title", json!({"k": 1})), Insert("x-a", json!({"b": {"title": 1}})), ObjInsert("type", json!("string")), ObjInsert("not", json!(false)),
        Remove("not"), Remove("type"), Remove("absent"), Remove("const"), PointerMut("#/properties/title", json!("no schema")), PointerMut("/allOf/0", json!({"const": 1})), PointerMut("/allOf/9", json!(1)), PointerMut("/const/title", json!([1])),
        GetMut("const", json!(null)), GetMut("properties", json!({"type": {"properties": 3}})),
    ]);
    let depth = if r.thorough() { 5 } else { 4 };
    let start = [json!(true), json!(false), json!({}), json!({"not": {}}), json!({"b": 1, "$id": "i", "a": {"type": "null", "$id": "j"}, "properties": {"type": true}, "title": "t"})];
    let mut frontier: Vec<(Value, Vec<usize>)> = start.iter().map(|v| (v.clone(), vec![])).collect();
    let seen: Mutex<HashSet<String>> = Mutex::new(start.iter().map(|v| v.to_string()).collect());
    for d in 0..depth {
        let next: Mutex<Vec<(Value, Vec<usize>)>> = Mutex::default();
        par_for(frontier.len(), |i| {
            if r.saturated() {
                return;
            }
            let (v, path) = &frontier[i];
            for (oi, op) in ops.iter().enumerate() {
                r.step(1);
                r.valid(1);
                let hist = || format!("{:?} after {:?}", op, path.iter().map(|&p| &ops[p]).collect::<Vec<_>>());
                let res = std::panic::catch_unwind(|| {
                    let mut s = Schema::try_from(v.clone()).unwrap();
                    let ret = real(&mut s, op);
                    (s, ret)
                });
                let Ok((s, ret)) = res else {
                    r.fail("ops", &format!("{} panics on {v}", hist()), json!({"schema": v, "operation": format!("{op:?}")}));
                    continue;
                };
                let mut m = v.clone();
                if let Some(want) = model(&mut m, op) {
                    if ret != want || *s.as_value() != m {
                        r.fail("ops", &format!("{} on {v} gives {} returning {ret:?}; expected {m} returning {want:?}", hist(), s.as_value()), json!({"schema": v, "operation": format!("{op:?}"), "got": s.as_value(), "expected": m}));
                        continue;
                    }
                }
                let inv = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| invariants(&s))).unwrap_or_else(|_| Err("panic".into()));
                if let Err(e) = inv {
                    r.fail("ops", &format!("after {} on {v}: {e}", hist()), json!({"schema": v, "operation": format!("{op:?}"), "error": e}));
                    continue;
                }
                let key = s.as_value().to_string();
                if key.len() < 600 && seen.lock().unwrap().insert(key) {
                    let mut p = path.clone();
                    p.push(oi);
                    next.lock().unwrap().push((s.to_value(), p));
                }
            }
        });
        r.state(frontier.len() as u64);
        frontier = next.into_inner().unwrap();
        if d + 1 == depth {
            r.state(frontier.len() as u64);
        }
        if let Some(x) = frontier.last() {
            r.sample(|| json!({"operations": x.1.iter().map(|&p| format!("{:?}", ops[p])).collect::<Vec<_>>(), "schema": x.0}));
        }
    }
    // 4. order: every arrangement of up to 4 keywords out of 24, nested below every kind of keyword
    let keys = ["$id", "$schema", "title", "description", "type", "format", "properties", "$defs", "definitions", "required", "not", "items", "allOf", "const", "enum", "default", "examples", "x-ext", "patternProperties", "dependentSchemas", "additionalProperties", "$ref", "zzz", "aaa"];
    let n = if r.thorough() { 4 } else { 3 };
    let payload = |k: &str| -> Value {
        let mixed = json!({"z": 1, "properties": {"q": 1, "format": 2, "$id": 3}, "a": 2, "type": "null", "$defs": {"y": true, "b": true}, "title": 3, "$id": 4});
        match kind_of(k) {
            Kind::Map => json!({"z": mixed, "type": mixed, "a": true, "title": {"x": 1, "title": "t"}, "$id": false}),
            Kind::Data if k == "enum" || k == "examples" => json!([mixed, [mixed], 1]),
            Kind::Data if k == "default" || k == "const" || k.starts_with("x-") => mixed,
            Kind::Schema if k == "allOf" => json!([mixed, true]),
            Kind::Schema => mixed,
            _ => json!("v"),
        }
    };
    let mut perms: Vec<Vec<usize>> = vec![vec![]];
    let mut cur = perms.clone();
    for _ in 0..n {
        let mut nx = vec![];
        for p in &cur {
            for i in 0..keys.len() {
                if !p.contains(&i) {
                    let mut q = p.clone();
                    q.push(i);
                    nx.push(q);
                }
            }
        }
        perms.extend(nx.iter().cloned());
        cur = nx;
    }
    par_for(perms.len(), |i| {
        if r.saturated() {
            return;
        }
        let mut o = Map::new();
        for &k in &perms[i] {
            o.insert(keys[k].into(), payload(keys[k]));
        }
        r.state(1);
        r.step(1);
        r.valid(1);
        if let Err(e) = invariants(&Schema::from(o.clone())) {
            r.fail("order", &e, json!({"schema": o, "error": e}));
        }
    });
    // 5. the one way to put something else inside
    for p in ["", "#"] {
        for start in [json!({}), json!(true)] {
            let mut s = Schema::try_from(start).unwrap();
            if let Some(v) = s.pointer_mut(p) {
                *v = json!("neither");
            }
            r.state(1);
            r.step(1);
            r.valid(1);
            if !s.as_value().is_object() && !s.as_value().is_boolean() {
                r.fail("pointer-mut-root", &format!("*schema.pointer_mut({p:?}).unwrap() = \"neither\" leaves a Schema holding {}", s.as_value()), json!({"pointer": p}));
            }
        }
    }
    r.note("bound", format!("{} source values; all values reachable from 5 schemas by {depth} of {} operations; all arrangements of up to {n} of {} keywords", vals.len(), ops.len(), keys.len()));
    r.assume("the order of members is compared in the build with order preservation (S02 covers the other)");
}
