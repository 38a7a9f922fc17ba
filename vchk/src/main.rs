//! D05: a constrained field accepts exactly the values its unconstrained twin accepts and the constraint allows.
use alib::Entry;
use schemars::generate::SchemaSettings;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::OnceLock;
use vcore::jsv::{num_cmp, Dialect, Doc};
use vcore::report::par_for;
use vcore::Report;

fn docs(e: &Entry) -> Vec<(&'static str, Dialect, Value)> {
    let d2020 = SchemaSettings::draft2020_12();
    [
        ("2020-12", Dialect::D2020, d2020.clone()),
        ("2020-12 serialize", Dialect::D2020, d2020.for_serialize()),
        ("draft-07", Dialect::D7, SchemaSettings::draft07()),
        // (definitions where transforms find them, see the known finding openapi3-root-definitions of T02)
        ("openapi3", Dialect::OA3, SchemaSettings::openapi3().with(|s| s.definitions_path = "/$defs".into())),
    ]
    .into_iter()
    .map(|(n, d, s)| (n, d, json!((e.root)(s.into_generator()))))
    .collect()
}

/// The meaning of the patterns the programs use, without a regex engine.
fn pattern_ok(p: &str, s: &str) -> bool {
    match p {
        "^a" => s.starts_with('a'),
        "b$" => s.ends_with('b'),
        "a" => s.contains('a'),
        r"^\d+$" => !s.is_empty() && s.chars().all(|c| c.is_ascii_digit()),
        "^(ab|c)$" => s == "ab" || s == "c",
        "^[A-Z]{2}$" => s.len() == 2 && s.chars().all(|c| c.is_ascii_uppercase()),
        r"\." => s.contains('.'),
        "^$" => s.is_empty(),
        "é" => s.contains('é'),
        "\"" => s.contains('"'),
        "^https://" => s.starts_with("https://"),
        "" => true,
        "^z" => s.starts_with('z'),
        "z" => s.contains('z'),
        _ => panic!("no model for pattern {p}"),
    }
}

/// Does the constraint allow the value? (Constraints say nothing about values of other JSON types.)
fn allowed(cons: &Value, v: &Value) -> bool {
    cons.as_array().unwrap().iter().all(|c| {
        let (kind, a) = (c[0].as_str().unwrap(), &c[1]);
        let bounds = |n: &serde_json::Number| {
            a.as_array().unwrap().iter().all(|b| {
                let o = num_cmp(n, b[1].as_number().unwrap());
                match b[0].as_str().unwrap() {
                    "min" => o.is_ge(),
                    "max" => o.is_le(),
                    _ => o.is_eq(),
                }
            })
        };
        match (kind, v) {
            ("length", Value::String(s)) => bounds(&s.chars().count().into()),
            ("length", Value::Array(x)) => bounds(&x.len().into()),
            ("range", Value::Number(n)) => bounds(n),
            ("pattern", Value::String(s)) => pattern_ok(a.as_str().unwrap(), s),
            ("contains", Value::String(s)) => s.contains(a.as_str().unwrap()),
            ("inner", Value::Array(x)) => x.iter().all(|i| allowed(a, i)),
            // `required` removes null, which the twin (of the type inside the option) says
            _ => true,
        }
    })
}

fn wrap(shape: &str, f: &[Value]) -> Option<Value> {
    let inner = match shape.rsplit(' ').next().unwrap() {
        "obj" => f.iter().enumerate().map(|(i, v)| (format!("f{i}"), v.clone())).collect(),
        "arr" => Value::Array(f.to_vec()),
        _ => f[0].clone(),
    };
    Some(match shape.split(' ').next().unwrap() {
        "ext" => json!({ "V": inner }),
        "adj" => json!({"t": "V", "c": inner}),
        "int" => {
            let mut o = inner.as_object()?.clone();
            o.insert("t".into(), "V".into());
            o.into()
        }
        "flat" => {
            let mut o = inner.as_object()?.clone();
            o.insert("a".into(), 1.into());
            o.into()
        }
        _ => inner,
    })
}

fn universe() -> Vec<Value> {
    let mut u = vec![json!(null), json!(true), json!({}), json!({"a": 1}), json!({"in_a": true}), json!({"in_a": true, "in_b": 4}), json!({"in_a": 1})];
    u.extend([json!({"k": "s"}), json!({"k": "a1"}), json!({"V": 1}), json!({"ta": "Z"}), json!({"ta": "Y", "y": 1}), json!({"ta": "Y"})]);
    u.extend([json!("U"), json!(["U"]), json!({"V": {"f0": "U", "f1": []}}), json!({"V": {"f0": null, "f1": []}}), json!({"t": "U"})]);
    for i in -6i64..=12 {
        u.push(i.into());
    }
    for i in [-129i64, -128, -127, 99, 100, 101, 127, 128, 254, 255, 256, 300, 65535, 65536, i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1, 1 << 53, (1 << 53) + 1, (1 << 53) + 2] {
        u.push(i.into());
    }
    for i in [u64::MAX, u64::MAX - 1, 1 << 63] {
        u.push(i.into());
    }
    for f in [0.0, -0.5, 0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 1.75, 2.0, 2.25, 2.5, 2.75, 3.5, -1.0, -1.25, -1.5, -1.75, -2.0, -2.5, 99.5, 100.5, 1e300, 1.1e300, -1e300, -1.1e300] {
        u.push(f.into());
    }
    let mut s: Vec<String> = vcore::uni::strings(&["a", "b", "."], 3);
    s.extend(vcore::uni::strings(&["A", "1", "\"", "\\"], 2));
    s.extend(["é", "éé", "ééé", "éééé", "😀", "😀😀", "a😀", "c", "abc", "ab c", "a b", "AB", "ABC", "12", "1a", "d", "\\d", "^a$", "axb", "a.b", "xa.bx", "https://x", "http://x", "xhttps://", "a\nb", "b\n", "\na", "abcd", "zz", "1.2.3.4", "::1", "a@b.c"].map(String::from));
    u.extend(s.iter().map(|s| s.as_str().into()));
    for a in [vec![json!(1), json!(2), json!(0), json!(4)], vec![json!("a"), json!("ab"), json!(""), json!("b.c"), json!("aéb")], vec![json!("b"), json!(null), json!("a.")], vec![json!(null), json!(3), json!(-1)], vec![json!(0.5), json!(1.0), json!(3.25)], vec![json!(true), json!(1)]] {
        u.extend(vcore::uni::arrays(&a, 3));
    }
    for n in 4..6 {
        u.push((1..=n).collect::<Vec<_>>().into());
        u.push((1..=n).map(|_| "a").collect::<Vec<_>>().into());
    }
    u.extend(vcore::uni::arrays(&[json!([]), json!([1]), json!([0]), json!([1, 2]), json!([1, 2, 3]), json!([4, 2])], 2));
    u.extend(vcore::uni::arrays(&[json!([]), json!(["a"]), json!(["b"]), json!(["a", "abc"]), json!([""])], 2));
    u.extend([json!([{"in_a": true}]), json!([{"in_a": true}, {"in_a": false, "in_b": 9}, {"in_a": true}]), json!([[[1]]])]);
    vcore::uni::dedup(u)
}

fn ids(v: &Value, out: &mut HashMap<u64, Value>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| ids(x, out)),
        Value::Object(o) => {
            if let Some(n) = o.get("x-id").and_then(Value::as_u64) {
                out.insert(n, v.clone());
            }
            o.values().for_each(|x| ids(x, out));
        }
        _ => {}
    }
}
/// format keywords at the field's own level and at each level of items
fn formats(mut v: &Value) -> Vec<Option<&str>> {
    let mut out = vec![];
    loop {
        out.push(v["format"].as_str());
        match v.get("items") {
            Some(i) if i.is_object() => v = i,
            _ => break,
        }
    }
    out
}
fn count(v: &Value, key: &str) -> usize {
    match v {
        Value::Array(a) => a.iter().map(|x| count(x, key)).sum(),
        Value::Object(o) => o.contains_key(key) as usize + o.values().map(|x| count(x, key)).sum::<usize>(),
        _ => 0,
    }
}
fn put_formats<'a>(cons: &'a Value, level: usize, f: &mut [Option<&'a str>]) {
    for c in cons.as_array().unwrap() {
        match c[0].as_str().unwrap() {
            "format" => {
                if let Some(x) = f.get_mut(level) {
                    *x = Some(if c[1] == "url" { "uri" } else { c[1].as_str().unwrap() })
                }
            }
            "inner" => put_formats(&c[1], level + 1, f),
            _ => {}
        }
    }
}

fn main() {
    let r = Report::new("D05");
    r.assume("field types are those whose own schema states the JSON type (no $ref); range/length arguments within the type's own bounds");
    r.assume("string length is the number of Unicode code points (JSON Schema's, and validator's, definition)");
    let all: Vec<Entry> = [v0::ALL, v1::ALL, v2::ALL, v3::ALL, v4::ALL, v5::ALL, v6::ALL, v7::ALL].concat().iter().map(|f| f()).collect();
    let at: HashMap<&str, usize> = all.iter().enumerate().map(|(i, e)| (e.id, i)).collect();
    let groups: Vec<Value> = serde_json::from_str(&std::fs::read_to_string("/verif/gen/d05.json").unwrap()).unwrap();
    let cache: Vec<OnceLock<Vec<(&'static str, Dialect, Value)>>> = all.iter().map(|_| Default::default()).collect();
    let get = |i: usize| {
        cache[i].get_or_init(|| {
            r.state(1);
            r.step(4);
            std::panic::catch_unwind(|| docs(&all[i])).unwrap_or_else(|_| {
                r.fail(all[i].id, &format!("schema generation panicked for {}", all[i].src), json!({"program": all[i].src}));
                vec![]
            })
        })
    };
    let uni = universe();
    r.note("universe_values", uni.len());
    let clip = |s: &str| s.chars().take(700).collect::<String>();
    let compile = |g: &str, e: &Entry, c: &str, d: Dialect, doc: &Value| match Doc::new(doc, d) {
        Ok(d) => Some(d),
        Err(m) => {
            r.fail(g, &format!("{g}: the {c} schema of {} is malformed: {m}", clip(e.src)), json!({"program": e.src, "schema": doc}));
            None
        }
    };
    par_for(groups.len(), |n| {
        if r.saturated() {
            return;
        }
        let g = &groups[n];
        let name = g["name"].as_str().unwrap();
        let variants: Vec<(usize, &str)> = g["s"].as_array().unwrap().iter().filter_map(|p| Some((*at.get(p[0].as_str().unwrap())?, p[1].as_str().unwrap()))).collect();
        let Some(&(s0, _)) = variants.first() else { return };
        if let Some(c) = g["contains"].as_array() {
            let alpha: Vec<&str> = g["alphabet"].as_array().unwrap().iter().map(|a| a.as_str().unwrap()).collect();
            let words = vcore::uni::strings(&alpha, 2);
            let (cn, d, doc) = &get(s0)[0];
            for (i, p) in c.iter().enumerate() {
                let p = p.as_str().unwrap();
                let at = &doc["properties"][format!("f{i}")];
                let pd = match Doc::at(doc, at, *d) {
                    Ok(x) => x,
                    Err(m) => {
                        r.fail(&format!("contains {p:?}"), &format!("contains(pattern = {p:?}): the schema is malformed: {m}"), json!({"contains": p, "schema": at}));
                        continue;
                    }
                };
                let ws = words.iter().cloned().chain([format!("xx{p}yy"), format!("{p}{p}"), format!("\\{p}"), format!("x{}", p.chars().rev().collect::<String>())]);
                for w in ws {
                    r.valid(1);
                    let want = w.contains(p);
                    if pd.accepts(&json!(w)) != want {
                        r.fail(&format!("contains {p:?}"), &format!("contains(pattern = {p:?}) ({cn}): the schema {at} {} {w:?}", if want { "rejects" } else { "accepts" }), json!({"contains": p, "value": w, "schema": at}));
                        break;
                    }
                }
            }
            return;
        }
        let fields = g["fields"].as_array().unwrap();
        let shape = g["shape"].as_str().unwrap();
        // (1) every way to write the constraints gives the same schema
        let s = get(s0);
        for &(v, how) in &variants[1..] {
            r.valid(1);
            for ((c, _, a), (_, _, b)) in s.iter().zip(get(v)) {
                if a != b {
                    r.fail(name, &format!("{name}: written as {how}, the {c} schema of\n    {}\n  differs from that of\n    {}", clip(all[v].src), clip(all[s0].src)), json!({"group": name, "how": how, "programs": [all[v].src, all[s0].src], "schemas": [b, a]}));
                    break;
                }
            }
        }
        // (2) each field accepts what the twin accepts and the constraint allows
        let Some(&r0) = at.get(g["r"].as_str().unwrap()) else { return };
        let twin = get(r0);
        for ((c, d, sdoc), (_, _, rdoc)) in s.iter().zip(twin) {
            let (Some(sd), Some(rd)) = (compile(name, &all[s0], c, *d, sdoc), compile(name, &all[r0], c, *d, rdoc)) else { return };
            // a value for each field of the twin, found by coordinate search
            let mut base: Option<Vec<Value>> = None;
            for cand in 0..1 {
                let _ = cand;
                base = good(&|f: &[Value]| wrap(shape, f).is_some_and(|x| rd.accepts(&x)), fields, &uni, rdoc, *d, shape);
            }
            let Some(base) = base else {
                r.fail(name, &format!("{name} ({c}): no value satisfies the schema of {}", clip(all[r0].src)), json!({"program": all[r0].src, "schema": rdoc}));
                return;
            };
            let mut ok: Vec<Vec<bool>> = vec![];
            let mut goods = base.clone();
            for (i, f) in fields.iter().enumerate() {
                let mut probe = base.clone();
                let v: Vec<bool> = uni
                    .iter()
                    .map(|v| {
                        probe[i] = v.clone();
                        wrap(shape, &probe).is_some_and(|x| rd.accepts(&x)) && allowed(&f["cons"], v)
                    })
                    .collect();
                match v.iter().position(|x| *x) {
                    Some(k) => goods[i] = uni[k].clone(),
                    None => {
                        // nothing satisfies this field's constraint: it cannot be part of a group
                        panic!("{name}: no value in the universe satisfies field {i}: {f}");
                    }
                }
                ok.push(v);
            }
            for (i, f) in fields.iter().enumerate() {
                let mut probe = goods.clone();
                for (k, v) in uni.iter().enumerate() {
                    probe[i] = v.clone();
                    let Some(x) = wrap(shape, &probe) else { continue };
                    r.valid(1);
                    if sd.accepts(&x) != ok[i][k] {
                        let key = format!("{name} f{i}");
                        r.fail(&key, &format!("{key} ({c}): a field of type {} with {} {} {v} in\n    {}", f["type"], f["cons"], if ok[i][k] { "rejects" } else { "accepts" }, clip(all[s0].src)), json!({"group": name, "field": i, "contract": c, "value": v, "instance": x, "program": all[s0].src, "schema": sdoc}));
                        break;
                    }
                }
                // the field left out
                let without = |f: &[Value]| match shape.rsplit(' ').next().unwrap() {
                    "obj" => {
                        let mut x = wrap(shape, f).unwrap();
                        let o = match shape {
                            "ext obj" => &mut x["V"],
                            "adj obj" => &mut x["c"],
                            _ => &mut x,
                        };
                        o.as_object_mut().unwrap().shift_remove(&format!("f{i}")).unwrap();
                        Some(x)
                    }
                    "arr" => wrap(shape, &f[..i]),
                    _ => None,
                };
                if let (Some(x), Some(y)) = (without(&base), without(&goods)) {
                    r.valid(1);
                    let want = rd.accepts(&x);
                    if want != sd.accepts(&y) {
                        let key = format!("{name} f{i} missing");
                        r.fail(&key, &format!("{key} ({c}): a field of type {} with {} {} be missing in\n    {}", f["type"], f["cons"], if want { "may not" } else { "may" }, clip(all[s0].src)), json!({"group": name, "field": i, "contract": c, "instance": y, "program": all[s0].src, "schema": sdoc}));
                    }
                }
            }
        }
        // (3) `format` exactly where it is written
        if g["markers"] == true {
            let (mut a, mut b) = Default::default();
            ids(&twin[0].2, &mut a);
            ids(&s[0].2, &mut b);
            let mut more = 0;
            for (i, f) in fields.iter().enumerate() {
                let (Some(x), Some(y)) = (a.get(&(i as u64)), b.get(&(i as u64))) else {
                    r.fail(name, &format!("{name}: the extension of field {i} is missing in {}", clip(all[s0].src)), json!({"program": all[s0].src}));
                    continue;
                };
                let mut want = formats(x);
                let before = want.iter().flatten().count();
                put_formats(&f["cons"], 0, &mut want);
                more += want.iter().flatten().count() - before;
                if want != formats(y) {
                    r.fail(&format!("{name} f{i}"), &format!("{name} f{i}: formats {:?} where {:?} are written ({})", formats(y), want, f["cons"]), json!({"program": all[s0].src, "schema": y}));
                }
            }
            let plain = !g["fields"].to_string().contains("required");
            if plain && count(&twin[0].2, "format") + more != count(&s[0].2, "format") && b.len() == fields.len() {
                r.fail(name, &format!("{name}: `format` in other places than the fields it is written on, in {}", clip(all[s0].src)), json!({"program": all[s0].src, "schema": s[0].2}));
            }
        }
        r.sample(|| json!({"group": name, "field": fields[0], "program": clip(all[s0].src)}));
    });
    r.note("groups", groups.len());
    r.note("programs", all.len());
    r.finish();
}

/// A value for every field that the twin accepts together: each field's value is found in its own schema.
fn good(ok: &dyn Fn(&[Value]) -> bool, fields: &[Value], uni: &[Value], doc: &Value, d: Dialect, shape: &str) -> Option<Vec<Value>> {
    let mut subs: HashMap<u64, Value> = HashMap::new();
    ids(doc, &mut subs);
    let mut base = vec![];
    for (i, _) in fields.iter().enumerate() {
        let sub = subs.get(&(i as u64)).cloned().or_else(|| locate(doc, shape, i));
        let v = match sub.and_then(|s| Doc::at(doc, &s, d).ok().map(|d| uni.iter().find(|v| d.accepts(v)).cloned())) {
            Some(v) => v?,
            None => uni.iter().find(|v| ok(std::slice::from_ref(v)))?.clone(),
        };
        base.push(v);
    }
    ok(&base).then_some(base)
}
/// The schema of field i where no marker is present (by property name or position).
fn locate(doc: &Value, _shape: &str, i: usize) -> Option<Value> {
    fn rec(v: &Value, i: usize) -> Option<Value> {
        match v {
            Value::Array(a) => a.iter().find_map(|x| rec(x, i)),
            Value::Object(o) => o
                .get("properties")
                .and_then(|p| p.get(format!("f{i}")))
                .or_else(|| ["prefixItems", "items"].iter().find_map(|k| o.get(*k)?.as_array()?.get(i)))
                .cloned()
                .or_else(|| o.values().find_map(|x| rec(x, i))),
            _ => None,
        }
    }
    rec(doc, i)
}
