//! D06: doc comments, annotation attributes and defaults reach the schema of the item they are written on, unchanged.
use alib::{Entry, RtEntry};
use schemars::generate::SchemaSettings;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use vcore::jsv::{Dialect, Doc};
use vcore::report::par_for;
use vcore::uni::dedup;
use vcore::Report;

const SPEC: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/../gen/d06.json");

fn d2020() -> SchemaSettings {
    SchemaSettings::draft2020_12()
}
fn root(e: &Entry, s: SchemaSettings) -> Value {
    json!((e.root)(s.into_generator()))
}
/// The schema of the type as a part of a document, and the definitions beside it.
fn part(e: &Entry, s: SchemaSettings) -> Value {
    let mut g = s.into_generator();
    let s = (e.sub)(&mut g);
    let d: Map<String, Value> = g.take_definitions(false).into_iter().collect();
    json!({"schema": s, "$defs": d})
}
fn titled(mut s: SchemaSettings) -> SchemaSettings {
    s.untagged_enum_variant_titles = true;
    s
}
/// The documents in which annotations are looked for; the first two are root documents.
fn documents(e: &Entry) -> Vec<(&'static str, bool, Value)> {
    vec![
        ("deserialize", true, root(e, d2020())),
        ("serialize", true, root(e, d2020().for_serialize())),
        ("part, deserialize", false, part(e, d2020())),
        ("part, serialize", false, part(e, d2020().for_serialize())),
        ("with variant titles", true, root(e, titled(d2020()))),
        ("part with variant titles, serialize", false, part(e, titled(d2020()).for_serialize())),
        ("inlined", false, part(e, d2020().with(|s| s.inline_subschemas = true))),
    ]
}
fn accepting(e: &Entry) -> Vec<(&'static str, Dialect, Value)> {
    vec![
        ("2020-12", Dialect::D2020, root(e, d2020())),
        ("2020-12 serialize", Dialect::D2020, root(e, d2020().for_serialize())),
        ("draft-07", Dialect::D7, root(e, SchemaSettings::draft07())),
        ("openapi3", Dialect::OA3, root(e, SchemaSettings::openapi3().with(|s| s.definitions_path = "/$defs".into()))),
    ]
}

// ---- the model of annotations
/// Applies the operations of one annotation to the schema object they are written on.
fn apply(o: &mut Map<String, Value>, ops: &Value) {
    for op in ops.as_array().unwrap() {
        let mut set = |k: &str, v: Value| {
            o.insert(k.to_owned(), v);
        };
        match op[0].as_str().unwrap() {
            k @ ("title" | "description") => {
                if let Value::String(s) = &op[1] {
                    set(k, json!(s))
                }
            }
            "deprecated" => set("deprecated", json!(true)),
            "examples" => set("examples", op[1].clone()),
            "ext" => set(op[1].as_str().unwrap(), op[2].clone()),
            "log" => {
                let mut e = vec![op[1].clone()];
                for k in ["title", "description", "deprecated", "examples", "x-a", "default", "minLength", "readOnly"] {
                    e.push(o.get(k).cloned().unwrap_or_default());
                }
                o.entry("x-log").or_insert_with(|| json!([])).as_array_mut().unwrap().push(e.into());
            }
            "explicit title" => {}
            x => panic!("no model for {x}"),
        }
    }
}
fn explicit_title(ops: &Value) -> bool {
    ops.as_array().unwrap().iter().any(|o| o[0] == "explicit title")
}
/// The twin's document with the annotations of each slot at the objects that carry its marker.
fn annotate(v: &mut Value, slots: &[(u64, &Value)]) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| annotate(x, slots)),
        Value::Object(o) => {
            o.values_mut().for_each(|x| annotate(x, slots));
            let mut here: Vec<&(u64, &Value)> = slots.iter().filter(|(n, _)| o.contains_key(&format!("x-id-{n}"))).collect();
            here.sort_by_key(|s| s.0);
            let Some((last, inner)) = here.split_last() else { return };
            // the twin has no title but the one an untagged variant gets (the outermost item here)
            let auto = o.remove("title");
            for (_, ops) in inner {
                apply(o, ops);
            }
            if let (Some(t), false) = (auto, explicit_title(last.1)) {
                o.insert("title".into(), t);
            }
            apply(o, last.1);
        }
        _ => {}
    }
}
fn strip(v: &Value) -> Value {
    match v {
        Value::Bool(true) => json!({}),
        Value::Array(a) => a.iter().map(strip).collect::<Vec<_>>().into(),
        Value::Object(o) => {
            let m: Map<String, Value> = o.iter().filter(|(k, _)| !k.starts_with("x-id-")).map(|(k, v)| (k.clone(), if k.starts_with("x-") || k == "examples" { v.clone() } else { strip(v) })).collect();
            if m.len() == 1 && m.get("not") == Some(&json!({})) {
                return json!(false);
            }
            m.into()
        }
        _ => v.clone(),
    }
}
fn diff(a: &Value, b: &Value, at: &str) -> String {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for k in x.keys().chain(y.keys()) {
                match (x.get(k), y.get(k)) {
                    (Some(p), Some(q)) if p == q => {}
                    (Some(p), Some(q)) => return diff(p, q, &format!("{at}/{k}")),
                    (p, q) => return format!("{at}/{k}: {} instead of {}", p.map_or("nothing".into(), |v| v.to_string()), q.map_or("nothing".into(), |v| v.to_string())),
                }
            }
            String::new()
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => x.iter().zip(y).enumerate().find(|(_, (p, q))| p != q).map_or(String::new(), |(i, (p, q))| diff(p, q, &format!("{at}/{i}"))),
        _ => format!("{at}: {a} instead of {b}"),
    }
}

// ---- values near what a schema accepts
fn samples(doc: &Value, s: &Value, depth: usize) -> Vec<Value> {
    let Value::Object(o) = s else { return vec![json!(null), json!(1)] };
    if depth == 0 {
        return vec![json!(null), json!({})];
    }
    let mut out: Vec<Value> = vec![];
    let cap = |mut v: Vec<Value>, n: usize| {
        v.truncate(n);
        v
    };
    if let Some(r) = o.get("$ref").and_then(Value::as_str) {
        if let Ok(t) = vcore::jsv::resolve_ref(doc, r) {
            out.extend(samples(doc, t, depth - 1));
        }
    }
    if let Some(c) = o.get("const") {
        out.push(c.clone());
    }
    if let Some(e) = o.get("enum").and_then(Value::as_array) {
        out.extend(e.iter().cloned());
    }
    for t in o.get("type").map(|t| t.as_array().cloned().unwrap_or(vec![t.clone()])).unwrap_or_default() {
        match t.as_str().unwrap_or("") {
            "null" => out.push(json!(null)),
            "boolean" => out.push(json!(true)),
            "integer" => out.extend([json!(5), json!(0), json!(-1)]),
            "number" => out.extend([json!(0.5)]),
            "string" => out.extend([json!("abc"), json!(""), json!("a@b.c x")]),
            _ => {}
        }
    }
    if let Some(p) = o.get("prefixItems").or(o.get("items")).and_then(Value::as_array) {
        let each: Vec<Vec<Value>> = p.iter().map(|x| samples(doc, x, depth - 1)).collect();
        let base: Vec<Value> = each.iter().map(|e| e.first().cloned().unwrap_or_default()).collect();
        for (i, e) in each.iter().enumerate() {
            for v in e {
                let mut b = base.clone();
                b[i] = v.clone();
                out.push(b.into());
            }
            out.push(base[..i].to_vec().into());
        }
        let mut more = base.clone();
        more.push(json!(null));
        out.extend([base.into(), more.into()]);
    } else if let Some(i) = o.get("items") {
        let e = samples(doc, i, depth - 1);
        out.push(json!([]));
        out.extend(e.iter().map(|v| json!([v])));
        if let Some(n) = o.get("minItems").and_then(Value::as_u64) {
            for v in &e {
                out.push(vec![v.clone(); n as usize].into());
            }
            // (a tuple whose items are only known to be any of these)
            out.extend((0..e.len()).map(|i| (0..n as usize).map(|k| e[(i + k) % e.len()].clone()).collect::<Vec<_>>().into()));
        }
        out.push(e.into());
    } else if o.get("type").is_some_and(|t| t == "array") {
        out.extend([json!([]), json!([1])]);
    }
    let mut objs: Vec<Map<String, Value>> = vec![];
    if let Some(p) = o.get("properties").and_then(Value::as_object) {
        let each: Vec<(&String, Vec<Value>)> = p.iter().map(|(k, x)| (k, samples(doc, x, depth - 1))).collect();
        let base: Map<String, Value> = each.iter().map(|(k, e)| ((*k).clone(), e.first().cloned().unwrap_or_default())).collect();
        objs.push(base.clone());
        for (k, e) in &each {
            for v in cap(e[1.min(e.len())..].to_vec(), 12) {
                let mut b = base.clone();
                b.insert((*k).clone(), v);
                objs.push(b);
            }
            let mut b = base.clone();
            b.shift_remove(*k);
            objs.push(b);
        }
        let mut b = base.clone();
        b.insert("zz".into(), json!(1));
        objs.push(b);
    } else if o.get("type").is_some_and(|t| t == "object" || t.as_array().is_some_and(|a| a.contains(&json!("object")))) {
        objs.push(Map::new());
    }
    if let Some(a) = o.get("additionalProperties").filter(|a| a.is_object()) {
        objs.extend(samples(doc, a, depth - 1).into_iter().map(|v| Map::from_iter([("k".to_owned(), v)])));
    }
    for k in ["oneOf", "anyOf", "allOf"] {
        let Some(a) = o.get(k).and_then(Value::as_array) else { continue };
        let mut merged = vec![];
        for b in a {
            for v in samples(doc, b, depth) {
                if let Value::Object(m) = &v {
                    for x in cap_maps(&objs, 8) {
                        let mut x = x.clone();
                        x.extend(m.clone());
                        merged.push(x);
                    }
                }
                out.push(v);
            }
        }
        objs.extend(merged);
        if k == "allOf" {
            let mut all: Vec<Map<String, Value>> = cap_maps(&objs, 4).to_vec();
            for b in a {
                let each = samples(doc, b, depth);
                let each: Vec<_> = each.iter().filter_map(Value::as_object).take(10).collect();
                all = all.iter().flat_map(|x| each.iter().map(|m| x.clone().into_iter().chain((*m).clone()).collect())).take(400).collect();
            }
            objs.extend(all);
        }
    }
    out.extend(objs.into_iter().map(Value::Object));
    cap(dedup(out), 4000)
}
fn cap_maps(v: &[Map<String, Value>], n: usize) -> &[Map<String, Value>] {
    &v[..v.len().min(n)]
}

fn main() {
    let r = Report::new("D06");
    r.assume("annotations of a container that is flattened, and on a flattened field, are not looked at (undocumented)");
    r.assume("defaults: serde itself, deserializing an object without the field and serializing the result, is the oracle");
    let all: Vec<Entry> = [w0::ALL, w1::ALL, w2::ALL, w3::ALL, w4::ALL, w5::ALL, w6::ALL, w7::ALL].concat().iter().map(|f| f()).collect();
    let rts: Vec<RtEntry> = [y0::ALL, y1::ALL, y2::ALL, y3::ALL].concat().iter().map(|f| f()).collect();
    let at: HashMap<&str, &Entry> = all.iter().map(|e| (e.id, e)).collect();
    let rt_at: HashMap<&str, &RtEntry> = rts.iter().map(|e| (e.id, e)).collect();
    let spec: Value = serde_json::from_str(&std::fs::read_to_string(SPEC).unwrap()).unwrap();
    let clip = |s: &str| s.chars().take(900).collect::<String>();
    fn caught<T>(r: &Report, key: &str, src: &str, f: impl FnOnce() -> T) -> Option<T> {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(x) => Some(x),
            Err(_) => {
                r.fail(key, &format!("{key}: schema generation panicked for {src}"), json!({"program": src}));
                None
            }
        }
    }
    // A. the split of doc comments
    let docs = spec["docs"].as_array().unwrap();
    par_for(docs.len(), |n| {
        let Some(e) = at.get(docs[n][0].as_str().unwrap()) else { return };
        let Some(d) = caught(&r, e.id, e.src, || root(e, d2020())) else { return };
        r.state(1);
        r.step(1);
        for (k, want) in docs[n][1].as_array().unwrap().iter().enumerate() {
            r.valid(1);
            let mut w = json!({"type": "boolean"});
            for (i, key) in ["title", "description"].iter().enumerate() {
                if !want[i].is_null() {
                    w[*key] = want[i].clone();
                }
            }
            let got = &d["properties"][format!("f{k}")];
            if *got != w {
                let field = e.src.split_inclusive(" bool,").nth(k).unwrap_or("");
                r.fail(&format!("doc {field}"), &format!("the documentation of {field} gives {got} instead of {w}"), json!({"field": field, "schema": got, "expected": w}));
            }
        }
    });
    // B. annotations
    let frames = spec["frames"].as_array().unwrap();
    let anns = spec["ann"].as_array().unwrap();
    par_for(frames.len(), |n| {
        if r.saturated() {
            return;
        }
        let f = &frames[n];
        let name = f["name"].as_str().unwrap();
        let get = |v: &Value| at.get(v.as_str().unwrap()).copied();
        if let Some(m) = get(&f["m"]) {
            let Some(twin) = caught(&r, name, m.src, || documents(m)) else { return };
            let plain_titles: Vec<bool> = twin.iter().map(|(_, is_root, _)| *is_root).collect();
            // every marker shows up somewhere, so that the annotation in its place is looked at
            let text = twin.iter().map(|t| t.2.to_string()).collect::<String>();
            for s in f["slots"].as_array().unwrap() {
                let skipped = m.src.contains(&format!("\"x-id-{s}\" = true))] #[serde(skip)] E"));
                if skipped == text.contains(&format!("\"x-id-{s}\"")) {
                    r.fail(&format!("{name}, item {s}"), &format!("{name}: the extension of item {s} is {} the schema of\n    {}", if skipped { "in" } else { "missing from" }, m.src), json!({"program": m.src, "schema": twin[0].2}));
                }
            }
            for a in f["a"].as_array().unwrap() {
                let Some(e) = get(&a[0]) else { continue };
                let Some(got) = caught(&r, name, e.src, || documents(e)) else { continue };
                r.state(1);
                r.step(got.len() as u64);
                let slots: Vec<(u64, &Value)> = a[1].as_array().unwrap().iter().map(|x| (x[0].as_u64().unwrap(), &anns[x[1].as_u64().unwrap() as usize][1])).collect();
                for (i, (c, is_root, t)) in twin.iter().enumerate() {
                    r.valid(1);
                    let mut want = t.clone();
                    let mut root_title = None;
                    if *is_root && plain_titles[i] {
                        root_title = want.as_object_mut().unwrap().shift_remove("title");
                    }
                    annotate(&mut want, &slots);
                    if let (Some(t), Some(o)) = (root_title, want.as_object_mut()) {
                        o.entry("title").or_insert(t);
                    }
                    if want != got[i].2 {
                        r.fail(name, &format!("{name} ({c}): {} in the schema of\n    {}", diff(&got[i].2, &want, ""), e.src), json!({"frame": name, "document": c, "program": e.src, "schema": got[i].2, "expected": want}));
                        break;
                    }
                }
            }
        }
        // annotations do not change what is accepted, nor does the marker hide anything
        let Some(p) = get(&f["p"]) else { return };
        let Some(plain) = caught(&r, name, p.src, || accepting(p)) else { return };
        let plain: Vec<_> = plain
            .into_iter()
            .filter_map(|(c, d, v)| match Doc::new(&v, d) {
                Ok(x) => {
                    let mut u = samples(&v, &v, 5);
                    u.extend([json!(null), json!(1), json!(300), json!("zz"), json!([]), json!({}), json!(true), json!({"zz": 1})]);
                    Some((c, d, x, u))
                }
                Err(m) => {
                    r.fail(name, &format!("{name} ({c}): malformed schema of {}: {m}", p.src), json!({"program": p.src, "schema": v}));
                    None
                }
            })
            .collect();
        for nid in f["n"].as_array().unwrap() {
            let Some(e) = get(nid) else { continue };
            let Some(docs) = caught(&r, name, e.src, || accepting(e)) else { continue };
            r.state(1);
            r.step(4);
            for ((c, d, v), (_, _, pd, u)) in docs.iter().zip(&plain) {
                let x = match Doc::new(v, *d) {
                    Ok(x) => x,
                    Err(m) => {
                        r.fail(name, &format!("{name} ({c}): malformed schema of {}: {m}", e.src), json!({"program": e.src, "schema": v}));
                        continue;
                    }
                };
                let mut some = false;
                for inst in u {
                    r.valid(1);
                    let want = pd.accepts(inst);
                    some |= want;
                    if x.accepts(inst) != want {
                        r.fail(&format!("{name} acceptance"), &format!("{name} ({c}): annotations make the schema {} {inst}, in\n    {}", if want { "reject" } else { "accept" }, e.src), json!({"frame": name, "document": c, "program": e.src, "value": inst, "schema": v}));
                        break;
                    }
                }
                if !some && !name.starts_with("empty enum") && !name.contains("Never") {
                    r.note(&format!("no accepted value: {name} ({c})"), 1);
                }
            }
            // the same document as with markers, which are extensions themselves (and turn `false` into `{"not": {}}`)
            if name.starts_with("empty enum") {
                continue;
            }
            let aid = nid.as_str().unwrap().replacen('n', "a", 1);
            if let (Some(a), false) = (at.get(aid.as_str()), at.get(aid.as_str()).is_some_and(|a| a.src.contains("\"minLength\" = 5"))) {
                r.valid(1);
                let (x, y) = (strip(&root(a, d2020())), strip(&root(e, d2020())));
                if x != y {
                    r.fail(&format!("{name} markers"), &format!("{name}: {} with another extension, in the schema of\n    {}", diff(&x, &y, ""), a.src), json!({"programs": [a.src, e.src], "schemas": [x, y]}));
                }
            }
        }
        r.sample(|| json!({"frame": name, "program": clip(p.src)}));
    });
    // C. defaults
    let defaults = spec["defaults"].as_array().unwrap();
    par_for(defaults.len(), |n| {
        let f = &defaults[n];
        let name = f["name"].as_str().unwrap();
        let Some(e) = rt_at.get(f["id"].as_str().unwrap()) else { return };
        let fields = f["fields"].as_array().unwrap();
        let mut o: Map<String, Value> = fields.iter().filter(|x| x["filled"] == false).map(|x| (x["de"].as_str().unwrap().to_owned(), x["json"].clone())).collect();
        let kind = f["base"].as_str().unwrap();
        if kind == "int variant" {
            o.insert("t".into(), json!("V"));
        }
        let base = match kind {
            "ext variant" => json!({"V": o}),
            "adj variant" => json!({"t": "V", "c": o}),
            _ => Value::Object(o),
        };
        let out = (e.rt)(&base.to_string()).unwrap_or_else(|m| panic!("{name}: serde rejects {base}: {m}, for {}", e.src));
        let out = match kind {
            "ext variant" => &out["V"],
            "adj variant" => &out["c"],
            _ => &out,
        };
        r.state(1);
        for (c, contract) in [("deserialize", "de"), ("serialize", "ser")] {
            let s = if contract == "de" { d2020() } else { d2020().for_serialize() };
            let Some(doc) = caught(&r, name, e.src, || json!((e.root)(s.into_generator()))) else { continue };
            r.step(1);
            let names: Vec<&str> = fields.iter().filter_map(|x| x[contract].as_str()).collect();
            if names.is_empty() {
                continue;
            }
            let Some(props) = properties(&doc, &names) else {
                r.fail(name, &format!("{name} ({c}): no properties {names:?} in {doc}, the schema of {}", e.src), json!({"program": e.src, "schema": doc}));
                continue;
            };
            for x in fields {
                let Some(pname) = x[contract].as_str() else { continue };
                r.valid(1);
                let p = &props[pname];
                let want = if x["filled"] == true { x["ser"].as_str().and_then(|k| out.get(k)) } else { None };
                let want = want.filter(|v| !v.to_string().contains(alib::dv::FAILS));
                if p.get("default") != want {
                    r.fail(&format!("{name} {pname}"), &format!("{name} ({c}): `default` is {} but serde fills in {} for {pname}: {} {}", p.get("default").map_or("absent".into(), |v| v.to_string()), want.map_or("nothing".into(), |v| v.to_string()), x["attrs"], x["type"]), json!({"program": e.src, "property": pname, "schema": p, "expected": want}));
                }
                for (k, attr, with) in [("readOnly", "ser", "de"), ("writeOnly", "de", "ser")] {
                    let want = (contract == attr && x[with].is_null()).then_some(json!(true));
                    if p.get(k) != want.as_ref() {
                        r.fail(&format!("{name} {pname} {k}"), &format!("{name} ({c}): `{k}` of {pname} is {:?} instead of {want:?}: {} {}", p.get(k), x["attrs"], x["type"]), json!({"program": e.src, "property": pname, "schema": p}));
                    }
                }
            }
        }
    });
    r.note("doc_programs", docs.len());
    r.note("frames", frames.len());
    r.note("annotations", anns.len());
    r.note("default_programs", defaults.len());
    r.note("programs", all.len() + rts.len());
    r.finish();
}

/// The property map that has all these properties.
fn properties<'a>(v: &'a Value, names: &[&str]) -> Option<&'a Map<String, Value>> {
    match v {
        Value::Array(a) => a.iter().find_map(|x| properties(x, names)),
        Value::Object(o) => o.get("properties").and_then(Value::as_object).filter(|p| names.iter().all(|n| p.contains_key(*n))).or_else(|| o.values().find_map(|x| properties(x, names))),
        _ => None,
    }
}
