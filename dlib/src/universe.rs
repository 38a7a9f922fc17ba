//! The bounded universe of JSON values for one program.
use crate::Prog;
use serde_json::{json, Map, Value};
use std::collections::BTreeSet;
use vcore::uni;

pub struct Hints {
    pub v: Value,
}
impl Hints {
    pub fn strs(&self, k: &str) -> Vec<String> {
        self.v[k].as_array().map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect()).unwrap_or_default()
    }
    pub fn flag(&self, f: &str) -> bool {
        self.strs("flags").iter().any(|x| x == f)
    }
}

fn harvest(v: &Value, keys: &mut BTreeSet<String>, strs: &mut BTreeSet<String>, top: bool) {
    match v {
        Value::Object(o) => {
            for (k, v) in o {
                if top {
                    keys.insert(k.clone());
                }
                harvest(v, keys, strs, false);
            }
        }
        Value::Array(a) => a.iter().for_each(|v| harvest(v, keys, strs, false)),
        Value::String(s) if s.len() < 12 => {
            strs.insert(s.clone());
        }
        _ => {}
    }
}

/// Every value one edit away from `v`.
pub fn edits(v: &Value, atoms: &[Value], keys: &[String], out: &mut Vec<Value>) {
    fn go(v: &Value, atoms: &[Value], keys: &[String], put: &mut dyn FnMut(Value)) {
        for a in atoms {
            if a != v {
                put(a.clone());
            }
        }
        match v {
            Value::Object(o) => {
                for (k, x) in o {
                    let mut m = o.clone();
                    m.remove(k);
                    put(Value::Object(m.clone()));
                    for k2 in keys {
                        if !o.contains_key(k2) {
                            let mut m = m.clone();
                            m.insert(k2.clone(), x.clone());
                            put(Value::Object(m));
                        }
                    }
                    go(x, atoms, keys, &mut |y| {
                        let mut m = o.clone();
                        m.insert(k.clone(), y);
                        put(Value::Object(m));
                    });
                }
                for k in keys {
                    if !o.contains_key(k) {
                        for a in atoms {
                            let mut m = o.clone();
                            m.insert(k.clone(), a.clone());
                            put(Value::Object(m));
                        }
                    }
                }
            }
            Value::Array(a) => {
                for i in 0..a.len() {
                    let mut b = a.clone();
                    b.remove(i);
                    put(Value::Array(b));
                    go(&a[i], atoms, keys, &mut |y| {
                        let mut b = a.clone();
                        b[i] = y;
                        put(Value::Array(b));
                    });
                }
                for x in atoms {
                    let mut b = a.clone();
                    b.push(x.clone());
                    put(Value::Array(b));
                }
            }
            _ => {}
        }
    }
    go(v, atoms, keys, &mut |x| out.push(x));
}

fn fill(t: &Value, x: &Value) -> Value {
    match t {
        Value::String(s) if s == "@" => x.clone(),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), fill(v, x))).collect::<Map<_, _>>()),
        Value::Array(a) => Value::Array(a.iter().map(|v| fill(v, x)).collect()),
        _ => t.clone(),
    }
}

/// Serialized constructor values, and the universe around them.
pub fn universe(p: &Prog, h: &Hints, vals: &[(usize, Option<Value>)], level: usize) -> Vec<Value> {
    let mut keys = BTreeSet::new();
    let mut strs = BTreeSet::new();
    let mut seeds: Vec<Value> = vals.iter().filter_map(|v| v.1.clone()).collect();
    if let Some(s) = h.v["seeds"].as_array() {
        seeds.extend(s.iter().cloned());
    }
    let seeds = uni::dedup(seeds);
    for w in &seeds {
        harvest(w, &mut keys, &mut strs, true);
    }
    let n = (p.names)();
    let alias = h.strs("alias");
    keys.extend(n.fields.unwrap_or(&[]).iter().chain(n.variants.unwrap_or(&[])).map(|s| s.to_string()));
    strs.extend(n.variants.unwrap_or(&[]).iter().map(|s| s.to_string()));
    keys.extend(h.strs("keys"));
    strs.extend(h.strs("tags"));
    keys.retain(|k| !alias.contains(k));
    strs.retain(|k| !alias.contains(k) && !k.is_empty() && k != "x");
    keys.insert("zz".into());
    let keys: Vec<String> = keys.into_iter().collect();
    let mut atoms = vec![json!(null), json!(true), json!(3), json!(300), json!("x"), json!([]), json!({})];
    atoms.extend(strs.iter().map(|s| json!(s)));
    let mut out = atoms.clone();
    out.extend([json!(-1), json!(""), json!(1.5), json!("nope")]);
    out.extend(uni::arrays(&atoms[..atoms.len().min(10)], 2));
    let oatoms = &atoms[..atoms.len().min(10)];
    let k = match keys.len() {
        0..=3 => 3,
        4..=7 => 2,
        _ => 1,
    } + level;
    let objs = uni::objects(&keys, oatoms, k);
    for t in h.v["wraps"].as_array().into_iter().flatten() {
        for x in atoms.iter().chain(&uni::arrays(oatoms, 2)).chain(&objs) {
            out.push(fill(t, x));
        }
    }
    out.extend(objs);
    let mut ball = vec![];
    for w in &seeds {
        edits(w, &atoms, &keys, &mut ball);
    }
    if level > 0 {
        let one = uni::dedup(std::mem::take(&mut ball));
        for w in one.iter().take([0, 400, 3000][level]) {
            edits(w, oatoms, &keys, &mut ball);
        }
        ball.extend(one);
    }
    out.extend(ball);
    out.extend(seeds);
    uni::dedup(out)
}
