//! Bounded universes of JSON values.
use serde_json::{Map, Value};

/// All arrays of length <= n over `atoms`.
pub fn arrays(atoms: &[Value], n: usize) -> Vec<Value> {
    let mut cur: Vec<Vec<Value>> = vec![vec![]];
    let mut out = vec![Value::Array(vec![])];
    for _ in 0..n {
        let mut next = vec![];
        for p in &cur {
            for a in atoms {
                let mut q = p.clone();
                q.push(a.clone());
                out.push(Value::Array(q.clone()));
                next.push(q);
            }
        }
        cur = next;
    }
    out
}

/// All objects with at most n of `keys`, each value drawn from `atoms`.
pub fn objects(keys: &[String], atoms: &[Value], n: usize) -> Vec<Value> {
    let mut out = vec![];
    fn rec(keys: &[String], from: usize, left: usize, cur: &Map<String, Value>, atoms: &[Value], out: &mut Vec<Value>) {
        out.push(Value::Object(cur.clone()));
        if left == 0 {
            return;
        }
        for i in from..keys.len() {
            for a in atoms {
                let mut c = cur.clone();
                c.insert(keys[i].clone(), a.clone());
                rec(keys, i + 1, left - 1, &c, atoms, out);
            }
        }
    }
    rec(keys, 0, n, &Map::new(), atoms, &mut out);
    out
}

pub fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

pub fn dedup(v: Vec<Value>) -> Vec<Value> {
    let mut seen = std::collections::HashSet::new();
    v.into_iter().filter(|x| seen.insert(x.to_string())).collect()
}

/// All strings of length <= n over the alphabet.
pub fn strings(alphabet: &[&str], n: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut cur = out.clone();
    for _ in 0..n {
        let mut next = vec![];
        for p in &cur {
            for a in alphabet {
                next.push(format!("{p}{a}"));
            }
        }
        out.extend(next.iter().cloned());
        cur = next;
    }
    out
}
