//! Equality of documents up to the unfolding of `$ref`s (bisimulation).
use crate::jsv::resolve_ref;
use serde_json::Value;
use std::collections::HashSet;

/// Keys ignored at the top of a document (layout, not meaning).
const LAYOUT: [&str; 5] = ["$schema", "title", "$defs", "definitions", "components"];

fn unref<'a>(root: &'a Value, mut v: &'a Value) -> Result<&'a Value, String> {
    let mut seen = 0;
    loop {
        match v.as_object() {
            Some(o) if o.len() == 1 && o.contains_key("$ref") => {
                v = resolve_ref(root, o["$ref"].as_str().ok_or("non-string $ref")?)?;
                seen += 1;
                if seen > 50 {
                    return Err("cyclic chain of $ref".into());
                }
            }
            _ => return Ok(v),
        }
    }
}

/// Are `a` (in document `ra`) and `b` (in document `rb`) the same once references are followed?
/// `top_layout`: keys in LAYOUT plus `extra` are ignored on nodes which are a document root.
pub fn bisimilar(ra: &Value, a: &Value, rb: &Value, b: &Value, extra: &[&str]) -> Result<(), String> {
    let mut seen = HashSet::new();
    go(ra, a, rb, b, extra, &mut seen, &mut String::new())
}

fn go(
    ra: &Value,
    a: &Value,
    rb: &Value,
    b: &Value,
    extra: &[&str],
    seen: &mut HashSet<(usize, usize)>,
    path: &mut String,
) -> Result<(), String> {
    let a = unref(ra, a).map_err(|e| format!("{path}: {e}"))?;
    let b = unref(rb, b).map_err(|e| format!("{path}: (expected side) {e}"))?;
    if !seen.insert((a as *const _ as usize, b as *const _ as usize)) {
        return Ok(());
    }
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            let skip = |k: &str, is_root: bool| is_root && (LAYOUT.contains(&k) || extra.contains(&k));
            let ar = std::ptr::eq(a, ra);
            let br = std::ptr::eq(b, rb);
            // a root compared with a non-root: titles etc. are layout on the root side only
            let anyr = ar || br;
            for (k, vx) in x {
                if skip(k, anyr) {
                    continue;
                }
                let Some(vy) = y.get(k) else {
                    return Err(format!("{path}/{k}: unexpected, value {vx}"));
                };
                let l = path.len();
                path.push('/');
                path.push_str(k);
                if k == "$ref" {
                    // next to other keywords: what matters is where it leads
                    if let (Some(p), Some(q)) = (vx.as_str(), vy.as_str()) {
                        let vx = resolve_ref(ra, p).map_err(|e| format!("{path}: {e}"))?;
                        let vy = resolve_ref(rb, q).map_err(|e| format!("{path}: (expected side) {e}"))?;
                        go(ra, vx, rb, vy, extra, seen, path)?;
                        path.truncate(l);
                        continue;
                    }
                }
                go(ra, vx, rb, vy, extra, seen, path)?;
                path.truncate(l);
            }
            for k in y.keys() {
                if !skip(k, anyr) && !x.contains_key(k) {
                    return Err(format!("{path}/{k}: missing"));
                }
            }
            Ok(())
        }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return Err(format!("{path}: array lengths differ: {a} vs {b}"));
            }
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                let l = path.len();
                path.push_str(&format!("/{i}"));
                go(ra, p, rb, q, extra, seen, path)?;
                path.truncate(l);
            }
            Ok(())
        }
        _ if a == b => Ok(()),
        _ => Err(format!("{path}: {a} differs from expected {b}")),
    }
}
