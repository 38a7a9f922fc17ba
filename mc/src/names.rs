//! N01: references and pointers with arbitrary characters.
use schemars::generate::SchemaSettings;
use schemars::{JsonSchema, Schema, SchemaGenerator};
use serde_json::{json, Value};
use std::borrow::Cow;
use std::cell::RefCell;
use vcore::report::par_for;
use vcore::uni::strings;
use vcore::Report;

thread_local! {
    static NAMES: RefCell<[String; 2]> = const { RefCell::new([String::new(), String::new()]) };
}
struct Named<const I: usize>;
impl<const I: usize> JsonSchema for Named<I> {
    fn schema_name() -> Cow<'static, str> {
        NAMES.with(|n| n.borrow()[I].clone()).into()
    }
    fn schema_id() -> Cow<'static, str> {
        format!("named-{I}").into()
    }
    fn json_schema(gen: &mut SchemaGenerator) -> Schema {
        let me = gen.subschema_for::<Self>();
        schemars::json_schema!({"x-node": I, "properties": {"self": me}})
    }
}
struct Root;
impl JsonSchema for Root {
    fn schema_name() -> Cow<'static, str> {
        "Root".into()
    }
    fn json_schema(gen: &mut SchemaGenerator) -> Schema {
        let (a, b) = (gen.subschema_for::<Named<0>>(), gen.subschema_for::<Named<1>>());
        schemars::json_schema!({"x-node": 9, "properties": {"a": a, "b": b}})
    }
}

fn names_ok(a: &str, b: &str, path: &str) -> Result<(), String> {
    NAMES.with(|n| *n.borrow_mut() = [a.into(), b.into()]);
    let doc = SchemaSettings::default()
        .with(|s| s.definitions_path = path.to_string().into())
        .into_generator()
        .into_root_schema_for::<Root>()
        .to_value();
    for (p, i) in [("a", 0), ("b", 1)] {
        let r = doc["properties"][p]["$ref"].as_str().ok_or_else(|| format!("no reference in {doc}"))?;
        let t = vcore::jsv::resolve_ref(&doc, r)?;
        if t["x-node"] != json!(i) {
            return Err(format!("{r:?} leads to {t}"));
        }
        let r2 = t["properties"]["self"]["$ref"].as_str().unwrap_or_default();
        if r2 != r {
            return Err(format!("self reference {r2:?} differs from {r:?}"));
        }
        // the library's own pointer lookup agrees
        let s = Schema::try_from(doc.clone()).unwrap();
        if s.pointer(r) != Some(t) {
            return Err(format!("Schema::pointer({r:?}) does not find the definition"));
        }
    }
    Ok(())
}

/// Reference reading of `Schema::pointer`: '#' introduces a percent-encoded fragment, in which an escape
/// that is not '%' and two hexadecimal digits stands for itself; then RFC 6901 token by token.
fn model_pointer<'a>(doc: &'a Value, p: &str) -> Option<&'a Value> {
    let p = match p.strip_prefix('#') {
        None => p.to_string(),
        Some(f) => {
            let b = f.as_bytes();
            let mut out = vec![];
            let mut i = 0;
            while i < b.len() {
                let hex = |c: u8| (c as char).to_digit(16).map(|d| d as u8);
                if b[i] == b'%' && i + 2 < b.len() {
                    if let (Some(h), Some(l)) = (hex(b[i + 1]), hex(b[i + 2])) {
                        out.push(h * 16 + l);
                        i += 3;
                        continue;
                    }
                }
                out.push(b[i]);
                i += 1;
            }
            String::from_utf8(out).ok()?
        }
    };
    if p.is_empty() {
        return Some(doc);
    }
    let mut cur = doc;
    for t in p.strip_prefix('/')?.split('/') {
        let t = t.replace("~1", "/").replace("~0", "~");
        cur = match cur {
            Value::Object(o) => o.get(&t)?,
            Value::Array(a) => {
                if t.starts_with('+') || t.starts_with('0') && t.len() != 1 {
                    return None;
                }
                a.get(t.parse::<usize>().ok()?)?
            }
            _ => return None,
        }
    }
    Some(cur)
}

pub fn run(r: &Report) {
    // --- names
    let alphabet = [
        "a", "Z", "0", "2", "~", "/", "%", "%2", "\"", "\\", " ", "\u{1}", "\n", "\u{7f}", "#", "?", "&", ":", "<", ">", "[", "{", "^", "`", "|", "+", "é", "\u{20ac}", "🚀", "\u{0}",
    ];
    let n = if r.thorough() { 4 } else { 3 };
    let all = strings(&alphabet, n);
    let paths = ["/$defs", "/components/schemas", "#/a~1b/%41 é/", "/"];
    par_for(all.len(), |k| {
        let s = &all[k];
        if r.saturated() {
            return;
        }
        r.state(1);
        let short = s.chars().count() <= 2;
        let mut bs = vec![s.clone(), format!("{s}2")];
        if short {
            bs.extend(alphabet.iter().map(|a| a.to_string()));
        }
        for b in &bs {
            for p in &paths[..if short { 4 } else { 1 }] {
                // names placed directly in the root object could be keywords of the root schema
                if *p == "/" && [s.as_str(), b].iter().any(|x| ["x-node", "properties"].contains(x)) {
                    continue;
                }
                r.step(2);
                r.valid(1);
                let res = std::panic::catch_unwind(|| names_ok(s, b, p)).unwrap_or_else(|_| Err("panic".into()));
                if let Err(e) = res {
                    r.fail("name", &format!("type names {s:?}, {b:?}, path {p:?}: {e}"), json!({"names": [s, b], "definitions_path": p, "error": e}));
                    return;
                }
            }
        }
    });
    // --- pointers
    let keys = ["", "a", "0", "1", "~", "/", "%", "%2", "%25", "é", "+1", " ", "~1", "%+1", "a/a", "#", "%0", "a%", "+", "%C3%A9", "2"];
    let leaf = |d: usize| -> Value { json!(format!("leaf{d}")) };
    let mut doc = serde_json::Map::new();
    for (i, k) in keys.iter().enumerate() {
        let mut inner = serde_json::Map::new();
        for (j, k2) in keys.iter().enumerate() {
            inner.insert(k2.to_string(), if j % 4 == 1 { json!([leaf(j), [leaf(i)]]) } else { leaf(i * 100 + j) });
        }
        doc.insert(k.to_string(), if i % 5 == 3 { json!([inner, leaf(i)]) } else { Value::Object(inner) });
    }
    let doc = Value::Object(doc);
    let schema = Schema::try_from(doc.clone()).unwrap();
    let toks = ["#", "/", "~", "0", "1", "%", "%25", "%2F", "%2f", "%7E", "%C3", "%A9", "a", "é", "+", "2", "%23", "%G0", "%e"];
    let n = if r.thorough() { 6 } else { 5 };
    // enumerate prefixes in parallel; each worker extends by one more token
    let pre = strings(&toks, n - 1);
    let found = std::sync::atomic::AtomicU64::new(0);
    par_for(pre.len(), |k| {
        if r.saturated() {
            return;
        }
        let mut sch = schema.clone();
        for t in std::iter::once("").chain(toks) {
            if t.is_empty() && !pre[k].is_empty() && k % 2 == 9 {
                continue;
            }
            let p = format!("{}{t}", pre[k]);
            let want = model_pointer(&doc, &p);
            let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| schema.pointer(&p).cloned())).unwrap_or_else(|_| Some(json!("panic")));
            r.state(1);
            r.valid(1);
            if want.is_some() {
                found.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            }
            let mut bad = got.as_ref() != want;
            r.step(1);
            if k % 16 == 0 || want.is_some() {
                r.step(1);
                bad |= sch.pointer_mut(&p).map(|x| &*x) != want;
            }
            if bad {
                r.fail("pointer", &format!("pointer {p:?} finds {got:?}, expected {want:?}"), json!({"pointer": p, "document": doc, "expected": want, "got": got}));
                return;
            }
        }
    });
    r.note("pointers_found", found.into_inner());
    r.sample(|| json!({"name": "~/%\u{1}"}));
    r.sample(|| json!({"pointer": "#/%25/~01"}));
    r.note("bound", "names: all strings of up to 3 (thorough 4) symbols over 30 character classes, in pairs with itself, its disambiguated form and (short names) every symbol; 4 definitions paths; pointers: all strings of up to 5 (thorough 6) tokens over 19 tokens");
    r.assume("characters outside the alphabet behave like those of the same class");
}
