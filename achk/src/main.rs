//! D04: groups of programs that must have equal schemas.
use alib::Entry;
use schemars::generate::SchemaSettings;
use serde_json::{json, Value};
use std::collections::HashMap;
use vcore::report::par_for;
use vcore::Report;

fn docs(e: &Entry) -> Vec<(&'static str, Value)> {
    let mut out = vec![];
    for (name, s) in [("2020-12", SchemaSettings::draft2020_12()), ("draft-07", SchemaSettings::draft07()), ("openapi3", SchemaSettings::openapi3())] {
        for (c, s) in [("deserialize", s.clone().for_deserialize()), ("serialize", s.for_serialize())] {
            out.push((c, json!({ name: (e.root)(s.into_generator()) })));
            if name != "2020-12" {
                break;
            }
        }
    }
    out
}

fn without_default(v: &Value) -> Value {
    match v {
        Value::Array(a) => a.iter().map(without_default).collect::<Vec<_>>().into(),
        Value::Object(o) => Value::Object(o.iter().filter(|(k, _)| *k != "default").map(|(k, v)| (k.clone(), without_default(v))).collect()),
        _ => v.clone(),
    }
}

fn main() {
    let r = Report::new("D04");
    let all: Vec<Entry> = [q0::ALL, q1::ALL, q2::ALL, q3::ALL, q4::ALL, q5::ALL, q6::ALL, q7::ALL].concat().iter().map(|f| f()).collect();
    let at: HashMap<&str, usize> = all.iter().enumerate().map(|(i, e)| (e.id, i)).collect();
    let groups: Vec<Value> = serde_json::from_str(&std::fs::read_to_string("/verif/gen/d04.json").unwrap()).unwrap();
    let cache: Vec<std::sync::OnceLock<Vec<(&'static str, Value)>>> = all.iter().map(|_| Default::default()).collect();
    let get = |i: usize| {
        cache[i].get_or_init(|| {
            r.state(1);
            r.step(4);
            std::panic::catch_unwind(|| docs(&all[i])).unwrap_or_else(|_| {
                r.fail(all[i].id, &format!("schema generation panicked for {}", all[i].src), json!({"program": all[i].src}));
                vec![]
            })
        })
    };
    par_for(groups.len(), |n| {
        if r.saturated() {
            return;
        }
        let g = &groups[n];
        let name = g["name"].as_str().unwrap();
        let ps: Vec<usize> = g["progs"].as_array().unwrap().iter().filter_map(|p| at.get(p.as_str().unwrap()).copied()).collect();
        let Some((&first, rest)) = ps.split_first() else { return };
        let strip = g["strip"] == true;
        let want = get(first);
        for &p in rest {
            let got = get(p);
            r.valid(1);
            for ((c, a), (_, b)) in want.iter().zip(got) {
                let (a, b) = if strip { (&without_default(a), &without_default(b)) } else { (a, b) };
                if a != b || a.to_string() != b.to_string() {
                    r.fail(
                        name,
                        &format!("{name}: the {c} schemas of\n    {}\n  and\n    {}\n  differ: {a}\n  and {b}", all[first].src, all[p].src),
                        json!({"group": name, "contract": c, "programs": [all[first].src, all[p].src], "schemas": [a, b]}),
                    );
                    break;
                }
            }
        }
        r.sample(|| json!({"group": name, "programs": ps.iter().map(|&p| all[p].src).collect::<Vec<_>>()}));
    });
    r.note("groups", groups.len());
    r.note("programs", all.len());
    r.finish();
}
