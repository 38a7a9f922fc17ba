//! S02: runs the two builds of the generated programs, each several times, and compares what they print.
use serde_json::json;
use std::collections::BTreeMap;
use std::process::Command;
use vcore::report::{par_for, Report};

const SHARDS: usize = 8;

fn main() {
    let r = Report::new(&std::env::args().nth(1).expect("property"));
    let bin = std::env::var("CARGO_TARGET_DIR").unwrap_or("/verif/target".into()) + "/debug/";
    let runs = if r.thorough() { 3 } else { 2 };
    let run = |build: &str, shard: usize, n: usize, seed: usize, dump: Option<&str>| -> (bool, String) {
        let mut c = Command::new(format!("{bin}ord{build}"));
        c.arg(&r.tier).arg(shard.to_string()).arg(n.to_string());
        c.args(dump);
        // processes that differ in what must not matter
        c.env_clear().env("RUN", "x".repeat(seed * 997)).current_dir(["/", "/tmp", "/verif"][seed % 3]);
        let o = c.output().expect("cannot start the runner");
        if !o.status.success() {
            eprintln!("{}", String::from_utf8_lossy(&o.stderr));
        }
        (o.status.success(), String::from_utf8_lossy(&o.stdout).into_owned())
    };
    let dump = |build: &str, seed: usize, id: &str| run(build, 0, 1, seed, Some(id)).1.trim_end().to_string();
    let results = std::sync::Mutex::new(BTreeMap::new());
    par_for(SHARDS * 2 * runs, |i| {
        let (shard, b, seed) = (i / (2 * runs), i % 2, i / 2 % runs);
        let o = run(["p", "n"][b], shard, SHARDS, seed, None);
        results.lock().unwrap().insert((shard, b, seed), o);
    });
    let mut results = results.into_inner().unwrap();
    for shard in 0..SHARDS {
        let mut all: Vec<BTreeMap<String, (String, String)>> = vec![];
        for b in 0..2 {
            let bn = ["with", "without"][b];
            let mut first: Option<BTreeMap<String, (String, String)>> = None;
            for seed in 0..runs {
                let (ok, out) = results.remove(&(shard, b, seed)).unwrap();
                if !ok {
                    r.fail(&format!("crash {bn} {shard}"), &format!("the build {bn} preserve_order crashed"), json!({"shard": shard}));
                }
                let mut m = BTreeMap::new();
                for l in out.lines() {
                    let f: Vec<&str> = l.split('\t').collect();
                    if f.len() != 4 {
                        continue;
                    }
                    if seed == 0 {
                        r.state(1);
                        if !f[3].is_empty() {
                            // (each dump runs the process again)
                            let text = if r.saturated() { String::new() } else { dump(["p", "n"][b], 0, f[0]) };
                            r.fail(f[0], &format!("{bn} preserve_order: {} in {}: {text}", f[3], f[0]), json!({"id": f[0], "build": bn}));
                        }
                    }
                    m.insert(f[0].to_string(), (f[1].to_string(), f[2].to_string()));
                }
                r.step(m.len() as u64);
                if let Some(first) = &first {
                    for (id, x) in first {
                        if r.saturated() {
                            break;
                        }
                        r.valid(1);
                        if m.get(id).map(|y| &y.1) != Some(&x.1) {
                            r.fail(id, &format!("{bn} preserve_order: two processes generate different text for {id}: {} and, for example, {}", dump(["p", "n"][b], 0, id), dump(["p", "n"][b], seed, id)), json!({"id": id, "build": bn}));
                        }
                    }
                } else {
                    first = Some(m);
                }
            }
            all.push(first.unwrap());
        }
        for (id, x) in &all[0] {
            if r.saturated() {
                break;
            }
            r.valid(1);
            match all[1].get(id) {
                None => r.fail(id, &format!("{id} is only generated with preserve_order"), json!({"id": id})),
                Some(y) if y.0 != x.0 => r.fail(id, &format!("the two builds generate different values for {id}: with preserve_order {}, without {}", dump("p", 0, id), dump("n", 0, id)), json!({"id": id})),
                Some(_) => r.sample(|| json!({"id": id, "value": x.0})),
            }
        }
    }
    r.note("bounds", "programs: every pair of 23 kinds of fields between two plain ones and every triple of flattened kinds, under name orders that are not sorted, every order of 5 names and of 3 in 17 type shapes, 12 settings each; schemas: every order of every set of at most 2 (thorough: 3) of 51 keywords through 40 operations, and pairs of such schemas flattened into one; values: every order of up to 4 fields in 9 shapes");
    r.assume("the processes of one build differ in environment, working directory, addresses and hash seeds");
    r.finish();
}
