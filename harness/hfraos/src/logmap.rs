use crate::seq::{lines, out};
use crate::util::*;
use indexed_log_map::config::IndexedLogMapConfig;
use indexed_log_map::storage::{get_next, IndexedLogMap};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::fs;
use std::io::{BufWriter, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum K {
    S(String),
    N(u64),
    B(Vec<u8>),
    P(i64, String),
    U,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct V {
    s: String,
    n: Option<u64>,
    v: Vec<V>,
}
type M = IndexedLogMap<K, V>;

/// "s:text", "n:12", "b:0,1,255", "p:-3:text", "u"
fn key(s: &str) -> K {
    let (a, b) = s.split_once(':').unwrap_or((s, ""));
    match a {
        "s" => K::S(b.into()),
        "n" => K::N(b.parse().unwrap()),
        "b" => K::B(b.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()),
        "p" => { let (x, y) = b.split_once(':').unwrap(); K::P(x.parse().unwrap(), y.into()) }
        _ => K::U,
    }
}
/// values are named by a number; their content and size depend on it
fn value(n: u64) -> V {
    let s = match n % 7 { 0 => String::new(), 1 => "é".repeat((n % 50) as usize), 2 => "x".repeat((n % 3000) as usize), 3 if n % 3 == 0 => "y".repeat(4096 * 40), _ => format!("v{n}") };
    V { s, n: Some(n), v: if n % 5 == 0 { vec![V { s: "in".into(), n: None, v: vec![] }; (n % 4) as usize] } else { vec![] } }
}
/// the name of a value, -7 when it is none of ours
fn name(v: &V) -> Value {
    match v.n { Some(n) if &value(n) == v => json!(n), _ => json!(-7) }
}
fn res(r: Result<anyhow::Result<Option<V>>, String>) -> Map<String, Value> {
    match r {
        Err(p) => out("panic", vec![], 0, p),
        Ok(Err(e)) => out("err", vec![], 0, format!("{e:#}")),
        Ok(Ok(None)) => out("none", vec![], 0, String::new()),
        Ok(Ok(Some(v))) => out("ok", vec![name(&v)], 0, String::new()),
    }
}
fn flag(r: Result<anyhow::Result<bool>, String>) -> Map<String, Value> {
    match r {
        Err(p) => out("panic", vec![], 0, p),
        Ok(Err(e)) => out("err", vec![], 0, format!("{e:#}")),
        Ok(Ok(b)) => out("ok", vec![], b as i64, String::new()),
    }
}
fn unit(r: Result<anyhow::Result<()>, String>) -> Map<String, Value> {
    match r {
        Err(p) => out("panic", vec![], 0, p),
        Ok(Err(e)) => out("err", vec![], 0, format!("{e:#}")),
        Ok(Ok(())) => out("ok", vec![], 0, String::new()),
    }
}
fn all<I: Iterator<Item = anyhow::Result<V>>>(r: anyhow::Result<Option<I>>, max: usize) -> anyhow::Result<Option<Vec<Value>>> {
    Ok(match r? {
        None => None,
        Some(it) => { let mut v = vec![]; for x in it.take(max) { v.push(name(&x?)) } Some(v) }
    })
}
fn list(r: Result<anyhow::Result<Option<Vec<Value>>>, String>) -> Map<String, Value> {
    match r {
        Err(p) => out("panic", vec![], 0, p),
        Ok(Err(e)) => out("err", vec![], 0, format!("{e:#}")),
        Ok(Ok(None)) => out("none", vec![], 0, String::new()),
        Ok(Ok(Some(v))) => out("ok", v, 0, String::new()),
    }
}
fn open(dir: &Path, op: &Value) -> anyhow::Result<M> {
    let since = std::time::Instant::now();
    loop {
        let r = M::new(IndexedLogMapConfig {
            storage_path: if op["mode"] == "mem" { None } else { Some(dir.to_path_buf()) },
            use_key_indexing: op["idx"].as_bool().unwrap(),
            readonly: op["ro"].as_bool().unwrap(),
        });
        match r {
            // sled's threads let go of the lock of a closed index some time after it was closed
            Err(e) if format!("{e:#}").contains("acquire lock") && since.elapsed().as_secs() < 20 => std::thread::sleep(std::time::Duration::from_millis(5)),
            r => return r,
        }
    }
}

fn history(tr: &Value, scratch: &Path) -> Value {
    fs::create_dir_all(scratch).unwrap();
    let mut hs: HashMap<String, M> = HashMap::new();
    let mut its: HashMap<String, Box<dyn Iterator<Item = anyhow::Result<V>>>> = HashMap::new();
    let mut ev = vec![];
    for op in tr["ops"].as_array().unwrap() {
        let s = |k: &str| op[k].as_str().unwrap_or("").to_string();
        let h = s("h");
        let k = op["key"].as_str().map(key);
        let m = match op["op"].as_str().unwrap() {
            "open" => match guarded(|| open(&scratch.join(s("dir")), op)) {
                Err(p) => out("panic", vec![], 0, p),
                Ok(Err(e)) => out("err", vec![], 0, format!("{e:#}")),
                Ok(Ok(m)) => { hs.insert(h, m); out("ok", vec![], 0, String::new()) }
            },
            "close" => { let d = hs.remove(&h); unit(guarded(move || { drop(d); Ok(()) })) }
            "put" => unit(guarded(|| hs[&h].append(k.clone().unwrap(), value(op["v"].as_u64().unwrap())))),
            "get" => res(guarded(|| hs[&h].get(k.as_ref().unwrap()))),
            "contains" => flag(guarded(|| hs[&h].contains(k.as_ref().unwrap()))),
            "empty" => flag(guarded(|| hs[&h].is_empty())),
            "iter" => list(guarded(|| all(Ok(hs[&h].iter()), usize::MAX))),
            "iterfrom" => list(guarded(|| all(hs[&h].iter_from(k.as_ref().unwrap()), usize::MAX))),
            "last" => res(guarded(|| hs[&h].last())),
            "next" => res(guarded(|| get_next(&hs[&h], &k))),
            // an iterator that is kept
            "it" => match guarded(|| -> anyhow::Result<Option<Box<dyn Iterator<Item = anyhow::Result<V>>>>> {
                Ok(match &k {
                    None => hs[&h].iter().map(|x| Box::new(x) as Box<dyn Iterator<Item = anyhow::Result<V>>>),
                    Some(k) => hs[&h].iter_from(k)?.map(|x| Box::new(x) as Box<dyn Iterator<Item = anyhow::Result<V>>>),
                })
            }) {
                Err(p) => out("panic", vec![], 0, p),
                Ok(Err(e)) => out("err", vec![], 0, format!("{e:#}")),
                Ok(Ok(None)) => out("none", vec![], 0, String::new()),
                Ok(Ok(Some(i))) => { its.insert(s("it"), i); out("ok", vec![], 0, String::new()) }
            },
            "itdrop" => { let i = its.remove(&s("it")); unit(guarded(move || { drop(i); Ok(()) })) }
            "itnext" => match its.get_mut(&s("it")) {
                None => continue,
                Some(i) => res(guarded(|| i.next().transpose())),
            },
            x => panic!("{x}"),
        };
        let mut m = m;
        for (k, v) in op.as_object().unwrap() {
            if !m.contains_key(k) { m.insert(k.clone(), v.clone()); }
        }
        if !m.contains_key("key") || m["key"].is_null() { m.insert("key".into(), json!("-")); }
        ev.push(Value::Object(m));
    }
    drop(its);
    drop(hs);
    let _ = fs::remove_dir_all(scratch);
    json!({"id": tr["id"], "ev": ev})
}

pub fn main(script: &str, outp: &str, scratch: &str) {
    let mut o = BufWriter::new(fs::File::create(outp).unwrap());
    for (i, tr) in lines(script).iter().enumerate() {
        writeln!(o, "{}", json!({"start": tr["id"]})).unwrap();
        o.flush().unwrap();
        let r = history(tr, &PathBuf::from(scratch).join(format!("m{i}")));
        writeln!(o, "{r}").unwrap();
        o.flush().unwrap();
    }
}

/// {id, mode, setup: [[key, v]], threads: [[{op: put|get, key, v}]], delay, seed, keys}
pub fn conc(script: &str, outp: &str, scratch: &str) {
    let mut o = BufWriter::new(fs::File::create(outp).unwrap());
    for (i, tr) in lines(script).iter().enumerate() {
        writeln!(o, "{}", json!({"start": tr["id"]})).unwrap();
        o.flush().unwrap();
        let dir = PathBuf::from(scratch).join(format!("mc{i}"));
        fs::create_dir_all(&dir).unwrap();
        let cfg = json!({"mode": tr["mode"], "idx": true, "ro": false});
        let m = Arc::new(open(&dir.join("d"), &cfg).expect("open"));
        for x in tr["setup"].as_array().unwrap() {
            m.append(key(x["key"].as_str().unwrap()), value(x["v"].as_u64().unwrap())).expect("setup");
        }
        let clock = Arc::new(AtomicU64::new(0));
        let threads = tr["threads"].as_array().unwrap();
        let barrier = Arc::new(Barrier::new(threads.len()));
        shim::delay(tr["delay"].as_u64().unwrap_or(0) as u32, tr["seed"].as_u64().unwrap_or(1));
        let hs: Vec<_> = threads.iter().enumerate().map(|(t, ops)| {
            let (ops, m, clock, barrier) = (ops.clone(), m.clone(), clock.clone(), barrier.clone());
            std::thread::spawn(move || {
                let mut log: Vec<(u64, Value)> = vec![];
                barrier.wait();
                for op in ops.as_array().unwrap() {
                    let k = key(op["key"].as_str().unwrap());
                    let v = op["v"].as_u64().unwrap_or(0);
                    let a = clock.fetch_add(1, SeqCst);
                    let r = if op["op"] == "put" { unit(guarded(|| m.append(k.clone(), value(v)))) } else { res(guarded(|| m.get(&k))) };
                    let b = clock.fetch_add(1, SeqCst);
                    log.push((a, json!({"c": "inv", "th": t + 1, "op": op["op"], "key": op["key"], "v": v})));
                    let mut r = r;
                    r.insert("c".into(), json!("ret"));
                    r.insert("th".into(), json!(t + 1));
                    r.insert("op".into(), op["op"].clone());
                    r.insert("key".into(), op["key"].clone());
                    r.insert("v".into(), json!(v));
                    log.push((b, Value::Object(r)));
                }
                log
            })
        }).collect();
        let mut ev = vec![];
        let mut dead = 0;
        for h in hs { match h.join() { Ok(l) => ev.extend(l), Err(_) => dead += 1 } }
        shim::delay(0, 0);
        ev.sort_by_key(|x| x.0);
        let mut ev: Vec<Value> = ev.into_iter().map(|x| x.1).collect();
        let mut fin = list(guarded(|| all(Ok(m.iter()), usize::MAX)));
        let fin_t = fin["t"].clone();
        let look = |m: &M| -> Vec<Value> {
            tr["keys"].as_array().unwrap().iter().map(|k| { let mut r = res(guarded(|| m.get(&key(k.as_str().unwrap())))); r.insert("key".into(), k.clone()); Value::Object(r) }).collect()
        };
        fin.insert("c".into(), json!("final"));
        fin.insert("looks".into(), Value::Array(look(&m)));
        ev.push(Value::Object(fin));
        drop(m);
        if tr["mode"] != "mem" {
            match guarded(|| open(&dir.join("d"), &cfg)) {
                Ok(Ok(m)) => {
                    let mut f = list(guarded(|| all(Ok(m.iter()), usize::MAX)));
                    f.insert("c".into(), json!("final"));
                    f.insert("looks".into(), Value::Array(look(&m)));
                    ev.push(Value::Object(f));
                }
                x => { let mut f = out("err", vec![], 0, format!("{:?}", x.map(|r| r.err()))); f.insert("c".into(), json!("final")); f.insert("looks".into(), json!([])); ev.push(Value::Object(f)); }
            }
        }
        let _ = fs::remove_dir_all(&dir);
        writeln!(o, "{}", json!({"id": tr["id"], "setup": tr["setup"], "dead": dead, "fin": fin_t, "ev": ev})).unwrap();
        o.flush().unwrap();
    }
}
