//! Interpreter of scripts for cardano-utils. It judges nothing; the TLA+ trace specifications do.
use dcspark_core::{AssetName, PolicyId};
use deps::serde_json::{self, json, Map, Value as J};
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::catch_unwind;

fn codes(s: &str) -> J { json!(s.chars().map(|c| c as u32).collect::<Vec<_>>()) }

fn print(o: &J) -> J {
    let (p, n) = (o["policy"].as_str().unwrap().to_string(), o["name"].as_str().unwrap().to_string());
    let r = catch_unwind(|| cardano_utils::fingerprint(&PolicyId::new(p.clone()), &AssetName::new(n.clone())));
    let (ok, t) = match &r {
        Err(_) => (json!("panic"), codes("panic")),
        Ok(Err(_)) => (json!("no"), json!([])),
        Ok(Ok(t)) => (json!("yes"), codes(t.as_ref())),
    };
    json!({"op": "print", "policy": codes(&p), "name": codes(&n), "ok": ok, "print": t})
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let mut out = BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    for l in BufReader::new(std::fs::File::open(&a[1]).unwrap()).lines() {
        let t: J = serde_json::from_str(&l.unwrap()).unwrap();
        let ev: Vec<J> = t["ops"].as_array().unwrap().iter().map(print).collect();
        let mut r = Map::new();
        r.insert("id".into(), t["id"].clone());
        r.insert("ev".into(), json!(ev));
        writeln!(out, "{}", J::Object(r)).unwrap();
        out.flush().unwrap();
    }
}
