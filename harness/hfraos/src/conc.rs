use crate::seq::{append, lines, out, records};
use crate::util::*;
use fraos::Database;
use serde_json::{json, Map, Value};
use std::fs;
use std::io::{BufWriter, Write};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier};

/// every line: {id, mode, setup: [append ops], threads: [[ops]], delay, seed}
pub fn main(script: &str, outp: &str, scratch: &str) {
    let mut o = BufWriter::new(fs::File::create(outp).unwrap());
    for (i, tr) in lines(script).iter().enumerate() {
        writeln!(o, "{}", json!({"start": tr["id"]})).unwrap();
        o.flush().unwrap();
        let dir = PathBuf::from(scratch).join(format!("c{i}"));
        let _ = fs::create_dir_all(scratch);
        let r = run(tr, &dir);
        writeln!(o, "{r}").unwrap();
        o.flush().unwrap();
        let _ = fs::remove_dir_all(&dir);
    }
}

type Log = Vec<(u64, Map<String, Value>)>;

fn run(tr: &Value, dir: &PathBuf) -> Value {
    let db = if tr["mode"] == "mem" { Database::memory() } else { Database::file(dir) }.expect("open");
    let mut setup = vec![];
    for op in tr["setup"].as_array().unwrap() {
        let recs = records(op);
        let m = append(&db, op, &recs);
        assert_eq!(m["k"], "ok", "setup append failed");
        setup.extend(recs.iter().map(|r| token(r)));
    }
    let clock = Arc::new(AtomicU64::new(0));
    let threads = tr["threads"].as_array().unwrap();
    let barrier = Arc::new(Barrier::new(threads.len()));
    shim::delay(tr["delay"].as_u64().unwrap_or(0) as u32, tr["seed"].as_u64().unwrap_or(1));
    let hs: Vec<_> = threads
        .iter()
        .enumerate()
        .map(|(t, ops)| {
            let ops = ops.clone();
            let db = db.clone();
            let clock = clock.clone();
            let barrier = barrier.clone();
            std::thread::spawn(move || {
                let mut db = Some(db);
                let mut log: Log = vec![];
                let prepared: Vec<_> = ops.as_array().unwrap().iter().map(|op| if op["op"] == "append" { records(op) } else { vec![] }).collect();
                let mut it = db.as_ref().unwrap().iter_from_seqno(0).unwrap();
                let mut pos = 0usize;
                barrier.wait();
                for (op, recs) in ops.as_array().unwrap().iter().zip(prepared) {
                    let kind = op["op"].as_str().unwrap();
                    let mut inv = Map::new();
                    inv.insert("c".into(), json!("inv"));
                    inv.insert("t".into(), json!(t + 1));
                    inv.insert("op".into(), json!(kind));
                    if kind == "append" { inv.insert("recs".into(), Value::Array(recs.iter().map(|r| token(r)).collect())); }
                    let a = clock.fetch_add(1, SeqCst);
                    let (ret, b) = {
                        let mut arg = 0usize;
                        let r: Map<String, Value> = match kind {
                            "append" => append(db.as_ref().unwrap(), op, &recs),
                            "get" => { arg = number(&op["i"]); one(guarded(|| db.as_ref().unwrap().get_by_seqno(arg))) }
                            "last" => one(guarded(|| db.as_ref().unwrap().last())),
                            "len" => match guarded(|| db.as_ref().unwrap().len()) { Ok(n) => out("ok", vec![], num(n), String::new()), Err(p) => out("panic", vec![], 0, p) },
                            // length, then the record just below it
                            "next" => { arg = pos; let r = one(guarded(|| it.next_impl())); if r["k"] == "ok" { pos += 1 } r }
                            "dropclone" => { let c = db.as_ref().unwrap().clone(); match guarded(move || drop(c)) { Ok(()) => out("ok", vec![], 0, String::new()), Err(p) => out("panic", vec![], 0, p) } }
                            "drop" => { let d = db.take(); match guarded(move || drop(d)) { Ok(()) => out("ok", vec![], 0, String::new()), Err(p) => out("panic", vec![], 0, p) } }
                            x => panic!("{x}"),
                        };
                        let b = clock.fetch_add(1, SeqCst);
                        let mut r = r;
                        r.insert("i".into(), json!(num(arg)));
                        (r, b)
                    };
                    let mut ret = ret;
                    let val = ret["t"].clone();
                    ret.insert("val".into(), val);
                    ret.insert("len".into(), json!(recs.len()));
                    ret.insert("c".into(), json!("ret"));
                    ret.insert("t".into(), json!(t + 1));
                    ret.insert("op".into(), json!(kind));
                    inv.insert("i".into(), ret["i"].clone());
                    inv.insert("k".into(), ret["k"].clone());
                    inv.insert("seq".into(), if kind == "append" && ret["k"] == "ok" { ret["n"].clone() } else { json!(-1) });
                    log.push((a, inv));
                    log.push((b, ret));
                    if db.is_none() { break; }
                }
                log
            })
        })
        .collect();
    let mut all: Log = vec![];
    let mut dead = 0;
    for h in hs {
        match h.join() { Ok(l) => all.extend(l), Err(_) => dead += 1 }
    }
    shim::delay(0, 0);
    all.sort_by_key(|x| x.0);
    let mut ev: Vec<Value> = all.into_iter().map(|x| Value::Object(x.1)).collect();
    // what is there when all is quiet, and after a reopen
    let mut fin = crate::seq::read_all(db.iter_from_seqno(0).unwrap(), usize::MAX);
    fin.insert("c".into(), json!("final"));
    fin.insert("op".into(), json!("all"));
    fin.insert("n".into(), json!(num(db.len())));
    fin.insert("t0".into(), json!(0));
    ev.push(Value::Object(fin));
    drop(db);
    if tr["mode"] != "mem" {
        let mut fin = match guarded(|| Database::file(dir)) {
            Err(p) => out("panic", vec![], 0, p),
            Ok(Err(e)) => out("err", vec![], 0, format!("{e:?}")),
            Ok(Ok(d)) => { let mut m = crate::seq::read_all(d.iter_from_seqno(0).unwrap(), usize::MAX); m.insert("n".into(), json!(num(d.len()))); m }
        };
        fin.insert("c".into(), json!("final"));
        fin.insert("op".into(), json!("reopen"));
        ev.push(Value::Object(fin));
    }
    json!({"id": tr["id"], "setup": setup, "nt": threads.len(), "dead": dead, "ev": ev})
}

fn one(r: Result<Result<Option<Vec<u8>>, fraos::FraosError>, String>) -> Map<String, Value> {
    match r {
        Err(p) => out("panic", vec![], 0, p),
        Ok(Err(e)) => out("err", vec![], 0, format!("{e:?}")),
        Ok(Ok(None)) => out("none", vec![], 0, String::new()),
        Ok(Ok(Some(b))) => out("ok", vec![token(&b)], 0, String::new()),
    }
}
