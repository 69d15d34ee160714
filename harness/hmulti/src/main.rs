//! Interpreter of operation scripts for the multiverse: performs the operations on the real code and
//! writes down what it observed. It judges nothing; the TLA+ trace specification does.
//! A history: {id, blocks: [{p, n}], base, style, ops}. Block j (from 1) has parent p (0: a block that
//! never exists) and block number base + n.
use dcspark_core::BlockNumber;
use multiverse::{BestBlockSelectionRule, EntryRef, Multiverse, MultiverseError, Variant};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::any::Any;
use std::collections::HashMap;
use std::fs;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct K(Vec<u8>);
impl AsRef<[u8]> for K {
    fn as_ref(&self) -> &[u8] { &self.0 }
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct V { id: K, parent: K, number: BlockNumber, load: String }
impl Variant for V {
    type Key = K;
    fn id(&self) -> &K { &self.id }
    fn parent_id(&self) -> &K { &self.parent }
    fn block_number(&self) -> BlockNumber { self.number }
}
type M = Multiverse<K, V>;

fn key(style: u64, j: u64) -> K {
    K(match style {
        0 => vec![j as u8],
        1 => format!("{j}").into_bytes(),
        2 => b"-".repeat(j as usize),
        3 => vec![0u8; j as usize],
        4 => (0..32).map(|i| (j as u8).wrapping_mul(i + 7).wrapping_add(if j % 2 == 0 { 200 } else { 3 })).chain([j as u8]).collect(),
        // descending: the child of a block sorts before its parent
        _ => vec![255 - j as u8, (j % 3) as u8],
    })
}

struct World {
    style: u64,
    base: u64,
    blocks: Vec<(u64, u64)>,
    ids: HashMap<K, i64>,
    dbs: HashMap<String, sled::Db>,
    ms: HashMap<String, M>,
    held: HashMap<i64, Vec<Box<dyn Any>>>,
    dir: PathBuf,
}

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    })
}
fn out(k: &str) -> Map<String, Value> {
    let mut m = Map::new();
    m.insert("k".into(), json!(k));
    m
}
fn panic(p: String) -> Map<String, Value> {
    let mut m = out("panic");
    m.insert("msg".into(), json!(p));
    m
}

impl World {
    fn variant(&self, j: u64) -> V {
        let (p, n) = self.blocks[j as usize - 1];
        V { id: key(self.style, j), parent: key(self.style, p), number: BlockNumber::new(self.base + n), load: "x".repeat((j * 37 % 300) as usize) }
    }
    fn id(&self, k: &K) -> i64 { self.ids.get(k).copied().unwrap_or(-1) }
    fn sorted(&self, it: impl Iterator<Item = i64>) -> Value {
        let mut v: Vec<i64> = it.collect();
        v.sort();
        json!(v)
    }
    /// the number of the block if what was handed out is exactly the block inserted, -2 otherwise
    fn same(&self, v: &V) -> i64 {
        let j = self.id(&v.id);
        if j > 0 && &self.variant(j as u64) == v { j } else { -2 }
    }
    fn db(&mut self, name: &str) -> sled::Db {
        let p = self.dir.join(name);
        self.dbs.entry(name.to_string()).or_insert_with(|| {
            // sled lets go of its files a moment after its last handle is gone
            for _ in 0..2000 {
                if let Ok(d) = sled::Config::new().path(&p).cache_capacity(1 << 20).flush_every_ms(None).open() { return d }
                std::thread::sleep(std::time::Duration::from_millis(5));
            }
            sled::Config::new().path(&p).open().expect("sled")
        }).clone()
    }
    /// holds what a query handed out until it is released; a query may be held by the block it names
    fn hold<T: 'static>(&mut self, op: &Value, j: i64, x: T) {
        if op["hold"] == true { self.held.entry(j).or_default().push(Box::new(x)) }
    }
    fn rule(d: &Value, g: &Value) -> BestBlockSelectionRule {
        let n = |v: &Value| match v.as_i64().unwrap() { -1 => usize::MAX, x => x as usize };
        BestBlockSelectionRule::LongestChain { depth: n(d), age_gap: n(g) }
    }

    fn step(&mut self, op: &Value) -> Map<String, Value> {
        let s = |k: &str| op[k].as_str().unwrap_or("").to_string();
        let m = s("m");
        let j = op["b"].as_u64().unwrap_or(0);
        match op["op"].as_str().unwrap() {
            "open" => {
                let from = BlockNumber::new(match op["from"].as_u64().unwrap() { 0 => 0, n => self.base + n });
                let r = if op["how"] == "temp" { guarded(M::temporary) }
                else if op["how"] == "path" { let p = self.dir.join(s("db")); let t = std::time::Instant::now();
                    loop {
                        let r = guarded(|| M::open(&p, &s("dom"), from));
                        if matches!(r, Ok(Ok(_))) || t.elapsed().as_secs() > 10 { break r }
                        std::thread::sleep(std::time::Duration::from_millis(5));
                    } }
                else { let db = self.db(&s("db")); guarded(|| M::load_from(db, &s("dom"), from)) };
                match r { Err(p) => panic(p), Ok(Err(e)) => { let mut o = out("err"); o.insert("msg".into(), json!(e.to_string())); o } Ok(Ok(x)) => { self.ms.insert(m, x); out("ok") } }
            }
            "drop" => { let x = self.ms.remove(&m); match guarded(move || drop(x)) { Err(p) => panic(p), Ok(()) => out("ok") } }
            "closedb" => {
                // all multiverses of this store are gone: the next opening reads it back from its files
                let x = self.dbs.remove(&s("db"));
                if let Some(d) = x { d.flush().unwrap(); drop(d); }
                out("ok")
            }
            "insert" => { let v = self.variant(j); let x = self.ms.get_mut(&m).unwrap(); unit(guarded(|| x.insert(v))) }
            "remove" => {
                let k = EntryRef::new(key(self.style, j));
                let x = self.ms.get_mut(&m).unwrap();
                match guarded(|| x.remove(&k)) {
                    Err(p) => panic(p),
                    Ok(Err(MultiverseError::NotFound)) => out("none"),
                    Ok(Err(_)) => out("err"),
                    Ok(Ok(v)) => { let mut o = out("ok"); o.insert("v".into(), json!(self.same(&v))); self.hold(op, j as i64, v); o }
                }
            }
            // select, then remove everything that may be discarded, with the very references handed out
            "gc" => {
                let r = { let x = &self.ms[&m]; guarded(|| x.select_best_block(Self::rule(&op["d"], &op["g"]))) };
                match r {
                    Err(p) => panic(p),
                    Ok(b) => {
                        let mut o = out("ok");
                        o.insert("sel".into(), json!(b.selected.as_ref().map(|k| self.id(k.inner())).unwrap_or(0)));
                        o.insert("dis".into(), self.sorted(b.discarded.iter().map(|k| self.id(k.inner()))));
                        let x = self.ms.get_mut(&m).unwrap();
                        for k in &b.discarded {
                            match guarded(|| x.remove(k)) { Ok(Ok(_)) => {} Ok(Err(e)) => { o.insert("k".into(), json!("err")); o.insert("msg".into(), json!(e.to_string())); } Err(p) => return panic(p) }
                        }
                        if op["hold"] == true { self.held.entry(0).or_default().push(Box::new(b)); }
                        o
                    }
                }
            }
            "look" => match self.look(&m, op) { Ok(o) => o, Err(p) => panic(p) },
            "release" => { self.held.clear(); out("ok") }
            "clear" => { let x = self.ms.get_mut(&m).unwrap(); unit(guarded(|| x.clear())) }
            "destroy" => { let x = self.ms.remove(&m).unwrap(); unit(guarded(|| x.destroy())) }
            x => panic!("{x}"),
        }
    }
    fn look(&mut self, m: &str, op: &Value) -> Result<Map<String, Value>, String> {
        let mut o = out("ok");
        let x = &self.ms[m];
        o.insert("len".into(), json!(guarded(|| x.len())?));
        o.insert("empty".into(), json!(guarded(|| x.is_empty())?));
        let n = self.blocks.len() as u64;
        let mut has = vec![];
        let mut got = vec![];
        for j in 0..=n {
            let k = key(self.style, j);
            if guarded(|| x.contains(&k))? { has.push(j) }
            if let Some(v) = guarded(|| x.get(&k))? { got.push(self.same(v)) }
        }
        o.insert("has".into(), json!(has));
        o.insert("got".into(), json!(got));
        let tips = guarded(|| x.tips())?;
        o.insert("tips".into(), self.sorted(tips.iter().map(|k| self.id(k))));
        let mut walk = vec![];
        guarded(|| for v in x.iter() { walk.push(self.same(v)) })?;
        o.insert("iter".into(), json!(walk));
        let mut sel = vec![];
        let mut keep: Vec<(i64, Box<dyn Any>)> = vec![];
        for q in op["sel"].as_array().unwrap() {
            let b = guarded(|| x.select_best_block(Self::rule(&q[0], &q[1])))?;
            let t = guarded(|| x.preferred_fork_tip(Self::rule(&q[0], &q[1])))?;
            sel.push(json!({"d": q[0], "g": q[1],
                "s": b.selected.as_ref().map(|k| self.id(k.inner())).unwrap_or(0),
                "dis": self.sorted(b.discarded.iter().map(|k| self.id(k.inner()))),
                "tip": t.as_ref().map(|k| self.id(k.inner())).unwrap_or(0)}));
            keep.push((0, Box::new((b, t))));
        }
        o.insert("sel".into(), json!(sel));
        if op["hold"] == true {
            self.held.entry(0).or_default().push(Box::new(tips));
            for (j, b) in keep { self.held.entry(j).or_default().push(b) }
        }
        Ok(o)
    }
}
fn unit(r: Result<Result<(), MultiverseError>, String>) -> Map<String, Value> {
    match r {
        Err(p) => panic(p),
        Ok(Err(e)) => { let mut o = out("err"); o.insert("msg".into(), json!(e.to_string())); o }
        Ok(Ok(())) => out("ok"),
    }
}

fn history(tr: &Value, dir: &Path) -> Value {
    fs::create_dir_all(dir).unwrap();
    let blocks: Vec<(u64, u64)> = tr["blocks"].as_array().unwrap().iter().map(|b| (b["p"].as_u64().unwrap(), b["n"].as_u64().unwrap())).collect();
    let style = tr["style"].as_u64().unwrap();
    let mut w = World {
        style, base: tr["base"].as_str().unwrap().parse().unwrap(),
        ids: (0..=blocks.len()).map(|j| (key(style, j as u64), if j == 0 { -3 } else { j as i64 })).collect(),
        blocks, dbs: HashMap::new(), ms: HashMap::new(), held: HashMap::new(), dir: dir.to_path_buf(),
    };
    let mut ev = vec![];
    for op in tr["ops"].as_array().unwrap() {
        let mut m = w.step(op);
        for (k, v) in op.as_object().unwrap() { if !m.contains_key(k) && k != "hold" { m.insert(k.clone(), v.clone()); } }
        let stop = m["k"] == "panic";
        ev.push(Value::Object(m));
        if stop { break }
    }
    drop(w);
    let _ = fs::remove_dir_all(dir);
    json!({"id": tr["id"], "blocks": tr["blocks"], "ev": ev})
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut o = BufWriter::new(fs::File::create(&args[2]).unwrap());
    for (i, l) in BufReader::new(fs::File::open(&args[1]).unwrap()).lines().enumerate() {
        let tr: Value = serde_json::from_str(&l.unwrap()).unwrap();
        let r = history(&tr, &PathBuf::from(&args[3]).join(format!("m{i}")));
        writeln!(o, "{r}").unwrap();
        o.flush().unwrap();
    }
}
