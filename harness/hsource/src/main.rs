//! Interpreter of scripts for blockchain-source: the era conversions, and the confirming and the
//! fork-handling source over a scripted node. It judges nothing; the TLA+ trace specifications do.
use anyhow::Result;
use dcspark_blockchain_source::cardano::time::{epoch_slot_to_absolute_byron, Era};
use dcspark_blockchain_source::cardano::{BlockEvent, CardanoNetworkEvent, Point};
use dcspark_blockchain_source::multiverse::rollback::{Event, ForkHandlingSource};
use dcspark_blockchain_source::multiverse::MultiverseSource;
use dcspark_blockchain_source::Source;
use dcspark_core::{BlockId, BlockNumber, SlotNumber};
use deps::serde_json::{self, json, Map, Value as J};
use multiverse::Multiverse;
use std::collections::VecDeque;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

mod net;

fn limbs(digits: &str) -> J {
    let d = digits.trim_start_matches('0').as_bytes();
    let mut v = vec![];
    let mut end = d.len();
    while end > 0 {
        let start = end.saturating_sub(4);
        v.push(std::str::from_utf8(&d[start..end]).unwrap().parse::<u32>().unwrap());
        end = start;
    }
    json!(v)
}
fn nat(n: u64) -> J { limbs(&n.to_string()) }
fn num(j: &J) -> u64 { j.as_str().unwrap().parse().unwrap() }

fn era_json(e: &Era, per: &J) -> J {
    json!({"first": nat(e.first_slot), "start": nat(e.start_epoch), "known": nat(e.known_time), "len": nat(e.slot_length), "secs": nat(e.epoch_length_seconds), "per": per})
}
fn preset(n: &str) -> Era {
    match n {
        "mainnet" => Era::SHELLEY_MAINNET,
        "testnet" => Era::SHELLEY_TESTNET,
        "preprod" => Era::SHELLEY_PREPROD,
        "preview" => Era::SHELLEY_PREVIEW,
        "sancho" => Era::SHELLEY_SANCHO,
        x => panic!("{x}"),
    }
}

fn era(t: &J) -> Map<String, J> {
    let e = match t["net"].as_str() {
        Some(n) => preset(n),
        None => {
            let f = &t["era"];
            let j = json!({"first_slot": num(&f["first"]), "start_epoch": num(&f["start"]), "known_time": num(&f["known"]), "slot_length": num(&f["len"]), "epoch_length_seconds": num(&f["secs"])});
            serde_json::from_value::<Era>(j).unwrap()
        }
    };
    let per = limbs(t["per"].as_str().unwrap());
    let mut ev = vec![];
    if let Some(n) = t["net"].as_str() {
        ev.push(json!({"op": "preset", "net": n, "era": era_json(&e, &per)}));
    }
    for o in t["ops"].as_array().unwrap() {
        match o["op"].as_str().unwrap() {
            "byron" => {
                let (a, b) = (num(&o["epoch"]), num(&o["slot"]));
                ev.push(json!({"op": "byron", "epoch": nat(a), "slot": nat(b), "r": nat(epoch_slot_to_absolute_byron(a, b))}));
            }
            _ => {
                let s = num(&o["slot"]);
                let opt = |x: std::result::Result<Option<u64>, _>| match x { Ok(Some(x)) => json!([nat(x)]), Ok(None) => json!([]), Err::<_, Box<dyn std::any::Any + Send>>(_) => json!(["panic", "panic"]) };
                let timed = o["timed"] == true;
                let time = if timed { catch_unwind(|| e.compute_timestamp(s)).map(nat).unwrap_or(json!([-1])) } else { json!([]) };
                ev.push(json!({"op": "at", "slot": nat(s), "timed": timed, "time": time,
                    "epoch": opt(catch_unwind(|| e.absolute_slot_to_epoch(s))), "rel": opt(catch_unwind(|| e.absolute_slot_to_relative(s)))}));
            }
        }
    }
    let mut m = Map::new();
    m.insert("era".into(), era_json(&e, &per));
    m.insert("ev".into(), json!(ev));
    m
}

// ---- sources
type Ev = CardanoNetworkEvent<BlockEvent, u32>;
#[derive(Default)]
struct Node {
    par: Vec<usize>,
    cur: usize,
    stream: VecDeque<J>,
    base: u64,
    tips: bool,
    fault: bool,
    log: Vec<J>,
}
fn bid(b: usize) -> BlockId { BlockId::new(format!("b{b}")) }
fn id_of(k: &str) -> i64 { k.trim_start_matches('b').parse().unwrap_or(-9) }
impl Node {
    fn height(&self, b: usize) -> u64 { if b == 0 { 0 } else { 1 + self.height(self.par[b - 1]) } }
    fn number(&self, b: usize) -> u64 { self.base + self.height(b) }
    fn point(&self, b: usize) -> Point { Point::BlockHeader { slot_nb: SlotNumber::new(self.number(b) * 20), hash: bid(b) } }
    fn block(&self, b: usize) -> Ev {
        CardanoNetworkEvent::Block(BlockEvent {
            id: bid(b), parent_id: bid(self.par[b - 1]), block_number: BlockNumber::new(self.number(b)), raw_block: vec![b as u8; 3],
            slot_number: SlotNumber::new(self.number(b) * 20), is_boundary_block: false, epoch: 5,
        })
    }
    fn path(&self, mut b: usize) -> Vec<usize> {
        let mut v = vec![];
        while b != 0 { v.push(b); b = self.par[b - 1] }
        v.reverse();
        v
    }
    fn id(&self, p: &Point) -> i64 {
        match p {
            Point::Origin => -8,
            Point::BlockHeader { hash, .. } => {
                let b = id_of(hash.as_ref());
                if b >= 0 && b as usize <= self.par.len() && *p == self.point(b as usize) { b } else { -9 }
            }
        }
    }
    fn serve(&mut self, from: &[Point]) -> Result<Option<Ev>> {
        let ids: Vec<i64> = from.iter().map(|p| self.id(p)).collect();
        if self.fault {
            self.fault = false;
            self.log.push(json!({"from": ids, "ans": "err", "b": 0}));
            anyhow::bail!("the node went away");
        }
        if self.stream.is_empty() {
            let p = self.path(self.cur);
            let known = p.iter().rposition(|b| ids.contains(&(*b as i64)));
            let rest = match known {
                Some(i) => p[i + 1..].to_vec(),
                None if ids.is_empty() || ids.contains(&0) => p,
                None => vec![],
            };
            if self.tips && !rest.is_empty() { self.stream.push_back(json!("tip")) }
            self.stream.extend(rest.iter().map(|b| json!(b)));
        }
        let x = self.stream.pop_front();
        let (ans, b, r) = match &x {
            None => ("none", 0, None),
            Some(J::String(_)) => ("tip", 0, Some(CardanoNetworkEvent::Tip(7))),
            Some(b) => { let b = b.as_u64().unwrap() as usize; ("block", b, Some(self.block(b))) }
        };
        self.log.push(json!({"from": ids, "ans": ans, "b": b}));
        Ok(r)
    }
}
struct Inner(Arc<Mutex<Node>>);
#[async_trait::async_trait]
impl Source for Inner {
    type Event = Ev;
    type From = Vec<Point>;
    async fn pull(&mut self, from: &Self::From) -> Result<Option<Self::Event>> { self.0.lock().unwrap().serve(from) }
}

enum S { C(MultiverseSource<BlockId, Ev, Inner>), F(ForkHandlingSource<BlockId, Ev, Inner, Event<Ev, Point>>) }

/// what an event says: kind and block, as long as it is exactly the node's block
fn told(n: &Node, e: &Ev) -> (String, i64) {
    match e {
        CardanoNetworkEvent::Tip(x) => (if *x == 7 { "tip" } else { "?" }.into(), 0),
        CardanoNetworkEvent::Block(b) => {
            let i = id_of(b.id.as_ref());
            let same = i > 0 && i as usize <= n.par.len() && serde_json::to_value(e).unwrap() == serde_json::to_value(n.block(i as usize)).unwrap();
            (if same { "block" } else { "?" }.into(), i)
        }
    }
}

fn source(t: &J, rt: &tokio::runtime::Runtime, dir: &str) -> Map<String, J> {
    let kind = t["kind"].as_str().unwrap();
    let depth = t["depth"].as_u64().unwrap() as usize;
    let node = Arc::new(Mutex::new(Node { base: t["base"].as_u64().unwrap_or(0), tips: t["tips"] == true, ..Default::default() }));
    let disk = t["disk"] == true;
    let path = format!("{dir}/{}", t["id"].as_str().unwrap());
    let mv = || -> Multiverse<BlockId, Ev> { if disk {
        // the files of a multiverse that was dropped are let go of a little later
        let mut tries = 0;
        loop {
            match Multiverse::open(&path, "d", BlockNumber::new(0)) {
                Ok(m) => break m,
                Err(_) if tries < 400 => { tries += 1; std::thread::sleep(std::time::Duration::from_millis(5)) }
                Err(e) => panic!("{e}"),
            }
        }
    } else { Multiverse::temporary().unwrap() } };
    let make = |m| if kind == "confirmed" { S::C(MultiverseSource::new(m, depth, Inner(node.clone()))) } else { S::F(ForkHandlingSource::new(m, depth, Inner(node.clone()))) };
    let mut src = Some(make(mv()));
    let start = t["start"] == "point";
    let policy = t["from"].as_str().unwrap_or("top");
    let mut chain: Vec<i64> = vec![]; // what the client was told, rolled back as told
    let mut acked: i64 = 0;
    let mut ev = vec![];
    let pull = |src: &mut S, acked: i64, chain: &mut Vec<i64>, ev: &mut Vec<J>| -> bool {
        let from = if kind == "fork" { if policy == "start" { 0 } else { chain.last().copied().unwrap_or(0) } } else { acked };
        let point = if from > 0 || (start && from == 0) { Some(node.lock().unwrap().point(from.max(0) as usize)) } else { None };
        node.lock().unwrap().log.clear();
        let r = catch_unwind(AssertUnwindSafe(|| match src {
            S::C(s) => rt.block_on(s.pull(&point)).map(|x| x.map(|e| told(&node.lock().unwrap(), &e))),
            S::F(s) => rt.block_on(s.pull(&point)).map(|x| x.map(|e| match e {
                Event::InnerEvent(e) => told(&node.lock().unwrap(), &e),
                Event::Rollback(p) => ("back".into(), node.lock().unwrap().id(&p)),
            })),
        }));
        let (ans, b) = match r {
            Err(_) => ("panic".to_string(), 0),
            Ok(Err(e)) => (if e.to_string().contains("the node went away") { "err".into() } else { "refused".into() }, 0),
            Ok(Ok(None)) => ("none".into(), 0),
            Ok(Ok(Some(x))) => x,
        };
        if ans == "block" && chain.last() != Some(&b) { chain.push(b) }
        if ans == "back" { while chain.last().is_some_and(|c| *c != b) { chain.pop(); } }
        let log = node.lock().unwrap().log.clone();
        ev.push(json!({"op": "pull", "from": from, "inner": log, "ans": ans, "b": b}));
        ans != "none" && ans != "panic" || log.iter().any(|x| x["ans"] != "none")
    };
    for o in t["ops"].as_array().unwrap() {
        match o["op"].as_str().unwrap() {
            "block" => { let mut n = node.lock().unwrap(); n.par.push(o["p"].as_u64().unwrap() as usize); n.cur = n.par.len(); }
            "turn" => node.lock().unwrap().cur = o["b"].as_u64().unwrap() as usize,
            "fault" => node.lock().unwrap().fault = true,
            "pull" => { pull(src.as_mut().unwrap(), acked, &mut chain, &mut ev); }
            "ack" => acked = chain.last().copied().unwrap_or(0),
            "restart" => {
                drop(src.take());
                node.lock().unwrap().stream.clear();
                src = Some(make(mv()));
                ev.push(json!({"op": "restart"}));
            }
            "drain" => {
                acked = chain.last().copied().unwrap_or(0);
                // a node on an older chain serves known blocks over and over: one round of them is enough
                let (mut quiet, mut idle, mut left) = (0, 0, 600);
                let round = { let n = node.lock().unwrap(); n.stream.len() + n.path(n.cur).len() + 4 };
                while quiet < 3 && idle < round && left > 0 {
                    left -= 1;
                    quiet = if pull(src.as_mut().unwrap(), acked, &mut chain, &mut ev) { 0 } else { quiet + 1 };
                    let given = |e: &J| -> Vec<J> { e["inner"].as_array().map(|v| v.iter().filter(|x| x["ans"] == "block").map(|x| x["b"].clone()).collect()).unwrap_or_default() };
                    let (last, before) = ev.split_last().unwrap();
                    let news = given(last).iter().any(|b| !before.iter().any(|e| given(e).contains(b)));
                    let told = !matches!(last["ans"].as_str(), Some("none" | "tip"));
                    idle = if told || news { 0 } else { idle + 1 };
                    acked = chain.last().copied().unwrap_or(0);
                    if ev.last().unwrap()["ans"] == "panic" { break }
                }
                let path = { let n = node.lock().unwrap(); n.path(n.cur) };
                ev.push(json!({"op": "end", "quiet": left > 0, "path": path}));
            }
            x => panic!("{x}"),
        }
        if ev.last().is_some_and(|e| e["ans"] == "panic") { break }
    }
    drop(src);
    let _ = std::fs::remove_dir_all(&path);
    let mut m = Map::new();
    for k in ["depth", "kind", "live"] { m.insert(k.into(), t[k].clone()); }
    m.insert("par".into(), json!(node.lock().unwrap().par));
    m.insert("ev".into(), json!(ev));
    m
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let many = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let mut out = BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    let until = std::time::Instant::now() + std::time::Duration::from_secs(a[4].parse().unwrap());
    for l in BufReader::new(std::fs::File::open(&a[1]).unwrap()).lines() {
        if std::time::Instant::now() > until { writeln!(out, "{}", json!({"stopped": true})).unwrap(); break }
        let t: J = serde_json::from_str(&l.unwrap()).unwrap();
        let mut r = match t["kind"].as_str().unwrap() {
            "era" => era(&t),
            "network" => net::network(&t, &many),
            _ => source(&t, &rt, &a[3]),
        };
        r.insert("id".into(), t["id"].clone());
        writeln!(out, "{}", J::Object(r)).unwrap();
        out.flush().unwrap();
    }
}
