//! A node on the loopback network that speaks the handshake, chain-sync and block-fetch protocols, for the
//! source that speaks them too. What it has and what goes wrong is scripted.
use crate::num as num_of;
use cardano_sdk::protocol::{BlockFetch, ChainSync, DiffusionMode, HandshakeNode, HandshakeNodeData, Magic, Point as P, SerializedBlock, Tip, Version};
use cbored::{Decode, Encode};
use dcspark_blockchain_source::cardano::time::Era;
use dcspark_blockchain_source::cardano::{CardanoNetworkEvent, BlockEvent, CardanoSource, NetworkConfiguration, Point};
use dcspark_blockchain_source::{EventObject, GetNextFrom, Source};
use dcspark_core::{BlockId, SlotNumber};
use multiverse::Variant;
use deps::serde_json::{self, json, Map, Value as J};
use std::collections::BTreeSet;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
struct Blk { p: usize, h: u64, slot: u64, kind: String, epoch: u64, junk: bool, fill: usize }
#[derive(Default)]
struct State {
    blocks: Vec<Blk>,
    cur: usize,
    base: u64,
    down: Option<String>,
    plan: Option<(String, u64, String, usize)>,
    // of each connection: whether it is held, is to be asked for a range, is at work
    holding: BTreeSet<usize>,
    awaiting: BTreeSet<usize>,
    busy: BTreeSet<usize>,
    conns: Vec<TcpStream>,
    nconns: usize,
    served: u64,
    over: bool,
}
type Shared = Arc<(Mutex<State>, Condvar)>;

fn hash(b: i64) -> [u8; 32] {
    let mut h = [if b == 0 { 0xA0 } else if b < 0 { 0xC0 } else { 0xB0 }; 32];
    h[24..].copy_from_slice(&b.to_be_bytes());
    h
}
fn hex(h: &[u8]) -> String { h.iter().map(|x| format!("{x:02x}")).collect() }
fn id(s: &str, n: usize) -> i64 { (0..=n as i64).find(|b| hex(&hash(*b)) == s).unwrap_or(-9) }
impl State {
    fn bytes(&self, b: usize) -> Vec<u8> {
        let k = &self.blocks[b - 1];
        if k.junk { return vec![b as u8; 40] }
        let mut v = vec![match k.kind.as_str() { "ebb" => 0, "byron" => 1, _ => 2 }];
        v.extend(k.epoch.to_be_bytes());
        v.extend(k.slot.to_be_bytes());
        v.extend((self.base + k.h).to_be_bytes());
        v.extend(hash(b as i64));
        v.extend(hash(k.p as i64));
        v.extend(std::iter::repeat_n(b as u8, k.fill));
        v
    }
    fn path(&self) -> Vec<usize> {
        let (mut v, mut b) = (vec![], self.cur);
        while b != 0 { v.push(b); b = self.blocks[b - 1].p }
        v.reverse();
        v
    }
    fn point(&self, b: usize) -> P { P::from_raw(self.blocks[b - 1].slot, &hex(&hash(b as i64))).unwrap() }
    fn tip(&self) -> Tip { Tip { point: self.point(self.cur), block_number: self.base + self.blocks[self.cur - 1].h } }
    fn at(&self, path: &[usize], p: &P) -> Option<usize> { path.iter().position(|b| self.point(*b) == *p) }
}

fn frame(s: &mut TcpStream, proto: u16, m: &impl Encode) -> std::io::Result<()> {
    let mut w = cbored::Writer::new();
    m.encode(&mut w);
    let b = w.finalize();
    let mut out = vec![];
    for part in b.chunks(60000) {
        out.extend((((proto as u64 | 0x8000) << 16) | part.len() as u64).to_be_bytes());
        out.extend(part);
    }
    s.write_all(&out)
}

/// acknowledge at once: the other side writes in two pieces and waits in between
fn quick(s: &TcpStream) {
    let one: libc::c_int = 1;
    unsafe { libc::setsockopt(s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, &one as *const _ as *const libc::c_void, 4); }
}

/// one connection, until either side has had enough
fn talk(mut s: TcpStream, sh: Shared, me: usize) -> std::io::Result<()> {
    let (m, c) = &*sh;
    // what the plan has for this stage, once it is not to wait any longer; an error: the connection goes
    let stage = |at: &str, k: u64| -> std::io::Result<Option<usize>> {
        let gone = || std::io::Error::other("cut");
        let mut st = m.lock().unwrap();
        let Some((a, n, act, b)) = st.plan.clone() else { return Ok(None) };
        if a != at || n != k { return Ok(None) }
        match act.as_str() {
            "cut" => { st.plan = None; Err(gone()) }
            "turn" => { st.plan = None; st.cur = b; Ok(Some(b)) }
            _ => {
                let mine = st.served;
                st.holding.insert(me);
                c.notify_all();
                while st.plan.is_some() && st.served == mine && !st.over { st = c.wait(st).unwrap() }
                st.holding.remove(&me);
                let lost = st.served != mine || st.over;
                if lost { st.plan = None; Err(gone()) } else { Ok(None) }
            }
        }
    };
    loop {
        { let mut st = m.lock().unwrap(); st.busy.remove(&me); c.notify_all(); }
        let mut h = [0u8; 8];
        quick(&s);
        s.read_exact(&mut h)?;
        quick(&s);
        let v = u64::from_be_bytes(h);
        let mut b = vec![0; v as u16 as usize];
        s.read_exact(&mut b)?;
        { let mut st = m.lock().unwrap(); st.busy.insert(me); st.awaiting.remove(&me); }
        let mut r = cbored::Reader::new(&b);
        let e = |x: cbored::DecodeError| std::io::Error::other(x.to_string());
        match (v >> 16) as u16 & 0x7fff {
            0 => {
                HandshakeNode::decode(&mut r).map_err(e)?;
                let down = m.lock().unwrap().down.clone();
                match down.as_deref() {
                    Some("refuse") => { frame(&mut s, 0, &HandshakeNode::Refuse(cardano_sdk::protocol::RefuseReason::Refused(Version::V8, "no".into())))?; return Ok(()) }
                    Some(_) => return Ok(()),
                    None => frame(&mut s, 0, &HandshakeNode::Accept(Version::V8, HandshakeNodeData { magic: Magic(2), diffusion: DiffusionMode::InitiatorOnly }))?,
                }
            }
            2 => {
                let ChainSync::FindIntersect(ps) = ChainSync::decode(&mut r).map_err(e)? else { return Ok(()) };
                stage("intersect", 0)?;
                let answer = {
                    let mut st = m.lock().unwrap();
                    let path = st.path();
                    match ps.iter().find(|p| st.at(&path, p).is_some()) {
                        Some(p) => {
                            let alone = ps.iter().count() == 1 && *p == st.point(path[0]);
                            if alone || *p != st.point(st.cur) { st.awaiting.insert(me); }
                            ChainSync::IntersectionFound(p.clone(), st.tip())
                        }
                        None => ChainSync::IntersectionNotFound(st.tip()),
                    }
                };
                frame(&mut s, 2, &answer)?;
            }
            3 => {
                let BlockFetch::RequestRange { from, to } = BlockFetch::decode(&mut r).map_err(e)? else { return Ok(()) };
                stage("range", 0)?;
                let blocks: Vec<_> = {
                    let st = m.lock().unwrap();
                    let path = st.path();
                    match (st.at(&path, &from), st.at(&path, &to)) {
                        (Some(a), Some(b)) if a <= b => path[a..=b].iter().map(|b| st.bytes(*b)).collect(),
                        _ => vec![],
                    }
                };
                if blocks.is_empty() { frame(&mut s, 3, &BlockFetch::NoBlocks)?; continue }
                frame(&mut s, 3, &BlockFetch::StartBatch)?;
                for (k, b) in blocks.iter().enumerate() {
                    stage("block", k as u64)?;
                    // a serialized block, as it appears in the protocol
                    let mut w = cbored::Writer::new();
                    cbored::tagged::EncodedCBOR::from_bytes(b).encode(&mut w);
                    let w = w.finalize();
                    let sb = SerializedBlock::decode(&mut cbored::Reader::new(&w)).map_err(e)?;
                    frame(&mut s, 3, &BlockFetch::Block(sb))?;
                }
                frame(&mut s, 3, &BlockFetch::BatchDone)?;
            }
            _ => return Ok(()),
        }
    }
}

fn listen(l: TcpListener, sh: Shared) {
    for s in l.incoming() {
        let Ok(s) = s else { continue };
        let _ = s.set_nodelay(true);
        let mut st = sh.0.lock().unwrap();
        if st.over { return }
        if st.down.as_deref() == Some("closed") { let _ = s.shutdown(Shutdown::Both); continue }
        st.conns.push(s.try_clone().unwrap());
        st.nconns += 1;
        let me = st.nconns;
        drop(st);
        let sh = sh.clone();
        std::thread::spawn(move || {
            let t = s.try_clone().unwrap();
            let _ = talk(s, sh.clone(), me);
            let _ = t.shutdown(Shutdown::Both);
            let mut st = sh.0.lock().unwrap();
            st.busy.remove(&me);
            st.awaiting.remove(&me);
            sh.1.notify_all();
        });
    }
}

/// waits until the node has nothing to do
fn settle(sh: &Shared, ms: u64) {
    let (m, c) = &**sh;
    let end = Instant::now() + Duration::from_millis(ms);
    let mut st = m.lock().unwrap();
    while (!st.awaiting.is_empty() || st.busy.iter().any(|c| !st.holding.contains(c))) && Instant::now() < end {
        st = c.wait_timeout(st, Duration::from_millis(20)).unwrap().0;
    }
}
fn lose(sh: &Shared) {
    let mut st = sh.0.lock().unwrap();
    st.served += 1;
    for s in st.conns.drain(..) { let _ = s.shutdown(Shutdown::Both); }
    st.awaiting.clear();
    sh.1.notify_all();
}

pub fn network(t: &J, rt: &tokio::runtime::Runtime) -> Map<String, J> {
    let sh: Shared = Default::default();
    let blk = |o: &J, h: u64| Blk {
        p: o["p"].as_u64().unwrap() as usize, h, slot: o["slot"].as_u64().unwrap(), kind: o["kind"].as_str().unwrap().into(),
        epoch: o["epoch"].as_u64().unwrap(), junk: o["junk"] == true, fill: o["fill"].as_u64().unwrap_or(0) as usize,
    };
    {
        let mut st = sh.0.lock().unwrap();
        st.base = num_of(&t["base"]);
        st.blocks.push(blk(&t["genesis"], 0));
        st.cur = 1;
    }
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap();
    let s2 = sh.clone();
    std::thread::spawn(move || listen(l, s2));

    let point = |b: i64| -> Point {
        let st = sh.0.lock().unwrap();
        let slot = if b > 0 && b as usize <= st.blocks.len() { st.blocks[b as usize - 1].slot } else if b == 0 { 0 } else { 7 * (-b) as u64 };
        Point::BlockHeader { slot_nb: SlotNumber::new(slot), hash: BlockId::new(hex(&hash(b))) }
    };
    let g = &t["era"];
    let field = |k: &str| g[k].as_u64().unwrap();
    let era = serde_json::from_value::<Era>(json!({"first_slot": field("first"), "start_epoch": field("epoch"), "known_time": 5, "slot_length": field("len"), "epoch_length_seconds": field("per") * field("len")})).unwrap();
    let config = NetworkConfiguration {
        chain_info: cml_chain::genesis::network_info::NetworkInfo::preview(),
        relay: ("127.0.0.1".into(), addr.port()),
        from: point(t["start"].as_i64().unwrap()),
        genesis_parent: BlockId::new(hex(&hash(0))),
        genesis: point(1),
        shelley_era_config: era,
    };
    let pace = match t["pace"].as_str().unwrap() { "always" => Duration::ZERO, "once" => Duration::from_secs(t["secs"].as_u64().unwrap_or(86400)), _ => Duration::from_millis(t["ms"].as_u64().unwrap()) };
    let mut ev: Vec<J> = vec![];
    let mut src = Some(rt.block_on(CardanoSource::connect(&config, pace)).unwrap());
    let big = t["big"] == true;
    let t0 = Instant::now();
    let mut told: Vec<i64> = vec![];
    let pull = |src: &mut CardanoSource, from: Vec<i64>, wait: bool, told: &mut Vec<i64>, ev: &mut Vec<J>| -> String {
        let points: Vec<Point> = from.iter().map(|b| point(*b)).collect();
        let a = t0.elapsed().as_millis() as u64;
        let r = rt.block_on(async {
            if wait { tokio::time::timeout(Duration::from_secs(30), src.pull(&points)).await.map_err(|_| "hang") }
            else {
                let held = async {
                    let end = Instant::now() + Duration::from_secs(20);
                    while sh.0.lock().unwrap().holding.is_empty() && Instant::now() < end { tokio::time::sleep(Duration::from_millis(2)).await }
                    tokio::time::sleep(Duration::from_millis(25)).await;
                    if Instant::now() < end { "waiting" } else { "hang" }
                };
                tokio::select! { biased; r = src.pull(&points) => Ok(r), w = held => Err(w) }
            }
        });
        let mut e = json!({"op": "pull", "from": from, "wait": wait, "t0": a, "t1": t0.elapsed().as_millis() as u64 + 1});
        let st = sh.0.lock().unwrap();
        let n = st.blocks.len();
        let (ans, more) = match r {
            Err(w) => (w.to_string(), json!({})),
            Ok(Err(x)) => (if x.to_string().contains("request handler stoped") { "dead".into() } else { "err".into() }, json!({})),
            Ok(Ok(None)) => ("none".into(), json!({})),
            Ok(Ok(Some(CardanoNetworkEvent::Tip(x)))) => ("tip".into(), {
                let o = json!({"b": id(&x.point.hash().to_string(), n), "num": x.block_number, "slot": x.point.slot_nb()});
                let e = CardanoNetworkEvent::<BlockEvent, _>::Tip(x);
                let same = e.is_blockchain_tip() && e.next_from().is_none();
                let mut o = o;
                o["same"] = json!(same);
                o
            }),
            Ok(Ok(Some(CardanoNetworkEvent::Block(x)))) => {
                let b = id(x.id.as_ref(), n);
                // what the event says as a variant, as a position to go on from, and once stored
                let e = CardanoNetworkEvent::<_, Tip>::Block(x.clone());
                let t = serde_json::to_string(&e).unwrap();
                let y: CardanoNetworkEvent<BlockEvent, Tip> = serde_json::from_str(&t).unwrap();
                let shape = !e.is_blockchain_tip() && *e.id() == x.id && *e.parent_id() == x.parent_id && u64::from(e.block_number()) == u64::from(x.block_number)
                    && e.next_from() == Some(Point::BlockHeader { slot_nb: x.slot_number, hash: x.id.clone() }) && format!("{e:?}") == format!("{y:?}");
                if !told.contains(&b) { told.push(b) }
                ("block".into(), json!({"b": b, "parent": id(x.parent_id.as_ref(), n), "num": u64::from(x.block_number), "slot": u64::from(x.slot_number), "epoch": x.epoch,
                    "boundary": x.is_boundary_block, "same": shape && b > 0 && x.raw_block == st.bytes(b as usize)}))
            }
        };
        drop(st);
        e["ans"] = json!(ans);
        for (k, v) in more.as_object().unwrap() { e[k] = v.clone(); }
        ev.push(e);
        // none: the request is over
        if ans == "none" { sh.0.lock().unwrap().awaiting.clear() }
        if ans != "waiting" { settle(&sh, if big { 30 } else { 1000 }) }
        ans
    };
    for o in t["ops"].as_array().unwrap() {
        let mut rec = o.clone();
        match o["op"].as_str().unwrap() {
            "block" => { let mut st = sh.0.lock().unwrap(); let b = blk(o, 0); let h = st.blocks[b.p - 1].h + 1; st.blocks.push(Blk { h, ..b }); st.cur = st.blocks.len(); }
            "turn" => sh.0.lock().unwrap().cur = o["b"].as_u64().unwrap() as usize,
            "plan" => sh.0.lock().unwrap().plan = Some((o["at"].as_str().unwrap().into(), o["k"].as_u64().unwrap(), o["act"].as_str().unwrap().into(), o["b"].as_u64().unwrap() as usize)),
            "release" => { { let mut st = sh.0.lock().unwrap(); if st.plan.as_ref().is_some_and(|p| p.2 == "hold") { st.plan = None } sh.1.notify_all(); } std::thread::sleep(Duration::from_millis(2)); settle(&sh, 1000) }
            "drop" => lose(&sh),
            "down" => { sh.0.lock().unwrap().down = Some(o["how"].as_str().unwrap_or("closed").into()); lose(&sh) }
            "up" => sh.0.lock().unwrap().down = None,
            "clear" => { if let Some(k) = o["k"].as_u64() { told.truncate(k as usize) } src.as_mut().unwrap().clear_buffers() }
            "sleep" => { std::thread::sleep(Duration::from_millis(o["ms"].as_u64().unwrap())); continue }
            "stop" => {
                let s = src.take().unwrap();
                let ok = rt.block_on(async { tokio::time::timeout(Duration::from_secs(20), s.stop()).await.is_ok() });
                rec["ans"] = json!(if ok { "stopped" } else { "hang" });
            }
            "pull" | "drain" => {
                let all = o["op"] == "drain";
                let mut errs = 0;
                let mut left = o["max"].as_u64().unwrap_or(300);
                loop {
                    let from = match &o["from"] { J::Array(a) => a.iter().map(|x| x.as_i64().unwrap()).collect(), J::String(s) if s == "last" => told.last().map(|b| vec![*b]).unwrap_or_default(), _ => told.clone() };
                    let a = pull(src.as_mut().unwrap(), from, o["wait"] != false, &mut told, &mut ev);
                    left -= 1;
                    errs += (a == "err") as u32;
                    if !all || left == 0 || errs > 4 || a == "none" || a == "hang" || a == "dead" { break }
                }
                if matches!(ev.last().unwrap()["ans"].as_str(), Some("hang" | "dead")) { break }
                continue;
            }
            x => panic!("{x}"),
        }
        ev.push(rec);
    }
    { let mut st = sh.0.lock().unwrap(); st.over = true; }
    lose(&sh);
    let _ = TcpStream::connect(addr);
    drop(src);
    let st = sh.0.lock().unwrap();
    let mut m = Map::new();
    for k in ["pace", "ms", "base", "start", "era"] { m.insert(k.into(), t[k].clone()); }
    m.insert("base".into(), json!(st.base));
    m.insert("blocks".into(), json!(st.blocks.iter().map(|b| json!({"p": b.p, "h": b.h, "slot": b.slot, "kind": b.kind, "epoch": b.epoch})).collect::<Vec<_>>()));
    m.insert("ev".into(), json!(ev));
    m
}
