use crate::{dec, guarded, number};
use dcspark_core::tx::{TransactionAsset, TransactionId, UTxODetails, UtxoPointer};
use dcspark_core::{Address, AssetName, OutputIndex, PolicyId, TokenId, UTxOStore, UTxOStoreMut, Value};
use deps::serde_json::{json, Map, Value as J};
use std::collections::HashMap;
use std::sync::Arc;

struct World { utxos: Vec<UTxODetails>, pointers: Vec<UtxoPointer>, tokens: Vec<TokenId>, snaps: HashMap<String, UTxOStore>, muts: HashMap<String, UTxOStoreMut> }

/// token 0 is the main token
fn token(k: u64) -> TokenId {
    if k == 0 { TokenId::MAIN } else { TokenId::new(format!("asset1{k:02}")) }
}
/// policy and name of a token
fn names(k: u64) -> (PolicyId, AssetName) { (PolicyId::new(format!("policy{}", k % 2)), AssetName::new(format!("name{k}"))) }
fn pointer(p: u64, style: u64) -> UtxoPointer {
    // pointers that differ in the transaction only, in the index only, or in both
    let (t, i) = match style { 0 => (0, p), 1 => (p, 0), _ => (p / 2, p % 2) };
    UtxoPointer { transaction_id: TransactionId::new(format!("tx{t}")), output_index: OutputIndex::new(i) }
}
impl World {
    fn id(&self, u: &UTxODetails) -> i64 { self.utxos.iter().position(|x| x == u).map(|i| i as i64 + 1).unwrap_or(-1) }
    /// -2 when the key of the entry is not the pointer of the UTxO
    fn entry(&self, p: &UtxoPointer, u: &Arc<UTxODetails>) -> i64 { if &u.pointer == p { self.id(u) } else { -2 } }
    fn sorted(mut v: Vec<i64>) -> J { v.sort(); json!(v) }
    fn bal(b: Option<Value<dcspark_core::Regulated>>) -> J { json!(b.map(|b| vec![dec(b.raw())]).unwrap_or_default()) }
    fn look(&self, s: &UTxOStore) -> Map<String, J> {
        let mut m = Map::new();
        m.insert("len".into(), json!(s.len()));
        m.insert("empty".into(), json!(s.is_empty()));
        m.insert("has".into(), Self::sorted(self.pointers.iter().enumerate().filter(|(_, p)| s.contains(p)).map(|(i, _)| i as i64 + 1).collect()));
        m.insert("get".into(), Self::sorted(self.pointers.iter().filter_map(|p| s.get(p).map(|u| if &u.pointer == p { self.id(u) } else { -2 })).collect()));
        m.insert("iter".into(), Self::sorted(s.iter().map(|(p, u)| self.entry(p, u)).collect()));
        m.insert("main".into(), json!(s.iter_ordered_by_wmain().map(|u| self.id(u)).collect::<Vec<_>>()));
        let toks: Vec<J> = self.tokens.iter().map(|t| json!({
            "n": s.number_utxos_for_token(t),
            "has": s.contains_token(t),
            "iter": Self::sorted(s.iter_token(t).map(|(p, u)| self.entry(p, u)).collect()),
            "up": s.iter_token_ordered_by_value(t).map(|u| self.id(u)).collect::<Vec<_>>(),
            "down": s.iter_token_ordered_by_value_rev(t).map(|u| self.id(u)).collect::<Vec<_>>(),
            "bal": Self::bal(s.get_balance_of(t)),
            "ids": match s.get_asset_ids(t) { None => "none", Some(x) if *x == names(self.tokens.iter().position(|u| u == t).unwrap() as u64) => "right", Some(_) => "wrong" },
        })).collect();
        m.insert("tok".into(), json!(toks));
        m
    }
    fn look_mut(&self, s: &UTxOStoreMut) -> Map<String, J> {
        let mut m = Map::new();
        m.insert("bal".into(), dec(s.balance().raw()));
        m.insert("tok".into(), json!(self.tokens.iter().map(|t| Self::bal(s.token_balance(t))).collect::<Vec<_>>()));
        m
    }
}

pub fn run(t: &J) -> Map<String, J> {
    let style = t["style"].as_u64().unwrap_or(0);
    let us = t["utxos"].as_array().unwrap();
    let mut w = World { utxos: vec![], pointers: vec![], tokens: vec![], snaps: HashMap::new(), muts: HashMap::new() };
    w.snaps.insert("s0".into(), UTxOStore::new());
    w.tokens = (0..=t["tokens"].as_u64().unwrap()).map(token).collect();
    w.pointers = (1..=t["pointers"].as_u64().unwrap()).map(|p| pointer(p, style)).collect();
    let mut table = vec![];
    for (i, u) in us.iter().enumerate() {
        let v = number(&u["v"]);
        let mut row = json!({"p": u["p"], "v": dec(&v), "t": []});
        let assets = u["t"].as_array().unwrap().iter().map(|a| {
            let q = number(&a["q"]);
            row["t"].as_array_mut().unwrap().push(json!({"k": a["k"], "q": dec(&q)}));
            let k = a["k"].as_u64().unwrap();
            let (policy_id, asset_name) = names(k);
            TransactionAsset { policy_id, asset_name, fingerprint: token(k), quantity: Value::new(q) }
        }).collect();
        table.push(row);
        w.utxos.push(UTxODetails { pointer: pointer(u["p"].as_u64().unwrap(), style), address: Address::new(format!("addr{}", i % 3)), value: Value::new(v), assets,
            metadata: Arc::new(json!({"n": i})), extra: if i % 2 == 0 { None } else { Some(format!("x{i}")) } });
    }
    let mut ev = vec![];
    for o in t["ops"].as_array().unwrap() {
        let mut e = o.as_object().unwrap().clone();
        let s = |k: &str| o[k].as_str().unwrap_or("").to_string();
        let r = guarded(|| match o["op"].as_str().unwrap() {
            "thaw" => { let m = w.snaps[&s("s")].thaw(); w.muts.insert(s("m"), m); Ok(Map::new()) }
            "freeze" => { let m = w.muts.remove(&s("m")).unwrap(); w.snaps.insert(s("s"), m.freeze()); Ok(Map::new()) }
            "clone" => { let m = w.snaps[&s("s")].clone(); w.snaps.insert(s("to"), m); Ok(Map::new()) }
            "drop" => { w.snaps.remove(&s("s")); Ok(Map::new()) }
            "insert" => {
                let u = w.utxos[o["u"].as_u64().unwrap() as usize - 1].clone();
                let m = w.muts.get_mut(&s("m")).unwrap();
                (if o["compat"] == true { m.insert_compat(u) } else { m.insert(u) }).map(|_| Map::new())
            }
            "remove" => { let p = pointer(o["p"].as_u64().unwrap(), style); w.muts.get_mut(&s("m")).unwrap().remove(&p).map(|_| Map::new()) }
            "look" => Ok(w.look(&w.snaps[&s("s")])),
            "lookm" => Ok(w.look_mut(&w.muts[&s("m")])),
            x => panic!("{x}"),
        });
        match r {
            Ok(Ok(m)) => {
                e.insert("k".into(), json!("ok"));
                if !m.is_empty() {
                    // the answers as a text, in which UTxOs of equal quantity may be listed in any order
                    let mut c = m.clone();
                    let same = |l: &J, t: usize| -> J {
                        let mut v: Vec<i64> = l.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
                        let q: Vec<String> = v.iter().map(|u| if *u < 1 { String::new() } else {
                            let u = &w.utxos[*u as usize - 1];
                            if t == 0 { u.value.to_string() } else { u.assets.iter().find(|a| a.fingerprint == w.tokens[t]).map(|a| a.quantity.to_string()).unwrap_or_default() }
                        }).collect();
                        v.sort();
                        json!([v, q])
                    };
                    if o["op"] == "look" {
                        c["main"] = same(&c["main"], 0);
                        for t in 0..w.tokens.len() {
                            for k in ["up", "down"] { let x = same(&c["tok"][t][k], t); c["tok"][t][k] = x; }
                        }
                    }
                    e.insert("digest".into(), json!(J::Object(c).to_string()));
                    e.insert("a".into(), J::Object(m));
                }
            }
            Ok(Err(_)) => { e.insert("k".into(), json!("err")); }
            Err(p) => { e.insert("k".into(), json!("panic")); e.insert("msg".into(), json!(p)); }
        }
        ev.push(J::Object(e));
    }
    let mut m = Map::new();
    m.insert("utxos".into(), json!(table));
    m.insert("tokens".into(), json!(w.tokens.len()));
    m.insert("pointers".into(), json!(w.pointers.len()));
    m.insert("ev".into(), json!(ev));
    m
}
