use crate::{canon, guarded, nat, number};
use dcspark_core::tx::{Transaction, TransactionAsset, TransactionId, UTxOBuilder, UTxODetails, UtxoPointer};
use dcspark_core::{algo, cardano, evm, Address, AssetName, BlockId, BlockNumber, Normalized, OutputIndex, PolicyId, Regulated, Rule, SlotNumber, Timestamp, TokenId, Value};
use deps::serde_json::{self, json, Map, Value as J};
use serde::{de::DeserializeOwned, Serialize};
use std::str::FromStr;
use std::sync::Arc;

fn s(o: &J, k: &str) -> String { o[k].as_str().unwrap().to_string() }
fn u(o: &J, k: &str) -> u64 { s(o, k).parse().unwrap() }

/// an item made from the script, and all that can be seen of it
trait Item: Sized + Serialize + DeserializeOwned + PartialEq {
    fn make(o: &J) -> Self;
    fn obs(&self) -> J;
}
impl<R> Item for Value<R> where Value<R>: FromStr + DeserializeOwned, <Value<R> as FromStr>::Err: std::error::Error {
    fn make(o: &J) -> Self { Value::new(number(o)) }
    fn obs(&self) -> J {
        // 1.50 is 1.5: what is compared is the number, without zeros at its end
        let d = canon(self.raw());
        json!({"num": d})
    }
}
macro_rules! nums { ($($T:ident),*) => { $(impl Item for $T {
    fn make(o: &J) -> Self { $T::new(u(o, "n")) }
    fn obs(&self) -> J { json!({"nat": nat(u64::from(*self))}) }
})* } }
nums!(BlockNumber, SlotNumber, OutputIndex, Timestamp);
macro_rules! ids { ($($T:ident),*) => { $(impl Item for $T {
    fn make(o: &J) -> Self { $T::new(s(o, "s")) }
    fn obs(&self) -> J { json!({"s": AsRef::<str>::as_ref(self), "shown": self.to_string()}) }
})* } }
ids!(TokenId, PolicyId, AssetName, BlockId, TransactionId, Address);
impl Item for UtxoPointer {
    fn make(o: &J) -> Self { UtxoPointer { transaction_id: TransactionId::new(s(o, "t")), output_index: OutputIndex::new(u(o, "i")) } }
    fn obs(&self) -> J { json!({"t": self.transaction_id.obs(), "i": self.output_index.obs()}) }
}
impl Item for TransactionAsset {
    fn make(o: &J) -> Self {
        TransactionAsset { policy_id: PolicyId::new(s(o, "p")), asset_name: AssetName::new(s(o, "a")), fingerprint: TokenId::new(s(o, "f")), quantity: Value::make(&o["q"]) }
    }
    fn obs(&self) -> J { json!({"p": self.policy_id.obs(), "a": self.asset_name.obs(), "f": self.fingerprint.obs(), "q": self.quantity.obs()}) }
}
fn list<T: Item>(o: &J) -> Vec<T> { o.as_array().unwrap().iter().map(T::make).collect() }
fn shown<T: Item>(l: &[T]) -> J { json!(l.iter().map(|x| x.obs()).collect::<Vec<_>>()) }
fn extra(o: &J) -> Option<String> { o["x"].as_str().map(|x| x.to_string()) }
impl Item for UTxODetails {
    fn make(o: &J) -> Self {
        UTxODetails { pointer: UtxoPointer::make(&o["ptr"]), address: Address::new(s(o, "addr")), value: Value::make(&o["v"]), assets: list(&o["as"]), metadata: Arc::new(o["m"].clone()), extra: extra(o) }
    }
    fn obs(&self) -> J {
        json!({"ptr": self.pointer.obs(), "addr": self.address.obs(), "v": self.value.obs(), "as": shown(&self.assets), "m": self.metadata.to_string(), "x": self.extra.iter().collect::<Vec<_>>()})
    }
}
impl Item for UTxOBuilder {
    fn make(o: &J) -> Self {
        let mut b = UTxOBuilder::new(Address::new(s(o, "addr")), Value::make(&o["v"]), list(&o["as"]));
        b.extra = extra(o);
        b
    }
    fn obs(&self) -> J { json!({"addr": self.address.obs(), "v": self.value.obs(), "as": shown(&self.assets), "x": self.extra.iter().collect::<Vec<_>>()}) }
}
impl Item for Transaction {
    fn make(o: &J) -> Self {
        Transaction { transaction_id: TransactionId::new(s(o, "id")), inputs: list(&o["in"]), outputs: list(&o["out"]), metadata: Arc::new(o["m"].clone()) }
    }
    fn obs(&self) -> J { json!({"id": self.transaction_id.obs(), "in": shown(&self.inputs), "out": shown(&self.outputs), "m": self.metadata.to_string()}) }
}
/// Rule has no equality: it is compared by what can be seen
#[derive(Serialize, serde::Deserialize)]
#[serde(transparent)]
struct R(Rule);
impl PartialEq for R { fn eq(&self, o: &R) -> bool { self.obs() == o.obs() } }
impl Item for R {
    fn make(o: &J) -> Self { R(Rule { asset: TokenId::new(s(o, "f")), mainchain_decimal_precision: o["pm"].as_i64().unwrap(), sidechain_decimal_precision: o["ps"].as_i64().unwrap() }) }
    fn obs(&self) -> J { json!({"f": self.0.asset.obs(), "pm": self.0.mainchain_decimal_precision, "ps": self.0.sidechain_decimal_precision}) }
}

fn round<T: Item>(o: &J, e: &mut Map<String, J>) -> String {
    let x = T::make(&o["item"]);
    e.insert("obs".into(), x.obs());
    let back: Option<T> = match o["via"].as_str().unwrap() {
        "text" => serde_json::to_string(&x).ok().and_then(|t| serde_json::from_str(&t).ok()),
        "pretty" => serde_json::to_string_pretty(&x).ok().and_then(|t| serde_json::from_str(&t).ok()),
        "bytes" => serde_json::to_vec(&x).ok().and_then(|t| serde_json::from_slice(&t).ok()),
        "reader" => serde_json::to_vec(&x).ok().and_then(|t| serde_json::from_reader(&t[..]).ok()),
        "twice" => serde_json::to_string(&x).ok().and_then(|t| serde_json::from_str::<T>(&t).ok()).and_then(|y| serde_json::to_string(&y).ok()).and_then(|t| serde_json::from_str(&t).ok()),
        _ => serde_json::to_value(&x).ok().and_then(|v| serde_json::from_value(v).ok()),
    };
    e.insert("back".into(), json!(back.iter().map(|b| b.obs()).collect::<Vec<_>>()));
    e.insert("same".into(), json!(back.as_ref() == Some(&x)));
    "ok".into()
}
/// reads an object that has some of the fields, and others
fn read<T: Item>(o: &J, e: &mut Map<String, J>) -> String {
    let x = T::make(&o["item"]);
    let all = serde_json::to_value(&x).unwrap();
    let quoted = |k: &str| serde_json::to_string(k).unwrap();
    let parts: Vec<String> = o["fields"].as_array().unwrap().iter().map(|f| {
        let f = f.as_str().unwrap();
        format!("{}:{}", quoted(f), all.get(f).cloned().unwrap_or(json!("?")))
    }).collect();
    let r: Result<T, _> = serde_json::from_str(&format!("{{{}}}", parts.join(",")));
    e.insert("obs".into(), x.obs());
    e.insert("back".into(), json!(r.iter().map(|b| b.obs()).collect::<Vec<_>>()));
    if r.is_ok() { "ok".into() } else { "err".into() }
}

pub fn run(t: &J) -> Map<String, J> {
    let mut ev = vec![];
    for o in t["ops"].as_array().unwrap() {
        let mut e = Map::new();
        for k in ["op", "ty", "via", "fields"] { if let Some(v) = o.get(k) { e.insert(k.into(), v.clone()); } }
        let rd = o["op"] == "read";
        macro_rules! go { ($T:ty) => { guarded(|| if rd { read::<$T>(o, &mut e) } else { round::<$T>(o, &mut e) }) } }
        let r = match o["ty"].as_str().unwrap() {
            "normalized" => go!(Value<Normalized>), "regulated" => go!(Value<Regulated>), "lovelace" => go!(Value<cardano::Lovelace>), "ada" => go!(Value<cardano::Ada>),
            "ether" => go!(Value<evm::Ether>), "wei" => go!(Value<evm::Wei>), "algo" => go!(Value<algo::Algo>), "microalgo" => go!(Value<algo::MicroAlgo>),
            "block" => go!(BlockNumber), "slot" => go!(SlotNumber), "output" => go!(OutputIndex), "time" => go!(Timestamp),
            "token" => go!(TokenId), "policy" => go!(PolicyId), "name" => go!(AssetName), "blockid" => go!(BlockId), "txid" => go!(TransactionId), "address" => go!(Address),
            "pointer" => go!(UtxoPointer), "asset" => go!(TransactionAsset), "utxo" => go!(UTxODetails), "builder" => go!(UTxOBuilder), "transaction" => go!(Transaction), "rule" => go!(R),
            x => panic!("{x}"),
        };
        match r {
            Ok(k) => { e.insert("k".into(), json!(k)); }
            Err(m) => { e.insert("k".into(), json!("panic")); e.insert("msg".into(), json!(m)); }
        }
        ev.push(J::Object(e));
    }
    let mut m = Map::new();
    m.insert("ev".into(), json!(ev));
    m
}
