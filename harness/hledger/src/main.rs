//! Interpreter of scripts for the parts on top of cardano-multiplatform-lib (a stand-in here).
//! It judges nothing; the TLA+ trace specifications do.
use cardano_multiplatform_lib as cml;
use cardano_utils::{multisig_plan::MultisigPlan, network_id::NetworkInfo, payment_credentials::CardanoPaymentCredentials, utxo::*};
use cml::ledger::common::value::BigNum;
use dcspark_core::tx::{TransactionAsset, TransactionId, UTxOBuilder, UTxODetails, UtxoPointer};
use dcspark_core::{Address, AssetName, OutputIndex, PolicyId, Regulated, TokenId, Value};
use deps::bigdecimal::BigDecimal;
use deps::serde_json::{self, json, Map, Value as J};
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
use utxo_selection::estimators::ThermostatFeeEstimator;
use utxo_selection::TransactionFeeEstimator;

type V = Value<Regulated>;
fn limbs(mut n: u64) -> J { let mut v = vec![]; while n > 0 { v.push(n % 10000); n /= 10000 } json!(v) }
fn val(s: &J) -> V { Value::new(s.as_str().unwrap().parse::<BigDecimal>().unwrap()) }
fn s(j: &J) -> String { j.as_str().unwrap().to_string() }

fn assets(o: &J) -> Vec<TransactionAsset> {
    o["assets"].as_array().unwrap().iter().map(|a| {
        let (p, n) = (PolicyId::new(s(&a["policy"])), AssetName::new(s(&a["name"])));
        let f = cardano_utils::fingerprint(&p, &n).unwrap_or_else(|_| TokenId::new(format!("{p}{n}")));
        TransactionAsset { policy_id: p, asset_name: n, fingerprint: f, quantity: val(&a["q"]) }
    }).collect()
}

fn builder(o: &J) -> UTxOBuilder {
    UTxOBuilder { address: Address::new(s(&o["addr"])), value: val(&o["coin"]), assets: assets(o), extra: o["extra"].as_str().map(|x| x.to_string()) }
}
fn details(o: &J) -> UTxODetails {
    UTxODetails { pointer: UtxoPointer { transaction_id: TransactionId::new(s(&o["tx"])), output_index: OutputIndex::new(s(&o["index"]).parse().unwrap()) },
        address: Address::new(s(&o["addr"])), value: val(&o["coin"]), assets: assets(o), metadata: Arc::new(J::Null), extra: o["extra"].as_str().map(|x| x.to_string()) }
}

/// an output of the ledger: its parts as the script names them
fn output(x: &cml::TransactionOutput) -> Map<String, J> {
    let mut m = Map::new();
    m.insert("address".into(), json!(hex::encode(x.address().to_bytes())));
    m.insert("coin".into(), limbs(u64::from(x.amount().coin())));
    let mut t = vec![];
    if let Some(ma) = x.amount().multiasset() {
        let ps = ma.keys();
        for i in 0..ps.len() {
            let a = ma.get(&ps.get(i)).unwrap();
            let ns = a.keys();
            for k in 0..ns.len() {
                t.push(json!({"p": hex::encode(ps.get(i).to_bytes()), "n": hex::encode(ns.get(k).name()), "q": limbs(u64::from(a.get(&ns.get(k)).unwrap()))}));
            }
        }
    }
    m.insert("tokens".into(), json!(t));
    m.insert("datum".into(), json!(x.datum().map_or(String::new(), |d| d.0)));
    m.insert("script".into(), json!(x.script_ref().map_or(String::new(), |d| d.0)));
    m
}

fn guarded(f: impl FnOnce() -> anyhow::Result<J>) -> J {
    match catch_unwind(AssertUnwindSafe(f)) { Err(_) => json!({"res": "panic"}), Ok(Err(e)) => json!({"res": "err", "why": format!("{e:#}")}), Ok(Ok(mut j)) => { j["res"] = json!("ok"); j } }
}

fn creds(o: &J) -> CardanoPaymentCredentials {
    let script = || cml::NativeScript::new_script_pubkey(&cml::ScriptPubkey::new(&cml::crypto::Ed25519KeyHash::from_bytes(vec![7; 28]).unwrap()));
    match o["kind"].as_str().unwrap() {
        "native" => CardanoPaymentCredentials::NativeScript { native_script: script(), witness_info: cml::builders::witness_builder::NativeScriptWitnessInfo(vec![1]) },
        "plutus" => CardanoPaymentCredentials::PlutusScript { partial_witness: cml::builders::witness_builder::PartialPlutusWitness(vec![1]), required_signers: cml::RequiredSigners::new(), datum: cml::plutus::PlutusData(vec![2]) },
        _ => CardanoPaymentCredentials::PaymentKey,
    }
}

fn text(x: &str) -> J { let v: J = serde_json::from_str(x).unwrap_or(J::Null); json!([v["datum"].as_str().unwrap_or(""), v["script_ref"].as_str().unwrap_or("")]) }

/// a ledger output without tokens
fn plain(o: &J) -> anyhow::Result<cml::TransactionOutput> {
    let mut x = cml::TransactionOutput::new(&cml::address::Address::from_bech32(&s(&o["addr"]))?, &cml::ledger::common::value::Value::new(&BigNum::from_str(&s(&o["coin"]))?));
    if let Some(d) = o["datum"].as_str().filter(|d| !d.is_empty()) { x.set_datum(&cml::Datum(d.into())) }
    if let Some(d) = o["script"].as_str().filter(|d| !d.is_empty()) { x.set_script_ref(&cml::plutus::ScriptRef(d.into())) }
    Ok(x)
}
fn number(v: &V) -> J { v.to_string().parse::<u64>().map(limbs).unwrap_or(json!([99999])) }

fn convert(o: &J) -> J {
    match o["op"].as_str().unwrap() {
        "output" => guarded(|| Ok(J::Object(output(&utxo_builder_to_cml_output(&builder(o))?)))),
        "input" => guarded(|| {
            let r = utxo_details_to_cml_input(&details(o), &creds(o))?;
            let mut m = output(&r.utxo_info);
            m.insert("tx".into(), json!(r.input.transaction_id().to_hex()));
            m.insert("index".into(), limbs(u64::from(r.input.index())));
            m.insert("kind".into(), json!(r.kind));
            Ok(J::Object(m))
        }),
        "from" => guarded(|| {
            let r = utxo_builder_from_output(plain(o)?)?;
            Ok(json!({"address": r.address.to_string(), "coin": number(&r.value), "tokens": r.assets.len(), "extra": text(&r.extra.unwrap_or_default())}))
        }),
        "fromio" => guarded(|| {
            let i = cml::TransactionInput::new(&cml::crypto::TransactionHash::from_hex(&s(&o["tx"]))?, &BigNum::from_str(&s(&o["index"]))?);
            let r = utxo_details_from_io((i, plain(o)?))?;
            Ok(json!({"address": r.address.to_string(), "coin": number(&r.value), "tokens": r.assets.len(), "extra": text(&r.extra.unwrap_or_default()),
                "tx": r.pointer.transaction_id.to_string(), "index": limbs(u64::from(r.pointer.output_index))}))
        }),
        x => panic!("{x}"),
    }
}

fn estimate(t: &J) -> Vec<J> {
    let net: NetworkInfo = serde_json::from_value(t["net"].clone()).unwrap();
    let plan: MultisigPlan = serde_json::from_value(t["plan"].clone()).unwrap();
    let mut e = ThermostatFeeEstimator::new(net, &plan, BigNum::from(4310));
    let int = |v: V| v.to_string().parse::<i64>().unwrap_or(-1);
    let mut ev = vec![];
    let mut first = Map::new();
    first.insert("op".into(), json!("new"));
    let note = |m: &mut Map<String, J>, e: &ThermostatFeeEstimator| {
        m.insert("size".into(), json!(e.current_size().map_or(-1, |x| x as i64)));
        m.insert("fee".into(), json!(e.min_required_fee().map_or(-1, int)));
        m.insert("max".into(), json!(e.max_size().map_or(-1, |x| x as i64)));
    };
    note(&mut first, &e);
    ev.push(J::Object(first));
    for o in t["ops"].as_array().unwrap() {
        let mut m = o["note"].as_object().unwrap().clone();
        let r = catch_unwind(AssertUnwindSafe(|| -> anyhow::Result<i64> {
            Ok(match o["op"].as_str().unwrap() {
                "input" => { let x = details(o); let f = int(e.fee_for_input(&x)?); e.add_input(x)?; f }
                "output" => { let x = builder(o); let f = int(e.fee_for_output(&x)?); e.add_output(x)?; f }
                _ => { e.add_protocol_magic(s(&o["magic"])); 0 }
            })
        }));
        m.insert("op".into(), o["op"].clone());
        m.insert("cost".into(), json!(match r { Ok(Ok(f)) => f, _ => -1 }));
        note(&mut m, &e);
        ev.push(J::Object(m));
    }
    ev
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let mut out = BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    for l in BufReader::new(std::fs::File::open(&a[1]).unwrap()).lines() {
        let t: J = serde_json::from_str(&l.unwrap()).unwrap();
        let mut r = Map::new();
        r.insert("id".into(), t["id"].clone());
        if t["kind"] == json!("estimate") {
            for k in ["a", "b", "q", "k", "limit"] { r.insert(k.into(), t[k].clone()); }
            r.insert("ev".into(), json!(estimate(&t)));
        } else {
            r.insert("ev".into(), json!(t["ops"].as_array().unwrap().iter().map(|o| json!({"op": o["op"], "ask": o["ask"], "got": convert(o)})).collect::<Vec<_>>()));
        }
        writeln!(out, "{}", J::Object(r)).unwrap();
        out.flush().unwrap();
    }
}
