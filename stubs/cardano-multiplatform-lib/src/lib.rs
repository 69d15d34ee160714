//! A stand-in for what dcspark-core names of cardano-multiplatform-lib 3: plain data, the CBOR of
//! native scripts, and addresses as bytes. Nothing here is checked; it carries what it is given.
#![allow(clippy::all)]
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct JsError(pub String);
impl fmt::Display for JsError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for JsError {}
type R<T> = Result<T, JsError>;
fn no<T>(s: impl ToString) -> R<T> { Err(JsError(s.to_string())) }

fn head(major: u8, n: u64, out: &mut Vec<u8>) {
    let m = major << 5;
    match n {
        0..=23 => out.push(m | n as u8),
        24..=0xff => { out.push(m | 24); out.push(n as u8) }
        0x100..=0xffff => { out.push(m | 25); out.extend((n as u16).to_be_bytes()) }
        0x10000..=0xffff_ffff => { out.push(m | 26); out.extend((n as u32).to_be_bytes()) }
        _ => { out.push(m | 27); out.extend(n.to_be_bytes()) }
    }
}

macro_rules! hashes { ($($name:ident $len:literal),*) => { $(
    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct $name(Vec<u8>);
    impl $name {
        pub fn from_bytes(b: Vec<u8>) -> R<Self> { if b.len() == $len { Ok($name(b)) } else { no(format!("{} bytes", b.len())) } }
        pub fn to_bytes(&self) -> Vec<u8> { self.0.clone() }
        pub fn from_hex(s: &str) -> R<Self> { match hex::decode(s) { Ok(b) => Self::from_bytes(b), Err(e) => no(e) } }
        pub fn to_hex(&self) -> String { hex::encode(&self.0) }
    }
    impl fmt::Display for $name { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.to_hex()) } }
)* } }

pub mod crypto {
    use super::*;
    hashes!(TransactionHash 32, Ed25519KeyHash 28, ScriptHash 28, DataHash 32);
}
pub use crypto::ScriptHash as PolicyID;

pub mod ledger {
    pub mod common {
        pub mod value {
            use crate::*;
            #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
            pub struct BigNum(u64);
            pub type Coin = BigNum;
            impl BigNum {
                pub fn from_str(s: &str) -> R<BigNum> { s.parse().map(BigNum).or_else(no) }
                pub fn to_str(&self) -> String { self.0.to_string() }
                pub fn zero() -> Self { BigNum(0) }
                pub fn one() -> Self { BigNum(1) }
                pub fn is_zero(&self) -> bool { self.0 == 0 }
                pub fn checked_mul(&self, o: &BigNum) -> R<BigNum> { self.0.checked_mul(o.0).map(BigNum).ok_or(JsError("overflow".into())) }
                pub fn checked_add(&self, o: &BigNum) -> R<BigNum> { self.0.checked_add(o.0).map(BigNum).ok_or(JsError("overflow".into())) }
                pub fn checked_sub(&self, o: &BigNum) -> R<BigNum> { self.0.checked_sub(o.0).map(BigNum).ok_or(JsError("underflow".into())) }
                pub fn clamped_sub(&self, o: &BigNum) -> BigNum { BigNum(self.0.saturating_sub(o.0)) }
            }
            impl From<u64> for BigNum { fn from(n: u64) -> Self { BigNum(n) } }
            impl From<BigNum> for u64 { fn from(n: BigNum) -> u64 { n.0 } }
            impl fmt::Display for BigNum { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
            impl std::str::FromStr for BigNum { type Err = JsError; fn from_str(s: &str) -> R<BigNum> { s.parse().map(BigNum).or_else(no) } }
            #[derive(Debug, Clone, PartialEq, Eq)]
            pub struct Value { coin: Coin, multiasset: Option<MultiAsset> }
            impl Value {
                pub fn new(coin: &Coin) -> Value { Value { coin: *coin, multiasset: None } }
                pub fn coin(&self) -> Coin { self.coin }
                pub fn set_coin(&mut self, coin: &Coin) { self.coin = *coin }
                pub fn multiasset(&self) -> Option<MultiAsset> { self.multiasset.clone() }
                pub fn set_multiasset(&mut self, m: &MultiAsset) { self.multiasset = Some(m.clone()) }
            }
        }
    }
    pub mod alonzo {
        pub mod fees {
            use super::super::common::value::{BigNum, Coin};
            #[derive(Debug, Clone)]
            pub struct LinearFee { constant: Coin, coefficient: Coin }
            impl LinearFee {
                pub fn new(coefficient: &BigNum, constant: &BigNum) -> Self { LinearFee { constant: *constant, coefficient: *coefficient } }
                pub fn constant(&self) -> Coin { self.constant }
                pub fn coefficient(&self) -> Coin { self.coefficient }
            }
        }
    }
    pub mod babbage {
        pub mod min_ada {
            use crate::*;
            use crate::ledger::common::value::{BigNum, Coin};
            pub fn min_pure_ada(per_byte: &BigNum, address: &address::Address, datum: &Option<Datum>, script: &Option<plutus::ScriptRef>) -> R<Coin> {
                let extra = datum.as_ref().map_or(0, |d| d.0.len()) + script.as_ref().map_or(0, |d| d.0.len());
                per_byte.checked_mul(&BigNum::from((172 + address.to_bytes().len() + extra) as u64))
            }
        }
    }
}
use ledger::common::value::{BigNum, Coin, Value};

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct AssetName(Vec<u8>);
impl AssetName {
    pub fn new(b: Vec<u8>) -> R<Self> { if b.len() <= 32 { Ok(AssetName(b)) } else { no("name too long") } }
    pub fn name(&self) -> Vec<u8> { self.0.clone() }
    pub fn to_bytes(&self) -> Vec<u8> { self.0.clone() }
}
macro_rules! list { ($name:ident $item:ty) => {
    #[derive(Debug, Clone, Default)]
    pub struct $name(Vec<$item>);
    impl $name {
        pub fn new() -> Self { $name(vec![]) }
        pub fn len(&self) -> usize { self.0.len() }
        pub fn get(&self, i: usize) -> $item { self.0[i].clone() }
        pub fn add(&mut self, x: &$item) { self.0.push(x.clone()) }
    }
} }
list!(AssetNames AssetName);
list!(PolicyIDs PolicyID);
list!(NativeScripts NativeScript);
list!(RequiredSigners crypto::Ed25519KeyHash);
#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct Assets(BTreeMap<AssetName, BigNum>);
impl Assets {
    pub fn new() -> Self { Default::default() }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn keys(&self) -> AssetNames { AssetNames(self.0.keys().cloned().collect()) }
    pub fn get(&self, n: &AssetName) -> Option<BigNum> { self.0.get(n).copied() }
    pub fn insert(&mut self, n: &AssetName, v: &BigNum) -> Option<BigNum> { self.0.insert(n.clone(), *v) }
}
#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct MultiAsset(BTreeMap<PolicyID, Assets>);
impl MultiAsset {
    pub fn new() -> Self { Default::default() }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn keys(&self) -> PolicyIDs { PolicyIDs(self.0.keys().cloned().collect()) }
    pub fn get(&self, p: &PolicyID) -> Option<Assets> { self.0.get(p).cloned() }
    pub fn insert(&mut self, p: &PolicyID, a: &Assets) -> Option<Assets> { self.0.insert(p.clone(), a.clone()) }
    pub fn set_asset(&mut self, p: &PolicyID, n: &AssetName, v: &BigNum) -> Option<BigNum> { self.0.entry(p.clone()).or_default().insert(n, v) }
    pub fn get_asset(&self, p: &PolicyID, n: &AssetName) -> BigNum { self.0.get(p).and_then(|a| a.get(n)).unwrap_or(BigNum::zero()) }
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Datum(pub String);
pub mod plutus {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct ScriptRef(pub String);
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct PlutusData(pub Vec<u8>);
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TransactionInput { id: crypto::TransactionHash, index: BigNum }
impl TransactionInput {
    pub fn new(id: &crypto::TransactionHash, index: &BigNum) -> Self { TransactionInput { id: id.clone(), index: *index } }
    pub fn transaction_id(&self) -> crypto::TransactionHash { self.id.clone() }
    pub fn index(&self) -> BigNum { self.index }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TransactionOutput { address: address::Address, amount: Value, datum: Option<Datum>, script: Option<plutus::ScriptRef> }
impl TransactionOutput {
    pub fn new(address: &address::Address, amount: &Value) -> Self { TransactionOutput { address: address.clone(), amount: amount.clone(), datum: None, script: None } }
    pub fn address(&self) -> address::Address { self.address.clone() }
    pub fn amount(&self) -> Value { self.amount.clone() }
    pub fn datum(&self) -> Option<Datum> { self.datum.clone() }
    pub fn script_ref(&self) -> Option<plutus::ScriptRef> { self.script.clone() }
    pub fn set_datum(&mut self, d: &Datum) { self.datum = Some(d.clone()) }
    pub fn set_script_ref(&mut self, s: &plutus::ScriptRef) { self.script = Some(s.clone()) }
}

#[derive(Debug, Clone)]
pub struct ScriptPubkey(crypto::Ed25519KeyHash);
impl ScriptPubkey { pub fn new(k: &crypto::Ed25519KeyHash) -> Self { ScriptPubkey(k.clone()) } }
#[derive(Debug, Clone)]
pub struct ScriptNOfK(u32, NativeScripts);
impl ScriptNOfK { pub fn new(n: u32, s: &NativeScripts) -> Self { ScriptNOfK(n, s.clone()) } }
#[derive(Debug, Clone)]
pub enum NativeScript { Pubkey(ScriptPubkey), NOfK(ScriptNOfK) }
impl NativeScript {
    pub fn new_script_pubkey(s: &ScriptPubkey) -> Self { NativeScript::Pubkey(s.clone()) }
    pub fn new_script_n_of_k(s: &ScriptNOfK) -> Self { NativeScript::NOfK(s.clone()) }
    pub fn to_bytes(&self) -> Vec<u8> { let mut o = vec![]; self.write(&mut o); o }
    fn write(&self, o: &mut Vec<u8>) {
        match self {
            NativeScript::Pubkey(k) => { head(4, 2, o); head(0, 0, o); let b = k.0.to_bytes(); head(2, b.len() as u64, o); o.extend(b) }
            NativeScript::NOfK(s) => { head(4, 3, o); head(0, 3, o); head(0, s.0 as u64, o); head(4, s.1.len() as u64, o); for x in &s.1 .0 { x.write(o) } }
        }
    }
    pub fn hash(&self) -> crypto::ScriptHash {
        use cryptoxide::{blake2b::Blake2b, digest::Digest};
        let mut h = Blake2b::new(28);
        h.input(&[0]);
        h.input(&self.to_bytes());
        let mut out = [0; 28];
        h.result(&mut out);
        crypto::ScriptHash::from_bytes(out.to_vec()).unwrap()
    }
}
#[derive(Debug, Clone, Default)]
pub struct TransactionWitnessSet(Option<NativeScripts>);
impl TransactionWitnessSet {
    pub fn new() -> Self { Default::default() }
    pub fn set_native_scripts(&mut self, s: &NativeScripts) { self.0 = Some(s.clone()) }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        match &self.0 {
            None => head(5, 0, &mut o),
            Some(s) => { head(5, 1, &mut o); head(0, 1, &mut o); head(4, s.len() as u64, &mut o); for x in &s.0 { x.write(&mut o) } }
        }
        o
    }
}

pub mod address {
    use super::*;
    use bech32::{FromBase32, ToBase32};
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Address(Vec<u8>);
    impl Address {
        pub fn from_bytes(b: Vec<u8>) -> R<Self> { if b.len() == 29 || b.len() == 57 { Ok(Address(b)) } else { no("not an address") } }
        pub fn to_bytes(&self) -> Vec<u8> { self.0.clone() }
        pub fn from_bech32(s: &str) -> R<Self> {
            let (_, d, _) = bech32::decode(s).or_else(no)?;
            Self::from_bytes(Vec::<u8>::from_base32(&d).or_else(no)?)
        }
        pub fn to_bech32(&self, prefix: Option<String>) -> R<String> {
            let p = prefix.unwrap_or_else(|| if self.0[0] & 15 == 1 { "addr".into() } else { "addr_test".into() });
            bech32::encode(&p, self.0.to_base32(), bech32::Variant::Bech32).or_else(no)
        }
    }
    #[derive(Debug, Clone)]
    pub enum StakeCredential { Key(crypto::Ed25519KeyHash), Script(crypto::ScriptHash) }
    impl StakeCredential {
        pub fn from_keyhash(k: &crypto::Ed25519KeyHash) -> Self { StakeCredential::Key(k.clone()) }
        pub fn from_scripthash(k: &crypto::ScriptHash) -> Self { StakeCredential::Script(k.clone()) }
    }
    pub struct EnterpriseAddress(u8, StakeCredential);
    impl EnterpriseAddress {
        pub fn new(network: u8, c: &StakeCredential) -> Self { EnterpriseAddress(network, c.clone()) }
        pub fn to_address(&self) -> Address {
            let (t, b) = match &self.1 { StakeCredential::Key(k) => (0x60, k.to_bytes()), StakeCredential::Script(k) => (0x70, k.to_bytes()) };
            let mut v = vec![t | (self.0 & 15)];
            v.extend(b);
            Address(v)
        }
    }
    #[derive(Debug, Clone)]
    pub struct NetworkInfo(u8, u32);
    impl NetworkInfo {
        pub fn new(network_id: u8, protocol_magic: u32) -> Self { NetworkInfo(network_id, protocol_magic) }
        pub fn mainnet() -> Self { NetworkInfo(1, 764824073) }
        pub fn testnet() -> Self { NetworkInfo(0, 1097911063) }
        pub fn network_id(&self) -> u8 { self.0 }
        pub fn protocol_magic(&self) -> u32 { self.1 }
    }
}

pub mod builders {
    pub mod witness_builder {
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct PartialPlutusWitness(pub Vec<u8>);
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct NativeScriptWitnessInfo(pub Vec<u8>);
    }
    pub mod input_builder {
        use crate::*;
        #[derive(Debug, Clone)]
        pub struct InputBuilderResult { pub input: TransactionInput, pub utxo_info: TransactionOutput, pub kind: &'static str }
        pub struct SingleInputBuilder(TransactionInput, TransactionOutput);
        impl SingleInputBuilder {
            pub fn new(i: &TransactionInput, o: &TransactionOutput) -> Self { SingleInputBuilder(i.clone(), o.clone()) }
            fn done(&self, kind: &'static str) -> R<InputBuilderResult> { Ok(InputBuilderResult { input: self.0.clone(), utxo_info: self.1.clone(), kind }) }
            pub fn payment_key(&self) -> R<InputBuilderResult> { self.done("key") }
            pub fn native_script(&self, _: &NativeScript, _: &witness_builder::NativeScriptWitnessInfo) -> R<InputBuilderResult> { self.done("native") }
            pub fn plutus_script(&self, _: &witness_builder::PartialPlutusWitness, _: &RequiredSigners, _: &plutus::PlutusData) -> R<InputBuilderResult> { self.done("plutus") }
        }
        use crate::builders::witness_builder;
    }
    pub mod output_builder {
        use crate::*;
        #[derive(Debug, Clone)]
        pub struct SingleOutputBuilderResult(pub TransactionOutput);
        impl SingleOutputBuilderResult { pub fn new(o: &TransactionOutput) -> Self { SingleOutputBuilderResult(o.clone()) } }
    }
    pub mod tx_builder {
        use super::{input_builder::InputBuilderResult, output_builder::SingleOutputBuilderResult};
        use crate::ledger::alonzo::fees::LinearFee;
        use crate::*;
        #[derive(Debug, Clone)]
        pub struct TransactionBuilderConfig { pub fee: LinearFee, pub max_tx_size: u32 }
        #[derive(Debug, Clone, Default)]
        pub struct TransactionBuilderConfigBuilder { fee: Option<LinearFee>, max: u32 }
        impl TransactionBuilderConfigBuilder {
            pub fn new() -> Self { Default::default() }
            pub fn fee_algo(mut self, f: &LinearFee) -> Self { self.fee = Some(f.clone()); self }
            pub fn coins_per_utxo_word(self, _: &Coin) -> Self { self }
            pub fn coins_per_utxo_byte(self, _: &Coin) -> Self { self }
            pub fn pool_deposit(self, _: &BigNum) -> Self { self }
            pub fn key_deposit(self, _: &BigNum) -> Self { self }
            pub fn max_value_size(self, _: u32) -> Self { self }
            pub fn max_tx_size(mut self, n: u32) -> Self { self.max = n; self }
            pub fn build(&self) -> R<TransactionBuilderConfig> { Ok(TransactionBuilderConfig { fee: self.fee.clone().ok_or(JsError("fee".into()))?, max_tx_size: self.max }) }
        }
        /// what it is given, and a fee that grows with it
        #[derive(Debug, Clone)]
        pub struct TransactionBuilder { pub config: TransactionBuilderConfig, pub inputs: Vec<InputBuilderResult>, pub outputs: Vec<SingleOutputBuilderResult>, pub fee: Option<Coin> }
        impl TransactionBuilder {
            pub fn new(c: &TransactionBuilderConfig) -> Self { TransactionBuilder { config: c.clone(), inputs: vec![], outputs: vec![], fee: None } }
            pub fn full_size(&self) -> R<usize> { Ok(15 + 38 * self.inputs.len() + 145 * self.outputs.len()) }
            pub fn min_fee(&self, _: bool) -> R<Coin> { self.config.fee.coefficient().checked_mul(&BigNum::from(self.full_size()? as u64))?.checked_add(&self.config.fee.constant()) }
            pub fn set_fee(&mut self, f: &Coin) { self.fee = Some(*f) }
            pub fn add_input(&mut self, i: &InputBuilderResult) -> R<()> { self.inputs.push(i.clone()); Ok(()) }
            pub fn add_output(&mut self, o: &SingleOutputBuilderResult) -> R<()> { self.outputs.push(o.clone()); Ok(()) }
            pub fn fee_for_input(&self, _: &InputBuilderResult) -> R<Coin> { self.config.fee.coefficient().checked_mul(&BigNum::from(38)) }
            pub fn fee_for_output(&self, _: &SingleOutputBuilderResult) -> R<Coin> { self.config.fee.coefficient().checked_mul(&BigNum::from(145)) }
        }
    }
}
