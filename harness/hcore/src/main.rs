//! Interpreter of operation scripts for dcspark-core: performs the operations on the real code and
//! writes down what it observed. It judges nothing; the TLA+ trace specifications do.
mod balance;
mod num;
mod store;
mod value;
mod wire;
use deps::bigdecimal::{num_bigint::BigInt, BigDecimal};
use deps::serde_json::{self, json, Map, Value as J};
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    })
}
/// limbs of four decimal digits, the least significant first
pub fn limbs(digits: &str) -> J {
    let d = digits.trim_start_matches('0').as_bytes();
    let mut v = vec![];
    let mut end = d.len();
    while end > 0 {
        let start = end.saturating_sub(4);
        v.push(std::str::from_utf8(&d[start..end]).unwrap().parse::<u32>().unwrap());
        end = start;
    }
    json!(v)
}
pub fn nat(n: u64) -> J { limbs(&n.to_string()) }
/// sign, limbs and number of fractional digits
pub fn dec(b: &BigDecimal) -> J {
    let (i, s) = b.as_bigint_and_exponent();
    let t = i.to_string();
    let neg = t.starts_with('-');
    let m = limbs(t.trim_start_matches('-'));
    let g = if m.as_array().unwrap().is_empty() { 0 } else if neg { -1 } else { 1 };
    json!({"g": g, "m": m, "s": s})
}
/// the same without zeros at the end of the digits
pub fn canon(b: &BigDecimal) -> J {
    let (i, mut s) = b.as_bigint_and_exponent();
    let mut t = i.to_string();
    if t == "0" { s = 0 }
    while t.len() > 1 && t.ends_with('0') { t.pop(); s -= 1; }
    let m = limbs(t.trim_start_matches('-'));
    let g = if t == "0" { 0 } else if t.starts_with('-') { -1 } else { 1 };
    json!({"g": g, "m": m, "s": s})
}
/// a number of the script: {"d": digits, "s": fractional digits, "neg": bool}
pub fn number(o: &J) -> BigDecimal {
    let mut d = o["d"].as_str().unwrap().to_string();
    if o["neg"] == true { d.insert(0, '-') }
    BigDecimal::new(d.parse::<BigInt>().unwrap(), o["s"].as_i64().unwrap_or(0))
}
pub fn chars(s: &str) -> J { json!(s.chars().map(|c| c as u32).collect::<Vec<_>>()) }

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let mut out = BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    for l in BufReader::new(std::fs::File::open(&a[1]).unwrap()).lines() {
        let t: J = serde_json::from_str(&l.unwrap()).unwrap();
        let mut r: Map<String, J> = match t["kind"].as_str().unwrap() {
            "num" => num::run(&t),
            "value" => value::run(&t),
            "balance" => balance::run(&t),
            "store" => store::run(&t),
            "wire" => wire::run(&t),
            k => panic!("{k}"),
        };
        r.insert("id".into(), t["id"].clone());
        writeln!(out, "{}", J::Object(r)).unwrap();
        out.flush().unwrap();
    }
}
