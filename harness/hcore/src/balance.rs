use crate::{dec, guarded, number};
use dcspark_core::{cardano::Lovelace, Balance, Value};
use deps::serde_json::{json, Map, Value as J};

type B = Balance<Lovelace>;
fn show(b: &B) -> Map<String, J> {
    let mut m = Map::new();
    m.insert("debt".into(), json!(b.in_debt()));
    m.insert("even".into(), json!(b.balanced()));
    m.insert("excess".into(), json!(b.in_excess()));
    let v = match b {
        Balance::Balanced => dec(&Default::default()),
        Balance::Debt(v) | Balance::Excess(v) => dec(v.raw()),
    };
    m.insert("v".into(), v);
    m
}

/// registers hold balances
pub fn run(t: &J) -> Map<String, J> {
    let n = t["n"].as_u64().unwrap() as usize;
    let mut reg: Vec<B> = (0..n).map(|i| if i % 2 == 0 { B::zero() } else { B::default() }).collect();
    let mut ev = vec![];
    for o in t["ops"].as_array().unwrap() {
        let a = o["a"].as_u64().unwrap() as usize - 1;
        let v: Option<Value<Lovelace>> = o.get("v").filter(|v| v.is_object()).map(|v| Value::new(number(v)));
        let mut e = o.as_object().unwrap().clone();
        e.insert("v".into(), v.as_ref().map(|v| dec(v.raw())).unwrap_or_else(|| dec(&Default::default())));
        let how = o["how"].as_str().unwrap_or("");
        let mut eqs = vec![];
        let r = guarded(|| {
            let cur = reg[a].clone();
            reg[a] = match o["op"].as_str().unwrap() {
                "add" => { let v = v.unwrap(); match how {
                    "owned" => cur + v,
                    "ref" => &cur + &v,
                    "assign" => { let mut c = cur; c += v; c }
                    _ => { let mut c = cur; c += &v; c }
                }}
                "sub" => { let v = v.unwrap(); match how {
                    "owned" => cur - v,
                    "ref" => &cur - &v,
                    "assign" => { let mut c = cur; c -= v; c }
                    _ => { let mut c = cur; c -= &v; c }
                }}
                "join" => cur + reg[o["b"].as_u64().unwrap() as usize - 1].clone(),
                _ => B::zero(),
            };
            for b in &reg { eqs.push(*b == reg[a]); }
        });
        e.insert("k".into(), json!(if r.is_ok() { "ok" } else { "panic" }));
        e.insert("eqs".into(), json!(eqs));
        e.insert("r".into(), J::Object(show(&reg[a])));
        ev.push(J::Object(e));
    }
    let mut m = Map::new();
    m.insert("n".into(), json!(n));
    m.insert("ev".into(), json!(ev));
    m
}
