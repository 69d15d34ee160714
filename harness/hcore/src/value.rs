use crate::{chars, dec, guarded, limbs, number};
use dcspark_core::{algo, cardano, evm, Normalized, Regulated, Rule, TokenId, Value};
use deps::bigdecimal::{BigDecimal, ToPrimitive};
use deps::serde_json::{self, json, Map, Value as J};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

macro_rules! units {
    ($($U:ident $T:ty, $n:literal);*) => {

        enum V { $($U(Value<$T>)),* }
        impl V {
            fn make(unit: &str, b: BigDecimal) -> V { match unit { $($n => V::$U(Value::new(b)),)* _ => panic!("{unit}") } }
            fn parse(unit: &str, t: &str) -> Option<V> { match unit { $($n => t.parse().ok().map(V::$U),)* _ => panic!("{unit}") } }
            fn json(unit: &str, t: &str) -> Option<V> { match unit { $($n => serde_json::from_str(t).ok().map(V::$U),)* _ => panic!("{unit}") } }
            fn unit(&self) -> &'static str { match self { $(V::$U(_) => $n),* } }
            fn raw(&self) -> &BigDecimal { match self { $(V::$U(v) => v.raw()),* } }
            fn dup(&self) -> V { match self { $(V::$U(v) => V::$U(v.clone())),* } }
            fn trunc(&self) -> V { match self { $(V::$U(v) => V::$U(v.truncate())),* } }
            fn show(&self) -> String { match self { $(V::$U(v) => v.to_string()),* } }
            fn prim(&self) -> (Option<u64>, Option<i64>) { match self { $(V::$U(v) => (v.to_u64(), v.to_i64())),* } }
            fn const_(unit: &str, one: bool) -> V { match unit { $($n => V::$U(if one { Value::one() } else { Value::zero() }),)* _ => panic!("{unit}") } }
            fn from_u64(unit: &str, x: u64) -> V { match unit { $($n => V::$U(Value::from(x)),)* _ => panic!("{unit}") } }
            fn mul(&self, how: &str, n: u64) -> V { match self { $(V::$U(v) => V::$U(match how {
                "u32" => v.clone() * (n as u32), "ru32" => v * (n as u32), "usize" => v.clone() * (n as usize), _ => v * (n as usize) })),* } }
            fn div(&self, how: &str, n: u64) -> V { match self { $(V::$U(v) => V::$U(match how { "owned" => v.clone() / (n as usize), _ => v / (n as usize) })),* } }
            fn add(&self, how: &str, o: &V) -> V { match (self, o) { $((V::$U(a), V::$U(b)) => V::$U(match how {
                "oo" => a.clone() + b.clone(), "ro" => a + b.clone(), "rr" => a + b, "or" => a.clone() + b,
                "assign" => { let mut c = a.clone(); c += b.clone(); c } _ => { let mut c = a.clone(); c += b; c } }),)* _ => panic!("units") } }
            fn sub(&self, how: &str, o: &V) -> V { match (self, o) { $((V::$U(a), V::$U(b)) => V::$U(match how {
                "oo" => a.clone() - b.clone(), "rr" => a - b, "or" => a.clone() - b,
                "assign" => { let mut c = a.clone(); c -= b.clone(); c } _ => { let mut c = a.clone(); c -= b; c } }),)* _ => panic!("units") } }
            fn sum(unit: &str, how: &str, xs: &[&V]) -> V { match unit { $($n => { let vs: Vec<Value<$T>> = xs.iter().map(|x| match x { V::$U(v) => v.clone(), _ => panic!("units") }).collect();
                V::$U(if how == "ref" { vs.iter().sum() } else { vs.into_iter().sum() }) })* _ => panic!("{unit}") } }
            fn cmp(&self, o: &V) -> (bool, bool, bool, bool, bool) { match (self, o) { $((V::$U(a), V::$U(b)) => {
                let h = |v: &Value<$T>| { let mut s = DefaultHasher::new(); v.hash(&mut s); s.finish() };
                (a < b, a == b, a > b, h(a) == h(b), a.cmp(b) == std::cmp::Ordering::Equal && a.partial_cmp(b) == Some(std::cmp::Ordering::Equal)) })* _ => panic!("units") } }
        }
        $(impl From<Value<$T>> for V { fn from(v: Value<$T>) -> V { V::$U(v) } })*
    };
}
units!(Norm Normalized, "normalized"; Reg Regulated, "regulated"; Love cardano::Lovelace, "lovelace"; Ada cardano::Ada, "ada";
       Ether evm::Ether, "ether"; Wei evm::Wei, "wei"; Algo algo::Algo, "algo"; Micro algo::MicroAlgo, "microalgo");

/// the conversions between units, by the name of the function and the unit it starts from
fn convert(v: &V, f: &str, rule: &Rule) -> V {
    match (v, f) {
        (V::Ada(x), "normalize") => x.normalize().into(),
        (V::Ada(x), "to_lovelace") => x.to_lovelace().into(),
        (V::Ada(x), "into_lovelace") => Value::<cardano::Lovelace>::from(x.clone()).into(),
        (V::Ada(x), "into_normalized") => Value::<Normalized>::from(x.clone()).into(),
        (V::Love(x), "normalize") => x.normalize().into(),
        (V::Love(x), "to_ada") => x.to_ada().into(),
        (V::Love(x), "to_regulated") => x.to_regulated().into(),
        (V::Love(x), "into_normalized") => Value::<Normalized>::from(x.clone()).into(),
        (V::Reg(x), "to_lovelace") => Value::<cardano::Lovelace>::from_regulated(x).into(),
        (V::Reg(x), "from_mainchain") => x.normalize_from_mainchain(rule).into(),
        (V::Reg(x), "from_sidechain") => x.normalize_from_sidechain(rule).into(),
        (V::Norm(x), "to_mainchain") => Value::<Regulated>::from_normalized_to_mainchain(x, rule).into(),
        (V::Norm(x), "to_sidechain") => Value::<Regulated>::from_normalized_to_sidechain(x, rule).into(),
        (V::Norm(x), "to_ada") => Value::<cardano::Ada>::from_normalized(x).into(),
        (V::Norm(x), "into_ada") => Value::<cardano::Ada>::from(x.clone()).into(),
        (V::Norm(x), "to_lovelace") => Value::<cardano::Lovelace>::from_normalized(x).into(),
        (V::Norm(x), "into_lovelace") => Value::<cardano::Lovelace>::from(x.clone()).into(),
        (V::Norm(x), "to_ether") => Value::<evm::Ether>::from_normalized(x).into(),
        (V::Norm(x), "into_ether") => Value::<evm::Ether>::from(x.clone()).into(),
        (V::Norm(x), "to_wei") => Value::<evm::Wei>::from_normalized(x).into(),
        (V::Norm(x), "into_wei") => Value::<evm::Wei>::from(x.clone()).into(),
        (V::Norm(x), "to_algo") => Value::<algo::Algo>::from_normalized(x).into(),
        (V::Norm(x), "to_microalgo") => Value::<algo::MicroAlgo>::from_normalized(x).into(),
        (V::Norm(x), "into_microalgo") => Value::<algo::MicroAlgo>::from(x.clone()).into(),
        (V::Ether(x), "normalize") => x.normalize().into(),
        (V::Ether(x), "to_wei") => x.to_wei().into(),
        (V::Ether(x), "into_normalized") => Value::<Normalized>::from(x.clone()).into(),
        (V::Wei(x), "normalize") => x.normalize().into(),
        (V::Wei(x), "to_ether") => x.to_ether().into(),
        (V::Wei(x), "into_normalized") => Value::<Normalized>::from(x.clone()).into(),
        (V::Algo(x), "normalize") => x.normalize().into(),
        (V::Algo(x), "to_microalgo") => x.to_microalgo().into(),
        (V::Algo(x), "into_normalized") => Value::<Normalized>::from(x.clone()).into(),
        (V::Micro(x), "normalize") => x.normalize().into(),
        (V::Micro(x), "to_algo") => x.to_algo().into(),
        (V::Micro(x), "into_normalized") => Value::<Normalized>::from(x.clone()).into(),
        (v, f) => panic!("{} {f}", v.unit()),
    }
}

pub fn run(t: &J) -> Map<String, J> {
    let n = t["n"].as_u64().unwrap() as usize;
    let mut reg: Vec<V> = (0..n).map(|_| V::make("lovelace", BigDecimal::from(0))).collect();
    let mut ev = vec![];
    for o in t["ops"].as_array().unwrap() {
        let ix = |k: &str| o[k].as_u64().map(|x| x as usize - 1);
        let a = ix("a").unwrap();
        let (how, unit) = (o["how"].as_str().unwrap_or("").to_string(), o["u"].as_str().unwrap_or("").to_string());
        let text = o["t"].as_str().unwrap_or("");
        let k = o["n"].as_str().map(|s| s.parse::<u64>().unwrap()).unwrap_or(0);
        let mut e = o.as_object().unwrap().clone();
        e.remove("n");
        let mut extra: Vec<(&str, J)> = vec![];
        let r = guarded(|| {
            let src = &reg[ix("x").unwrap_or(0)];
            let y = &reg[ix("y").unwrap_or(0)];
            match o["op"].as_str().unwrap() {
                "set" => {
                    let b = number(&o["v"]);
                    extra.push(("v", dec(&b)));
                    Some(V::make(&unit, b))
                }
                "const" => Some(match how.as_str() { "zero" => V::const_(&unit, false), "one" => V::const_(&unit, true), _ => V::from_u64(&unit, k) }),
                "parse" => V::parse(&unit, text),
                "json" => V::json(&unit, text),
                "conv" => {
                    let p = |k: &str| o[k].as_i64().unwrap_or(0);
                    let rule = if o["erc20"] == true { Rule::ERC20 } else { Rule { asset: TokenId::new_static("x"), mainchain_decimal_precision: p("pm"), sidechain_decimal_precision: p("ps") } };
                    extra.push(("pm", json!(rule.mainchain_decimal_precision)));
                    extra.push(("ps", json!(rule.sidechain_decimal_precision)));
                    Some(convert(src, &how, &rule))
                }
                "add" => Some(src.add(&how, y)),
                "sub" => Some(src.sub(&how, y)),
                "mul" => Some(src.mul(&how, k)),
                "div" => Some(src.div(&how, k)),
                "sum" => {
                    let xs: Vec<&V> = o["xs"].as_array().unwrap().iter().map(|i| &reg[i.as_u64().unwrap() as usize - 1]).collect();
                    Some(V::sum(&unit, &how, &xs))
                }
                "trunc" => Some(src.trunc()),
                "copy" => Some(src.dup()),
                "cmp" => {
                    let (lt, eq, gt, h, c) = src.cmp(y);
                    extra.push(("lt", json!(lt)));
                    extra.push(("eq", json!(eq)));
                    extra.push(("gt", json!(gt)));
                    extra.push(("heq", json!(h)));
                    extra.push(("ceq", json!(c)));
                    Some(reg[a].dup())
                }
                "prim" => {
                    let (u, i) = src.prim();
                    extra.push(("u64", json!(u.map(|x| vec![limbs(&x.to_string())]).unwrap_or_default())));
                    extra.push(("i64", json!(i.map(|x| vec![dec(&BigDecimal::from(x))]).unwrap_or_default())));
                    Some(reg[a].dup())
                }
                "show" => {
                    // what is shown, read by another decimal reader than the one of the value
                    let s = src.show();
                    extra.push(("back", match s.parse::<BigDecimal>() { Ok(b) => json!([dec(&b)]), Err(_) => json!([]) }));
                    Some(reg[a].dup())
                }
                op => panic!("{op}"),
            }
        });
        e.insert("t".into(), chars(text));
        e.insert("num".into(), limbs(&k.to_string()));
        for (k, v) in extra { e.insert(k.into(), v); }
        let k = match r {
            Ok(Some(v)) => { reg[a] = v; "ok" }
            Ok(None) => "err",
            Err(m) => { e.insert("msg".into(), json!(m)); "panic" }
        };
        e.insert("k".into(), json!(k));
        e.insert("r".into(), dec(reg[a].raw()));
        e.insert("ru".into(), json!(reg[a].unit()));
        ev.push(J::Object(e));
    }
    let mut m = Map::new();
    m.insert("n".into(), json!(n));
    m.insert("ev".into(), json!(ev));
    m
}
