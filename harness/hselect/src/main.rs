//! Interpreter of selection scripts: runs the selection algorithms of utxo-selection and writes down
//! what they returned. It judges nothing; the TLA+ trace specifications do. All amounts of a script
//! are small integers, multiplied here by the script's unit.
use dcspark_core::tx::{TransactionAsset, TransactionId, UTxOBuilder, UTxODetails, UtxoPointer};
use dcspark_core::{Address, AssetName, OutputIndex, PolicyId, Regulated, TokenId, UTxOStore, Value};
use deps::bigdecimal::{num_bigint::BigInt, BigDecimal, ToPrimitive};
use deps::serde_json::{self, json, Map, Value as J};
use std::collections::HashMap;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
use utxo_selection::algorithms::{FeeChangeBalancer, LargestFirst, RandomImprove, SingleOutputChangeBalancer, Thermostat, ThermostatAlgoConfig};
use utxo_selection::{InputOutputSetup, InputSelectionAlgorithm, InputSelectionResult, TransactionFeeEstimator, UTxOStoreSupport};

type V = Value<Regulated>;
type Setup = InputOutputSetup<UTxODetails, UTxOBuilder>;
type Res = InputSelectionResult<UTxODetails, UTxOBuilder>;

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    })
}

/// the unit all amounts are multiples of
#[derive(Clone)]
struct Unit(BigDecimal);
impl Unit {
    fn val(&self, n: i64) -> V { Value::new(BigDecimal::from(n) * &self.0) }
    /// the multiple, or something no specification accepts
    fn of(&self, v: &V) -> J {
        let q = v.raw() / &self.0;
        let n = q.to_i64().unwrap_or(-999999999);
        if BigDecimal::from(n) * &self.0 == *v.raw() && n.abs() < 1 << 30 { json!(n) } else { json!(-999999999) }
    }
}

/// linear fees: per input, per output, per token in them
#[derive(Clone)]
struct Est { u: Unit, base: i64, inp: i64, ina: i64, out: i64, outa: i64, min: i64, max: usize, size: usize, sin: usize, sout: usize, fee: i64 }
impl Est {
    fn new(j: &J, u: &Unit) -> Self {
        let g = |k: &str| j[k].as_i64().unwrap_or(0);
        Est { u: u.clone(), base: g("base"), inp: g("in"), ina: g("ina"), out: g("out"), outa: g("outa"), min: g("min"), max: g("max") as usize, size: 0, sin: g("sin") as usize, sout: g("sout") as usize, fee: 0 }
    }
    fn fin(&self, i: &UTxODetails) -> i64 { self.inp + self.ina * i.assets.len() as i64 }
    fn fout(&self, o: &UTxOBuilder) -> i64 { self.out + self.outa * o.assets.len() as i64 }
}
impl TransactionFeeEstimator for Est {
    type InputUtxo = UTxODetails;
    type OutputUtxo = UTxOBuilder;
    fn min_required_fee(&self) -> anyhow::Result<V> { Ok(self.u.val(self.base + self.fee)) }
    fn fee_for_input(&self, i: &UTxODetails) -> anyhow::Result<V> { Ok(self.u.val(self.fin(i))) }
    fn add_input(&mut self, i: UTxODetails) -> anyhow::Result<()> { self.fee += self.fin(&i); self.size += self.sin; Ok(()) }
    fn fee_for_output(&self, o: &UTxOBuilder) -> anyhow::Result<V> { Ok(self.u.val(self.fout(o))) }
    fn add_output(&mut self, o: UTxOBuilder) -> anyhow::Result<()> { self.fee += self.fout(&o); self.size += self.sout; Ok(()) }
    fn min_value_for_output(&mut self, _: UTxOBuilder) -> anyhow::Result<V> { Ok(self.u.val(self.min)) }
    fn current_size(&self) -> anyhow::Result<usize> { Ok(self.size) }
    fn max_size(&self) -> anyhow::Result<usize> { Ok(self.max) }
}

enum Algo { Largest(LargestFirst), Random(RandomImprove), Thermo(Thermostat), Fee(FeeChangeBalancer), Single(SingleOutputChangeBalancer) }
macro_rules! each { ($s:expr, $a:ident => $e:expr) => { match $s { Algo::Largest($a) => $e, Algo::Random($a) => $e, Algo::Thermo($a) => $e, Algo::Fee($a) => $e, Algo::Single($a) => $e } } }

struct World { u: Unit, nt: u64, utxos: Vec<UTxODetails>, style: String }
impl World {
    fn asset(&self, k: u64, q: i64) -> TransactionAsset {
        // tokens that share a policy, a name or neither; in one style fingerprint, policy and name are the same text
        let (p, n, f) = match self.style.as_str() {
            "same" => (format!("t{k}"), format!("t{k}"), format!("t{k}")),
            "pair" => (format!("p{k}"), format!("n{k}"), format!("p{k}:n{k}")),
            _ => (format!("policy{}", k % 2), format!("name{}", k / 2), format!("asset1{k:03}")),
        };
        TransactionAsset { policy_id: PolicyId::new(p), asset_name: AssetName::new(n), fingerprint: TokenId::new(f), quantity: self.u.val(q) }
    }
    fn assets(&self, t: &J) -> Vec<TransactionAsset> {
        t.as_array().unwrap().iter().enumerate().filter(|(_, q)| q.as_i64().unwrap() != 0).map(|(k, q)| self.asset(k as u64 + 1, q.as_i64().unwrap())).collect()
    }
    /// one token after the other, the quantity of each in two parts
    fn assets2(&self, t: &J, twice: bool) -> Vec<TransactionAsset> {
        let mut all = self.assets(t);
        if twice {
            for (k, q) in t.as_array().unwrap().iter().enumerate() {
                if let Some(q) = q.as_i64().filter(|q| *q > 1) {
                    let b = self.asset(k as u64 + 1, q);
                    all.iter_mut().find(|a| a.fingerprint == b.fingerprint).unwrap().quantity = self.u.val(1);
                    all.push(self.asset(k as u64 + 1, q - 1));
                }
            }
        }
        all
    }
    fn id(&self, x: &UTxODetails) -> i64 { self.utxos.iter().position(|y| y == x).map(|i| i as i64 + 1).unwrap_or(-1) }
    fn ids(&self, x: &[UTxODetails]) -> Vec<i64> { x.iter().map(|x| self.id(x)).collect() }
    fn pick(&self, j: &J) -> Vec<UTxODetails> { j.as_array().unwrap().iter().map(|i| self.utxos[i.as_u64().unwrap() as usize - 1].clone()).collect() }
    /// quantities per token; a token the script does not know makes it unacceptable
    fn toks<'a>(&self, it: impl Iterator<Item = &'a TransactionAsset>) -> J {
        let mut v: Vec<V> = vec![Value::zero(); self.nt as usize];
        for a in it {
            let Some(k) = (1..=self.nt).find(|k| { let b = self.asset(*k, 0); b.fingerprint == a.fingerprint && b.policy_id == a.policy_id && b.asset_name == a.asset_name }) else { return json!([]) };
            v[k as usize - 1] += &a.quantity;
        }
        json!(v.iter().map(|v| self.u.of(v)).collect::<Vec<_>>())
    }
    fn map(&self, m: &HashMap<TokenId, TransactionAsset>) -> J {
        if m.iter().any(|(k, v)| k != &v.fingerprint) { return json!([]) }
        self.toks(m.values())
    }
    fn negative(&self, o: &UTxOBuilder) -> bool { o.value < V::zero() || o.assets.iter().any(|a| a.quantity < V::zero()) }
}

fn store(us: Vec<UTxODetails>) -> anyhow::Result<UTxOStore> {
    let mut s = UTxOStore::new().thaw();
    for u in us { s.insert(u)? }
    Ok(s.freeze())
}

fn offer(a: &mut Algo, us: Vec<UTxODetails>, via: &str) -> anyhow::Result<()> {
    match (a, via) {
        (Algo::Largest(a), "store") => a.set_available_utxos(store(us)?),
        (Algo::Thermo(a), "store") => a.set_available_utxos(store(us)?),
        (Algo::Fee(a), "store") => a.set_available_utxos(store(us)?),
        (Algo::Single(a), "store") => a.set_available_utxos(store(us)?),
        (a, _) => each!(a, a => a.set_available_inputs(us)),
    }
}

fn create(kind: &str, us: Vec<UTxODetails>, via: &str, t: &J) -> anyhow::Result<Algo> {
    let mut a = match (kind, via) {
        ("largest", "new") => return Ok(Algo::Largest(LargestFirst::try_from(us)?)),
        ("largest", "newstore") => return Ok(Algo::Largest(LargestFirst::try_from(store(us)?)?)),
        ("random", "new") => return Ok(Algo::Random(RandomImprove::try_from(us)?)),
        ("random", "newstore") => return Ok(Algo::Random(RandomImprove::try_from(store(us)?)?)),
        ("largest", _) => Algo::Largest(LargestFirst::try_from(vec![])?),
        ("random", _) => Algo::Random(RandomImprove::try_from(vec![])?),
        ("thermostat", _) => {
            let c: ThermostatAlgoConfig = match t.get("thermo") { Some(c) if !c.is_null() => serde_json::from_value(c.clone())?, _ => Default::default() };
            Algo::Thermo(Thermostat::new(c))
        }
        ("fee", _) => Algo::Fee(FeeChangeBalancer::default()),
        ("single", _) => {
            let mut s = SingleOutputChangeBalancer::default();
            if let Some(x) = t["extra"].as_str() { s.set_extra(x.to_string()) }
            Algo::Single(s)
        }
        x => panic!("{x:?}"),
    };
    offer(&mut a, us, via)?;
    Ok(a)
}

fn select(w: &World, a: &mut Algo, kind: &str, est: &mut Est, setup: Setup, e: &mut Map<String, J>) -> Option<Res> {
    let (fi, fo) = (setup.fixed_inputs.clone(), setup.fixed_outputs.clone());
    let out = guarded(|| each!(a, a => a.select_inputs(est, setup)));
    e.insert("algo".into(), json!(kind));
    let r = match out {
        Err(m) => { e.insert("res".into(), json!("panic")); e.insert("why".into(), json!(m)); None }
        Ok(Err(m)) => { e.insert("res".into(), json!("err")); e.insert("why".into(), json!(format!("{m:#}"))); None }
        Ok(Ok(r)) => {
            e.insert("res".into(), json!("ok"));
            e.insert("chosen".into(), json!(w.ids(&r.chosen_inputs)));
            e.insert("changes".into(), json!(r.changes.iter().map(|c| json!({
                "v": w.u.of(&c.value), "t": w.toks(c.assets.iter()), "neg": w.negative(c),
                "a": c.address.to_string().trim_start_matches("addr").parse::<i64>().unwrap_or(-1), "n": c.assets.len()})).collect::<Vec<_>>()));
            e.insert("fee".into(), w.u.of(&r.fee));
            e.insert("ib".into(), w.u.of(&r.input_balance));
            e.insert("ob".into(), w.u.of(&r.output_balance));
            e.insert("ia".into(), w.map(&r.input_asset_balance));
            e.insert("oa".into(), w.map(&r.output_asset_balance));
            e.insert("same".into(), json!(r.fixed_inputs == fi && r.fixed_outputs == fo));
            e.insert("bal".into(), json!(r.is_balanced()));
            e.insert("ubal".into(), json!(r.are_utxos_balanced()));
            Some(r)
        }
    };
    e.insert("est".into(), w.u.of(&est.min_required_fee().unwrap()));
    let after = guarded(|| { let mut v = w.ids(&each!(&*a, a => a.available_inputs())); v.sort(); v });
    e.insert("after".into(), json!(after.unwrap_or(vec![-3])));
    if let Algo::Largest(_) | Algo::Thermo(_) | Algo::Fee(_) | Algo::Single(_) = a {
        let s = match a { Algo::Largest(a) => a.get_available_utxos(), Algo::Thermo(a) => a.get_available_utxos(), Algo::Fee(a) => a.get_available_utxos(), Algo::Single(a) => a.get_available_utxos(), _ => unreachable!() };
        let mut v = s.map(|s| s.iter().map(|(_, u)| w.id(u)).collect::<Vec<_>>()).unwrap_or(vec![-4]);
        v.sort();
        e.insert("afters".into(), json!(v));
    } else {
        e.insert("afters".into(), e["after"].clone());
    }
    r
}

fn run(t: &J) -> Map<String, J> {
    let unit = Unit(BigDecimal::new(t["unit"].as_str().unwrap_or("1").parse::<BigInt>().unwrap(), t["scale"].as_i64().unwrap_or(0)));
    let mut w = World { u: unit.clone(), nt: t["nt"].as_u64().unwrap(), utxos: vec![], style: t["style"].as_str().unwrap_or("").into() };
    for (i, u) in t["ut"].as_array().unwrap().iter().enumerate() {
        let x = UTxODetails {
            pointer: UtxoPointer { transaction_id: TransactionId::new(format!("tx{}", i / 3)), output_index: OutputIndex::new(i as u64 % 3) },
            address: Address::new(format!("addr{}", i % 2)), value: unit.val(u["v"].as_i64().unwrap()), assets: w.assets(&u["t"]), metadata: Arc::new(J::Null), extra: None,
        };
        w.utxos.push(x);
    }
    let via = t["via"].as_str().unwrap_or("new");
    let mut algos: HashMap<String, Algo> = HashMap::new();
    let kind = t["algo"].as_str().unwrap();
    let mut ev: Vec<J> = vec![];
    algos.insert(kind.into(), create(kind, w.pick(&t["pool"]), via, t).unwrap());
    for o in t["ops"].as_array().unwrap() {
        let mut e = Map::new();
        if o["op"] == "offer" {
            offer(algos.get_mut(kind).unwrap(), w.pick(&o["pool"]), o["via"].as_str().unwrap_or("")).unwrap();
            e.insert("op".into(), json!("offer"));
            e.insert("pool".into(), o["pool"].clone());
            let mut v = w.ids(&each!(&algos[kind], a => a.available_inputs()));
            v.sort();
            e.insert("after".into(), json!(v));
            ev.push(J::Object(e));
            continue;
        }
        let mut est = Est::new(&t["est"], &unit);
        let fixed = w.pick(&o["fixed"]);
        let outs: Vec<UTxOBuilder> = o["outs"].as_array().unwrap().iter().map(|x| UTxOBuilder::new(Address::new(format!("addr{}", x["a"])), unit.val(x["v"].as_i64().unwrap()), w.assets2(&x["t"], x["twice"] == true))).collect();
        let pre = o["pre"] != false;
        if pre {
            for i in &fixed { est.add_input(i.clone()).unwrap() }
            for x in &outs { est.add_output(x.clone()).unwrap() }
        }
        let change = o["change"].as_i64().filter(|c| *c > 0).map(|c| Address::new(format!("addr{c}")));
        let setup = Setup::from_fixed_inputs_and_outputs(fixed, outs, change.clone());
        e.insert("op".into(), json!("select"));
        for k in ["fixed", "outs", "change"] { e.insert(k.into(), o[k].clone()); }
        e.insert("pre".into(), json!(pre));
        let r = select(&w, algos.get_mut(kind).unwrap(), kind, &mut est, setup, &mut e);
        let mut e2 = e.clone();
        ev.push(J::Object(e));
        // a change balancer on top of the result
        if let (Some(r), Some(c)) = (r, o["chain"].as_str()) {
            let all: Vec<UTxODetails> = r.fixed_inputs.iter().chain(r.chosen_inputs.iter()).cloned().collect();
            let outs: Vec<UTxOBuilder> = r.fixed_outputs.clone();
            e2.insert("fixed".into(), json!(w.ids(&all)));
            e2.insert("before".into(), json!([]));
            let setup = Setup {
                input_balance: r.input_balance, input_asset_balance: r.input_asset_balance, output_balance: r.output_balance, output_asset_balance: r.output_asset_balance,
                fixed_inputs: all, fixed_outputs: outs, change_address: change,
            };
            let mut b = create(c, vec![], "set", t).unwrap();
            select(&w, &mut b, c, &mut est, setup, &mut e2);
            e2.insert("op".into(), json!("balance"));
            ev.push(J::Object(e2));
        }
    }
    let mut m = Map::new();
    for k in ["id", "judge", "nt", "ut", "pool", "est"] { m.insert(k.into(), t[k].clone()); }
    m.insert("ev".into(), json!(ev));
    m
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let mut out = BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    for l in BufReader::new(std::fs::File::open(&a[1]).unwrap()).lines() {
        let t: J = serde_json::from_str(&l.unwrap()).unwrap();
        let reps = t["reps"].as_u64().unwrap_or(1);
        let mut seen = std::collections::HashSet::new();
        let mut rows = vec![];
        for _ in 0..reps {
            let r = J::Object(run(&t));
            if seen.insert(r.to_string()) { rows.push(r) }
        }
        for mut r in rows.drain(..) {
            r["reps"] = json!(reps);
            writeln!(out, "{r}").unwrap();
        }
        writeln!(out, "{}", json!({"done": t["id"]})).unwrap();
        out.flush().unwrap();
    }
}
