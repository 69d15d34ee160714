use crate::{chars, guarded, nat};
use dcspark_core::{BlockNumber, OutputIndex, SlotNumber, Timestamp};
use deps::serde_json::{self, json, Map, Value as J};

/// what the four number types have in common; an operation a type does not have gives None
trait N: Copy + Ord + std::fmt::Display + std::str::FromStr + serde::Serialize + serde::de::DeserializeOwned {
    fn new(x: u64) -> Self;
    fn get(self) -> u64;
    fn op(self, _op: &str, _y: u64) -> Option<Option<Self>> { None }
}
macro_rules! n {
    ($T:ident, $get:expr $(, $op:literal => $f:expr)*) => {
        impl N for $T {
            fn new(x: u64) -> Self { $T::new(x) }
            fn get(self) -> u64 { let g: fn($T) -> u64 = $get; g(self) }
            #[allow(unused_variables)]
            fn op(self, op: &str, y: u64) -> Option<Option<Self>> {
                match op {
                    $($op => { let f: fn($T, u64) -> Option<$T> = $f; Some(f(self, y)) })*
                    _ => None,
                }
            }
        }
    };
}
n!(BlockNumber, |x| x.into_inner(),
   "checked_next" => |x, _| x.checked_next(), "saturating_next" => |x, _| Some(x.saturating_next()),
   "checked_add" => |x, y| x.checked_add(y), "saturating_add" => |x, y| Some(x.saturating_add(y)),
   "saturating_sub" => |x, y| Some(x.saturating_sub(y)));
n!(SlotNumber, |x| u64::from(x),
   "checked_next" => |x, _| x.checked_next(), "saturating_next" => |x, _| Some(x.saturating_next()),
   "checked_add" => |x, y| x.checked_add(y), "saturating_add" => |x, y| Some(x.saturating_add(y)));
n!(OutputIndex, |x| u64::from(x),
   "checked_next" => |x, _| x.checked_next(), "saturating_next" => |x, _| Some(x.saturating_next()),
   "checked_add" => |x, y| x.checked_add(y), "saturating_add" => |x, y| Some(x.saturating_add(y)));
n!(Timestamp, |x| x.into_inner());

fn one<T: N>(o: &J) -> Map<String, J> {
    let mut e = o.as_object().unwrap().clone();
    let op = o["op"].as_str().unwrap().to_string();
    let big = |k: &str| o[k].as_str().map(|s| s.parse::<u64>().unwrap()).unwrap_or(0);
    let (x, y) = (big("x"), big("y"));
    let shown = |r: Option<T>| r.map(|v| vec![nat(v.get())]).unwrap_or_default();
    let res = guarded(|| match op.as_str() {
        "new" => {
            let v = T::new(x);
            json!([nat(v.get())])
        }
        "cmp" => {
            let (a, b) = (T::new(x), T::new(y));
            let f = |b: bool| vec![b as u64];
            json!([f(a < b), f(a == b), f(a > b)])
        }
        "show" => json!([chars(&T::new(x).to_string())]),
        "write" => json!([chars(&serde_json::to_string(&T::new(x)).unwrap())]),
        "parse" => json!(shown(o["t"].as_str().unwrap().parse::<T>().ok())),
        "json" => json!(shown(serde_json::from_str::<T>(o["t"].as_str().unwrap()).ok())),
        "from_value" => json!(shown(serde_json::from_str::<J>(o["t"].as_str().unwrap()).ok().and_then(|v| serde_json::from_value::<T>(v).ok()))),
        _ => match T::new(x).op(&op, y) {
            Some(r) => json!(shown(r)),
            None => json!("no such operation"),
        },
    });
    let k = match &res {
        Ok(J::String(_)) => "none",
        Ok(_) => "ok",
        Err(_) => "panic",
    };
    e.insert("x".into(), nat(x));
    e.insert("y".into(), nat(y));
    if let Some(t) = o["t"].as_str() { e.insert("t".into(), chars(t)); } else { e.insert("t".into(), json!([])); }
    e.insert("k".into(), json!(k));
    e.insert("r".into(), if k == "ok" { res.unwrap() } else { json!([]) });
    e
}

pub fn run(t: &J) -> Map<String, J> {
    let ev: Vec<J> = t["ops"].as_array().unwrap().iter().map(|o| J::Object(match o["ty"].as_str().unwrap() {
        "block" => one::<BlockNumber>(o),
        "slot" => one::<SlotNumber>(o),
        "output" => one::<OutputIndex>(o),
        _ => one::<Timestamp>(o),
    })).collect();
    let mut m = Map::new();
    m.insert("ev".into(), json!(ev));
    m
}
