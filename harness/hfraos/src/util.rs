use serde_json::{json, Value};
use std::ffi::CString;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// content of the record with this seed and length
pub fn record(seed: u64, len: usize) -> Vec<u8> {
    let mut v = vec![0u8; len];
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03;
    for c in v.chunks_mut(8) {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let b = (x ^ (x >> 29)).to_le_bytes();
        c.copy_from_slice(&b[..c.len()]);
    }
    // about one record in four has zero bytes at its ends
    if len > 0 && seed % 4 == 3 {
        let k = len.min(9);
        v[..k].fill(0);
        v[len - k..].fill(0);
    }
    v
}

/// name of some bytes: a 62-bit hash and the length
pub fn token(b: &[u8]) -> Value {
    json!({"h": format!("{:x}", hash(b)), "l": b.len()})
}

pub fn hash(b: &[u8]) -> u64 {
    let mut h: u64 = 0x243F6A8885A308D3 ^ (b.len() as u64);
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x9FB21C651E98DF25);
        h ^= h >> 32;
    }
    for &c in it.remainder() {
        h = (h ^ c as u64).wrapping_mul(0x100000001B3);
        h ^= h >> 29;
    }
    h
}

/// numbers that do not fit TLC's integers are all written as -1 ("huge")
pub fn num(n: usize) -> i64 {
    if n > 1_000_000_000 { -1 } else { n as i64 }
}
pub fn number(v: &Value) -> usize {
    match v {
        Value::String(s) => s.parse().unwrap(),
        v => v.as_u64().unwrap() as usize,
    }
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    })
}

fn sym(name: &str) -> Option<*mut libc::c_void> {
    let c = CString::new(name).unwrap();
    let p = unsafe { libc::dlsym(libc::RTLD_DEFAULT, c.as_ptr()) };
    if p.is_null() { None } else { Some(p) }
}
pub mod shim {
    use super::*;
    pub fn fail(n: i64, errno: i32, kinds: i32) {
        if let Some(p) = sym("shim_fail") {
            let f: extern "C" fn(libc::c_long, i32, i32) = unsafe { std::mem::transmute(p) };
            f(n, errno, kinds)
        } else { panic!("shim missing") }
    }
    pub fn kill(n: i64, mode: i32) {
        let f: extern "C" fn(libc::c_long, i32) = unsafe { std::mem::transmute(sym("shim_kill").expect("shim missing")) };
        f(n, mode)
    }
    pub fn off() {
        if let Some(p) = sym("shim_off") {
            let f: extern "C" fn() = unsafe { std::mem::transmute(p) };
            f()
        }
    }
    pub fn fired() -> bool {
        let f: extern "C" fn() -> i32 = unsafe { std::mem::transmute(sym("shim_fired").expect("shim missing")) };
        f() != 0
    }
    pub fn count() -> i64 {
        let f: extern "C" fn() -> libc::c_long = unsafe { std::mem::transmute(sym("shim_count").expect("shim missing")) };
        f()
    }
    pub fn delay(max_us: u32, seed: u64) {
        if let Some(p) = sym("shim_delay") {
            let f: extern "C" fn(u32, u64) = unsafe { std::mem::transmute(p) };
            f(max_us, seed)
        }
    }
    pub fn shadow(src: &str, dst: &str) {
        let f: extern "C" fn(*const libc::c_char, *const libc::c_char) = unsafe { std::mem::transmute(sym("shim_shadow").expect("shim missing")) };
        let (a, b) = (CString::new(src).unwrap(), CString::new(dst).unwrap());
        f(a.as_ptr(), b.as_ptr())
    }
    pub fn shadow_off() {
        if let Some(p) = sym("shim_shadow_off") {
            let f: extern "C" fn() = unsafe { std::mem::transmute(p) };
            f()
        }
    }
}
