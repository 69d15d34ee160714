use crate::util::*;
use fraos::{Database, SeqNoIter};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap};
use std::fs;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::path::{Path, PathBuf};

/// outcome of an operation: k = ok | none | err | panic, t = records read, n = number returned
pub fn out(k: &str, t: Vec<Value>, n: i64, msg: String) -> Map<String, Value> {
    let mut m = Map::new();
    m.insert("k".into(), json!(k));
    m.insert("t".into(), Value::Array(t));
    m.insert("n".into(), json!(n));
    m.insert("msg".into(), json!(msg));
    m
}
fn rec_result(r: Result<Result<Option<Vec<u8>>, fraos::FraosError>, String>) -> Map<String, Value> {
    match r {
        Err(p) => out("panic", vec![], 0, p),
        Ok(Err(e)) => out("err", vec![], 0, format!("{e:?}")),
        Ok(Ok(None)) => out("none", vec![], 0, String::new()),
        Ok(Ok(Some(b))) => out("ok", vec![token(&b)], 0, String::new()),
    }
}

pub fn records(op: &Value) -> Vec<Vec<u8>> {
    op["recs"].as_array().unwrap().iter().map(|r| record(r[0].as_u64().unwrap(), r[1].as_u64().unwrap() as usize)).collect()
}

pub fn append(db: &Database, op: &Value, recs: &[Vec<u8>]) -> Map<String, Value> {
    let refs: Vec<&[u8]> = recs.iter().map(|v| v.as_slice()).collect();
    match op["api"].as_str().unwrap_or("seqno") {
        "put" => match guarded(|| db.put_seqno(refs[0])) {
            Err(p) => out("panic", vec![], 0, p),
            Ok(Err(e)) => out("err", vec![], 0, format!("{e:?}")),
            Ok(Ok(n)) => out("ok", vec![], num(n), String::new()),
        },
        _ => match guarded(|| db.append_get_seqno(&refs)) {
            Err(p) => out("panic", vec![], 0, p),
            Ok(Err(e)) => out("err", vec![], 0, format!("{e:?}")),
            Ok(Ok(None)) => out("none", vec![], 0, String::new()),
            Ok(Ok(Some(n))) => out("ok", vec![], num(n), String::new()),
        },
    }
}

pub fn read_all(it: SeqNoIter, max: usize) -> Map<String, Value> {
    match guarded(|| {
        let mut v = vec![];
        for r in it {
            v.push(token(&r?));
            if v.len() >= max { break; }
        }
        Ok::<_, fraos::FraosError>(v)
    }) {
        Err(p) => out("panic", vec![], 0, p),
        Ok(Err(e)) => out("err", vec![], 0, format!("{e:?}")),
        Ok(Ok(v)) => out("ok", v, 0, String::new()),
    }
}

struct World {
    scratch: PathBuf,
    handles: HashMap<String, Database>,
    dirs: HashMap<String, PathBuf>,
    iters: HashMap<String, SeqNoIter>,
}

/// names and hashes of all files below a directory
pub fn files(dir: &Path) -> BTreeMap<String, (u64, u64)> {
    let mut m = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() { todo.push(p) } else {
                let b = fs::read(&p).unwrap_or_default();
                m.insert(p.strip_prefix(dir).unwrap().to_string_lossy().into_owned(), (b.len() as u64, hash(&b)));
            }
        }
    }
    m
}

impl World {
    fn step(&mut self, op: &Value) -> Map<String, Value> {
        let s = |k: &str| op[k].as_str().unwrap_or("").to_string();
        let h = s("h");
        match op["op"].as_str().unwrap() {
            "open" => {
                let dir = self.scratch.join(s("dir"));
                let r = guarded(|| match op["mode"].as_str().unwrap() {
                    "mem" => Database::memory(),
                    "rw" => Database::file(&dir),
                    "ro" => Database::file_readonly(&dir),
                    _ => unreachable!(),
                });
                match r {
                    Err(p) => out("panic", vec![], 0, p),
                    Ok(Err(e)) => out("err", vec![], 0, format!("{e:?}")),
                    Ok(Ok(d)) => {
                        let n = num(d.len());
                        self.handles.insert(h.clone(), d);
                        self.dirs.insert(h, dir);
                        out("ok", vec![], n, String::new())
                    }
                }
            }
            "clone" => {
                let d = self.handles[&s("from")].clone();
                let dir = self.dirs[&s("from")].clone();
                self.handles.insert(h.clone(), d);
                self.dirs.insert(h, dir);
                out("ok", vec![], 0, String::new())
            }
            "drop" => {
                let d = self.handles.remove(&h);
                match guarded(move || drop(d)) {
                    Err(p) => out("panic", vec![], 0, p),
                    Ok(()) => out("ok", vec![], 0, String::new()),
                }
            }
            // like the end of the process that has the handle: nothing is closed
            "lose" => { std::mem::forget(self.handles.remove(&h)); out("ok", vec![], 0, String::new()) }
            "append" => {
                let recs = records(op);
                let fault = op["fault"].as_i64().unwrap_or(0);
                let db = &self.handles[&h];
                if fault > 0 { shim::fail(fault, op["errno"].as_i64().unwrap_or(28) as i32, op["kinds"].as_i64().unwrap_or((1 << 1) | (1 << 3) | (1 << 4) | (1 << 5) | (1 << 6)) as i32) }
                let mut m = append(db, op, &recs);
                if fault > 0 {
                    shim::off();
                    m.insert("fired".into(), json!(shim::fired()));
                }
                m.insert("recs".into(), Value::Array(recs.iter().map(|r| token(r)).collect()));
                m
            }
            "get" => {
                let n = number(&op["i"]);
                let db = &self.handles[&h];
                rec_result(guarded(|| db.get_by_seqno(n)))
            }
            "last" => { let db = &self.handles[&h]; rec_result(guarded(|| db.last())) }
            "len" => {
                let db = &self.handles[&h];
                match guarded(|| (db.len(), db.is_empty())) {
                    Err(p) => out("panic", vec![], 0, p),
                    Ok((n, e)) => { let mut m = out("ok", vec![], num(n), String::new()); m.insert("empty".into(), json!(e)); m }
                }
            }
            "all" => {
                let db = &self.handles[&h];
                let n = number(&op["i"]);
                match guarded(|| db.iter_from_seqno(n)) {
                    Err(p) => out("panic", vec![], 0, p),
                    Ok(None) => out("none", vec![], 0, String::new()),
                    Ok(Some(it)) => read_all(it, usize::MAX),
                }
            }
            "iter" => {
                let db = &self.handles[&h];
                let n = number(&op["i"]);
                match guarded(|| db.iter_from_seqno(n)) {
                    Err(p) => out("panic", vec![], 0, p),
                    Ok(None) => out("none", vec![], 0, String::new()),
                    Ok(Some(it)) => { self.iters.insert(s("it"), it); out("ok", vec![], 0, String::new()) }
                }
            }
            "next" => {
                let it = self.iters.get_mut(&s("it")).unwrap();
                rec_result(guarded(|| it.next_impl()))
            }
            "dropiter" => { let it = self.iters.remove(&s("it")); let _ = guarded(move || drop(it)); out("ok", vec![], 0, String::new()) }
            // the files of a directory: a fingerprint of all of them and the size of the biggest, the records
            "files" => {
                let f = files(&self.scratch.join(s("dir")));
                let all = hash(format!("{f:?}").as_bytes());
                let mut m = out("ok", vec![], 0, String::new());
                m.insert("print".into(), json!(format!("{all:x}")));
                m.insert("data".into(), json!(f.get("data").map(|x| num(x.0 as usize)).unwrap_or(-2)));
                m.insert("index".into(), json!(f.get("seqno").map(|x| num(x.0 as usize)).unwrap_or(-2)));
                m
            }
            x => panic!("unknown op {x}"),
        }
    }
}

pub fn run_history(tr: &Value, scratch: &Path) -> Value {
    let mut w = World { scratch: scratch.to_path_buf(), handles: HashMap::new(), dirs: HashMap::new(), iters: HashMap::new() };
    fs::create_dir_all(scratch).unwrap();
    let mut ev = vec![];
    for op in tr["ops"].as_array().unwrap() {
        let mut m = w.step(op);
        for (k, v) in op.as_object().unwrap() {
            if k == "i" {
                m.insert("i".into(), json!(num(number(v))));
            } else if !m.contains_key(k) {
                m.insert(k.clone(), v.clone());
            }
        }
        ev.push(Value::Object(m));
    }
    w.iters.clear();
    w.handles.clear();
    let _ = fs::remove_dir_all(scratch);
    json!({"id": tr["id"], "ev": ev})
}

pub fn lines(p: &str) -> Vec<Value> {
    BufReader::new(fs::File::open(p).unwrap()).lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect()
}

pub fn main(script: &str, outp: &str, scratch: &str) {
    let mut o = BufWriter::new(fs::File::create(outp).unwrap());
    for (i, tr) in lines(script).iter().enumerate() {
        // one line before the history starts: if the code crashes the process the reader knows where
        writeln!(o, "{}", json!({"start": tr["id"]})).unwrap();
        o.flush().unwrap();
        let r = run_history(tr, &PathBuf::from(scratch).join(format!("s{i}")));
        writeln!(o, "{r}").unwrap();
        o.flush().unwrap();
    }
}

/// Runs the history in a child process and single-steps it from the end of its N-th intercepted call to
/// the beginning of the next; OUT gets, in the order in which it happened, what changed in the given
/// 8-byte words of the file: one line per machine instruction that changed any.
pub fn steps(script: &str, acks: &str, dir: &str, n: i64, file: &str, words: &str, outp: &str) {
    let words: Vec<usize> = words.split(',').map(|w| w.parse().unwrap()).collect();
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe { libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0) };
        kill(script, acks, dir, n, 2);
        unsafe { libc::_exit(0) }
    }
    let path = Path::new(dir).join(file);
    let mut o = BufWriter::new(fs::File::create(outp).unwrap());
    let mut status = 0;
    let wait = |status: &mut i32| unsafe { libc::waitpid(pid, status, 0) == pid && libc::WIFSTOPPED(*status) };
    let mut map: Option<(*const u8, usize)> = None;
    let mut last: Vec<u64> = vec![];
    let mut sig = 0;
    let mut stepping = false;
    let mut started = false; // the first stop comes by itself
    loop {
        if started {
            unsafe { libc::ptrace(if stepping { libc::PTRACE_SINGLESTEP } else { libc::PTRACE_CONT }, pid, 0, sig) };
        }
        started = true;
        if !wait(&mut status) { break }
        sig = libc::WSTOPSIG(status);
        if sig == libc::SIGTRAP {
            let mut si: libc::siginfo_t = unsafe { std::mem::zeroed() };
            unsafe { libc::ptrace(libc::PTRACE_GETSIGINFO, pid, 0, &mut si) };
            sig = 0;
            if si.si_code == libc::SI_TKILL {
                if stepping { break }
                stepping = true;
                let f = fs::File::open(&path).unwrap();
                let len = f.metadata().unwrap().len() as usize;
                use std::os::fd::AsRawFd;
                let p = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ, libc::MAP_SHARED, f.as_raw_fd(), 0) };
                assert!(p != libc::MAP_FAILED && words.iter().all(|w| w + 8 <= len));
                map = Some((p as *const u8, len));
            }
        }
        if let Some((p, _)) = map {
            let now: Vec<u64> = words.iter().map(|w| unsafe { std::ptr::read_volatile(p.add(*w) as *const u64) }).collect();
            if !last.is_empty() && now != last {
                let ch: Vec<Value> = (0..words.len()).filter(|i| now[*i] != last[*i]).map(|i| json!([words[i], now[i].to_le_bytes().to_vec()])).collect();
                writeln!(o, "{}", json!({"changes": ch})).unwrap();
            }
            last = now;
        }
    }
    writeln!(o, "{}", json!({"end": stepping})).unwrap();
    unsafe { libc::kill(pid, libc::SIGKILL); libc::waitpid(pid, &mut status, 0); }
}

/// One history of opens, appends and closes in DIR; acknowledgements go to ACKS at once. The
/// process ends at the N-th intercepted call (N = 0: never; then the number of calls is written).
pub fn kill(script: &str, acks: &str, dir: &str, n: i64, mode: i32) {
    let tr = &lines(script)[0];
    let mut a = fs::File::create(acks).unwrap();
    let snap = tr["shadow"].as_str().map(|s| s.to_string());
    if let Some(s) = &snap {
        let sh = format!("{s}/cur");
        fs::create_dir_all(&sh).unwrap();
        shim::shadow(&fs::canonicalize(dir).unwrap().to_string_lossy(), &sh);
    }
    let mut db: Option<Database> = None;
    let mut all: Vec<(Vec<Vec<u8>>, Value)> = vec![];
    for op in tr["ops"].as_array().unwrap() {
        let r = if op["op"] == "append" { records(op) } else { vec![] };
        all.push((r, op.clone()));
    }
    shim::kill(if n == 0 { -1 } else { n }, mode);
    let mut nsnap = 0;
    for (i, (recs, op)) in all.iter().enumerate() {
        let kind = op["op"].as_str().unwrap();
        let toks: Vec<Value> = recs.iter().map(|r| token(r)).collect();
        a.write_all(format!("{}\n", json!({"c": "call", "i": i, "op": kind, "recs": toks, "at": shim::count()})).as_bytes()).unwrap();
        let m = match kind {
            "open" => match guarded(|| Database::file(dir)) {
                Err(p) => out("panic", vec![], 0, p),
                Ok(Err(e)) => out("err", vec![], 0, format!("{e:?}")),
                Ok(Ok(d)) => { let k = num(d.len()); db = Some(d); out("ok", vec![], k, String::new()) }
            },
            "close" => { let d = db.take(); match guarded(move || drop(d)) { Err(p) => out("panic", vec![], 0, p), Ok(()) => out("ok", vec![], 0, String::new()) } }
            "append" => append(db.as_ref().expect("not open"), op, recs),
            x => panic!("{x}"),
        };
        let mut m = m;
        if let Some(s) = &snap {
            // the synchronised image at this acknowledgement
            let d = format!("{s}/snap{nsnap}");
            fs::create_dir_all(&d).unwrap();
            for f in ["data", "seqno"] {
                let from = format!("{s}/cur/{f}");
                let to = format!("{d}/{f}");
                if Path::new(&from).exists() { sparse_copy(&from, &to) } else if Path::new(&format!("{dir}/{f}")).exists() { fs::File::create(&to).unwrap(); }
            }
            // any further file the code keeps in its directory
            for e in fs::read_dir(dir).unwrap().flatten() {
                let name = e.file_name().to_string_lossy().into_owned();
                if name != "data" && name != "seqno" && e.path().is_file() {
                    let from = format!("{s}/cur/{name}");
                    let to = format!("{d}/{name}");
                    if Path::new(&from).exists() { sparse_copy(&from, &to) } else { fs::File::create(&to).unwrap(); }
                }
            }
            m.insert("snap".into(), json!(d));
            nsnap += 1;
        }
        m.insert("c".into(), json!("ret"));
        m.insert("i".into(), json!(i));
        a.write_all(format!("{}\n", Value::Object(m)).as_bytes()).unwrap();
    }
    let total = shim::count();
    shim::off();
    a.write_all(format!("{}\n", json!({"c": "end", "calls": total})).as_bytes()).unwrap();
    unsafe { libc::_exit(0) }
}

pub fn sparse_copy(from: &str, to: &str) {
    use std::io::Read;
    use std::os::unix::fs::FileExt;
    let mut f = fs::File::open(from).unwrap();
    let t = fs::File::create(to).unwrap();
    let len = f.metadata().unwrap().len();
    t.set_len(len).unwrap();
    let mut buf = vec![0u8; 1 << 16];
    let mut off = 0u64;
    loop {
        let k = f.read(&mut buf).unwrap();
        if k == 0 { break; }
        if buf[..k].iter().any(|b| *b != 0) { t.write_all_at(&buf[..k], off).unwrap(); }
        off += k as u64;
    }
}

/// LIST: one directory per line with the record to append afterwards. For each: open, read all,
/// append one record, read all, close, reopen, read all.
pub fn dump(list: &str, outp: &str) {
    let mut o = BufWriter::new(fs::File::create(outp).unwrap());
    for l in lines(list) {
        writeln!(o, "{}", json!({"start": l["dir"]})).unwrap();
        o.flush().unwrap();
        let dir = l["dir"].as_str().unwrap();
        let mut ev = vec![];
        let recs = records(&l);
        for round in 0..2 {
            let db = match guarded(|| Database::file(dir)) {
                Err(p) => { ev.push(Value::Object(out("panic", vec![], 0, p))); break }
                Ok(Err(e)) => { ev.push(Value::Object(out("err", vec![], 0, format!("{e:?}")))); break }
                Ok(Ok(d)) => d,
            };
            let m = read_all(db.iter_from_seqno(0).unwrap(), usize::MAX);
            let mut m = m;
            m.insert("op".into(), json!("show"));
            m.insert("n".into(), json!(num(db.len())));
            ev.push(Value::Object(m));
            if round == 0 {
                let mut m = append(&db, &json!({}), &recs);
                m.insert("op".into(), json!("append"));
                m.insert("recs".into(), Value::Array(recs.iter().map(|r| token(r)).collect()));
                ev.push(Value::Object(m));
                let mut m = read_all(db.iter_from_seqno(0).unwrap(), usize::MAX);
                m.insert("op".into(), json!("show"));
                m.insert("n".into(), json!(num(db.len())));
                ev.push(Value::Object(m));
            }
            let _ = guarded(move || drop(db));
        }
        writeln!(o, "{}", json!({"dir": dir, "ev": ev})).unwrap();
        o.flush().unwrap();
    }
}
