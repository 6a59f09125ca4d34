//! Runs sessions (one JSON object per line) against the real library and
//! writes what every operation gave, one line per operation:
//!   {"s": session number, "k": operation number, "res": .., "ev": [..]}
//! usage: tvharness SESSIONS OUT FIRST SECONDS
//! An operation that takes longer than SECONDS is reported as {"o":"hang"}
//! and ends the process with status 3; the caller goes on after it.
mod host;
mod value;
use host::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs::File;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use templito::func_man::FuncManager;
use templito::temp_man::*;
use templito::*;
use value::*;

enum Store {
    Map(BasicTemps),
    None(NoTemplates),
}

#[derive(Default)]
struct Sess {
    tm: HashMap<String, TreeTemplate>,
    st: HashMap<String, Store>,
    fm: HashMap<String, RecFm>,
    log: Log,
    base: String,
}

fn node(p: &std::path::Path) -> Option<Value> {
    let md = std::fs::symlink_metadata(p).ok()?;
    if md.file_type().is_symlink() {
        return Some(json!({"t":"link"}));
    }
    if md.is_dir() {
        return Some(json!({"t":"dir"}));
    }
    let b = std::fs::read(p).ok()?;
    Some(json!({"t":"file","b":b}))
}
fn walk(base: &str, rel: &str, out: &mut BTreeMap<String, Value>) {
    let p = format!("{}{}", base, rel);
    if let Some(n) = node(std::path::Path::new(&p)) {
        let dir = n["t"] == "dir";
        out.insert(rel.to_string(), n);
        if dir {
            if let Ok(rd) = std::fs::read_dir(&p) {
                for e in rd.filter_map(|e| e.ok()) {
                    walk(base, &format!("{}/{}", rel, e.file_name().to_string_lossy()), out);
                }
            }
        }
    }
}

fn key(v: &Value) -> String {
    v.as_str().unwrap().to_string()
}

impl Sess {
    fn parse(&mut self, t: String, r: anyhow::Result<TreeTemplate>) -> Value {
        match r {
            Ok(x) => {
                self.tm.insert(t, x);
                json!({"o":"ok"})
            }
            Err(_) => {
                self.tm.remove(&t);
                json!({"o":"err"})
            }
        }
    }
    fn op(&mut self, op: &Value) -> Value {
        match op["op"].as_str().unwrap() {
            "fm" => {
                self.fm.insert(key(&op["id"]), RecFm::build(&op["steps"], &self.log));
                json!({"o":"ok"})
            }
            "parse" => self.parse(key(&op["t"]), TreeTemplate::from_str(&text(&op["src"]))),
            "load" => {
                let p = format!("{}{}", self.base, text(&op["path"]));
                self.parse(key(&op["t"]), TreeTemplate::load(p))
            }
            "clone" => {
                match self.tm.get(&key(&op["from"])).cloned() {
                    Some(x) => self.tm.insert(key(&op["t"]), x),
                    None => self.tm.remove(&key(&op["t"])),
                };
                json!({"o":"ok"})
            }
            "store" => {
                let s = match op["kind"].as_str().unwrap() {
                    "map" => Store::Map(BasicTemps::new()),
                    _ => Store::None(NoTemplates),
                };
                self.st.insert(key(&op["s"]), s);
                json!({"o":"ok"})
            }
            "insert" => {
                if let Some(t) = self.tm.get(&key(&op["t"])).cloned() {
                    match self.st.get_mut(&key(&op["s"])).unwrap() {
                        Store::Map(m) => m.insert_t(text(&op["name"]), t),
                        Store::None(m) => m.insert_t(text(&op["name"]), t),
                    }
                }
                json!({"o":"ok"})
            }
            "peek" => {
                let s = self.st.get_mut(&key(&op["s"])).unwrap();
                let v: Vec<bool> = op["names"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|n| match s {
                        Store::Map(m) => m.get_t(&text(n)).is_ok(),
                        Store::None(m) => m.get_t(&text(n)).is_ok(),
                    })
                    .collect();
                json!({"o":"ok","v":v})
            }
            "has" => {
                let f = self.fm[&key(&op["fm"])].raw();
                let v: Vec<bool> =
                    op["names"].as_array().unwrap().iter().map(|n| f.get_func(&text(n)).is_some()).collect();
                json!({"o":"ok","v":v})
            }
            "render" => {
                let t = match self.tm.get(&key(&op["t"])) {
                    Some(t) => t,
                    None => return json!({"o":"skip"}),
                };
                let ps: Vec<Box<dyn TParam>> = op["ps"].as_array().unwrap().iter().map(param).collect();
                let refs: Vec<&dyn TParam> = ps.iter().map(|p| &**p).collect();
                let fm = &self.fm[&key(&op["fm"])];
                let s = self.st.get_mut(&key(&op["s"])).unwrap();
                if op["mode"] == "run" {
                    let r = match s {
                        Store::Map(m) => t.run(&refs, m, fm),
                        Store::None(m) => t.run(&refs, m, fm),
                    };
                    match r {
                        Ok(x) => json!({"o":"ok","text":codes(&x)}),
                        Err(_) => json!({"o":"err"}),
                    }
                } else {
                    let r = match s {
                        Store::Map(m) => t.run_exp(&refs, m, fm),
                        Store::None(m) => t.run_exp(&refs, m, fm),
                    };
                    match r {
                        Ok((x, e)) => json!({"o":"ok","text":codes(&x),"ex":map_enc(&e)}),
                        Err(_) => json!({"o":"err"}),
                    }
                }
            }
            "front" => match self.tm.get(&key(&op["t"])) {
                Some(t) => json!({"o":"ok","ex":map_enc(&t.front_matter(&self.fm[&key(&op["fm"])]))}),
                None => json!({"o":"skip"}),
            },
            "call" => {
                let a: Vec<tparam::TCow> =
                    op["a"].as_array().unwrap().iter().map(|v| std::borrow::Cow::Owned(dec(v))).collect();
                match self.fm[&key(&op["fm"])].raw().get_func(&text(&op["f"])) {
                    Some(f) => outcome(&f(&a)),
                    None => json!({"o":"none"}),
                }
            }
            "getv" => {
                let p = param(&op["h"]);
                let r = match p.get_v(&path(&op["path"])) {
                    Some(v) => json!({"o":"ok","v":enc(&v)}),
                    None => json!({"o":"none"}),
                };
                r
            }
            "rands" => {
                let fm = func_man::default_func_man();
                let f = fm.get_func("rand").unwrap();
                let a: Vec<tparam::TCow> =
                    op["a"].as_array().unwrap().iter().map(|v| std::borrow::Cow::Owned(dec(v))).collect();
                let mut seen = BTreeSet::new();
                for _ in 0..op["n"].as_u64().unwrap() {
                    match f(&a) {
                        Ok(v) => {
                            if seen.len() < 40 {
                                seen.insert(enc(&v).to_string());
                            }
                        }
                        Err(_) => return json!({"o":"err"}),
                    }
                }
                let vs: Vec<Value> = seen.iter().map(|s| serde_json::from_str(s).unwrap()).collect();
                json!({"o":"ok","vs":vs})
            }
            "mkfs" => {
                self.base = text(&op["base"]);
                for e in op["w"].as_array().unwrap() {
                    let p = format!("{}{}", self.base, text(&e["k"]));
                    match e["v"]["t"].as_str().unwrap() {
                        "dir" => std::fs::create_dir_all(&p).unwrap(),
                        "link" => {
                            std::os::unix::fs::symlink(format!("{}{}", self.base, text(&e["v"]["to"])), &p).unwrap()
                        }
                        _ => {
                            let b: Vec<u8> =
                                e["v"]["b"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
                            std::fs::write(&p, b).unwrap()
                        }
                    }
                }
                std::env::set_current_dir(&self.base).unwrap();
                json!({"o":"ok"})
            }
            "snap" => {
                let mut m = BTreeMap::new();
                walk(&self.base, "", &mut m);
                let w: Vec<Value> = m.into_iter().map(|(k, v)| json!({"k":codes(&k),"v":v})).collect();
                json!({"o":"ok","w":w})
            }
            "same" => json!({"o":"ok"}),
            o => panic!("unknown op {}", o),
        }
    }
}

fn work(args: Vec<String>) {
    let first: usize = args[3].parse().unwrap();
    let secs: u64 = args[4].parse().unwrap();
    let out = Arc::new(Mutex::new(File::options().append(true).open(&args[2]).expect("output")));
    let now: Arc<Mutex<Option<(usize, usize, Instant)>>> = Arc::new(Mutex::new(None));
    {
        let (out, now) = (out.clone(), now.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(100));
            let g = now.lock().unwrap();
            if let Some((s, k, t)) = *g {
                if t.elapsed() > Duration::from_secs(secs) {
                    let l = json!({"s":s,"k":k,"res":{"o":"hang"},"ev":[]}).to_string() + "\n";
                    out.lock().unwrap().write_all(l.as_bytes()).ok();
                    std::process::exit(3);
                }
            }
        });
    }
    let f = BufReader::new(File::open(&args[1]).expect("sessions"));
    for (s, line) in f.lines().enumerate() {
        if s < first {
            continue;
        }
        let v: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let mut sess = Sess::default();
        for (k, op) in v["ops"].as_array().unwrap().iter().enumerate() {
            *now.lock().unwrap() = Some((s, k, Instant::now()));
            sess.log.borrow_mut().clear();
            let r = catch_unwind(AssertUnwindSafe(|| sess.op(op)));
            *now.lock().unwrap() = None;
            let (res, stop) = match r {
                Ok(r) => (r, false),
                Err(_) => (json!({"o":"panic"}), true),
            };
            let ev = Value::Array(sess.log.try_borrow().map(|l| l.clone()).unwrap_or_default());
            let l = json!({"s":s,"k":k,"res":res,"ev":ev}).to_string() + "\n";
            out.lock().unwrap().write_all(l.as_bytes()).unwrap();
            if stop {
                break;
            }
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || work(args)).unwrap();
    if h.join().is_err() {
        std::process::exit(4);
    }
}
