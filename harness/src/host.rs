//! The host's side: parameters of every supported type, and a function
//! manager that records the calls made to it.
use crate::value::*;
use card_format::{CData, Card};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use templito::expr::VarPart;
use templito::func_man::*;
use templito::tparam::*;
use templito::{TData, TParam, WithFuncs, KV};

#[derive(Debug)]
pub struct DynP(pub Box<dyn TParam>);
impl TParam for DynP {
    fn get_v<'a>(&'a self, s: &[VarPart]) -> TBop<'a> {
        self.0.get_v(s)
    }
}
fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}
fn cdata(v: &Value) -> CData {
    match dec(v) {
        TData::String(s) => CData::S(s),
        TData::Int(n) => CData::N(n),
        TData::List(_) => CData::L(v["l"].as_array().unwrap().iter().map(cdata).collect()),
        TData::Map(_) => CData::M(entries(v).map(|(k, x)| (k, cdata(x))).collect()),
        t => panic!("no card data for {:?}", t),
    }
}
fn kv<T: Into<TData> + std::fmt::Debug + Clone + TParam + 'static>(k: String, t: T) -> Box<dyn TParam> {
    Box::new(KV(k, t))
}
pub fn param(h: &Value) -> Box<dyn TParam> {
    let v = &h["v"];
    match h["h"].as_str().unwrap() {
        "td" => Box::new(dec(v)),
        "json" => Box::new(to_json(v)),
        "toml" => Box::new(to_toml(v)),
        "map" => Box::new(entries(v).map(|(k, x)| (k, dec(x))).collect::<HashMap<String, TData>>()),
        "refmap" => Box::new(
            entries(v).map(|(k, x)| (leak(k).as_str(), dec(x))).collect::<HashMap<&'static str, TData>>(),
        ),
        "strmap" => Box::new(entries(v).map(|(k, x)| (k, dec(x).to_string())).collect::<HashMap<String, String>>()),
        "nummap" => Box::new(
            entries(v)
                .map(|(k, x)| (k, dec(x).as_usize().unwrap()))
                .collect::<HashMap<String, usize>>(),
        ),
        "strs" => Box::new(
            v["l"].as_array().unwrap().iter().map(|x| leak(text(&x["s"])).as_str()).collect::<Vec<&'static str>>(),
        ),
        "card" | "cardx" => {
            let mut c = Card { num: 0, name: String::new(), data: Default::default() };
            if h["h"] == "cardx" {
                // a card whose data also has entries under the names of its own parts
                c.data.insert("Name".to_string(), CData::S("other".to_string()));
                c.data.insert("Num".to_string(), CData::L(vec![CData::N(7)]));
            }
            for (k, x) in entries(v) {
                match k.as_str() {
                    "Name" => c.name = text(&x["s"]),
                    "Num" => c.num = dec(x).as_usize().unwrap(),
                    _ => {
                        c.data.insert(k, cdata(x));
                    }
                }
            }
            Box::new(c)
        }
        "cdata" => Box::new(cdata(v)),
        "kv" => {
            let k = text(&h["k"]);
            match dec(v) {
                TData::String(s) => kv(k, s),
                TData::UInt(n) => kv(k, n),
                d => kv(k, d),
            }
        }
        "pair" => {
            let a: &'static DynP = leak(DynP(param(&h["a"])));
            let b: &'static DynP = leak(DynP(param(&h["b"])));
            Box::new((a, b))
        }
        "string" => Box::new(text(&v["s"])),
        "str" => Box::new(leak(text(&v["s"])).as_str()),
        "usize" => Box::new(dec(v).as_usize().unwrap()),
        "f64" => match dec(v) {
            TData::Float(f) => Box::new(f),
            _ => panic!("f64"),
        },
        "bool" => Box::new(v["b"].as_bool().unwrap()),
        k => panic!("unknown host kind {}", k),
    }
}
pub fn path(v: &Value) -> Vec<VarPart> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|p| match p["t"].as_str().unwrap() {
            "n" => VarPart::Num(unlimbs(&p["n"]) as usize),
            _ => VarPart::Id(text(&p["s"])),
        })
        .collect()
}

pub fn outcome(r: &anyhow::Result<TCow>) -> Value {
    match r {
        Ok(v) => json!({"o":"ok","v":enc(v)}),
        Err(_) => json!({"o":"err"}),
    }
}

pub type Log = Rc<RefCell<Vec<Value>>>;
#[derive(Clone)]
pub struct RecFm {
    inner: &'static BasicFuncs,
    log: Log,
    cache: Rc<RefCell<HashMap<String, &'static TFunc>>>,
}
impl RecFm {
    pub fn build(steps: &Value, log: &Log) -> RecFm {
        let mut f = BasicFuncs::new();
        for s in steps.as_array().unwrap() {
            let p = || text(&s["p"]);
            f = match s["s"].as_str().unwrap() {
                "defaults" => f.with_defaults(),
                "bools" => f.with_bools(),
                "math" => f.with_math(),
                "lists" => f.with_lists(),
                "strings" => f.with_strings(),
                "path" => f.with_path(),
                "maps" => f.with_maps(),
                "format" => f.with_format(),
                "rand" => f.with_rand(),
                "bytes" => f.with_bytes(),
                "svg" => f.with_svg(),
                "folder" => f.with_folder_lock(p()),
                "write" => f.with_write_lock(p()),
                "free" => f.with_free_files(),
                "exec" => f.with_exec(),
                "host" => {
                    let n = text(&s["n"]);
                    let b: Box<TFunc> = match s["kind"].as_str().unwrap() {
                        "id" => Box::new(|a| a.get(0).cloned().ok_or_else(|| anyhow::anyhow!("id: no argument"))),
                        "fail" => Box::new(|_| Err(anyhow::anyhow!("fail"))),
                        "const" => {
                            let v = dec(&s["v"]);
                            Box::new(move |_| b_ok(v.clone()))
                        }
                        "args" => Box::new(|a| b_ok(TData::List(a.iter().map(|x| (**x).clone()).collect()))),
                        "count" => Box::new(|a| b_ok(TData::UInt(a.len()))),
                        k => panic!("unknown probe {}", k),
                    };
                    f.with_func(n, b, "probe")
                }
                k => panic!("unknown set {}", k),
            }
        }
        RecFm { inner: leak(f), log: log.clone(), cache: Default::default() }
    }
    pub fn raw(&self) -> &'static BasicFuncs {
        self.inner
    }
}
impl FuncManager for RecFm {
    fn get_func(&self, k: &str) -> Option<&TFunc> {
        self.inner.get_func(k)?;
        if let Some(f) = self.cache.borrow().get(k) {
            return Some(*f);
        }
        let (inner, log, name) = (self.inner, self.log.clone(), k.to_string());
        let f: Box<TFunc> = Box::new(move |a| {
            let args: Vec<Value> = a.iter().map(|x| enc(x)).collect();
            let r = match inner.get_func(&name) {
                Some(f) => f(a),
                None => Err(anyhow::anyhow!("gone")),
            };
            log.borrow_mut().push(json!({"f": codes(&name), "a": args, "r": outcome(&r)}));
            r
        });
        let f: &'static TFunc = Box::leak(f);
        self.cache.borrow_mut().insert(k.to_string(), f);
        Some(f)
    }
    fn for_each<F: Fn(&String, &str)>(&self, f: F) {
        self.inner.for_each(f)
    }
}
