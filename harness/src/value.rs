//! Values <-> the encoding the TLA+ specification uses (see spec/Values.tla).
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::str::FromStr;
use templito::{TData, TreeTemplate};

pub fn codes(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}
pub fn text(v: &Value) -> String {
    v.as_array()
        .map(|a| a.iter().filter_map(|c| char::from_u32(c.as_u64().unwrap_or(0) as u32)).collect())
        .unwrap_or_default()
}
fn limbs(mut n: u128) -> Value {
    let mut r = vec![];
    while n > 0 {
        r.push(json!((n % 10000) as u32));
        n /= 10000;
    }
    Value::Array(r)
}
pub fn unlimbs(v: &Value) -> u128 {
    v.as_array().map(|a| a.iter().rev().fold(0u128, |s, d| s * 10000 + d.as_u64().unwrap() as u128)).unwrap_or(0)
}
fn zint(n: i128) -> Value {
    json!({"g": n.signum() as i64, "m": limbs(n.unsigned_abs())})
}
fn unzint(v: &Value) -> i128 {
    v["g"].as_i64().unwrap() as i128 * unlimbs(&v["m"]) as i128
}
pub fn float(f: f64) -> Value {
    let g = if f.is_sign_negative() { -1 } else { 1 };
    if f.is_nan() {
        return json!({"t":"float","c":"nan","g":1,"m":[],"e":0});
    }
    if f.is_infinite() {
        return json!({"t":"float","c":"inf","g":g,"m":[],"e":0});
    }
    if f == 0.0 {
        return json!({"t":"float","c":"num","g":g,"m":[],"e":0});
    }
    let bits = f.to_bits();
    let be = ((bits >> 52) & 0x7ff) as i64;
    let fr = bits & ((1u64 << 52) - 1);
    let (mut m, mut e) = if be == 0 { (fr, -1074) } else { (fr | (1 << 52), be - 1075) };
    while m % 2 == 0 {
        m /= 2;
        e += 1;
    }
    json!({"t":"float","c":"num","g":g,"m":limbs(m as u128),"e":e})
}
fn unfloat(v: &Value) -> f64 {
    let g = v["g"].as_i64().unwrap() as f64;
    match v["c"].as_str().unwrap() {
        "nan" => f64::NAN,
        "inf" => g * f64::INFINITY,
        _ => {
            let m = unlimbs(&v["m"]) as f64;
            let mut e = v["e"].as_i64().unwrap();
            let mut r = g * m;
            while e > 500 {
                r *= 2f64.powi(500);
                e -= 500;
            }
            // one inexact-free step: every encoded number is a double
            if e < -1000 {
                let low = f64::from_bits(1); // 2^-1074
                let k = e + 1074;
                r * 2f64.powi(k as i32) * low
            } else {
                r * 2f64.powi(e as i32)
            }
        }
    }
}
pub fn map_enc(m: &HashMap<String, TData>) -> Value {
    let s: BTreeMap<&String, &TData> = m.iter().collect();
    Value::Array(s.into_iter().map(|(k, v)| json!({"k": codes(k), "v": enc(v)})).collect())
}
pub fn enc(d: &TData) -> Value {
    use chrono::Datelike;
    match d {
        TData::Null => json!({"t":"null"}),
        TData::Bool(b) => json!({"t":"bool","b":b}),
        TData::String(s) => json!({"t":"str","s":codes(s)}),
        TData::UInt(n) => json!({"t":"uint","n":zint(*n as i128)}),
        TData::Int(n) => json!({"t":"int","n":zint(*n as i128)}),
        TData::Float(f) => float(*f),
        TData::List(l) => json!({"t":"list","l":l.iter().map(enc).collect::<Vec<_>>()}),
        TData::Map(m) => json!({"t":"map","m":map_enc(m)}),
        TData::Template(_) => json!({"t":"tmpl"}),
        TData::Date(d) => json!({"t":"date","y":d.year(),"m":d.month(),"d":d.day()}),
        TData::Bytes(b) => json!({"t":"bytes","s":b}),
    }
}
pub fn entries<'a>(v: &'a Value) -> impl Iterator<Item = (String, &'a Value)> {
    v["m"].as_array().unwrap().iter().map(|e| (text(&e["k"]), &e["v"]))
}
pub fn dec(v: &Value) -> TData {
    match v["t"].as_str().expect("value type") {
        "null" => TData::Null,
        "bool" => TData::Bool(v["b"].as_bool().unwrap()),
        "str" | "datetime" => TData::String(text(&v["s"])),
        "uint" => TData::UInt(unzint(&v["n"]) as usize),
        "int" => TData::Int(unzint(&v["n"]) as isize),
        "float" => TData::Float(unfloat(v)),
        "list" => TData::List(v["l"].as_array().unwrap().iter().map(dec).collect()),
        "map" => TData::Map(entries(v).map(|(k, x)| (k, dec(x))).collect()),
        "date" => TData::Date(
            chrono::NaiveDate::from_ymd_opt(
                v["y"].as_i64().unwrap() as i32,
                v["m"].as_u64().unwrap() as u32,
                v["d"].as_u64().unwrap() as u32,
            )
            .unwrap(),
        ),
        "bytes" => TData::Bytes(v["s"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect()),
        "tmpl" => TData::Template(TreeTemplate::from_str("t{{$0}}").unwrap()),
        t => panic!("unknown value type {}", t),
    }
}
pub fn to_json(v: &Value) -> Value {
    match v["t"].as_str().unwrap() {
        "null" => Value::Null,
        "bool" => v["b"].clone(),
        "str" => Value::String(text(&v["s"])),
        "uint" | "int" => {
            let n = unzint(&v["n"]);
            if n < 0 {
                json!(n as i64)
            } else {
                json!(n as u64)
            }
        }
        "float" => json!(unfloat(v)),
        "list" => Value::Array(v["l"].as_array().unwrap().iter().map(to_json).collect()),
        "map" => Value::Object(entries(v).map(|(k, x)| (k, to_json(x))).collect()),
        t => panic!("no JSON for {}", t),
    }
}
pub fn to_toml(v: &Value) -> toml::Value {
    match v["t"].as_str().unwrap() {
        "bool" => toml::Value::Boolean(v["b"].as_bool().unwrap()),
        "str" => toml::Value::String(text(&v["s"])),
        "datetime" => toml::Value::Datetime(toml::value::Datetime::from_str(&text(&v["s"])).unwrap()),
        "uint" | "int" => toml::Value::Integer(unzint(&v["n"]) as i64),
        "float" => toml::Value::Float(unfloat(v)),
        "list" => toml::Value::Array(v["l"].as_array().unwrap().iter().map(to_toml).collect()),
        "map" => toml::Value::Table(entries(v).map(|(k, x)| (k, to_toml(x))).collect()),
        t => panic!("no TOML for {}", t),
    }
}
