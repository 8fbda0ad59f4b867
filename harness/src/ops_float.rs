//! Numbers: literals read and numbers written, as exact significand and exponent.
use crate::gen::Rng;
use crate::j::*;
use crate::rt::Ctx;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::json;
use serde_yaml::{Number, Value};

/// neg, class, significand and exponent in the canonical form of the format.
fn parts(neg: bool, exp: u64, frac: u64, bits: u32, top: u64, bias: i64) -> J {
    if exp == top {
        return json!({"c": if frac == 0 { "inf" } else { "nan" }, "neg": neg, "m": "", "q": 0});
    }
    let (m, q) = if exp == 0 { (frac, 1 - bias) } else { (frac | 1 << (bits - 1), exp as i64 - bias) };
    json!({"c": "fin", "neg": neg, "m": m.to_string(), "q": q})
}
pub fn f64j(f: f64) -> J {
    let b = f.to_bits();
    parts(b >> 63 == 1, b >> 52 & 0x7ff, b & ((1 << 52) - 1), 53, 0x7ff, 1075)
}
fn f32j(f: f32) -> J {
    let b = f.to_bits() as u64;
    parts(b >> 31 == 1, b >> 23 & 0xff, b & ((1 << 23) - 1), 24, 0xff, 150)
}
fn other() -> J {
    json!({"c": "other", "neg": false, "m": "", "q": 0})
}
/// A panic is an observation of the same shape as the others.
fn guard(f: impl FnOnce() -> J) -> J {
    let o = crate::rt::guard(f);
    if o["k"] == "panic" { json!({"c": "panic", "neg": false, "m": "", "q": 0}) } else { o }
}
fn guards(f: impl FnOnce() -> J) -> J {
    let o = crate::rt::guard(f);
    if o["k"] == "panic" { json!("panic") } else { o }
}
fn num64(v: &Value) -> J {
    match v {
        Value::Number(n) => n.as_f64().map_or_else(other, f64j),
        _ => other(),
    }
}

/// The literal is plain everywhere; the model says which float it denotes.
pub fn run(ctx: &mut Ctx, c: &J) {
    let lit = st(&c["lit"]);
    let exp = |c: &J| if c["overflow"] == true { other() } else { c["f"].clone() };
    let e = exp(c);
    let check = |ctx: &mut Ctx, what: &str, obs: J| { ctx.eq(what, lit, &e, &obs); };
    check(ctx, "from_str::<f64>", guard(|| serde_yaml::from_str::<f64>(lit).map_or_else(|_| other(), f64j)));
    check(ctx, "from_str::<Value>", guard(|| serde_yaml::from_str::<Value>(lit).map_or_else(|_| other(), |v| num64(&v))));
    check(ctx, "from_str::<Number>", guard(|| serde_yaml::from_str::<Number>(lit).map_or_else(|_| other(), |n| f64j(n.as_f64().unwrap()))));
    check(ctx, "Number::from_str", guard(|| lit.parse::<Number>().map_or_else(|_| other(), |n| f64j(n.as_f64().unwrap()))));
    check(ctx, "from_str::<Vec<f64>>", guard(|| serde_yaml::from_str::<Vec<f64>>(&format!("[{lit}, {lit}]")).map_or_else(|_| other(), |v| f64j(v[1]))));
    check(ctx, "from_value::<f64>", guard(|| serde_yaml::from_str::<Value>(lit).and_then(serde_yaml::from_value::<f64>).map_or_else(|_| other(), f64j)));
    check(ctx, "!!float", guard(|| serde_yaml::from_str::<Value>(&format!("!!float {lit}")).map_or_else(|_| other(), |v| num64(&v))));
}

fn text<T: Serialize>(v: &T) -> Option<String> {
    serde_yaml::to_string(v).ok()
}
fn texts<T: Serialize + Copy>(v: T, number: Option<Number>) -> Vec<String> {
    let mut out = Vec::new();
    let mut put = |s: Option<String>, pre: &str, post: &str| {
        let s = s.unwrap_or_default();
        let t = s.strip_prefix(pre).and_then(|s| s.strip_suffix(post)).map_or_else(|| s.clone(), String::from);
        out.push(t);
    };
    put(text(&v), "", "\n");
    put(text(&[v]), "- ", "\n");
    put(text(&Some(v)), "", "\n");
    put(text(&std::collections::BTreeMap::from([("k", v)])), "k: ", "\n");
    put(text(&One(v)).map(|s| s.strip_suffix(": null\n").map_or(s.clone(), String::from)), "", "");
    let mut w = Vec::new();
    let _ = serde_yaml::to_writer(&mut w, &v);
    put(String::from_utf8(w).ok(), "", "\n");
    if let Some(n) = number {
        put(Some(n.to_string()), "", "");
        put(text(&n), "", "\n");
    }
    if let Ok(v @ Value::Number(_)) = serde_yaml::to_value(v) {
        put(text(&v), "", "\n");
    }
    out.sort();
    out.dedup();
    out
}
/// A mapping with the one key.
struct One<T>(T);
impl<T: Serialize> Serialize for One<T> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        let mut m = s.serialize_map(Some(1))?;
        m.serialize_entry(&self.0, &())?;
        m.end()
    }
}

fn back<T: DeserializeOwned>(texts: &[String], show: impl Fn(T) -> J + Copy, none: J) -> serde_json::Map<String, J> {
    let mut o = serde_json::Map::new();
    let ints = none.is_string();
    let mut put = |name: String, f: &dyn Fn() -> J| {
        let j = if ints { guards(f) } else { guard(f) };
        o.insert(name, j);
    };
    let or = |r: Result<T, serde_yaml::Error>| r.map_or_else(|_| none.clone(), show);
    for (i, t) in texts.iter().enumerate() {
        put(format!("text{i}"), &|| or(serde_yaml::from_str(t)));
        put(format!("slice{i}"), &|| or(serde_yaml::from_slice(format!("# \n{t}").as_bytes())));
        put(format!("seq{i}"), &|| serde_yaml::from_str::<Vec<T>>(&format!("- {t}\n")).map_or_else(|_| none.clone(), |mut v| show(v.remove(0))));
        put(format!("opt{i}"), &|| serde_yaml::from_str::<Option<T>>(t).map_or_else(|_| none.clone(), |v| v.map_or(none.clone(), show)));
    }
    o
}

fn bits(c: &J) -> u64 {
    u64::from_str_radix(st(&c["bits"]), 16).unwrap()
}

pub fn record(c: &J) -> J {
    match st(&c["what"]) {
        "write" if c["w"] == "f64" => {
            let f = f64::from_bits(bits(c));
            let texts = texts(f, Some(Number::from(f)));
            let mut b = back::<f64>(&texts, f64j, other());
            for (i, t) in texts.iter().enumerate() {
                b.insert(format!("value{i}"), guard(|| serde_yaml::from_str::<Value>(t).map_or_else(|_| other(), |v| if v.is_f64() { num64(&v) } else { other() })));
                b.insert(format!("number{i}"), guard(|| t.parse::<Number>().map_or_else(|_| other(), |n| if n.is_f64() { f64j(n.as_f64().unwrap()) } else { other() })));
                b.insert(format!("from_value{i}"), guard(|| serde_yaml::from_str::<Value>(t).and_then(serde_yaml::from_value::<f64>).map_or_else(|_| other(), f64j)));
            }
            b.insert("to_value".into(), guard(|| serde_yaml::to_value(f).map_or_else(|_| other(), |v| if v.is_f64() { num64(&v) } else { other() })));
            b.insert("to_value_from_value".into(), guard(|| serde_yaml::to_value(f).and_then(serde_yaml::from_value::<f64>).map_or_else(|_| other(), f64j)));
            b.insert("Value::from".into(), guard(|| num64(&Value::from(f))));
            json!({"input": format!("write f64 {f:?} ({:016x})", f.to_bits()), "what": "write", "w": "f64", "f": f64j(f), "f64": f64j(f), "wide": {}, "texts": texts, "backs": b})
        }
        "write" => {
            let f = f32::from_bits(bits(c) as u32);
            let texts = texts(f, Some(Number::from(f)));
            let mut b = back::<f32>(&texts, f32j, other());
            let cast = |v: Result<Value, serde_yaml::Error>| v.map_or_else(|_| other(), |v| if v.is_f64() { f32j(v.as_f64().unwrap() as f32) } else { other() });
            for (i, t) in texts.iter().enumerate() {
                b.insert(format!("value{i}"), guard(|| cast(serde_yaml::from_str::<Value>(t))));
                b.insert(format!("from_value{i}"), guard(|| serde_yaml::from_str::<Value>(t).and_then(serde_yaml::from_value::<f32>).map_or_else(|_| other(), f32j)));
            }
            b.insert("to_value".into(), guard(|| cast(serde_yaml::to_value(f))));
            b.insert("to_value_from_value".into(), guard(|| serde_yaml::to_value(f).and_then(serde_yaml::from_value::<f32>).map_or_else(|_| other(), f32j)));
            let wide = json!({"to_value": guard(|| serde_yaml::to_value(f).map_or_else(|_| other(), |v| num64(&v))),
                              "number": guard(|| f64j(Number::from(f).as_f64().unwrap())), "value": guard(|| num64(&Value::from(f)))});
            json!({"input": format!("write f32 {f:?} ({:08x})", f.to_bits()), "what": "write", "w": "f32", "f": f32j(f), "f64": f64j(f as f64), "wide": wide, "texts": texts, "backs": b})
        }
        "read" => {
            let lit = st(&c["lit"]);
            let b = json!({"typed": guard(|| serde_yaml::from_str::<f64>(lit).map_or_else(|_| other(), f64j)),
                           "seq": guard(|| serde_yaml::from_str::<Vec<f64>>(&format!("[{lit}]")).map_or_else(|_| other(), |v| f64j(v[0]))),
                           "value": guard(|| serde_yaml::from_str::<Value>(lit).map_or_else(|_| other(), |v| num64(&v))),
                           "from_value": guard(|| serde_yaml::from_str::<Value>(lit).and_then(serde_yaml::from_value::<f64>).map_or_else(|_| other(), f64j)),
                           "number": guard(|| lit.parse::<Number>().map_or_else(|_| other(), |n| f64j(n.as_f64().unwrap())))});
            json!({"input": lit, "what": "read", "lit": lit, "backs": b, "f32": guard(|| serde_yaml::from_str::<f32>(lit).map_or_else(|_| other(), f32j))})
        }
        _ => {
            let s = st(&c["int"]);
            macro_rules! ty {
                ($($t:ident $n:expr),*) => { match st(&c["w"]) {
                    $(stringify!($t) => {
                        let v: $t = s.parse().unwrap();
                        let number: Option<Number> = ($n)(v);
                        let texts = texts(v, number.clone());
                        let no = json!("refused");
                        let show = |v: $t| json!(v.to_string());
                        let mut b = back::<$t>(&texts, show, no.clone());
                        b.insert("value".into(), guards(|| serde_yaml::to_value(v).map_or_else(|_| no.clone(), |v| json!(match v { Value::Number(n) => n.to_string(), Value::String(s) => format!("string {s}"), _ => "other".into() }))));
                        b.insert("value-back".into(), guards(|| serde_yaml::to_value(v).and_then(serde_yaml::from_value::<$t>).map_or_else(|_| no.clone(), show)));
                        b.insert("value-text".into(), guards(|| serde_yaml::from_str::<Value>(s).and_then(serde_yaml::from_value::<$t>).map_or_else(|_| no.clone(), show)));
                        if let Some(n) = number {
                            b.insert("number".into(), json!(n.to_string()));
                            b.insert("number-back".into(), guards(|| serde_yaml::to_value(n).and_then(serde_yaml::from_value::<$t>).map_or_else(|_| no.clone(), show)));
                        }
                        json!({"input": format!("write {} {s}", stringify!($t)), "what": "int", "w": c["w"], "int": s, "texts": texts, "backs": b})
                    })*
                    other => panic!("type {other}"),
                }};
            }
            ty!(i8 |v| Some(Number::from(v)), i16 |v| Some(Number::from(v)), i32 |v| Some(Number::from(v)), i64 |v| Some(Number::from(v)), isize |v| Some(Number::from(v)),
                u8 |v| Some(Number::from(v)), u16 |v| Some(Number::from(v)), u32 |v| Some(Number::from(v)), u64 |v| Some(Number::from(v)), usize |v| Some(Number::from(v)),
                i128 |_| None, u128 |_| None)
        }
    }
}

/// Numbers whose text is delicate, then any.
pub fn draw(r: &mut Rng) -> J {
    match r.below(10) {
        0..=2 => {
            let frac = r.next() & ((1 << 52) - 1);
            let frac = match r.below(6) { 0 => 0, 1 => 1, 2 => (1 << 52) - 1, 3 => 1 << r.below(52) as u64, _ => frac };
            let exp = match r.below(8) { 0 => 0, 1 => 1, 2 => 0x7fe, 3 => 0x7ff, 4 => 1023 + r.below(70) as u64, _ => r.next() & 0x7ff };
            let f = f64::from_bits((r.next() & 1) << 63 | exp << 52 | frac);
            let f = match r.below(6) { 0 => (r.below(2_000_000) as f64 - 1e6) / *r.pick(&[1.0, 2.0, 10.0, 100.0, 1e3, 1e6]), 1 => (r.next() as i64) as f64, _ => f };
            json!({"op": "float", "what": "write", "w": "f64", "bits": format!("{:x}", f.to_bits())})
        }
        3..=5 => {
            let frac = r.next() as u32 & ((1 << 23) - 1);
            let frac = match r.below(6) { 0 => 0, 1 => 1, 2 => (1 << 23) - 1, _ => frac };
            let exp = match r.below(6) { 0 => 0, 1 => 1, 2 => 0xfe, 3 => 0xff, _ => r.next() as u32 & 0xff };
            let mut b = (r.next() as u32 & 1) << 31 | exp << 23 | frac;
            if r.below(40) == 0 {
                // the one that is not the nearest float of the nearest double of its shortest text
                b = 0x15ae_43fd | (b & 1 << 31);
            }
            json!({"op": "float", "what": "write", "w": "f32", "bits": format!("{b:x}")})
        }
        6..=7 => {
            let mut s = String::new();
            if r.below(3) == 0 { s.push(*r.pick(&['-', '+'])); }
            if r.below(3) == 0 {
                // next to the midpoint of two floats
                let f = f64::from_bits(r.next() >> 2 & 0x7fef_ffff_ffff_ffff);
                let d = *r.pick(&[17usize, 18, 19, 20, 25, 30]);
                let mid = if f.is_finite() { f } else { 1.5 };
                s += &format!("{mid:.d$e}");
            } else {
                let n = 1 + { let k = *r.pick(&[4, 20, 40]); r.below(k) };
                let dot = r.below(n + 1);
                for i in 0..n {
                    if i == dot && i > 0 { s.push('.'); }
                    s.push((b'0' + if i == 0 { 1 + r.below(9) } else { r.below(10) } as u8) as char);
                }
                if r.below(2) == 0 {
                    s += &format!("e{}", *r.pick(&["", "+", "-"]));
                    let k = *r.pick(&[5, 30, 330]);
                    s += &r.below(k).to_string();
                }
            }
            json!({"op": "float", "what": "read", "lit": s})
        }
        _ => {
            let (w, bits, signed) = *r.pick(&[("i8", 8usize, true), ("i16", 16, true), ("i32", 32, true), ("i64", 64, true), ("isize", 64, true), ("i128", 128, true),
                ("u8", 8, false), ("u16", 16, false), ("u32", 32, false), ("u64", 64, false), ("usize", 64, false), ("u128", 128, false)]);
            let any = (r.next() as u128) << 64 | r.next() as u128;
            let k = r.below(bits) as u32;
            let near = match r.below(3) { 0 => (1u128 << k).wrapping_sub(r.below(2) as u128), 1 => (1u128 << k).wrapping_sub(1).wrapping_add(r.below(3) as u128), _ => any >> k };
            let mask = u128::MAX >> (128 - bits);
            let v = match r.below(6) { 0 => mask, 1 => mask >> 1, 2 => (mask >> 1) + 1, _ => near & mask };
            let s = if signed { (((v << (128 - bits)) as i128) >> (128 - bits)).to_string() } else { v.to_string() };
            json!({"op": "float", "what": "int", "w": w, "int": s})
        }
    }
}
