//! Chains of conversions between Rust types, Number, Value and text.
use crate::j::{arr, canon_f64, st, vjson, vnum, J};
use crate::rt::{guard, try_, Ctx};
use serde::Deserialize;
use serde_json::json;
use serde_yaml::{Mapping, Number, Value};
use std::borrow::Cow;

#[derive(Clone, Debug)]
enum Form {
    I8(i8), I16(i16), I32(i32), I64(i64), Isize(isize), I128(i128),
    U8(u8), U16(u16), U32(u32), U64(u64), Usize(usize), U128(u128),
    F32(f32), F64(f64), Bool(bool), Str(String),
    Number(Number), Value(Value), Shown(String), Yaml(String),
    None, Err,
}
use Form::*;

macro_rules! prims {
    ($x:expr, $v:ident => $e:expr, $other:expr) => {
        match $x {
            I8($v) => $e, I16($v) => $e, I32($v) => $e, I64($v) => $e, Isize($v) => $e,
            U8($v) => $e, U16($v) => $e, U32($v) => $e, U64($v) => $e, Usize($v) => $e,
            F32($v) => $e, F64($v) => $e,
            _ => $other,
        }
    };
}
macro_rules! all {
    ($x:expr, $v:ident => $e:expr, $other:expr) => {
        match $x {
            I128($v) => $e, U128($v) => $e, Bool($v) => $e, Str($v) => $e, Number($v) => $e, Value($v) => $e,
            x => prims!(x, $v => $e, $other),
        }
    };
}

fn prim(ty: &str, v: &J) -> Form {
    let s = || st(&v["s"]);
    match ty {
        "i8" => I8(s().parse().unwrap()), "i16" => I16(s().parse().unwrap()), "i32" => I32(s().parse().unwrap()),
        "i64" => I64(s().parse().unwrap()), "isize" => Isize(s().parse().unwrap()), "u8" => U8(s().parse().unwrap()),
        "u16" => U16(s().parse().unwrap()), "u32" => U32(s().parse().unwrap()), "u64" => U64(s().parse().unwrap()),
        "usize" => Usize(s().parse().unwrap()),
        "f32" => F32(st(&v["t"]).parse().unwrap()), "f64" => F64(st(&v["t"]).parse().unwrap()),
        "bool" => Bool(v["b"].as_bool().unwrap()), "string" => Str(s().to_owned()),
        other => panic!("start of type {other}"),
    }
}

fn read<'de, D: serde::Deserializer<'de>>(ty: &str, d: D) -> Form {
    fn go<'de, D: serde::Deserializer<'de>, T: Deserialize<'de>>(d: D, f: impl Fn(T) -> Form) -> Form {
        T::deserialize(d).map_or(Err, f)
    }
    match ty {
        "i8" => go(d, I8), "i16" => go(d, I16), "i32" => go(d, I32), "i64" => go(d, I64), "isize" => go(d, Isize), "i128" => go(d, I128),
        "u8" => go(d, U8), "u16" => go(d, U16), "u32" => go(d, U32), "u64" => go(d, U64), "usize" => go(d, Usize), "u128" => go(d, U128),
        "f32" => go(d, F32), "f64" => go(d, F64), "bool" => go(d, Bool), "string" => go(d, Str), "number" => go(d, Number), "value" => go(d, Value),
        other => panic!("type {other}"),
    }
}

fn opt<T>(o: Option<T>, f: impl Fn(T) -> Form) -> Form {
    o.map_or(None, f)
}

fn step(x: Form, c: &str, ty: &str) -> Form {
    match (c, x) {
        ("to_value", x) => all!(&x, v => serde_yaml::to_value(v).map_or(Err, Value), panic!("to_value")),
        ("yaml", x) => all!(&x, v => serde_yaml::to_string(v).map_or(Err, Yaml), panic!("yaml")),
        ("number", x) => prims!(x, v => Number(v.into()), panic!("number")),
        ("value", Bool(b)) => Value(b.into()),
        ("value", Str(s)) => Value(s.into()),
        ("value-str", Str(s)) => Value(s.as_str().into()),
        ("value-cow", Str(s)) => Value(if s.len() % 2 == 0 { Cow::Borrowed(&s[..]) } else { Cow::Owned(s.clone()) }.into()),
        ("value", Number(n)) => Value(serde_yaml::Value::Number(n)),
        ("value", x) => prims!(x, v => Value(v.into()), panic!("value")),
        ("vec", Bool(b)) => Value(vec![b, b].into()),
        ("vec", Str(s)) => Value(vec![s.clone(), s].into()),
        ("vec", Value(v)) => Value(vec![v.clone(), v].into()),
        ("vec", x) => prims!(x, v => Value(vec![v, v].into()), panic!("vec")),
        ("slice", Value(v)) => Value((&[v][..]).into()),
        ("collect", Value(v)) => Value([v.clone(), v].into_iter().collect()),
        ("mapping", Value(v)) => Value([(serde_yaml::Value::from("k"), v)].into_iter().collect::<Mapping>().into()),
        ("elem", Value(v)) => match &v {
            serde_yaml::Value::Sequence(s) => opt(v.as_sequence().filter(|t| *t == s).and_then(|s| s.last().cloned()), Value),
            _ => opt(v.as_mapping().and_then(|m| m.values().next().cloned()), Value),
        },
        ("same", Number(n)) => Number(n.clone()),
        ("shown", Number(n)) => Shown(n.to_string()),
        ("parse", Shown(s)) => s.parse().map_or(Err, Number),
        ("text", Shown(s) | Yaml(s)) => read(ty, serde_yaml::Deserializer::from_str(&s)),
        ("read", Number(n)) => read(ty, n),
        ("read", Value(v)) => read(ty, v),
        ("read-ref", Number(n)) => read(ty, &n),
        ("read-ref", Value(v)) => read(ty, &v),
        ("as_i64", Number(n)) => opt(n.as_i64(), I64),
        ("as_u64", Number(n)) => opt(n.as_u64(), U64),
        ("as_f64", Number(n)) => opt(n.as_f64(), F64),
        ("as_i64", Value(v)) => opt(v.as_i64(), I64),
        ("as_u64", Value(v)) => opt(v.as_u64(), U64),
        ("as_f64", Value(v)) => opt(v.as_f64(), F64),
        ("as_bool", Value(v)) => opt(v.as_bool(), Bool),
        ("as_str", Value(v)) => opt(v.as_str().map(str::to_owned), Str),
        (c, x) => panic!("step {c} of {x:?}"),
    }
}

fn show(x: &Form, exp: &J) -> J {
    let (f, v) = match x {
        F32(v) => ("f32", json!({"k": "float", "t": canon_f64(*v as f64)})),
        F64(v) => ("f64", json!({"k": "float", "t": canon_f64(*v)})),
        Bool(b) => ("bool", json!({"k": "bool", "b": b})),
        Str(s) => ("string", json!({"k": "str", "s": s})),
        Number(n) => ("number", vnum(n)),
        Value(v) => ("value", vjson(v)),
        None => ("gone", json!({"k": "none"})),
        Err => ("gone", json!({"k": "err"})),
        // a text is judged by what it is read as
        Shown(_) => ("shown", exp["v"].clone()),
        Yaml(_) => ("yaml", exp["v"].clone()),
        I8(i) => ("i8", json!({"k": "int", "s": i.to_string()})),
        I16(i) => ("i16", json!({"k": "int", "s": i.to_string()})),
        I32(i) => ("i32", json!({"k": "int", "s": i.to_string()})),
        I64(i) => ("i64", json!({"k": "int", "s": i.to_string()})),
        Isize(i) => ("isize", json!({"k": "int", "s": i.to_string()})),
        I128(i) => ("i128", json!({"k": "int", "s": i.to_string()})),
        U8(i) => ("u8", json!({"k": "int", "s": i.to_string()})),
        U16(i) => ("u16", json!({"k": "int", "s": i.to_string()})),
        U32(i) => ("u32", json!({"k": "int", "s": i.to_string()})),
        U64(i) => ("u64", json!({"k": "int", "s": i.to_string()})),
        Usize(i) => ("usize", json!({"k": "int", "s": i.to_string()})),
        U128(i) => ("u128", json!({"k": "int", "s": i.to_string()})),
    };
    json!({"f": f, "v": v})
}

pub fn run(ctx: &mut Ctx, c: &J) {
    let mut x = prim(st(&c["start"]["f"]), &c["start"]["v"]);
    let mut input = format!("{} {}", st(&c["start"]["f"]), c["start"]["v"]);
    for s in arr(&c["path"]) {
        let (name, ty) = (st(&s["c"]), st(&s["ty"]));
        input = format!("{input} -{name}:{ty}-> ");
        let next = match try_(|| step(x, name, ty)) {
            Ok(next) => next,
            Result::Err(msg) => {
                ctx.eq("conversion", &input, s, &json!({"k": "panic", "msg": msg}));
                return;
            }
        };
        let exp = json!({"f": s["f"], "v": s["v"]});
        if !ctx.eq("conversion", &input, &exp, &show(&next, &exp)) {
            return;
        }
        let about = &s["about"];
        if about.get("as_i64").is_some() {
            let obs = guard(|| match &next {
                Number(n) => {
                    let f = n.as_f64().unwrap();
                    let v = serde_yaml::Value::Number(n.clone());
                    if (n.is_nan(), n.is_infinite(), n.is_finite()) != (f.is_nan(), f.is_infinite(), f.is_finite()) || !v.is_number() {
                        return json!({"k": "kinds"});
                    }
                    json!({"is_i64": n.is_i64(), "is_u64": n.is_u64(), "is_f64": n.is_f64(),
                           "as_i64": show(&opt(n.as_i64(), I64), &exp)["v"], "as_u64": show(&opt(n.as_u64(), U64), &exp)["v"], "as_f64": show(&opt(n.as_f64(), F64), &exp)["v"]})
                }
                Value(v) => json!({"is_i64": v.is_i64(), "is_u64": v.is_u64(), "is_f64": v.is_f64(),
                    "as_i64": show(&opt(v.as_i64(), I64), &exp)["v"], "as_u64": show(&opt(v.as_u64(), U64), &exp)["v"], "as_f64": show(&opt(v.as_f64(), F64), &exp)["v"]}),
                _ => J::Null,
            });
            ctx.eq("what it says about itself", &input, about, &obs);
        }
        x = next;
    }
}
