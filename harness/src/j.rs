//! JSON forms shared with the specification.
use serde_json::json;
use serde_yaml::value::{Tag, TaggedValue};
use serde_yaml::{Mapping, Number, Value};

pub type J = serde_json::Value;

pub fn canon_f64(f: f64) -> String {
    if f.is_nan() {
        "nan".into()
    } else {
        format!("{:?}", f)
    }
}

/// Normal form of an expected or observed result: floats by value, error
/// classes dropped.
pub fn canon(j: &J) -> J {
    match j {
        J::Array(a) => J::Array(a.iter().map(canon).collect()),
        J::Object(o) => {
            let k = o.get("k").and_then(J::as_str).unwrap_or("");
            if k == "err" {
                return json!({"k": "err"});
            }
            if k == "float" || k == "f32" {
                if let Some(t) = o.get("t").and_then(J::as_str) {
                    let f: f64 = t.parse().unwrap_or_else(|_| panic!("float text {t:?}"));
                    let f = if k == "f32" { (f as f32) as f64 } else { f };
                    return json!({"k": "float", "t": canon_f64(f)});
                }
            }
            J::Object(o.iter().map(|(k, v)| (k.clone(), canon(v))).collect())
        }
        other => other.clone(),
    }
}

pub fn vnum(n: &Number) -> J {
    if let Some(u) = n.as_u64() {
        json!({"k": "int", "s": u.to_string()})
    } else if let Some(i) = n.as_i64() {
        json!({"k": "int", "s": i.to_string()})
    } else {
        json!({"k": "float", "t": canon_f64(n.as_f64().unwrap())})
    }
}

/// A Value in the specification's form.
pub fn vjson(v: &Value) -> J {
    match v {
        Value::Null => json!({"k": "null"}),
        Value::Bool(b) => json!({"k": "bool", "b": b}),
        Value::Number(n) => vnum(n),
        Value::String(s) => json!({"k": "str", "s": s}),
        Value::Sequence(s) => json!({"k": "seq", "e": s.iter().map(vjson).collect::<Vec<_>>()}),
        Value::Mapping(m) => json!({"k": "map", "e": mjson(m)}),
        Value::Tagged(t) => {
            let name = t.tag.to_string();
            json!({"k": "tag", "t": name.strip_prefix('!').unwrap_or(&name), "v": vjson(&t.value)})
        }
    }
}

pub fn mjson(m: &Mapping) -> J {
    J::Array(m.iter().map(|(k, v)| json!([vjson(k), vjson(v)])).collect())
}

pub fn jnum(s: &str) -> Number {
    if let Ok(u) = s.parse::<u64>() {
        Number::from(u)
    } else {
        Number::from(s.parse::<i64>().unwrap_or_else(|_| panic!("int text {s:?}")))
    }
}

/// The Value that the specification's form describes.
pub fn jval(j: &J) -> Value {
    match j["k"].as_str().unwrap_or_else(|| panic!("not a value: {j}")) {
        "null" => Value::Null,
        "bool" => Value::Bool(j["b"].as_bool().unwrap()),
        "int" => Value::Number(jnum(j["s"].as_str().unwrap())),
        "float" => Value::Number(Number::from(j["t"].as_str().unwrap().parse::<f64>().unwrap())),
        "str" => Value::String(j["s"].as_str().unwrap().to_owned()),
        "seq" => Value::Sequence(arr(&j["e"]).iter().map(jval).collect()),
        "map" => Value::Mapping(jmap(&j["e"])),
        "tag" => Value::Tagged(Box::new(TaggedValue {
            tag: Tag::new(j["t"].as_str().unwrap()),
            value: jval(&j["v"]),
        })),
        other => panic!("value kind {other}"),
    }
}

pub fn jmap(j: &J) -> Mapping {
    let mut m = Mapping::new();
    for kv in arr(j) {
        m.insert(jval(&kv[0]), jval(&kv[1]));
    }
    m
}

static EMPTY: Vec<J> = Vec::new();
pub fn arr(j: &J) -> &Vec<J> {
    match j {
        J::Array(a) => a,
        // TLC cannot tell the empty sequence from the empty function.
        J::Object(o) if o.is_empty() => &EMPTY,
        J::Null => &EMPTY,
        other => panic!("not an array: {other}"),
    }
}

pub fn st(j: &J) -> &str {
    j.as_str().unwrap_or_else(|| panic!("not a string: {j}"))
}
