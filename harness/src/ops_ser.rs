//! Serde calls as data: serializing a table of calls, and reading it back.
use crate::gen::{any_text, word, Rng};
use crate::j::{arr, jval, st, vjson, J};
use crate::ops_doc::{errj, read_text};
use crate::rt::{guard, try_, Ctx};
use crate::schema::{intern, Schema};
use serde::de::DeserializeSeed;
use serde::ser::*;
use serde_yaml::Value;
use std::fmt;

pub struct Call {
    pub k: String,
    pub n: &'static str,
    pub s: String,
    pub kids: Vec<usize>,
    pub hint: Option<Option<usize>>, // None: as many as there are
    pub entry: bool,
    pub ms: Vec<&'static str>,
}

pub fn calls(j: &J) -> Vec<Call> {
    let mut v = vec![Call { k: String::new(), n: "", s: String::new(), kids: vec![], hint: None, entry: false, ms: vec![] }];
    for c in arr(j) {
        let k = st(&c["k"]).to_owned();
        let ms = if c["ms"].is_array() { arr(&c["ms"]).iter().map(|x| intern(st(x))).collect() } else { vec![] };
        v.push(Call {
            n: intern(c["n"].as_str().unwrap_or("")),
            s: c["s"].as_str().unwrap_or("").to_owned(),
            kids: arr(&c["kids"]).iter().map(|x| x.as_u64().unwrap() as usize).collect(),
            hint: match c["len"].as_str().unwrap_or("exact") {
                "none" => Some(None),
                "one" => Some(Some(1)),
                _ => None,
            },
            entry: c["ms"] == "entry",
            ms,
            k,
        });
    }
    v
}

pub struct C<'a, A>(pub &'a [Call], pub usize, pub A);
/// Whether adapters occur among calls (they do not nest: each makes new types).
pub trait Adapt: Copy {
    fn single<S: Serializer>(c: C<No>, deep: bool, s: S) -> Result<S::Ok, S::Error>;
}
#[derive(Clone, Copy)]
pub struct Yes;
#[derive(Clone, Copy)]
pub struct No;
impl Adapt for Yes {
    fn single<S: Serializer>(c: C<No>, deep: bool, s: S) -> Result<S::Ok, S::Error> {
        if deep {
            serde_yaml::with::singleton_map_recursive::serialize(&c, s)
        } else {
            serde_yaml::with::singleton_map::serialize(&c, s)
        }
    }
}
impl Adapt for No {
    fn single<S: Serializer>(_: C<No>, _: bool, _: S) -> Result<S::Ok, S::Error> {
        panic!("an adapter inside an adapter")
    }
}

struct Pieces<'a>(&'a [&'static str]);
impl<'a> fmt::Display for Pieces<'a> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for p in self.0 {
            f.write_str(p)?;
        }
        Ok(())
    }
}
struct Bytes(Vec<u8>);
impl Serialize for Bytes {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}

impl<'a, A: Adapt> Serialize for C<'a, A> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let c = &self.0[self.1];
        let kid = |i: usize| C(self.0, c.kids[i], self.2);
        let n = c.kids.len();
        match c.k.as_str() {
            "sm" | "smr" => A::single(C(self.0, c.kids[0], No), c.k == "smr", s),
            "unit" => s.serialize_unit(),
            "none" => s.serialize_none(),
            "ustruct" => s.serialize_unit_struct("U"),
            "bool" => s.serialize_bool(c.s == "true"),
            "int" => match c.n {
                "i8" => s.serialize_i8(c.s.parse().unwrap()),
                "i16" => s.serialize_i16(c.s.parse().unwrap()),
                "i32" => s.serialize_i32(c.s.parse().unwrap()),
                "i64" => s.serialize_i64(c.s.parse().unwrap()),
                "i128" => s.serialize_i128(c.s.parse().unwrap()),
                "u8" => s.serialize_u8(c.s.parse().unwrap()),
                "u16" => s.serialize_u16(c.s.parse().unwrap()),
                "u32" => s.serialize_u32(c.s.parse().unwrap()),
                "u64" => s.serialize_u64(c.s.parse().unwrap()),
                "u128" => s.serialize_u128(c.s.parse().unwrap()),
                other => panic!("int type {other}"),
            },
            "float" if c.n == "f32" => s.serialize_f32(float(&c.s) as f32),
            "float" => s.serialize_f64(float(&c.s)),
            "char" => s.serialize_char(c.s.chars().next().unwrap()),
            "str" => s.serialize_str(&c.s),
            "big" => s.serialize_str(&"yaml ".repeat(c.s.parse().unwrap())),
            "bytes" => Bytes(c.s.bytes().map(|b| (b as char).to_digit(16).unwrap() as u8).collect()).serialize(s),
            "uvar" => s.serialize_unit_variant("E", 0, c.n),
            "disp" => s.collect_str(&Pieces(&c.ms)),
            "some" => s.serialize_some(&kid(0)),
            "nst" => s.serialize_newtype_struct("N", &kid(0)),
            "nvar" => s.serialize_newtype_variant("E", 0, c.n, &kid(0)),
            "seq" => {
                let mut a = s.serialize_seq(c.hint.unwrap_or(Some(n)))?;
                for i in 0..n {
                    a.serialize_element(&kid(i))?;
                }
                a.end()
            }
            "tup" => {
                let mut a = s.serialize_tuple(n)?;
                for i in 0..n {
                    a.serialize_element(&kid(i))?;
                }
                a.end()
            }
            "tst" => {
                let mut a = s.serialize_tuple_struct("T", n)?;
                for i in 0..n {
                    a.serialize_field(&kid(i))?;
                }
                a.end()
            }
            "tvar" => {
                let mut a = s.serialize_tuple_variant("E", 0, c.n, n)?;
                for i in 0..n {
                    a.serialize_field(&kid(i))?;
                }
                a.end()
            }
            "map" => {
                let mut a = s.serialize_map(c.hint.unwrap_or(Some(n / 2)))?;
                for i in 0..n / 2 {
                    if c.entry {
                        a.serialize_entry(&kid(2 * i), &kid(2 * i + 1))?;
                    } else {
                        a.serialize_key(&kid(2 * i))?;
                        a.serialize_value(&kid(2 * i + 1))?;
                    }
                }
                a.end()
            }
            "struct" => {
                let mut a = s.serialize_struct("S", n)?;
                for i in 0..n {
                    a.serialize_field(c.ms[i], &kid(i))?;
                }
                a.end()
            }
            "svar" => {
                let mut a = s.serialize_struct_variant("E", 0, c.n, n)?;
                for i in 0..n {
                    a.serialize_field(c.ms[i], &kid(i))?;
                }
                a.end()
            }
            other => panic!("call {other}"),
        }
    }
}

pub fn float(s: &str) -> f64 {
    match s {
        ".inf" => f64::INFINITY,
        "-.inf" => f64::NEG_INFINITY,
        ".nan" => f64::NAN,
        _ => s.parse().unwrap(),
    }
}

pub fn direct_tags(v: &Value) -> bool {
    match v {
        Value::Tagged(t) => matches!(t.value, Value::Tagged(_)) || direct_tags(&t.value),
        Value::Sequence(s) => s.iter().any(direct_tags),
        Value::Mapping(m) => m.iter().any(|(k, v)| direct_tags(k) || direct_tags(v)),
        _ => false,
    }
}

pub fn read_value(text: &str) -> J {
    guard(|| match serde_yaml::from_str::<Value>(text) {
        Ok(v) => vjson(&v),
        Err(e) => errj(e),
    })
}

pub fn written(x: &dyn Fn() -> Result<String, serde_yaml::Error>) -> Result<Result<String, String>, String> {
    try_(|| x().map_err(|e| e.to_string()))
}

/// A Value written as text reads back as that Value (C01).
pub fn roundtrip(ctx: &mut Ctx, v: &Value) {
    let j = vjson(v);
    let input = j.to_string();
    match written(&|| serde_yaml::to_string(v)) {
        Ok(Ok(text)) => {
            ctx.eq("a Value written and read", &format!("{input}  as {text:?}"), &j, &read_value(&text));
            // and is stable from then on
            let again = try_(|| serde_yaml::from_str::<Value>(&text).ok().and_then(|w| serde_yaml::to_string(&w).ok()));
            ctx.ok("writing what was read gives the same text", &input, again == Ok(Some(text.clone())), serde_json::json!([text, format!("{again:?}")]));
        }
        other => ctx.fail("writing a Value", &input, J::Null, serde_json::json!(format!("{other:?}"))),
    }
}

/// Several Values written by one Serializer read back one by one.
fn stream(ctx: &mut Ctx, vs: &[Value]) {
    let exp: J = vs.iter().map(vjson).collect();
    let obs = guard(|| {
        let mut s = serde_yaml::Serializer::new(Vec::new());
        for v in vs {
            if let Err(e) = v.serialize(&mut s) {
                return errj(e);
            }
        }
        let text = match s.into_inner() {
            Ok(b) => String::from_utf8(b).unwrap(),
            Err(e) => return errj(e),
        };
        serde_yaml::Deserializer::from_str(&text)
            .map(|d| match <Value as serde::Deserialize>::deserialize(d) {
                Ok(v) => vjson(&v),
                Err(e) => errj(e),
            })
            .collect()
    });
    ctx.eq("several documents written and read", &exp.to_string(), &exp, &obs);
}

pub fn run(ctx: &mut Ctx, c: &J) {
    let t = calls(&c["calls"]);
    let input = c["calls"].to_string();
    let root = || C(&t, 1, Yes);
    let val = &c["val"];
    let refused = c["refused"] == true;
    let plain = !refused && c["repeats"] != true && c["big"] != true;
    if ctx.wants("same") {
        let tv = guard(|| match serde_yaml::to_value(root()) {
            Ok(v) => vjson(&v),
            Err(e) => errj(e),
        });
        ctx.eq("to_value", &input, val, &tv);
        match written(&|| serde_yaml::to_string(&root())) {
            Ok(Ok(text)) => {
                if ctx.ok("text is refused", &input, !refused, serde_json::json!(text)) {
                    let back = read_value(&text);
                    let at = format!("{input}  written {text:?}");
                    ctx.eq("the text as Value", &at, &c["back"], &back);
                    if plain {
                        ctx.eq("to_string and to_value agree", &at, val, &back);
                    }
                }
            }
            Ok(Err(e)) => {
                ctx.ok("writing text", &input, refused, serde_json::json!(e));
            }
            Err(p) => ctx.fail("writing text panicked", &input, J::Null, serde_json::json!(p)),
        }
    }
    if ctx.wants("restore") {
        let s = Schema::parse(&c["ty"]);
        if let Ok(Ok(text)) = written(&|| serde_yaml::to_string(&root())) {
            let at = format!("{input}  written {text:?} as {}", c["ty"]);
            ctx.eq("data restored from text", &at, &c["r"], &read_text(&text, &s));
        } else {
            ctx.ok("text is refused", &input, refused, J::Null);
        }
        let at = format!("{input}  as {}", c["ty"]);
        let v = guard(|| match serde_yaml::to_value(root()).and_then(|v| s.deserialize(v)) {
            Ok(v) => v,
            Err(e) => errj(e),
        });
        ctx.eq("data restored from a Value", &at, &c["v"], &v);
        let v = guard(|| match serde_yaml::to_value(root()).and_then(|v| s.deserialize(&v)) {
            Ok(v) => v,
            Err(e) => errj(e),
        });
        ctx.eq("data restored from a borrowed Value", &at, &c["v"], &v);
    }
    if ctx.wants("value") && val["k"] != "err" {
        let v = jval(val);
        if !direct_tags(&v) {
            roundtrip(ctx, &v);
            ctx.recent.push(v);
            if ctx.recent.len() == 3 {
                let vs = std::mem::take(&mut ctx.recent);
                stream(ctx, &vs);
            }
        }
    }
}

/// A random table of calls.
pub fn draw(r: &mut Rng) -> J {
    let mut t: Vec<J> = vec![];
    let left = *r.pick(&[3usize, 6, 10, 20, 40]);
    grow(r, &mut t, left, 0, None);
    serde_json::json!({"calls": t})
}
/// A table of calls with adapters in it.
pub fn draw_single(r: &mut Rng) -> J {
    let mut t: Vec<J> = vec![];
    let left = *r.pick(&[3usize, 6, 10, 20]);
    let adapter = |r: &mut Rng| if r.chance(1, 3) { "sm" } else { "smr" };
    let mut kids = vec![];
    if r.chance(3, 5) {
        let k = adapter(r);
        push(&mut t, k, "", "");
        kids.push(grow(r, &mut t, left, 0, None));
    } else {
        let k = *r.pick(&["struct", "seq", "tvar"]);
        push(&mut t, k, if k == "tvar" { "A" } else { "" }, "");
        let mut names = vec![];
        for i in 0..1 + r.below(3) {
            names.push(format!("f{i}"));
            if r.chance(1, 4) {
                kids.push(grow(r, &mut t, left / 3, 1, None));
                continue;
            }
            let k = adapter(r);
            let id = push(&mut t, k, "", "");
            kids.push(id);
            let below = grow(r, &mut t, left / 2, 1, None);
            t[id - 1]["kids"] = serde_json::json!([below]);
        }
        if k == "struct" {
            t[0]["ms"] = serde_json::json!(names);
        }
    }
    t[0]["kids"] = serde_json::json!(kids);
    serde_json::json!({"calls": t})
}
fn text(r: &mut Rng) -> String {
    match r.below(5) {
        0 => word(r),
        1 | 2 => any_text(r),
        3 => r.pick(&["", "x", "y", "key", "\n", " ", "a: b", "- a", "a\n", "a\nb", " lead", "1", "!", "!T", "null"]).to_string(),
        _ => format!("k{}", r.below(1000)),
    }
}
fn push(t: &mut Vec<J>, k: &str, n: &str, s: &str) -> usize {
    t.push(serde_json::json!({"k": k, "n": n, "s": s, "kids": [], "len": "exact", "ms": [], "hint1": false}));
    t.len()
}
fn name(r: &mut Rng) -> &'static str {
    *r.pick(&["A", "B", "Yy", "true", "1", "Long_Name", "ünï", "null"])
}
/// Adds a call and what is below it; returns its number.
fn grow(r: &mut Rng, t: &mut Vec<J>, left: usize, depth: usize, avoid_tag: Option<()>) -> usize {
    let leafy = left < 2 || depth > 12 || r.chance(1, 8);
    if leafy {
        let k = r.below(14);
        return match k {
            0 => push(t, "unit", "", ""),
            1 => push(t, "none", "", ""),
            2 => push(t, "ustruct", "", ""),
            3 => push(t, "bool", "", if r.chance(1, 2) { "true" } else { "false" }),
            4 => {
                let v = r.next() as i64 >> r.below(64);
                push(t, "int", "i64", &v.to_string())
            }
            5 => {
                let v = r.next() >> r.below(64);
                push(t, "int", "u64", &v.to_string())
            }
            6 => {
                let f = match r.below(4) {
                    0 => return push(t, "float", "f64", *r.pick(&[".inf", "-.inf", ".nan", "-0.0", "0.0"])),
                    1 => return push(t, "float", "f32", *r.pick(&["0.5", "-2.25", "1024.0", ".inf", ".nan", "-0.0"])),
                    2 => f64::from_bits(r.next()),
                    _ => (r.below(100000) as f64) / 64.0,
                };
                if f.is_nan() || f.is_infinite() {
                    return push(t, "float", "f64", "1.0");
                }
                push(t, "float", "f64", &format!("{f:?}"))
            }
            7 => {
                // (the specification counts UTF-16 units)
                let s: String = any_text(r).chars().filter(|c| (*c as u32) < 0x10000).take(1).collect();
                push(t, "char", "", if s.is_empty() { "c" } else { &s })
            }
            8 => push(t, "uvar", name(r), ""),
            9 => {
                let n = push(t, "disp", "", "");
                let ms = match r.below(5) {
                    0 => vec!["!".to_owned(), "T".to_owned()],
                    1 => vec!["!T".to_owned()],
                    2 => vec!["!".to_owned()],
                    3 => vec!["!".to_owned(), "T".to_owned(), "u".to_owned()],
                    _ => vec![text(r), text(r)],
                };
                t[n - 1]["ms"] = serde_json::json!(ms);
                n
            }
            _ => {
                let s = text(r);
                push(t, "str", "", &s)
            }
        };
    }
    let k = *r.pick(&["seq", "seq", "tup", "tst", "map", "map", "map", "map", "struct", "tvar", "svar", "nvar", "some", "nst"]);
    let k = if avoid_tag.is_some() && k.ends_with("var") { "seq" } else { k };
    let id = push(t, k, if k.ends_with("var") { name(r) } else { "" }, "");
    let mut kids = vec![];
    match k {
        "some" | "nst" => kids.push(grow(r, t, left - 1, depth + 1, avoid_tag)),
        // a tag directly on a tag is possible, but not always
        "nvar" => {
            let a = if r.chance(1, 10) { None } else { Some(()) };
            kids.push(grow(r, t, left - 1, depth + 1, a));
        }
        "map" => {
            let n = *r.pick(&[0usize, 1, 1, 1, 2, 3]);
            for _ in 0..n {
                let key = r.chance(1, 4);
                kids.push(grow(r, t, if key { left / 3 } else { 0 }, depth + 1, None));
                let a = if r.chance(1, 2) { Some(()) } else { None };
                kids.push(grow(r, t, (left - 1) / n, depth + 1, a));
            }
            t[id - 1]["ms"] = serde_json::json!(if r.chance(2, 3) { "entry" } else { "kv" });
            let none = r.chance(1, 6);
            t[id - 1]["len"] = serde_json::json!(if none { "none" } else { "exact" });
            t[id - 1]["hint1"] = serde_json::json!(!none && n == 1);
        }
        "struct" | "svar" => {
            let n = r.below(4);
            let mut names = vec![];
            for i in 0..n {
                names.push(format!("{}{}", r.pick(&["x", "true", "1", "field ", "-"]), i));
                kids.push(grow(r, t, (left - 1) / n, depth + 1, None));
            }
            t[id - 1]["ms"] = serde_json::json!(names);
        }
        _ => {
            let n = *r.pick(&[0usize, 1, 1, 2, 3, 5]);
            for _ in 0..n {
                kids.push(grow(r, t, (left - 1) / n, depth + 1, None));
            }
            if k == "seq" && r.chance(1, 4) {
                t[id - 1]["len"] = serde_json::json!("none");
            }
        }
    }
    t[id - 1]["kids"] = serde_json::json!(kids);
    id
}
