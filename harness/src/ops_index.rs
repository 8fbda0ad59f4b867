//! Indexing, accessors and merge keys.
use crate::gen::Rng;
use crate::j::{arr, canon_f64, jval, st, vjson, J};
use crate::rt::{guard, try_, Ctx};
use serde_json::json;
use serde_yaml::Value;

/// An index in one of its forms.
#[derive(Clone)]
enum Idx {
    Pos(usize),
    Str(String),
    Val(Value),
}

fn idx(j: &J) -> Idx {
    match st(&j["k"]) {
        "pos" => Idx::Pos(st(&j["key"]["s"]).parse().unwrap()),
        "str" => Idx::Str(st(&j["key"]["s"]).to_owned()),
        _ => Idx::Val(jval(&j["key"])),
    }
}

/// Forms in which an index can be written (0 is always there).
const FORMS: usize = 4;
fn get<'v>(v: &'v Value, i: &Idx, form: usize) -> Option<&'v Value> {
    match (i, form) {
        (Idx::Pos(n), 1) => v.get(&n),
        (Idx::Pos(n), _) => v.get(*n),
        (Idx::Str(s), 0) => v.get(s.as_str()),
        (Idx::Str(s), 1) => v.get(s.clone()),
        (Idx::Str(s), 2) => v.get(&s),
        (Idx::Str(s), _) => v.get(Value::String(s.clone())),
        (Idx::Val(k), 1) => v.get(k.clone()),
        (Idx::Val(k), _) => v.get(k),
    }
}
fn get_mut<'v>(v: &'v mut Value, i: &Idx, form: usize) -> Option<&'v mut Value> {
    match (i, form) {
        (Idx::Pos(n), 1) => v.get_mut(&n),
        (Idx::Pos(n), _) => v.get_mut(*n),
        (Idx::Str(s), 0) => v.get_mut(s.as_str()),
        (Idx::Str(s), 1) => v.get_mut(s.clone()),
        (Idx::Str(s), 2) => v.get_mut(&s),
        (Idx::Str(s), _) => v.get_mut(Value::String(s.clone())),
        (Idx::Val(k), 1) => v.get_mut(k.clone()),
        (Idx::Val(k), _) => v.get_mut(k),
    }
}
fn index<'v>(v: &'v Value, i: &Idx, form: usize) -> &'v Value {
    match (i, form) {
        (Idx::Pos(n), 1) => &v[&n],
        (Idx::Pos(n), _) => &v[*n],
        (Idx::Str(s), 0) => &v[s.as_str()],
        (Idx::Str(s), 1) => &v[s.clone()],
        (Idx::Str(s), 2) => &v[&s],
        (Idx::Str(s), _) => &v[Value::String(s.clone())],
        (Idx::Val(k), 1) => &v[k.clone()],
        (Idx::Val(k), _) => &v[k],
    }
}
fn index_mut<'v>(v: &'v mut Value, i: &Idx, form: usize) -> &'v mut Value {
    match (i, form) {
        (Idx::Pos(n), 1) => &mut v[&n],
        (Idx::Pos(n), _) => &mut v[*n],
        (Idx::Str(s), 0) => &mut v[s.as_str()],
        (Idx::Str(s), 1) => &mut v[s.clone()],
        (Idx::Str(s), 2) => &mut v[&s],
        (Idx::Str(s), _) => &mut v[Value::String(s.clone())],
        (Idx::Val(k), 1) => &mut v[k.clone()],
        (Idx::Val(k), _) => &mut v[k],
    }
}

fn b(x: bool) -> J {
    json!({"k": "bool", "b": x})
}

/// The accessors against what is inside the tags.
fn accessors(v: &Value, acc: &J) -> Vec<&'static str> {
    let u = &acc["u"];
    let k = st(&u["k"]);
    let mut bad = vec![];
    let mut want = |what: &'static str, ok: bool| {
        if !ok {
            bad.push(what)
        }
    };
    let (i64_, u64_) = (acc["i64"] == true, acc["u64"] == true);
    let num = k == "int" || k == "float";
    want("is_null", v.is_null() == (k == "null"));
    want("as_null", v.as_null().is_some() == (k == "null"));
    want("is_bool", v.is_bool() == (k == "bool"));
    want("as_bool", v.as_bool() == if k == "bool" { u["b"].as_bool() } else { None });
    want("is_number", v.is_number() == num);
    want("is_i64", v.is_i64() == i64_);
    want("is_u64", v.is_u64() == u64_);
    want("is_f64", v.is_f64() == (k == "float"));
    want("as_i64", v.as_i64() == if i64_ { Some(st(&u["s"]).parse().unwrap()) } else { None });
    want("as_u64", v.as_u64() == if u64_ { Some(st(&u["s"]).parse().unwrap()) } else { None });
    let f = match k {
        "int" => Some(canon_f64(st(&u["s"]).parse::<f64>().unwrap())),
        "float" => Some(canon_f64(st(&u["t"]).parse::<f64>().unwrap())),
        _ => None,
    };
    want("as_f64", v.as_f64().map(canon_f64) == f);
    want("is_string", v.is_string() == (k == "str"));
    want("as_str", v.as_str() == if k == "str" { u["s"].as_str() } else { None });
    want("is_sequence", v.is_sequence() == (k == "seq"));
    want("as_sequence", v.as_sequence().map(|s| Value::Sequence(s.clone())) == if k == "seq" { Some(jval(u)) } else { None });
    want("is_mapping", v.is_mapping() == (k == "map"));
    want("as_mapping", v.as_mapping().map(|s| Value::Mapping(s.clone())) == if k == "map" { Some(jval(u)) } else { None });
    let mut w = v.clone();
    want("as_sequence_mut", w.as_sequence_mut().is_some() == (k == "seq"));
    want("as_mapping_mut", w.as_mapping_mut().is_some() == (k == "map"));
    want("unchanged", w == *v);
    bad
}

pub fn run(ctx: &mut Ctx, c: &J) {
    let mut v = jval(&c["start"]);
    let mut input = format!("{}", c["start"]);
    let bad = try_(|| accessors(&v, &c["acc"])).unwrap_or(vec!["panic"]);
    ctx.ok("accessors", &input, bad.is_empty(), json!(bad));
    for h in arr(&c["hist"]) {
        let a = st(&h["a"]);
        let path: Vec<Idx> = arr(&h["p"]).iter().map(idx).collect();
        let x = jval(&h["x"]);
        input += &format!(" {a} {} {}", h["p"], h["x"]);
        let mut next = v.clone();
        for form in 0..FORMS {
            let mut w = v.clone();
            let r = guard(|| match a {
                "get" => match path.iter().try_fold(&w, |v, i| get(v, i, form)) {
                    Some(r) => json!({"k": "some", "v": vjson(r)}),
                    None => json!({"k": "none"}),
                },
                "index" => vjson(path.iter().fold(&w, |v, i| index(v, i, form))),
                "touch" => {
                    path.iter().fold(&mut w, |v, i| index_mut(v, i, form));
                    b(true)
                }
                "set" => {
                    *path.iter().fold(&mut w, |v, i| index_mut(v, i, form)) = x.clone();
                    b(true)
                }
                "get_mut" => match path.iter().try_fold(&mut w, |v, i| get_mut(v, i, form)) {
                    Some(r) => {
                        *r = x.clone();
                        b(true)
                    }
                    None => b(false),
                },
                "as_sequence_mut" => b(w.as_sequence_mut().map(|s| s.push(x.clone())).is_some()),
                "as_mapping_mut" => b(w.as_mapping_mut().map(|m| m.insert(Value::String("n".into()), x.clone())).is_some()),
                other => panic!("operation {other}"),
            });
            // writing panics where there is no place to write
            let r = if r["k"] == "panic" && matches!(a, "set" | "touch") { b(false) } else { r };
            let at = format!("{input} (form {form})");
            ctx.eq("what the operation returns", &at, &h["ret"], &r);
            ctx.eq("the value afterwards", &at, &h["after"], &vjson(&w));
            next = w;
        }
        v = next;
        let bad = try_(|| accessors(&v, &h["acc"])).unwrap_or(vec!["panic"]);
        ctx.ok("accessors", &input, bad.is_empty(), json!(bad));
    }
}

// -------------------------------------------------------------------- merging

/// Whether a value is as expected; entries in any order where a mapping was merged.
fn same(e: &J, v: &Value) -> bool {
    match (st(&e["k"]), v) {
        ("seq", Value::Sequence(s)) => s.len() == arr(&e["e"]).len() && arr(&e["e"]).iter().zip(s).all(|(e, v)| same(e, v)),
        ("tag", Value::Tagged(t)) => t.tag == *st(&e["t"]) && same(&e["v"], &t.value),
        ("map", Value::Mapping(m)) => {
            let es = arr(&e["e"]);
            let one = |e: &J, v: &Value| same(e, v);
            es.len() == m.len()
                && if e["u"] == true {
                    es.iter().all(|kv| m.get(jval(&kv[0])).map_or(false, |v| one(&kv[1], v)))
                } else {
                    es.iter().zip(m).all(|(kv, (k, v))| jval(&kv[0]) == *k && one(&kv[1], v))
                }
        }
        ("seq" | "tag" | "map", _) => false,
        _ => jval(e) == *v,
    }
}

pub fn merge(ctx: &mut Ctx, c: &J) {
    let input = c["v"].to_string();
    let mut v = jval(&c["v"]);
    match try_(|| v.apply_merge()) {
        Err(p) => ctx.fail("panic", &input, c["r"].clone(), json!(p)),
        Ok(Ok(())) => {
            let want = c["r"]["k"] != "err";
            ctx.ok("merged", &input, want && same(&c["r"], &v), vjson(&v));
            if want {
                // merging again changes nothing
                let before = v.clone();
                let r = v.apply_merge();
                ctx.ok("merged again", &input, r.is_ok() && vjson(&v) == vjson(&before), vjson(&v));
            }
        }
        Ok(Err(e)) => {
            let msg = e.to_string();
            let class = match msg.as_str() {
                "expected a mapping or list of mappings for merging, but found scalar" => "scalar",
                "unexpected tagged value in merge" => "tagged",
                "expected a mapping for merging, but found scalar" => "scalar-element",
                "expected a mapping for merging, but found sequence" => "sequence",
                _ => "?",
            };
            ctx.ok("refused", &input, c["r"]["k"] == "err" && arr(&c["errs"]).iter().any(|e| e == class), json!(msg));
        }
    }
}

/// A Value with merge keys.
pub fn draw(r: &mut Rng) -> J {
    let left = *r.pick(&[6usize, 12, 25, 40]);
    grow(r, left, 0, 8)
}
fn grow(r: &mut Rng, left: usize, depth: usize, bad: usize) -> J {
    if left == 0 || depth > 7 || r.chance(1, 8) {
        return leaf(r);
    }
    match r.below(10) {
        0 | 1 => {
            let n = r.range(0, left.min(3));
            json!({"k": "seq", "e": (0..n).map(|_| grow(r, left / (n + 1), depth + 1, bad)).collect::<Vec<_>>()})
        }
        2 => json!({"k": "tag", "t": "T", "v": grow(r, left - 1, depth + 1, bad)}),
        _ => mapping(r, left, depth, bad),
    }
}
fn leaf(r: &mut Rng) -> J {
    match r.below(4) {
        0 => json!({"k": "null"}),
        1 => json!({"k": "str", "s": "<<"}),
        _ => json!({"k": "int", "s": r.below(100).to_string()}),
    }
}
fn mapping(r: &mut Rng, left: usize, depth: usize, bad: usize) -> J {
    let mut keys: Vec<J> = ["a", "b", "c", "d", "<", "<<<"].iter().map(|k| json!({"k": "str", "s": k})).collect();
    keys.push(json!({"k": "int", "s": "1"}));
    keys.push(json!({"k": "tag", "t": "t", "v": {"k": "str", "s": "<<"}}));
    keys.push(json!({"k": "map", "e": [[{"k": "str", "s": "<<"}, {"k": "int", "s": "1"}]]}));
    if depth < 8 && r.chance(2, 3) {
        keys.insert(0, json!({"k": "str", "s": "<<"}));
    }
    let n = r.range(0, left.min(4));
    let mut e = vec![];
    for i in 0..n {
        let at = if i == 0 { 0 } else { r.below(keys.len()) };
        let k = keys.remove(at);
        let share = left / (n + 1);
        let v = if k["s"] == "<<" {
            // mostly something that can be merged
            match r.below(bad * 8) {
                0 => leaf(r),
                1 => json!({"k": "tag", "t": "T", "v": mapping(r, share, depth + 1, bad)}),
                2 => json!({"k": "seq", "e": [mapping(r, share, depth + 1, bad), grow(r, share, depth + 1, bad)]}),
                x if x % 2 == 0 => mapping(r, share, depth + 1, bad),
                _ => {
                    let n = r.range(0, 3);
                    json!({"k": "seq", "e": (0..n).map(|_| mapping(r, share / 2, depth + 1, bad)).collect::<Vec<_>>()})
                }
            }
        } else {
            grow(r, share, depth + 1, bad)
        };
        e.push(json!([k, v]));
    }
    // the merge key may come anywhere
    let k = r.below(e.len() + 1);
    let k = if e.is_empty() { 0 } else { k % e.len() };
    e.rotate_left(k);
    json!({"k": "map", "e": e})
}
