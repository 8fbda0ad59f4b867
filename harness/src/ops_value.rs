//! Values as data: order, hashing, mappings, indexing, merging.
use crate::j::{arr, canon, jmap, jval, mjson, st, vjson, J};
use crate::rt::{guard, try_, Ctx};
use serde_json::json;
use serde_yaml::mapping::Entry;
use serde_yaml::value::{Tag, TaggedValue};
use serde_yaml::{Mapping, Value};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn hash<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// The same value with its tags spelled with a bang.
fn banged(v: &Value) -> Value {
    match v {
        Value::Sequence(s) => Value::Sequence(s.iter().map(banged).collect()),
        Value::Mapping(m) => Value::Mapping(m.iter().map(|(k, v)| (banged(k), banged(v))).collect()),
        Value::Tagged(t) => Value::Tagged(Box::new(TaggedValue { tag: Tag::new(t.tag.to_string()), value: banged(&t.value) })),
        other => other.clone(),
    }
}

pub fn pair(ctx: &mut Ctx, c: &J) {
    let (a, b) = (jval(&c["a"]), jval(&c["b"]));
    let input = format!("{} and {}", c["a"], c["b"]);
    let want = match st(&c["cmp"]) {
        "lt" => Some(Ordering::Less),
        "eq" => Some(Ordering::Equal),
        "gt" => Some(Ordering::Greater),
        _ => None,
    };
    let eq = c["eq"] == true;
    let show = |x: &dyn std::fmt::Debug| json!(format!("{x:?}"));
    let r = try_(|| {
        let bb = banged(&b);
        vec![
            ("==", (a == b) == eq && (b == a) == eq && (a == bb) == eq && (a != b) != eq),
            ("hash", !eq || hash(&a) == hash(&b) && hash(&a) == hash(&bb)),
            ("clone", a.clone() == a && hash(&a.clone()) == hash(&a)),
            ("partial_cmp", a.partial_cmp(&b) == want && a.partial_cmp(&bb) == want),
            ("partial_cmp turned", b.partial_cmp(&a) == want.map(Ordering::reverse)),
            ("<", (a < b) == (want == Some(Ordering::Less)) && (a >= b) == matches!(want, Some(Ordering::Greater | Ordering::Equal))),
        ]
    });
    match r {
        Ok(r) => {
            for (what, ok) in r {
                ctx.ok(what, &input, ok, json!(format!("eq {} cmp {:?}", a == b, a.partial_cmp(&b))));
            }
        }
        Err(p) => ctx.fail("panic", &input, J::Null, json!(p)),
    }
    match (&a, &b) {
        (Value::Number(x), Value::Number(y)) => {
            ctx.ok("Number ==", &input, (x == y) == eq && (!eq || hash(x) == hash(y)), show(&(x == y)));
            ctx.ok("Number partial_cmp", &input, x.partial_cmp(y) == want, show(&x.partial_cmp(y)));
        }
        (Value::Mapping(x), Value::Mapping(y)) => {
            ctx.ok("Mapping ==", &input, (x == y) == eq && (!eq || hash(x) == hash(y)), show(&(x == y)));
            ctx.ok("Mapping partial_cmp", &input, x.partial_cmp(y) == want, show(&x.partial_cmp(y)));
        }
        (Value::Tagged(x), Value::Tagged(y)) => {
            ctx.ok("TaggedValue ==", &input, (x == y) == eq && (!eq || hash(x) == hash(y)), show(&(x == y)));
            ctx.ok("TaggedValue partial_cmp", &input, x.partial_cmp(y) == want, show(&x.partial_cmp(y)));
            let (p, q) = (st(&c["a"]["t"]), st(&c["b"]["t"]));
            let same = p == q;
            for s in [q.to_owned(), format!("!{q}")] {
                ctx.ok("Tag == str", &input, (x.tag == *s.as_str()) == same && (x.tag == s) == same, J::Null);
                let t = Tag::new(s);
                ctx.ok("Tag == Tag", &input, (x.tag == t) == same && (!same || hash(&x.tag) == hash(&t)), J::Null);
                ctx.ok("Tag cmp", &input, x.tag.cmp(&t) == p.cmp(q) && x.tag.partial_cmp(&t) == Some(p.cmp(q)), show(&x.tag.cmp(&t)));
            }
        }
        _ => {}
    }
}

pub fn prims(ctx: &mut Ctx, c: &J) {
    let v = jval(&c["v"]);
    for p in arr(&c["ps"]) {
        let want = p["r"] == true;
        let x = &p["v"];
        let input = format!("{} and {} {}", c["v"], st(&p["ty"]), x);
        let mut w = v.clone();
        macro_rules! cmp {
            ($x:expr) => {{
                let x = $x;
                let mut all = vec![v == x, &v == x];
                all.push(&mut w == x);
                all
            }};
        }
        macro_rules! int {
            ($t:ty) => {
                cmp!(st(&x["s"]).parse::<$t>().unwrap())
            };
        }
        let got = match st(&p["ty"]) {
            "bool" => vec![v == x["b"].as_bool().unwrap()],
            "str" => {
                let s = st(&x["s"]);
                vec![v == *s, v == s, v == s.to_owned()]
            }
            "f32" => cmp!(st(&x["t"]).parse::<f32>().unwrap()),
            "f64" => cmp!(st(&x["t"]).parse::<f64>().unwrap()),
            "i8" => int!(i8),
            "i16" => int!(i16),
            "i32" => int!(i32),
            "i64" => int!(i64),
            "isize" => int!(isize),
            "u8" => int!(u8),
            "u16" => int!(u16),
            "u32" => int!(u32),
            "u64" => int!(u64),
            "usize" => int!(usize),
            other => panic!("primitive {other}"),
        };
        ctx.ok("comparison with a plain value", &input, got.iter().all(|g| *g == want), json!(got));
    }
}

/// Everything that shows what a Mapping holds must show the same.
fn seen(m: &Mapping) -> Result<J, String> {
    let all = mjson(m);
    let n = arr(&all).len();
    let keys: Vec<J> = arr(&all).iter().map(|kv| kv[0].clone()).collect();
    let vals: Vec<J> = arr(&all).iter().map(|kv| kv[1].clone()).collect();
    let mut rev = arr(&all).clone();
    rev.reverse();
    let pj = |(k, v): (Value, Value)| json!([vjson(&k), vjson(&v)]);
    let mut c = m.clone();
    let checks = [
        ("len", m.len() == n),
        ("is_empty", m.is_empty() == (n == 0)),
        ("capacity", m.capacity() >= n),
        ("iter len", m.iter().len() == n && m.iter().size_hint() == (n, Some(n))),
        ("keys", m.keys().map(vjson).collect::<Vec<_>>() == keys && m.keys().len() == n),
        ("values", m.values().map(vjson).collect::<Vec<_>>() == vals && m.values().len() == n),
        ("into_keys", m.clone().into_keys().map(|k| vjson(&k)).collect::<Vec<_>>() == keys && m.clone().into_keys().len() == n),
        ("into_values", m.clone().into_values().map(|v| vjson(&v)).collect::<Vec<_>>() == vals),
        ("into_iter", m.clone().into_iter().map(pj).collect::<Vec<_>>() == *arr(&all) && m.clone().into_iter().len() == n),
        ("&into_iter", m.into_iter().map(|(k, v)| json!([vjson(k), vjson(v)])).collect::<Vec<_>>() == *arr(&all)),
        ("&mut into_iter", (&mut c).into_iter().map(|(k, v)| json!([vjson(k), vjson(v)])).collect::<Vec<_>>() == *arr(&all)),
        ("iter_mut", c.iter_mut().map(|(k, v)| json!([vjson(k), vjson(v)])).collect::<Vec<_>>() == *arr(&all) && c.iter_mut().len() == n),
        ("values_mut", c.values_mut().map(|v| vjson(v)).collect::<Vec<_>>() == vals && c.values_mut().len() == n),
        ("==", *m == jmap(&all) && jmap(&all) == *m),
        ("collect", m.clone().into_iter().collect::<Mapping>() == *m),
        ("hash", hash(m) == hash(&jmap(&J::Array(rev)))),
        ("found", m.iter().all(|(k, v)| m.get(k) == Some(v) && m.contains_key(k))),
        ("found by str", m.iter().all(|(k, v)| k.as_str().filter(|_| k.is_string() && !matches!(k, Value::Tagged(_))).map_or(true, |s| m.get(s) == Some(v)))),
    ];
    for (what, ok) in checks {
        if !ok {
            return Err(what.to_owned());
        }
    }
    Ok(all)
}

fn opt(v: Option<Value>) -> J {
    v.map_or(json!({"k": "none"}), |v| json!({"k": "some", "v": vjson(&v)}))
}
fn opt2(v: Option<(Value, Value)>) -> J {
    v.map_or(json!({"k": "none"}), |(k, v)| json!({"k": "some", "v": {"k": "seq", "e": [vjson(&k), vjson(&v)]}}))
}
fn b(x: bool) -> J {
    json!({"k": "bool", "b": x})
}
fn null() -> J {
    json!({"k": "null"})
}

/// Operations that take any kind of index.
fn keyed<I: serde_yaml::mapping::Index>(m: &mut Mapping, a: &str, k: I, v: &Value) -> Option<J> {
    Some(match a {
        "get" => opt(m.get(k).cloned()),
        "contains_key" => b(m.contains_key(k)),
        "index" => vjson(&m[k]),
        "remove" => opt(m.remove(k)),
        "remove_entry" => opt2(m.remove_entry(k)),
        "swap_remove" => opt(m.swap_remove(k)),
        "swap_remove_entry" => opt2(m.swap_remove_entry(k)),
        "shift_remove" => opt(m.shift_remove(k)),
        "shift_remove_entry" => opt2(m.shift_remove_entry(k)),
        "get_mut" => match m.get_mut(k) {
            Some(x) => {
                *x = v.clone();
                b(true)
            }
            None => b(false),
        },
        "index_mut" => {
            m[k] = v.clone();
            vjson(v)
        }
        _ => return None,
    })
}

fn other(m: &mut Mapping, a: &str, key: &J, v: &Value) -> J {
    if a == "extend" {
        m.extend(arr(&key["e"]).iter().map(|kv| (jval(&kv[0]), jval(&kv[1]))));
        return null();
    }
    let k = || jval(key);
    match a {
        "insert" => opt(m.insert(k(), v.clone())),
        "entry_key" => vjson(m.entry(k()).key()),
        "entry_into_key" => match m.entry(k()) {
            Entry::Vacant(e) => {
                assert!(*e.key() == k());
                opt(Some(e.into_key()))
            }
            Entry::Occupied(_) => opt(None),
        },
        "entry_get" => match m.entry(k()) {
            Entry::Vacant(_) => opt(None),
            Entry::Occupied(e) => {
                assert!(*e.key() == k());
                opt(Some(e.get().clone()))
            }
        },
        "entry_remove" => match m.entry(k()) {
            Entry::Vacant(_) => opt(None),
            Entry::Occupied(e) => opt(Some(e.remove())),
        },
        "entry_remove_entry" => match m.entry(k()) {
            Entry::Vacant(_) => opt(None),
            Entry::Occupied(e) => opt2(Some(e.remove_entry())),
        },
        "or_insert" => vjson(m.entry(k()).or_insert(v.clone())),
        "or_insert_with" => {
            let vacant = matches!(m.entry(k()), Entry::Vacant(_));
            let mut called = false;
            let r = vjson(m.entry(k()).or_insert_with(|| {
                called = true;
                v.clone()
            }));
            assert_eq!(called, vacant, "the default is made when it is needed");
            r
        }
        "and_modify" => {
            let mut called = false;
            let e = m.entry(k()).and_modify(|x| {
                called = true;
                *x = v.clone();
            });
            assert_eq!(called, matches!(e, Entry::Occupied(_)));
            b(called)
        }
        "modify_or_insert" => vjson(m.entry(k()).and_modify(|x| *x = v.clone()).or_insert(v.clone())),
        "entry_set" => match m.entry(k()) {
            Entry::Vacant(e) => {
                assert!(*e.insert(v.clone()) == *v);
                opt(None)
            }
            Entry::Occupied(mut e) => opt(Some(e.insert(v.clone()))),
        },
        "entry_into_mut" => match m.entry(k()) {
            Entry::Vacant(_) => b(false),
            Entry::Occupied(mut e) => {
                *e.get_mut() = Value::Null;
                *e.into_mut() = v.clone();
                b(true)
            }
        },
        "clear" => {
            m.clear();
            null()
        }
        "retain_odd" => {
            let mut i = 0;
            m.retain(|_, _| {
                i += 1;
                i % 2 == 1
            });
            null()
        }
        "retain_mut" => {
            let mut i = 0u64;
            m.retain(|_, v| {
                i += 1;
                *v = Value::from(i);
                i > 1
            });
            null()
        }
        "iter_mut" => {
            for (i, (_, v)) in m.iter_mut().enumerate() {
                *v = Value::from(i as u64 + 1);
            }
            null()
        }
        "values_mut" => {
            for (i, v) in m.values_mut().enumerate() {
                *v = Value::from(i as u64 + 1);
            }
            null()
        }
        "collect_reversed" => {
            let all: Vec<(Value, Value)> = std::mem::take(m).into_iter().collect();
            *m = all.into_iter().rev().collect();
            null()
        }
        "into_iter_collect" => {
            *m = std::mem::take(m).into_iter().collect();
            null()
        }
        "clone" => {
            *m = m.clone();
            null()
        }
        "reserve_shrink" => {
            m.reserve(100);
            assert!(m.capacity() >= m.len() + 100);
            m.shrink_to_fit();
            let mut n = Mapping::with_capacity(10);
            n.extend(std::mem::take(m));
            *m = n;
            null()
        }
        other => panic!("operation {other}"),
    }
}

pub fn mapping(ctx: &mut Ctx, c: &J) {
    let mut m = jmap(&c["start"]);
    let mut input = format!("{}", c["start"]);
    for h in arr(&c["hist"]) {
        let (a, v) = (st(&h["a"]), jval(&h["v"]));
        input += &format!(" {a} {} {}", h["key"], h["v"]);
        // the same key in all its forms, each on its own copy
        let mut runs: Vec<(&str, J, Mapping)> = vec![];
        let mut run = |form: &'static str, f: &mut dyn FnMut(&mut Mapping) -> J| {
            let mut x = m.clone();
            let r = guard(|| f(&mut x));
            runs.push((form, if r["k"] == "panic" { json!({"k": "panic"}) } else { r }, x));
        };
        let is_keyed = matches!(
            a,
            "get" | "contains_key" | "index" | "remove" | "remove_entry" | "swap_remove" | "swap_remove_entry" | "shift_remove" | "shift_remove_entry" | "get_mut" | "index_mut"
        );
        if is_keyed {
            let k = jval(&h["key"]);
            run("Value", &mut |m| keyed(m, a, k.clone(), &v).unwrap());
            run("&Value", &mut |m| keyed(m, a, &k, &v).unwrap());
            if let Value::String(s) = &k {
                run("&str", &mut |m| keyed(m, a, s.as_str(), &v).unwrap());
                run("String", &mut |m| keyed(m, a, s.clone(), &v).unwrap());
                run("&String", &mut |m| keyed(m, a, &&s, &v).unwrap());
            }
        } else {
            run("", &mut |m| other(m, a, &h["key"], &v));
        }
        let mut next = None;
        for (form, r, x) in runs {
            let at = format!("{input} ({form})");
            ctx.eq("what the operation returns", &at, &h["ret"], &r);
            match seen(&x) {
                Ok(j) => {
                    ctx.eq("the mapping afterwards", &at, &h["after"], &j);
                }
                Err(e) => ctx.fail("the views of a mapping disagree", &at, h["after"].clone(), json!(e)),
            }
            next = Some(x);
        }
        m = next.unwrap();
        if canon(&mjson(&m)) != canon(&h["after"]) && !arr(&h["after"]).is_empty() {
            break;
        }
    }
}
