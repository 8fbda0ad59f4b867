//! Reading documents: values, types, aliases, places of errors.
use crate::gen::Rng;
use crate::j::{arr, jval, st, vjson, J};
use crate::render::{parse, Mark, Node, Renderer, Style};
use crate::rt::{guard, Ctx};
use crate::schema::Schema;
use serde::de::{DeserializeSeed, IntoDeserializer};
use serde::Deserialize;
use serde_json::json;
use serde_yaml::{Deserializer, Value};
use std::cell::RefCell;

thread_local! {
    static TABLE: RefCell<Vec<(J, Schema)>> = const { RefCell::new(Vec::new()) };
}

/// The schemas that cases refer to by number.
pub fn load_schemas() {
    if let Ok(path) = std::env::var("SCHEMAS") {
        let text = std::fs::read_to_string(path).unwrap();
        TABLE.with(|t| {
            *t.borrow_mut() = text
                .lines()
                .filter(|l| !l.is_empty())
                .map(|l| {
                    let j: J = serde_json::from_str(l).unwrap();
                    let s = Schema::parse(&j);
                    (j, s)
                })
                .collect();
        });
    }
}

pub fn schema(j: &J) -> (J, Schema) {
    match j.as_u64() {
        Some(n) => TABLE.with(|t| t.borrow()[n as usize - 1].clone()),
        None => (j.clone(), Schema::parse(j)),
    }
}

pub fn loc(e: &serde_yaml::Error) -> J {
    match e.location() {
        Some(l) => json!([l.line(), l.column(), l.index()]),
        None => J::Null,
    }
}

pub fn errj(e: serde_yaml::Error) -> J {
    json!({"k": "err", "loc": loc(&e), "msg": e.to_string()})
}

pub fn read_text(text: &str, s: &Schema) -> J {
    guard(|| match s.deserialize(Deserializer::from_str(text)) {
        Ok(v) => v,
        Err(e) => errj(e),
    })
}

pub struct Rendered {
    pub text: String,
    pub marks: Vec<Option<Mark>>,
    pub style: &'static str,
}

/// Everything a document can be written as.
pub fn render_all(nodes: &[Node], seed: u64) -> Vec<Rendered> {
    let mut v = Vec::new();
    let plans: [(&'static str, bool, bool, bool); 5] = [
        ("block", false, false, false),
        ("flow", true, false, false),
        ("block, explicit start, comments", false, true, true),
        ("flow, explicit start, breaks", true, true, true),
        ("block, explicit start", false, true, false),
    ];
    for (i, (name, flow, explicit, noise)) in plans.into_iter().enumerate() {
        let noise = if noise { Some(Rng::new(seed.wrapping_mul(31).wrapping_add(i as u64))) } else { None };
        let mut r = Renderer::new(nodes, Style { flow, noise, inline: false });
        if r.document(1, explicit).is_ok() {
            v.push(Rendered { text: r.out.text, marks: r.marks, style: name });
        }
    }
    v
}

pub fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

fn mark_json(m: &Mark) -> J {
    json!([m.line, m.column, m.index])
}

/// Whether an error is at the place, and names the path, that the specification says.
pub fn check_loc(ctx: &mut Ctx, what: &str, text: &str, nodes: &[Node], marks: &[Option<Mark>], exp: &J, obs: &J, base: &Mark) {
    let c = exp["c"].as_str().unwrap_or("");
    if !["msg", "anchor", "rec"].contains(&c) {
        return;
    }
    let at = exp["at"].as_u64().unwrap() as usize;
    let got = &obs["loc"];
    let msg = obs["msg"].as_str().unwrap_or("");
    if at == 0 {
        ctx.ok(what, text, got.is_null(), json!({"expected": "no location", "observed": obs}));
        return;
    }
    if nodes[at].k == 'v' {
        return;
    }
    if let Some(m) = &marks[at] {
        let m = Mark {
            line: m.line + base.line,
            column: m.column,
            index: m.index + base.index,
        };
        let exp_loc = mark_json(&m);
        ctx.ok(what, text, *got == exp_loc, json!({"expected": exp_loc, "observed": obs}));
        // The message ends with the same place, unless it is the very start.
        if m.line != 1 || m.column != 1 {
            let tail = format!(" at line {} column {}", m.line, m.column);
            ctx.ok(&format!("{what} (message)"), text, msg.ends_with(&tail), json!({"expected": tail, "observed": obs}));
        }
        if c == "msg" {
            let p = st(&exp["path"]);
            if p != "." && !p.contains("..") {
                ctx.ok(&format!("{what} (path)"), text, msg.starts_with(&format!("{p}: ")), json!({"expected": p, "observed": obs}));
            }
        }
    }
}

pub fn value_read(ctx: &mut Ctx, text: &str, exp: &J) {
    let obs = guard(|| match serde_yaml::from_str::<Value>(text) {
        Ok(v) => vjson(&v),
        Err(e) => errj(e),
    });
    ctx.eq("document as Value", text, exp, &obs);
}

pub fn run(ctx: &mut Ctx, c: &J) {
    let nodes = parse(&c["nodes"]);
    let any = &c["any"];
    let seed = hash(&c["nodes"].to_string());
    let zero = Mark { line: 0, column: 0, index: 0 };
    let all = render_all(&nodes, seed);
    for (n, r) in all.iter().enumerate() {
        if ctx.wants("value") {
            value_read(ctx, &r.text, any);
        }
        for rd in arr(&c["reads"]) {
            let (sj, s) = schema(&rd["s"]);
            let obs = read_text(&r.text, &s);
            let input = format!("{}  as {}", r.text, sj);
            if ctx.wants("typed") {
                ctx.eq("typed reading", &input, &rd["r"], &obs);
            }
            if ctx.wants("limit") && rd["r"]["k"] == "err" && obs["k"] == "err" {
                let hit = obs["msg"].as_str().unwrap_or("").contains("recursion limit exceeded");
                ctx.ok("which error", &input, hit == (rd["r"]["c"] == "rec"), json!({"expected": rd["r"], "observed": obs}));
            }
            if ctx.wants("loc") && rd["r"]["k"] == "err" && obs["k"] == "err" {
                check_loc(ctx, "error location", &input, &nodes, &r.marks, &rd["r"], &obs, &zero);
            }
            if n == 0 && ctx.wants("bytes") {
                bytes(ctx, &r.text, &s, &obs);
            }
        }
    }
    if ctx.wants("expand") && c["expand"].is_object() {
        expand(ctx, c, &nodes, &all);
    }
    if ctx.wants("fromv") {
        fromv(ctx, c, any);
    }
}

fn bytes(ctx: &mut Ctx, text: &str, s: &Schema, obs: &J) {
    let a = guard(|| match s.deserialize(Deserializer::from_slice(text.as_bytes())) {
        Ok(v) => v,
        Err(e) => errj(e),
    });
    let b = guard(|| match s.deserialize(Deserializer::from_reader(text.as_bytes())) {
        Ok(v) => v,
        Err(e) => errj(e),
    });
    ctx.ok("from_slice reads like from_str", text, a == *obs, json!([obs, a]));
    ctx.ok("from_reader reads like from_str", text, b == *obs, json!([obs, b]));
}

/// The document with every alias replaced by its node.
fn expand(ctx: &mut Ctx, c: &J, nodes: &[Node], all: &[Rendered]) {
    for flow in [false, true] {
        let mut r = Renderer::new(nodes, Style { flow, noise: None, inline: true });
        if r.document(1, true).is_err() {
            continue;
        }
        let plain = &r.out.text;
        ctx.eq("expanded document as Value", plain, &c["expand"], &guard(|| match serde_yaml::from_str::<Value>(plain) {
            Ok(v) => vjson(&v),
            Err(e) => errj(e),
        }));
        for rd in arr(&c["reads"]) {
            let (sj, s) = schema(&rd["s"]);
            let want = read_text(plain, &s);
            for r in all {
                let obs = read_text(&r.text, &s);
                let input = format!("{}  as {}  expanded {}", r.text, sj, plain);
                ctx.eq("aliases read like their nodes", &input, &want, &obs);
            }
        }
    }
}

/// A Value that need not come from a document, and its parts.
pub fn vread(ctx: &mut Ctx, c: &J) {
    let any = &c["val"];
    fromv(ctx, c, any);
    let v = jval(any);
    for (rd, exp) in arr(&c["reads"]).iter().zip(arr(&c["own"])) {
        let (sj, s) = schema(&rd["s"]);
        let input = format!("{}  as {}", any, sj);
        let both = |by_ref: bool| {
            guard(|| {
                let r = match &v {
                    Value::Tagged(t) if by_ref => s.deserialize(&**t),
                    Value::Tagged(t) => s.deserialize((**t).clone()),
                    Value::Number(n) if by_ref => s.deserialize(n),
                    Value::Number(n) => s.deserialize(n.clone()),
                    _ => panic!("neither tagged nor a number"),
                };
                r.unwrap_or_else(errj)
            })
        };
        ctx.eq("reading a part of a Value", &input, exp, &both(false));
        ctx.eq("reading a borrowed part of a Value", &input, exp, &both(true));
    }
}

/// Reading through a Value, owned and borrowed.
fn fromv(ctx: &mut Ctx, c: &J, any: &J) {
    if any["k"] == "err" {
        return;
    }
    let v = jval(any);
    let keep = v.clone();
    for rd in arr(&c["reads"]) {
        let (sj, s) = schema(&rd["s"]);
        let exp = &rd["v"];
        let input = format!("{}  as {}", any, sj);
        let owned = guard(|| match s.deserialize(v.clone()) {
            Ok(v) => v,
            Err(e) => errj(e),
        });
        ctx.eq("reading a Value", &input, exp, &owned);
        let by_ref = guard(|| match s.deserialize(&v) {
            Ok(v) => v,
            Err(e) => errj(e),
        });
        ctx.eq("reading a borrowed Value", &input, exp, &by_ref);
        ctx.ok("a borrowed Value is unchanged", &input, v == keep, vjson(&v));
        let into = guard(|| s.deserialize(v.clone().into_deserializer()).unwrap_or_else(errj));
        ctx.ok("into_deserializer gives the Value itself", &input, into == owned, json!([owned, into]));
    }
    let again = guard(|| match Value::deserialize(&v) {
        Ok(v) => vjson(&v),
        Err(e) => errj(e),
    });
    ctx.eq("Value from a borrowed Value", &any.to_string(), any, &again);
    let again = guard(|| match serde_yaml::from_value::<Value>(v.clone()) {
        Ok(v) => vjson(&v),
        Err(e) => errj(e),
    });
    ctx.eq("Value from a Value", &any.to_string(), any, &again);
    let again = guard(|| match serde_yaml::to_value(&v) {
        Ok(v) => vjson(&v),
        Err(e) => errj(e),
    });
    ctx.eq("to_value of a Value", &any.to_string(), any, &again);
}
