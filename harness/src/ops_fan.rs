//! Aliases that multiply: the repetition limit.
use crate::gen::Rng;
use crate::j::{arr, J};
use crate::ops_doc::{errj, render_all, schema};
use crate::render::parse;
use crate::rt::{guard, Ctx};
use serde::de::DeserializeSeed;
use serde_json::json;
use serde_yaml::Deserializer;

/// Scalars in a result (a reading, in the specification's form).
fn scalars(j: &J) -> u64 {
    match j {
        J::Object(o) => match o.get("k").and_then(J::as_str) {
            Some("seq" | "map" | "tup") => o.get("e").map_or(0, |e| arr(e).iter().map(scalars).sum()),
            Some("tag" | "some" | "new") => o.get("v").map_or(0, scalars),
            Some("ign" | "skip" | "unit") => 0,
            Some(_) => 1,
            None => 0,
        },
        J::Array(a) => a.iter().map(scalars).sum(),
        _ => 0,
    }
}

pub fn run(ctx: &mut Ctx, c: &J) {
    let nodes = parse(&c["nodes"]);
    for (i, r) in render_all(&nodes, 1).iter().take(2).enumerate() {
        for rd in arr(&c["reads"]) {
            let (sj, s) = schema(&rd["s"]);
            let input = format!("{}  as {}: {} aliases followed, {} events", r.text, sj, rd["al"], rd["ev"]);
            let read = |d: Deserializer| {
                guard(|| match s.deserialize(d) {
                    Ok(v) => json!({"k": "ok", "n": scalars(&v)}),
                    Err(e) => errj(e),
                })
            };
            let want = |obs: &J| {
                if rd["ok"] == true {
                    obs["k"] == "ok" && obs["n"] == rd["sc"]
                } else {
                    obs["k"] == "err" && obs["msg"].as_str().unwrap().contains("repetition limit exceeded")
                }
            };
            let obs = read(Deserializer::from_str(&r.text));
            ctx.ok("the repetition limit", &input, want(&obs), json!({"exp": rd, "obs": obs}));
            // every document of a stream has its own
            if i > 0 || sj["t"] != "any" {
                continue;
            }
            let text = format!("--- first\n---\n{}\n---\n{}\n", r.text.trim_start_matches("---"), r.text.trim_start_matches("---"));
            let mut n = 0;
            for d in Deserializer::from_str(&text).skip(1) {
                let obs = read(d);
                ctx.ok("the repetition limit in a stream", &input, want(&obs), json!({"exp": rd, "obs": obs}));
                n += 1;
            }
            ctx.ok("documents of the stream", &text, n == 2, json!(n));
        }
    }
}

/// Levels of collections, each with aliases to the ones before, so that about
/// as many aliases are followed as the limit allows.
pub fn draw(r: &mut Rng) -> J {
    const NAMES: [&str; 6] = ["a", "b", "c", "d", "e", "f"];
    let levels = if r.chance(1, 20) { 2 } else { r.range(3, 5) };
    let mut nodes: Vec<J> = vec![json!({"k": "seq", "kids": [], "tag": "", "an": ""})];
    let mut top = vec![];
    // how many aliases reading a level follows
    let mut cost: Vec<u64> = vec![];
    let sc = |nodes: &mut Vec<J>, v: &str, an: &str| {
        nodes.push(json!({"k": "sc", "v": v, "st": "p", "tag": "", "an": an}));
        nodes.len()
    };
    let fan = [0, 0, 160, 20, 9, 6][levels];
    for l in 0..levels {
        if l == 0 && r.chance(1, 2) {
            let id = sc(&mut nodes, "x", NAMES[0]);
            top.push(id);
            cost.push(0);
            continue;
        }
        let map = r.chance(1, 3);
        nodes.push(json!({"k": if map { "map" } else { "seq" }, "kids": [], "tag": if r.chance(1, 5) { "!t" } else { "" }, "an": NAMES[l]}));
        let me = nodes.len();
        let mut kids = vec![];
        let mut total = 0;
        let n = if l == 0 { 2 } else { fan + r.below(fan / 3) };
        for i in 0..n {
            if map {
                let k = sc(&mut nodes, &format!("k{i}"), "");
                kids.push(k);
            }
            if l == 0 || r.chance(1, 10) {
                let k = sc(&mut nodes, "y", "");
                kids.push(k);
            } else {
                let to = if r.chance(4, 5) { l - 1 } else { r.below(l) };
                nodes.push(json!({"k": "al", "an": NAMES[to], "to": 0}));
                kids.push(nodes.len());
                total += 1 + cost[to];
            }
        }
        nodes[me - 1]["kids"] = json!(kids);
        top.push(me);
        cost.push(total);
    }
    // One more alias allows 100 more and follows as many as its level does, and
    // itself; elements of all three kinds bring the sum where it is wanted.
    let events = nodes.iter().map(|n| if n["k"] == "sc" || n["k"] == "al" { 1i64 } else { 2 }).sum::<i64>() * 100;
    let want = *r.pick(&[-1i64, 0, 0, 1, 1, -2, 50, -100]); // the allowance less the sum
    let gap = events - cost.iter().sum::<u64>() as i64;
    let c = cost[levels - 1] as i64 + 1;
    let mut best: Option<(i64, i64, i64)> = None;
    for x in 0..60 {
        for y in 0..100 {
            // gap + 99 y + 100 z - (c - 100) x = want
            let z100 = want - gap - 99 * y + (c - 100) * x;
            if z100 >= 0 && z100 % 100 == 0 {
                let z = z100 / 100;
                if best.is_none_or(|b| x + y + z < b.0 + b.1 + b.2) {
                    best = Some((x, y, z));
                }
            }
        }
    }
    if let Some((x, y, z)) = best {
        let mut order: Vec<&str> = vec![];
        order.extend((0..x).map(|_| NAMES[levels - 1]));
        order.extend((0..y).map(|_| NAMES[0]));
        order.extend((0..z).map(|_| ""));
        for i in (1..order.len()).rev() {
            order.swap(i, r.below(i + 1));
        }
        for an in order {
            if an.is_empty() {
                top.push(sc(&mut nodes, "z", ""));
            } else {
                nodes.push(json!({"k": "al", "an": an, "to": 0}));
                top.push(nodes.len());
            }
        }
    }
    nodes[0]["kids"] = json!(top);
    json!({"nodes": nodes, "reads": [{"t": "any"}, {"t": "ign"}, {"t": "seq", "s": {"t": "any"}}, {"t": "seq", "s": {"t": "opt", "s": {"t": "any"}}}, {"t": "seq", "s": {"t": "ign"}}]})
}
