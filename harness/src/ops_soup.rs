//! Any text at all through every entry point.
use crate::gen::Rng;
use crate::j::{arr, st, vjson, J};
use crate::ops_doc::{errj, hash, schema};
use crate::ops_stream::Chunks;
use crate::rt::{guard, try_};
use serde::de::{DeserializeSeed, IgnoredAny};
use serde::Deserialize;
use serde_json::json;
use serde_yaml::{Deserializer, Value};
use std::collections::HashMap;
use std::panic::AssertUnwindSafe;

/// The distinct outcomes of one text, numbered from 1.
#[derive(Default)]
struct Outs {
    text: Vec<u8>,
    list: Vec<J>,
    by: HashMap<String, usize>,
    values: HashMap<usize, Value>,
}
impl Outs {
    /// Where an error says it is: the location, the places its message names, and
    /// the line and column of the location's index in the text.
    fn place(&self, j: &J) -> J {
        let msg = st(&j["msg"]);
        let named: Vec<J> = msg
            .match_indices("line ")
            .filter_map(|(i, _)| {
                let mut w = msg[i..].split(' ');
                let num = |x: &str| x.trim_end_matches(|c: char| !c.is_ascii_digit()).parse::<u64>().ok();
                let l = num(w.nth(1)?)?;
                let c = (w.next()? == "column").then(|| w.next())??;
                Some(json!([l, num(c)?]))
            })
            .collect();
        let mut at = json!([]);
        if let Some(n) = j["loc"][2].as_u64() {
            if let Some(before) = self.text.get(..n as usize) {
                at = line_column(before);
            }
        }
        json!({"loc": if j["loc"].is_null() { json!([]) } else { j["loc"].clone() }, "named": named, "at": at, "end": j["loc"][2] == self.text.len()})
    }
    fn add(&mut self, key: String, j: J) -> usize {
        let n = self.list.len() + 1;
        let list = &mut self.list;
        *self.by.entry(key).or_insert_with(|| {
            list.push(j);
            n
        })
    }
    fn err(&mut self, e: serde_yaml::Error) -> usize {
        let j = errj(e);
        let c = match j["msg"].as_str() {
            Some("deserializing from YAML containing more than one document is not supported") => "many",
            _ => "",
        };
        self.add(j.to_string(), json!({"r": "err", "c": c, "msg": j["msg"], "p": self.place(&j)}))
    }
    fn value(&mut self, r: Result<Result<Value, serde_yaml::Error>, String>) -> usize {
        match r {
            Ok(Ok(v)) => {
                let j = vjson(&v);
                let n = self.add(format!("ok {j}"), json!({"r": "ok", "c": "", "v": j}));
                self.values.entry(n).or_insert(v);
                n
            }
            Ok(Err(e)) => self.err(e),
            Err(m) => self.panic(m),
        }
    }
    fn panic(&mut self, m: String) -> usize {
        self.add(format!("panic {m}"), json!({"r": "panic", "c": m}))
    }
    fn done(&mut self, r: Result<Result<(), serde_yaml::Error>, String>) -> usize {
        match r {
            Ok(Ok(())) => self.add("done".into(), json!({"r": "ok", "c": ""})),
            Ok(Err(e)) => self.err(e),
            Err(m) => self.panic(m),
        }
    }
    fn typed(&mut self, j: J) -> usize {
        match st(&j["k"]) {
            "err" => {
                let c = if j["msg"] == "deserializing from YAML containing more than one document is not supported" { "many" } else { "" };
                self.add(j.to_string(), json!({"r": "err", "c": c, "p": self.place(&j)}))
            }
            "panic" => self.panic(j["msg"].to_string()),
            _ => self.add(format!("typed {j}"), json!({"r": "ok", "c": ""})),
        }
    }
}

/// Line and column after a text, from 1 (nothing where it is not UTF-8).
fn line_column(before: &[u8]) -> J {
    let Ok(s) = std::str::from_utf8(before) else { return json!([]) };
    let (mut line, mut column) = (1, 1);
    let mut cs = s.chars().peekable();
    while let Some(c) = cs.next() {
        match c {
            '\r' if cs.peek() == Some(&'\n') => column += 1,
            '\n' | '\r' | '\u{85}' | '\u{2028}' | '\u{2029}' => {
                line += 1;
                column = 1;
            }
            _ => column += 1,
        }
    }
    json!([line, column])
}

fn open<'a>(src: &str, text: &'a [u8], seed: u64) -> Option<Deserializer<'a>> {
    Some(match src {
        "str" => Deserializer::from_str(std::str::from_utf8(text).ok()?),
        "slice" => Deserializer::from_slice(text),
        _ => Deserializer::from_reader(Chunks { data: text, rng: Rng::new(seed), fail_at: None, done: 0 }),
    })
}
const SRC: [&str; 3] = ["slice", "str", "read"];

pub fn record(pool: &J, c: &J) -> J {
    let mut text = Vec::new();
    for t in arr(&c["toks"]) {
        match t {
            J::String(s) => text.extend_from_slice(s.as_bytes()),
            n => match &pool["vocab"][n.as_u64().unwrap() as usize - 1] {
                J::String(s) => text.extend_from_slice(s.as_bytes()),
                n => text.push(n.as_u64().unwrap() as u8),
            },
        }
    }
    let mut o = Outs { text: text.clone(), ..Outs::default() };
    let seed = hash(&String::from_utf8_lossy(&text));
    // as a single document
    let mut reads = vec![];
    let by: Vec<usize> = SRC
        .iter()
        .filter_map(|s| open(s, &text, seed).map(|d| o.value(try_(AssertUnwindSafe(|| Value::deserialize(d))))))
        .collect();
    reads.push(json!({"s": "any", "by": by}));
    let by = vec![
        o.value(try_(|| serde_yaml::from_slice(&text))),
        o.value(try_(|| serde_yaml::from_reader(&text[..]))),
        match std::str::from_utf8(&text) {
            Ok(t) => o.value(try_(|| serde_yaml::from_str(t))),
            Err(_) => by[0],
        },
        by[0],
    ];
    reads.push(json!({"s": "fn", "by": by}));
    for s in arr(&pool["types"]) {
        let (_, sc) = schema(s);
        let by: Vec<usize> = SRC
            .iter()
            .filter_map(|x| {
                open(x, &text, seed).map(|d| {
                    o.typed(guard(AssertUnwindSafe(|| match sc.deserialize(d) {
                        Ok(v) => v,
                        Err(e) => errj(e),
                    })))
                })
            })
            .collect();
        reads.push(json!({"s": s, "by": by}));
    }
    // as a stream
    let cap = text.len() + 2;
    let mut iters: Vec<J> = vec![];
    for (src, policy) in [
        ("slice", "any"),
        ("str", "any"),
        ("read", "any"),
        ("slice", "skip"),
        ("str", "odd"),
        ("read", "even"),
        ("slice", "ign"),
        ("slice", "late"),
    ] {
        let Some(mut d) = open(src, &text, seed) else { continue };
        let mut items = vec![];
        let mut later = vec![];
        let mut ended = false;
        let limit = iters.first().map_or(cap, |b: &J| arr(&b["items"]).len() + 1);
        let mut stuck = 0;
        while items.len() < limit {
            let x = match try_(AssertUnwindSafe(|| d.next())) {
                Ok(Some(x)) => x,
                Ok(None) => {
                    // (and it stays at the end)
                    ended = matches!(try_(AssertUnwindSafe(|| d.next().is_none())), Ok(true));
                    break;
                }
                Err(m) => {
                    items.push(o.panic(m));
                    break;
                }
            };
            let n = items.len();
            let any = match policy {
                "skip" => false,
                "odd" => n % 2 == 1,
                "even" => n % 2 == 0,
                _ => true,
            };
            if policy == "late" {
                later.push(x);
                items.push(0);
            } else if policy == "ign" {
                items.push(o.done(try_(AssertUnwindSafe(|| IgnoredAny::deserialize(x).map(|_| ())))));
            } else if any {
                items.push(o.value(try_(AssertUnwindSafe(|| Value::deserialize(x)))));
            } else {
                items.push(0);
            }
            // an error that stays
            if iters.is_empty() {
                let n = items.len();
                if n >= 2 && items[n - 1] == items[n - 2] && o.list[items[n - 1] - 1]["r"] == "err" {
                    stuck += 1;
                } else {
                    stuck = 0;
                }
                if stuck >= 3 {
                    break;
                }
            } else if items.len() + 1 == limit && iters[0]["ended"] == false {
                break;
            }
        }
        drop(d);
        for (i, x) in later.into_iter().enumerate().rev() {
            items[i] = o.value(try_(AssertUnwindSafe(|| Value::deserialize(x))));
        }
        iters.push(json!({"as": if policy == "ign" { "ign" } else { "any" }, "policy": policy, "src": src, "items": items, "ended": ended}));
    }
    // what was read can be written
    let mut writes = vec![];
    let mut values: Vec<(usize, Value)> = o.values.drain().collect();
    values.sort_by_key(|x| x.0);
    for (of, v) in values {
        let tree = o.value(try_(|| serde_yaml::to_value(&v)));
        let owned = o.value(try_(|| serde_yaml::from_value::<Value>(v.clone())));
        let r = o.value(try_(|| Value::deserialize(&v)));
        let (text, back) = match try_(|| serde_yaml::to_string(&v)) {
            Ok(Ok(t)) => ("ok", o.value(try_(|| serde_yaml::from_str(&t)))),
            Ok(Err(_)) => ("err", 0),
            Err(_) => ("panic", 0),
        };
        writes.push(json!({"of": of, "tree": tree, "owned": owned, "ref": r, "text": text, "back": back}));
    }
    json!({"input": String::from_utf8_lossy(&text), "outs": o.list, "reads": reads, "iters": iters, "writes": writes})
}

/// Longer soups: pieces of a vocabulary, or documents of the world with pieces
/// cut out, doubled, swapped or put in.
pub fn draw(r: &mut Rng) -> J {
    const BITS: [&str; 52] = [
        "a", "b", "key", "1", "-0", "0x1F", "1.5", "~", "null", "true", "''", "'q'", "\"d\"", "\"\\n\"", "\"\\x00\"", "[", "]", "{", "}", ",", ":", ": ", "? ", "- ", "-", "&a ", "&b ", "*a", "*b ", "!t ", "!u ",
        "!!int ", "!!str ", "!!null ", "! ", "\n", "\n", "\n  ", "\n- ", "\n  - ", "---\n", "--- ", "\n...\n", "# c\n", " |\n  ", " >-\n  ", "<<", "\t", "\u{85}", "é", " ", "\n\n",
    ];
    const DOCS: [&str; 9] = [
        "a: 1\nb:\n  - x\n  - [y, {z: ~}]\nc: !t\n  d: |\n    text\n    more\n",
        "- &a {k: [1, 2]}\n- *a\n- !x *a\n",
        "---\nfirst: &x 'q'\n---\nsecond: *x\n...\n---\nthird\n",
        "? [complex, key]\n: {v: \"\\u00e9\"}\n? !t k\n: >\n  folded\n  text\n\n  x\n",
        "!A\nx: !B [1, .nan, -.inf]\ny: !!str 1\n",
        "%YAML 1.2\n%TAG !e! tag:e,2000:\n---\n!e!foo [!<bar> x, !!map {}]\n",
        "{a: 'it''s', \"b\\\"\": !C, c: }\n# end\n",
        "x: &m {p: 1}\ny:\n  <<: *m\n  q: 2\n",
        "- - - a\n  - b\n- \n- ''\n- |2-\n   a\n  b\n",
    ];
    if r.chance(1, 2) {
        let n = r.range(4, 14);
        let t: Vec<J> = (0..n).map(|_| json!(*r.pick(&BITS))).collect();
        return json!({"op": "soup", "toks": t});
    }
    let mut s: Vec<char> = r.pick(&DOCS).chars().collect();
    for _ in 0..r.range(1, 4) {
        let i = r.below(s.len() + 1);
        match r.below(4) {
            0 => {
                let j = (i + r.range(1, 5)).min(s.len());
                s.drain(i..j);
            }
            1 => {
                let j = (i + r.range(1, 8)).min(s.len());
                let part: Vec<char> = s[i..j].to_vec();
                let k = r.below(s.len() + 1);
                s.splice(k..k, part);
            }
            2 => {
                s.splice(i..i, r.pick(&BITS).chars());
            }
            _ => {
                let d: Vec<char> = r.pick(&DOCS).chars().collect();
                let j = r.below(d.len());
                s.truncate(i);
                s.extend(&d[j..]);
            }
        }
    }
    json!({"op": "soup", "toks": [s.into_iter().collect::<String>()]})
}
