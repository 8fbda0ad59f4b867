//! Streams of several documents: the iterator and the single-document functions.
use crate::gen::Rng;
use crate::j::{arr, canon, st, J};
use crate::ops_doc::{check_loc, errj, hash, schema};
use crate::render::{parse, Mark, Node, Renderer, Style};
use crate::rt::{guard, Ctx};
use crate::schema::Schema;
use serde::de::DeserializeSeed;
use serde_json::json;
use serde_yaml::Deserializer;
use std::io::{self, Read};

/// A reader that hands out its bytes in pieces, with interruptions, and may fail.
pub struct Chunks<'a> {
    pub data: &'a [u8],
    pub rng: Rng,
    /// fail once this many bytes were delivered
    pub fail_at: Option<usize>,
    pub done: usize,
}
impl<'a> Read for Chunks<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.rng.chance(1, 3) {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        if self.fail_at.is_some_and(|n| self.done >= n) {
            return Err(io::Error::new(io::ErrorKind::Other, "the source failed"));
        }
        let n = self.rng.range(1, 7).min(buf.len()).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        self.done += n;
        Ok(n)
    }
}

struct Piece {
    nodes: Vec<Node>,
    marks: Vec<Option<Mark>>,
    base: Mark,
}

/// The stream's text in one of several layouts.
fn layout(pieces: &[J], r: &mut Rng) -> Option<(String, Vec<Piece>)> {
    let mut text = String::new();
    let mut out = Vec::new();
    if r.chance(1, 4) {
        text.push_str("# ünïcödé\n\n");
    }
    let mut ended = true; // the previous document was ended explicitly, or there is none
    for p in pieces {
        let broken = p["kind"] == "broken";
        let nodes = if broken { vec![] } else { parse(&p["nodes"]) };
        // what precedes the document
        let mut explicit = true;
        if !ended && r.chance(1, 3) {
            text.push_str("...\n");
            ended = true;
        }
        if ended {
            match r.below(4) {
                0 => text.push_str("%YAML 1.2\n"),
                1 => {
                    if !text.is_empty() && r.chance(1, 2) {
                        text.push_str("# comment\n");
                    }
                    // (libyaml wants the marker for every later document)
                    explicit = !out.is_empty();
                }
                2 => text.push_str("%TAG !e! tag:example.com,2000:\n"),
                _ => {}
            }
        }
        let line = text.matches('\n').count();
        let base = Mark { line, column: 0, index: text.len() };
        if broken {
            if explicit {
                text.push_str("---\n");
            }
            text.push_str(st(&p["text"]));
            if !text.ends_with('\n') {
                text.push('\n');
            }
            out.push(Piece { nodes, marks: vec![], base });
        } else {
            let noise = if r.chance(1, 3) { Some(Rng::new(r.next())) } else { None };
            let flow = r.chance(1, 2);
            let mut rr = Renderer::new(&nodes, Style { flow, noise: noise.clone(), inline: false });
            let mut ok = rr.document(1, explicit).is_ok();
            if !ok {
                // some documents need the marker, some a style
                for (flow, explicit) in [(flow, true), (!flow, true)] {
                    rr = Renderer::new(&nodes, Style { flow, noise: noise.clone(), inline: false });
                    ok = rr.document(1, explicit).is_ok();
                    if ok {
                        break;
                    }
                }
            }
            if !ok {
                return None;
            }
            text.push_str(&rr.out.text);
            if !text.ends_with('\n') {
                text.push('\n');
            }
            let marks = std::mem::take(&mut rr.marks);
            out.push(Piece { nodes, marks, base });
        }
        ended = false;
    }
    if !ended && r.chance(1, 4) {
        text.push_str("...\n");
    } else if r.chance(1, 4) {
        text.push_str("# the end\n");
    }
    Some((text, out))
}

fn read(d: Deserializer, s: &Schema) -> J {
    guard(|| match s.deserialize(d) {
        Ok(v) => v,
        Err(e) => errj(e),
    })
}

/// The kinds of error that are not about a document's content.
fn class(obs: &J) -> &'static str {
    let m = obs["msg"].as_str().unwrap_or("");
    if m == "deserializing from YAML containing more than one document is not supported" {
        "many"
    } else if m == "the source failed" {
        "io"
    } else {
        ""
    }
}

pub fn run(ctx: &mut Ctx, c: &J) {
    let pieces = arr(&c["pieces"]);
    let src = st(&c["src"]);
    let mut rng = Rng::new(hash(&c.to_string()));
    for _ in 0..3 {
        let Some((text, docs)) = layout(pieces, &mut rng) else { continue };
        let fail_at = if src == "fail" { Some(rng.below(text.len() + 1)) } else { None };
        let reader = Chunks { data: text.as_bytes(), rng: Rng::new(rng.next()), fail_at, done: 0 };
        let mut de = Some(match src {
            "str" => Deserializer::from_str(&text),
            "slice" => Deserializer::from_slice(text.as_bytes()),
            _ => Deserializer::from_reader(reader),
        });
        let input = || format!("{} from {}  history {}", text, src, json!(c["hist"]));
        let mut items: Vec<Option<Deserializer>> = Vec::new();
        for h in arr(&c["hist"]) {
            match st(&h["a"]) {
                "next" => {
                    let d = de.as_mut().unwrap();
                    let r = match crate::rt::try_(std::panic::AssertUnwindSafe(|| d.next())) {
                        Ok(r) => r,
                        Err(m) => {
                            ctx.fail("panic in next", &input(), J::Null, json!(m));
                            return;
                        }
                    };
                    let exp = h["r"].as_i64().unwrap();
                    if !ctx.ok("one item per document", &input(), r.is_some() == (exp != 0), json!({"step": h, "some": r.is_some()})) {
                        return;
                    }
                    if let Some(item) = r {
                        items.push(Some(item));
                    }
                }
                "into" => {
                    let i = h["i"].as_u64().unwrap() as usize - 1;
                    let r = items[i].as_mut().unwrap().next();
                    ctx.ok("an item has no items", &input(), r.is_some() == (h["r"] == -1), json!({"step": h}));
                }
                "drop" => items[h["i"].as_u64().unwrap() as usize - 1] = None,
                "read" | "rest" => {
                    let (_, s) = schema(&h["s"]);
                    let d = if h["a"] == "rest" {
                        de.take().unwrap()
                    } else {
                        items[h["i"].as_u64().unwrap() as usize - 1].take().unwrap()
                    };
                    let obs = read(d, &s);
                    let exp = &h["r"];
                    ctx.eq("reading an item", &input(), &json!({"step": h, "r": canon(exp)}), &json!({"step": h, "r": canon(&obs)}));
                    if exp["k"] == "err" && obs["k"] == "err" {
                        let c = exp["c"].as_str().unwrap_or("");
                        if ["many", "io"].contains(&c) || !class(&obs).is_empty() {
                            ctx.ok("kind of error", &input(), class(&obs) == c, json!({"step": h, "observed": obs}));
                        } else if let (Some(n), true) = (h["doc"].as_u64(), !docs.is_empty()) {
                            let p = &docs[n as usize - 1];
                            if !p.nodes.is_empty() {
                                check_loc(ctx, "error location", &input(), &p.nodes, &p.marks, exp, &obs, &p.base);
                            }
                        }
                        if c == "parse" {
                            // within the text
                            let l = &obs["loc"];
                            let ok = l.is_null() || l[2].as_u64().unwrap() as usize <= text.len() && l[0].as_u64().unwrap() as usize <= text.lines().count() + 1;
                            ctx.ok("place of a syntax error", &input(), ok, obs.clone());
                        }
                    }
                    if h["a"] == "rest" {
                        return;
                    }
                }
                other => panic!("step {other}"),
            }
        }
    }
}

/// Streams of random documents.
pub fn stream(r: &mut Rng) -> J {
    let n = r.range(1, 5);
    let mut pieces = Vec::new();
    let mut types = Vec::new();
    for i in 0..n {
        let d = r.range(1, 3);
        let s = crate::gen_doc::schema(r, d);
        let faults = *r.pick(&[0, 0, 1]);
        let mut doc = crate::gen_doc::Doc::new(10, faults);
        doc.fill(r, &s, "");
        let mut nodes = doc.nodes;
        if r.chance(1, 8) && nodes[0]["k"] == "seq" {
            let id = nodes.len() + 1;
            nodes.push(json!({"k": "al", "an": *r.pick(&["a", "b", "nobody"]), "to": 0}));
            nodes[0]["kids"].as_array_mut().unwrap().push(json!(id));
        }
        // one unknown to begin with, the rest after it
        if r.chance(1, 8) {
            let mut all = vec![json!({"k": "seq", "kids": [2, 3], "tag": "", "an": ""}), json!({"k": "al", "an": *r.pick(&["a", "nobody"]), "to": 0})];
            for mut n in nodes {
                if let Some(kids) = n.get_mut("kids").and_then(J::as_array_mut) {
                    for k in kids {
                        *k = json!(k.as_u64().unwrap() + 2);
                    }
                }
                all.push(n);
            }
            nodes = all;
        }
        if i == n - 1 && r.chance(1, 8) {
            pieces.push(json!({"kind": "broken", "text": *r.pick(&BROKEN)}));
        } else {
            pieces.push(json!({"kind": "ok", "nodes": nodes}));
        }
        types.push(s);
    }
    let mut order: Vec<usize> = (1..=n).collect();
    for i in (1..n).rev() {
        order.swap(i, r.below(i + 1));
    }
    json!({"pieces": pieces, "types": types, "order": order, "src": *r.pick(&["str", "slice", "read", "read", "fail"])})
}

const BROKEN: [&str; 10] = [
    "[a", "a: b: c", "\"abc", "{a: ]}", "a: [1\nb: 2", "- a\nb", "@x", "\tx: y", "'", "key: |2x\n a",
];
