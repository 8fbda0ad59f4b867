//! Random target types and documents that mostly fit them.
use crate::gen::{any_text, float_text, int_text, word, Rng};
use crate::j::{arr, st, J};
use serde_json::json;

const INTS: [&str; 10] = ["i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128"];
const KEYS: [&str; 8] = ["x", "y", "z", "key", "Ab", "k1", "long name", "é"];

pub fn schema(r: &mut Rng, d: usize) -> J {
    let leaf = d == 0 || r.chance(1, 3);
    if d > 0 && r.chance(1, 10) {
        return kept(r, d - 1);
    }
    if leaf && r.chance(1, 20) {
        return json!({"t": "raw"});
    }
    if leaf {
        return match r.below(14) {
            0..=2 => json!({"t": "any"}),
            3 => json!({"t": "ign"}),
            4 => json!({"t": "bool"}),
            5 | 6 => json!({"t": *r.pick(&INTS)}),
            7 => json!({"t": "f64"}),
            8..=10 => json!({"t": "str"}),
            11 => json!({"t": "char"}),
            12 if r.chance(1, 4) => json!({"t": "bytes"}),
            _ if r.chance(1, 2) => json!({"t": "unit", "as": "struct"}),
            _ => json!({"t": "unit"}),
        };
    }
    let d = d - 1;
    match r.below(12) {
        0 | 1 => json!({"t": "opt", "s": schema(r, d)}),
        2 => json!({"t": "new", "s": schema(r, d)}),
        3 | 4 => json!({"t": "seq", "s": schema(r, d)}),
        5 => {
            let n = r.below(4);
            let ss: Vec<J> = (0..n).map(|_| schema(r, d)).collect();
            if n == 0 || r.chance(1, 3) {
                json!({"t": "tup", "ss": ss, "as": "struct"})
            } else {
                json!({"t": "tup", "ss": ss})
            }
        }
        6 => json!({"t": "map", "ks": if r.chance(2, 3) { json!({"t": "str"}) } else { schema(r, d.min(1)) }, "s": schema(r, d)}),
        7..=9 => json!({"t": "struct", "fs": fields(r, d), "deny": r.chance(1, 5)}),
        _ => {
            let n = r.range(1, 4);
            let vs: Vec<J> = ["A", "B", "Cc", "d_1"][..n]
                .iter()
                .map(|name| match r.below(5) {
                    0 => json!({"n": name, "k": "unit"}),
                    1 | 2 => json!({"n": name, "k": "new", "s": schema(r, d)}),
                    3 => {
                        let n = *r.pick(&[0, 2, 3]);
                        json!({"n": name, "k": "tup", "ss": (0..n).map(|_| schema(r, d)).collect::<Vec<_>>()})
                    }
                    _ => json!({"n": name, "k": "struct", "fs": fields(r, d)}),
                })
                .collect();
            json!({"t": "enum", "vs": vs})
        }
    }
}

/// A type that can be read from what derived types keep in memory.
fn inner(r: &mut Rng, d: usize) -> J {
    if d == 0 || r.chance(1, 3) {
        return json!({"t": *r.pick(&["any", "raw", "raw", "ign", "bool", "u8", "i64", "u64", "i128", "f64", "str", "str", "char", "unit"])});
    }
    let d = d - 1;
    match r.below(8) {
        0 => json!({"t": "opt", "s": inner(r, d)}),
        1 => json!({"t": "new", "s": inner(r, d)}),
        2 => json!({"t": "seq", "s": inner(r, d)}),
        3 => {
            let n = r.range(1, 3);
            json!({"t": "tup", "ss": (0..n).map(|_| inner(r, d)).collect::<Vec<_>>()})
        }
        4 | 5 => inner_map(r, d),
        6 => json!({"t": "untag", "ss": (0..r.range(1, 3)).map(|_| inner(r, d)).collect::<Vec<_>>()}),
        _ => json!({"t": "struct", "fs": inner_fields(r, d), "deny": r.chance(1, 5)}),
    }
}
fn inner_map(r: &mut Rng, d: usize) -> J {
    json!({"t": "map", "ks": {"t": *r.pick(&["str", "str", "raw", "any"])}, "s": inner(r, d)})
}
fn inner_fields(r: &mut Rng, d: usize) -> Vec<J> {
    let n = r.below(4);
    let at = r.below(KEYS.len());
    (0..n).map(|i| json!({"n": KEYS[(at + i) % KEYS.len()], "s": inner(r, d)})).collect()
}
/// A derived type that keeps what it reads until it knows what it is.
fn kept(r: &mut Rng, d: usize) -> J {
    let some = |r: &mut Rng| match r.below(3) {
        0 => inner_map(r, d),
        1 => json!({"t": "struct", "fs": inner_fields(r, d), "deny": r.chance(1, 5)}),
        _ => inner(r, d),
    };
    match r.below(4) {
        0 => json!({"t": "untag", "ss": (0..r.range(1, 3)).map(|_| inner(r, d)).collect::<Vec<_>>()}),
        1 => json!({"t": "itag", "ss": [some(r), some(r)]}),
        2 => json!({"t": "atag", "ss": [inner(r, d), inner(r, d)]}),
        _ => {
            let rest = match r.below(5) {
                0 => json!({"t": *r.pick(&["any", "raw", "ign"])}),
                1 | 2 => json!({"t": "struct", "fs": inner_fields(r, d), "deny": false}),
                _ => inner_map(r, d),
            };
            json!({"t": "flat", "ss": [inner(r, d), rest]})
        }
    }
}

fn fields(r: &mut Rng, d: usize) -> Vec<J> {
    let n = r.below(4);
    let at = r.below(KEYS.len());
    (0..n).map(|i| json!({"n": KEYS[(at + i) % KEYS.len()], "s": schema(r, d)})).collect()
}

pub struct Doc {
    pub nodes: Vec<J>,
    anchors: Vec<(String, J, bool)>, // name, type, closed
    left: usize,
    faults: usize,
}

impl Doc {
    pub fn new(left: usize, faults: usize) -> Doc {
        Doc { nodes: Vec::new(), anchors: Vec::new(), left, faults }
    }

    fn anchor(&mut self, r: &mut Rng, s: &J) -> String {
        if !r.chance(1, 6) {
            return String::new();
        }
        let name = (*r.pick(&["a", "b", "c", "anchor-1", "an-anchor-with-a-rather-long-name-that-ends-in-1", "an-anchor-with-a-rather-long-name-that-ends-in-2"])).to_owned();
        self.anchors.retain(|a| a.0 != name);
        self.anchors.push((name.clone(), s.clone(), false));
        name
    }

    fn close(&mut self, name: &str) {
        for a in &mut self.anchors {
            if a.0 == name {
                a.2 = true;
            }
        }
    }

    fn sc(&mut self, r: &mut Rng, v: &str, st: &str, tag: &str, s: &J) -> usize {
        let an = self.anchor(r, s);
        self.nodes.push(json!({"k": "sc", "v": v, "st": st, "tag": tag, "an": an}));
        self.close(&an);
        self.nodes.len()
    }

    fn coll(&mut self, r: &mut Rng, k: &str, tag: &str, s: &J) -> (usize, String) {
        let an = self.anchor(r, s);
        self.nodes.push(json!({"k": k, "kids": [], "tag": tag, "an": an}));
        (self.nodes.len(), an)
    }

    fn done(&mut self, c: (usize, String), kids: Vec<usize>) -> usize {
        self.nodes[c.0 - 1]["kids"] = json!(kids);
        self.close(&c.1);
        c.0
    }

    fn string(&mut self, r: &mut Rng, tag: &str, s: &J) -> usize {
        match r.below(8) {
            0 => {
                let t = any_text(r);
                let t: String = t.chars().take(60).collect();
                self.sc(r, &t, "d", tag, s)
            }
            1 => {
                let w = word(r);
                self.sc(r, &w, "s", tag, s)
            }
            2 => self.sc(r, "some literal: text # é", "l", tag, s),
            3 => self.sc(r, "some folded text", "f", tag, s),
            _ => {
                let w = *r.pick(&["x", "hello", "wörld", "two words", "a-b", "x:y", "1st", "-x", "日本"]);
                self.sc(r, w, "p", tag, s)
            }
        }
    }

    /// Adds a node that mostly fits the type; the tag is already taken when given.
    pub fn fill(&mut self, r: &mut Rng, s: &J, tag: &str) -> usize {
        self.left = self.left.saturating_sub(1);
        if self.faults > 0 && r.chance(1, 12) {
            self.faults -= 1;
            let other = schema(r, 1);
            let t = *r.pick(&["", "", "!A", "!B", "!other", "!!str", "!!int", "!!null", "!!float", "!!bool", "!!map"]);
            return self.fill(r, &other, if tag.is_empty() { t } else { tag });
        }
        if tag.is_empty() && r.chance(1, 8) {
            let good: Vec<String> =
                self.anchors.iter().filter(|a| a.2 && (a.1 == *s || s["t"] == "any" || s["t"] == "ign")).map(|a| a.0.clone()).collect();
            let any: Vec<String> = self.anchors.iter().filter(|a| a.2).map(|a| a.0.clone()).collect();
            let name = if !good.is_empty() {
                r.pick(&good).clone()
            } else if self.faults > 0 && !any.is_empty() && r.chance(1, 6) {
                self.faults -= 1;
                r.pick(&any).clone()
            } else if self.faults > 0 && r.chance(1, 60) {
                self.faults -= 1;
                "nowhere".to_owned()
            } else {
                String::new()
            };
            if !name.is_empty() {
                self.nodes.push(json!({"k": "al", "an": name, "to": 0}));
                return self.nodes.len();
            }
        }
        let small = self.left == 0;
        match st(&s["t"]) {
            "untag" => {
                let x = r.pick(arr(&s["ss"])).clone();
                self.fill(r, &x, tag)
            }
            "itag" | "atag" | "flat" => self.kept(r, s, tag),
            "any" | "ign" | "raw" => {
                let other = match if small { r.below(6) } else { r.below(10) } {
                    0 => json!({"t": "bool"}),
                    1 => json!({"t": *r.pick(&["i64", "u64", "i8"])}),
                    2 => json!({"t": "f64"}),
                    3 | 4 => json!({"t": "str"}),
                    5 => json!({"t": "unit"}),
                    6 | 7 => json!({"t": "seq", "s": {"t": "any"}}),
                    _ => json!({"t": "map", "ks": {"t": if r.chance(3, 4) { "str" } else { "any" }}, "s": {"t": "any"}}),
                };
                let t = if tag.is_empty() && r.chance(1, 8) { *r.pick(&["!A", "!B", "!x_y", "!!str", "!Cc"]) } else { tag };
                self.fill(r, &other, t)
            }
            "bool" => {
                let w = *r.pick(&["true", "false", "True", "FALSE"]);
                self.sc(r, w, "p", tag, s)
            }
            "f64" => {
                let mut f = if r.chance(1, 2) { word(r) } else { float_text(r) };
                if f.parse::<f64>().is_err() || f.is_empty() {
                    f = (*r.pick(&["1.5", "-.inf", ".nan", "3", "1e9"])).to_owned();
                }
                self.sc(r, &f, "p", tag, s)
            }
            "str" => self.string(r, tag, s),
            "char" => {
                let w = *r.pick(&["x", "é", "日", "1", "~"]);
                self.sc(r, w, "p", tag, s)
            }
            "unit" => {
                let w = *r.pick(&["null", "~", "", "Null"]);
                self.sc(r, w, "p", tag, s)
            }
            "bytes" => self.sc(r, "bytes", "p", tag, s),
            "opt" => {
                if r.chance(1, 3) {
                    let w = *r.pick(&["null", "~", "", "NULL"]);
                    let t = if tag.is_empty() && r.chance(1, 8) { "!!null" } else { tag };
                    self.sc(r, w, "p", t, s)
                } else {
                    self.fill(r, &s["s"], tag)
                }
            }
            "new" => self.fill(r, &s["s"], tag),
            "seq" => {
                let n = if small { 0 } else { r.below(5) };
                let c = self.coll(r, "seq", tag, s);
                let kids = (0..n).map(|_| self.fill(r, &s["s"], "")).collect();
                self.done(c, kids)
            }
            "tup" => self.tuple(r, arr(&s["ss"]), tag, s),
            "map" => {
                let n = if small { 0 } else { r.below(5) };
                let c = self.coll(r, "map", tag, s);
                let mut kids = Vec::new();
                for i in 0..n {
                    if s["ks"]["t"] == "str" && !r.chance(1, 10) {
                        let k = if r.chance(1, 20) { "x".to_owned() } else { format!("k{i}") };
                        kids.push(self.sc(r, &k, "p", "", &s["ks"]));
                    } else {
                        kids.push(self.fill(r, &s["ks"], ""));
                    }
                    kids.push(self.fill(r, &s["s"], ""));
                }
                self.done(c, kids)
            }
            "struct" => self.fields(r, arr(&s["fs"]), tag, s),
            "enum" => {
                let vs = arr(&s["vs"]);
                let v = r.pick(vs).clone();
                let name = st(&v["n"]);
                let t = format!("!{name}");
                let t = if tag.is_empty() { t.as_str() } else { tag };
                match st(&v["k"]) {
                    "unit" if tag.is_empty() && r.chance(2, 3) => {
                        let style = *r.pick(&["p", "p", "s", "d"]);
                        self.sc(r, name, style, "", s)
                    }
                    "unit" => self.sc(r, "", "p", t, s),
                    "new" => self.fill(r, &v["s"], t),
                    "tup" => self.tuple(r, arr(&v["ss"]), t, s),
                    _ => self.fields(r, arr(&v["fs"]), t, s),
                }
            }
            _ => {
                let i = int_text(r);
                let i = if r.chance(2, 3) { r.below(200).to_string() } else { i };
                self.sc(r, &i, "p", tag, s)
            }
        }
    }

    fn kept(&mut self, r: &mut Rng, s: &J, tag: &str) -> usize {
        let ss = arr(&s["ss"]);
        let f = r.below(2);
        let name = json!({"lit": (if s["t"] == "itag" && r.chance(1, 6) { "C" } else { ["A", "B"][f] })});
        let mut es: Vec<(String, J)> = Vec::new();
        let mut of = |r: &mut Rng, t: &J| match st(&t["t"]) {
            "struct" => arr(&t["fs"]).iter().map(|f| (st(&f["n"]).to_owned(), f["s"].clone())).collect(),
            "map" => (0..r.below(4)).map(|i| (format!("k{i}"), t["s"].clone())).collect(),
            _ if r.chance(1, 3) => vec![("k".to_owned(), json!({"t": "any"}))],
            _ => vec![],
        };
        match st(&s["t"]) {
            "itag" => {
                es = of(r, &ss[f]);
                es.push(("t".to_owned(), name));
            }
            "atag" => {
                es.push(("t".to_owned(), name));
                if r.chance(9, 10) {
                    es.push(("c".to_owned(), ss[f].clone()));
                }
            }
            _ => {
                es = of(r, &ss[1]);
                if r.chance(9, 10) {
                    es.push(("x".to_owned(), ss[0].clone()));
                }
            }
        }
        if r.chance(1, 8) {
            let k = *r.pick(&["1", "null", "x", "t", "c", "k0", "other", "-x", "1.5"]);
            es.push((k.to_owned(), json!({"t": "any"})));
        }
        if r.chance(1, 12) && !es.is_empty() {
            let e = r.pick(&es).clone();
            es.push(e);
        }
        if s["t"] == "itag" && r.chance(1, 12) {
            let c = self.coll(r, "seq", tag, s);
            let mut kids = vec![self.sc(r, ["A", "B"][f], "p", "", &json!({"t": "str"}))];
            if let Some(ss) = ss[f]["ss"].as_array() {
                for x in ss.clone() {
                    kids.push(self.fill(r, &x, ""));
                }
            }
            return self.done(c, kids);
        }
        for i in (1..es.len()).rev() {
            es.swap(i, r.below(i + 1));
        }
        let c = self.coll(r, "map", tag, s);
        let mut kids = Vec::new();
        for (k, t) in es {
            let style = *r.pick(&["p", "p", "p", "s", "d"]);
            kids.push(self.sc(r, &k, style, "", &json!({"t": "str"})));
            kids.push(match t["lit"].as_str() {
                Some(l) => self.sc(r, l, style, "", &json!({"t": "str"})),
                None => self.fill(r, &t, ""),
            });
        }
        self.done(c, kids)
    }

    fn tuple(&mut self, r: &mut Rng, ss: &[J], tag: &str, s: &J) -> usize {
        let c = self.coll(r, "seq", tag, s);
        let mut kids: Vec<usize> = ss.iter().map(|x| self.fill(r, x, "")).collect();
        if self.faults > 0 && r.chance(1, 15) {
            self.faults -= 1;
            kids.push(self.fill(r, &json!({"t": "any"}), ""));
        }
        self.done(c, kids)
    }

    fn fields(&mut self, r: &mut Rng, fs: &[J], tag: &str, s: &J) -> usize {
        let c = self.coll(r, "map", tag, s);
        let mut kids = Vec::new();
        let mut order: Vec<usize> = (0..fs.len()).collect();
        if order.len() > 1 && r.chance(1, 2) {
            let i = r.below(order.len());
            order.swap(0, i);
        }
        if r.chance(1, 15) && !order.is_empty() {
            order.push(0);
        }
        for i in order {
            if r.chance(1, 15) {
                kids.push(self.sc(r, "unknown-field", "p", "", &json!({"t": "str"})));
                kids.push(self.fill(r, &json!({"t": "any"}), ""));
            }
            if r.chance(1, if fs[i]["s"]["t"] == "opt" { 4 } else { 40 }) {
                continue;
            }
            let style = *r.pick(&["p", "p", "p", "s", "d"]);
            kids.push(self.sc(r, st(&fs[i]["n"]), style, "", &json!({"t": "str"})));
            kids.push(self.fill(r, &fs[i]["s"], ""));
        }
        self.done(c, kids)
    }
}

/// A document for a type that keeps what it reads.
pub fn keep(r: &mut Rng) -> J {
    let d = r.range(0, 3);
    let mut s = kept(r, d);
    match r.below(6) {
        0 => s = json!({"t": "seq", "s": s}),
        1 => s = json!({"t": "opt", "s": s}),
        2 => s = json!({"t": "struct", "fs": [{"n": "x", "s": s}, {"n": "y", "s": {"t": "opt", "s": kept(r, d)}}], "deny": false}),
        3 => s = json!({"t": "enum", "vs": [{"n": "A", "k": "new", "s": s}]}),
        _ => {}
    }
    let left = *r.pick(&[4, 8, 15]);
    let faults = *r.pick(&[0, 1, 1, 3]);
    let mut doc = Doc::new(left, faults);
    doc.fill(r, &s, "");
    let other = kept(r, 2);
    json!({"nodes": doc.nodes, "reads": [s, {"t": "raw"}, other]})
}

pub fn doc(r: &mut Rng) -> J {
    let d = r.range(1, 5);
    let s = schema(r, d);
    let left = *r.pick(&[4, 8, 15, 40]);
    let faults = *r.pick(&[0, 1, 1, 3]);
    let mut doc = Doc::new(left, faults);
    doc.fill(r, &s, "");
    let other = schema(r, 3);
    // (the same type with an alteration would mostly fit as well)
    json!({"nodes": doc.nodes, "reads": [s, {"t": "any"}, {"t": "ign"}, other]})
}

/// Chains of collections, about as deep as the limit, and a recursive type for them.
pub fn deep(r: &mut Rng) -> J {
    if r.chance(1, 2) {
        return spine(r);
    }
    let kind = *r.pick(&["any", "RSeq", "RMap", "RStruct", "RNew", "REnum"]);
    let n = match r.below(4) {
        0 => r.range(60, 140),
        1 => r.range(61, 67),
        _ => r.range(125, 131),
    };
    let mut nodes = Vec::new();
    // a mapping or sequence with the tag whose content goes on
    let seq = |nodes: &mut Vec<J>, tag: &str| {
        let id = nodes.len() + 1;
        nodes.push(json!({"k": "seq", "kids": [id + 1], "tag": tag, "an": ""}));
    };
    let map = |nodes: &mut Vec<J>, tag: &str| {
        let id = nodes.len() + 1;
        nodes.push(json!({"k": "map", "kids": [id + 1, id + 2], "tag": tag, "an": ""}));
        nodes.push(json!({"k": "sc", "v": "x", "st": "p", "tag": "", "an": ""}));
    };
    let mut open = Vec::new();
    for _ in 0..n {
        match kind {
            "RSeq" | "RNew" => seq(&mut nodes, ""),
            "RMap" | "RStruct" => map(&mut nodes, ""),
            "REnum" => match r.below(3) {
                0 => {
                    open.push(nodes.len());
                    seq(&mut nodes, "!T");
                }
                1 => seq(&mut nodes, "!N"),
                _ => map(&mut nodes, "!S"),
            },
            _ => {
                let tag = if r.chance(1, 8) { "!T" } else { "" };
                if r.chance(1, 2) {
                    seq(&mut nodes, tag)
                } else {
                    map(&mut nodes, tag)
                }
            }
        }
    }
    let (v, st) = match kind {
        "RSeq" | "RMap" => ("", "p"),
        "RStruct" | "RNew" => ("null", "p"),
        "REnum" => ("U", "p"),
        _ => ("x", "d"),
    };
    nodes.push(json!({"k": "sc", "v": v, "st": st, "tag": "", "an": ""}));
    // second elements of the tuples, innermost first
    for o in open.into_iter().rev() {
        let id = nodes.len() + 1;
        nodes.push(json!({"k": "sc", "v": "1", "st": "p", "tag": "", "an": ""}));
        nodes[o]["kids"].as_array_mut().unwrap().push(json!(id));
    }
    let s = if kind == "any" { json!({"t": "opt", "s": {"t": "any"}}) } else { json!({"t": "ref", "name": kind}) };
    json!({"nodes": nodes, "reads": [{"t": "any"}, {"t": "ign"}, s]})
}


/// A document around the nesting limit with siblings all along the way, read
/// as Values or skipped: the limit counts depth, not collections.
fn spine(r: &mut Rng) -> J {
    struct B<'a> {
        nodes: Vec<J>,
        r: &'a mut Rng,
        /// depth of the anchored nodes a, b, …
        ladder: Vec<usize>,
        goal: usize,
    }
    impl B<'_> {
        fn leaf(&mut self) -> usize {
            self.nodes.push(json!({"k": "sc", "v": *self.r.pick(&["x", "1", "~"]), "st": "p", "tag": "", "an": ""}));
            self.nodes.len()
        }
        fn key(&mut self, n: usize) -> usize {
            self.nodes.push(json!({"k": "sc", "v": format!("k{n}"), "st": "p", "tag": "", "an": ""}));
            self.nodes.len()
        }
        fn open(&mut self, k: &str, an: &str) -> usize {
            let tag = if self.r.chance(1, 10) { "!t" } else { "" };
            self.nodes.push(json!({"k": k, "kids": [], "tag": tag, "an": an}));
            self.nodes.len()
        }
        fn close(&mut self, id: usize, kids: Vec<usize>) {
            self.nodes[id - 1]["kids"] = json!(kids);
        }
        /// A chain of n collections.
        fn chain(&mut self, n: usize, an: &str) -> usize {
            if n == 0 {
                return self.leaf();
            }
            let map = self.r.chance(1, 2);
            let id = self.open(if map { "map" } else { "seq" }, an);
            let mut kids = vec![];
            if map {
                // as a key or as a value
                if self.r.chance(1, 6) && n <= 3 {
                    kids.push(self.chain(n - 1, ""));
                    kids.push(self.leaf());
                } else {
                    kids.push(self.key(0));
                    kids.push(self.chain(n - 1, ""));
                }
            } else {
                kids.push(self.chain(n - 1, ""));
            }
            self.close(id, kids);
            id
        }
        /// A collection at the given depth from which the goal is reached.
        fn go(&mut self, depth: usize) -> usize {
            let left = self.goal - depth;
            if left == 0 {
                return self.leaf();
            }
            // the rest behind an alias
            if let Some(i) = self.ladder.iter().position(|&n| n == left) {
                self.nodes.push(json!({"k": "al", "an": NAMES[i], "to": 0}));
                return self.nodes.len();
            }
            let map = self.r.chance(1, 2);
            let id = self.open(if map { "map" } else { "seq" }, "");
            let mut kids = vec![];
            let before = if self.r.chance(1, 8) { self.r.range(1, 2) } else { 0 };
            let after = if self.r.chance(1, 8) { 1 } else { 0 };
            for i in 0..=before + after {
                if map {
                    kids.push(self.key(i));
                }
                if i == before {
                    kids.push(self.go(depth + 1));
                } else {
                    let n = if self.r.chance(1, 5) { 127usize.saturating_sub(depth).min(20) } else { self.r.below(3) };
                    kids.push(self.chain(n.min(127usize.saturating_sub(depth)), ""));
                }
            }
            self.close(id, kids);
            id
        }
    }
    const NAMES: [&str; 3] = ["a", "b", "c"];
    let goal = *r.pick(&[126, 127, 128, 128, 129, 129, 130]);
    let rungs = r.below(3);
    let mut b = B { nodes: vec![], r, ladder: vec![], goal };
    let root = b.open("seq", "");
    let mut kids = vec![];
    for i in 0..rungs {
        let n = b.r.range(1, 60);
        kids.push(b.chain(n, NAMES[i]));
        b.ladder.push(n);
    }
    kids.push(b.go(1));
    b.close(root, kids);
    json!({"nodes": b.nodes, "reads": [{"t": "any"}, {"t": "ign"}, {"t": "seq", "s": {"t": "any"}}, {"t": "seq", "s": {"t": "new", "s": {"t": "any"}}}, {"t": "opt", "s": {"t": "seq", "s": {"t": "ign"}}}]})
}
