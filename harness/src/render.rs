//! Renders the specification's node tables as YAML text, remembering where
//! each node starts.
use crate::gen::Rng;
use crate::j::{arr, st, J};

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Mark {
    pub line: usize,
    pub column: usize,
    pub index: usize,
}

#[derive(Clone, Debug)]
pub struct Node {
    pub k: char, // s scalar, q sequence, m mapping, a alias, v void
    pub v: String,
    pub st: char,
    pub tag: String,
    pub an: String,
    pub kids: Vec<usize>,
    pub to: usize,
}

/// The table of a specification document; node ids count from 1.
pub fn parse(nodes: &J) -> Vec<Node> {
    let s = |n: &J, f: &str| n.get(f).and_then(J::as_str).unwrap_or("").to_owned();
    let mut t = vec![Node { k: 'v', v: String::new(), st: 'p', tag: String::new(), an: String::new(), kids: vec![], to: 0 }];
    for n in arr(nodes) {
        t.push(Node {
            k: match st(&n["k"]) {
                "sc" => 's',
                "seq" => 'q',
                "map" => 'm',
                "al" => 'a',
                "void" => 'v',
                other => panic!("node kind {other}"),
            },
            v: s(n, "v"),
            st: s(n, "st").chars().next().unwrap_or('p'),
            tag: s(n, "tag"),
            an: s(n, "an"),
            kids: n.get("kids").map(|k| arr(k).iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_default(),
            to: n.get("to").and_then(J::as_u64).unwrap_or(0) as usize,
        });
    }
    t
}

pub struct Out {
    pub text: String,
    line: usize,
    column: usize,
}

impl Out {
    pub fn new() -> Out {
        Out { text: String::new(), line: 1, column: 1 }
    }
    pub fn put(&mut self, s: &str) {
        for c in s.chars() {
            if c == '\n' {
                self.line += 1;
                self.column = 1;
            } else {
                self.column += 1;
            }
        }
        self.text.push_str(s);
    }
    pub fn mark(&self) -> Mark {
        Mark { line: self.line, column: self.column, index: self.text.len() }
    }
}

pub struct Style {
    pub flow: bool,
    /// comments, blank lines, wide indentation, multi-byte characters
    pub noise: Option<Rng>,
    /// follow aliases textually instead of writing them
    pub inline: bool,
}

pub struct Renderer<'a> {
    nodes: &'a [Node],
    pub out: Out,
    pub marks: Vec<Option<Mark>>,
    style: Style,
    budget: usize,
}

/// This document cannot be written in this style.
pub struct Unsupported;
type R = Result<(), Unsupported>;

pub fn single(s: &str) -> String {
    format!("'{}'", s.replace('\'', "''"))
}

impl<'a> Renderer<'a> {
    pub fn new(nodes: &'a [Node], style: Style) -> Self {
        Renderer { nodes, out: Out::new(), marks: vec![None; nodes.len()], style, budget: 4000 }
    }

    /// One whole document; explicit: with the document start marker.
    pub fn document(&mut self, root: usize, explicit: bool) -> R {
        if self.nodes[root].k == 'v' {
            return Ok(());
        }
        if explicit {
            self.noise_line(0);
            self.out.put("---");
        }
        let n = &self.nodes[root];
        let bare = n.k == 's' && n.v.is_empty() && n.st == 'p';
        if bare && n.tag.is_empty() && n.an.is_empty() && !explicit {
            return Err(Unsupported);
        }
        if self.style.flow {
            self.out.put(if explicit { " " } else { "" });
            self.flow(root, 0)?;
            self.out.put("\n");
        } else if self.block_collection(root) && !self.props_of(root) {
            if explicit {
                self.newline();
            }
            self.block(root, 0, false)?;
        } else {
            if explicit {
                self.out.put(" ");
            }
            self.block(root, 0, false)?;
            if !self.out.text.ends_with('\n') {
                self.newline();
            }
        }
        Ok(())
    }

    fn target(&self, id: usize) -> usize {
        if self.style.inline && self.nodes[id].k == 'a' {
            self.target(self.nodes[id].to)
        } else {
            id
        }
    }

    fn roll(&mut self, n: usize) -> bool {
        match &mut self.style.noise {
            Some(r) => r.below(n) == 0,
            None => false,
        }
    }

    fn newline(&mut self) {
        if self.roll(4) {
            self.out.put(" # ünïcödé 😀");
        }
        self.out.put("\n");
        if self.roll(6) {
            self.out.put("\n");
        }
    }

    fn noise_line(&mut self, indent: usize) {
        if self.roll(5) {
            let c = " ".repeat(indent) + "# é — comment\n";
            self.out.put(&c);
        }
    }

    fn props_of(&self, id: usize) -> bool {
        let n = &self.nodes[id];
        !n.tag.is_empty() || (!n.an.is_empty() && n.k != 'a' && !self.style.inline)
    }

    /// Writes anchor and tag; true if there were any.
    fn props(&mut self, id: usize) -> bool {
        let n = &self.nodes[id];
        let (an, tag) = (n.an.clone(), n.tag.clone());
        let mut p = Vec::new();
        if !an.is_empty() && !self.style.inline {
            p.push(format!("&{an}"));
        }
        if !tag.is_empty() {
            p.push(tag);
        }
        if p.len() == 2 && self.roll(2) {
            p.swap(0, 1);
        }
        self.out.put(&p.join(" "));
        !p.is_empty()
    }

    fn set(&mut self, id: usize) {
        // The first occurrence counts: an inlined node has no single place.
        if self.marks[id].is_none() {
            self.marks[id] = Some(self.out.mark());
        }
    }

    fn scalar(&mut self, id: usize) {
        let n = &self.nodes[id];
        let t = match n.st {
            'p' => n.v.clone(),
            's' => single(&n.v),
            _ => crate::ops_scalar::double(&n.v),
        };
        self.out.put(&t);
    }

    fn space(&mut self) {
        if self.roll(5) {
            let s = if self.roll(2) { "\n    " } else { "  " };
            self.out.put(s);
        }
    }

    pub fn flow(&mut self, id: usize, depth: usize) -> R {
        let id = self.target(id);
        self.budget = self.budget.checked_sub(1).ok_or(Unsupported)?;
        if depth > 300 {
            return Err(Unsupported);
        }
        let n = &self.nodes[id];
        match n.k {
            'a' => {
                self.set(id);
                let s = format!("*{}", n.an);
                self.out.put(&s);
            }
            's' => {
                if n.st == 'l' || n.st == 'f' {
                    return Err(Unsupported);
                }
                let bare = n.v.is_empty() && n.st == 'p';
                if bare && !self.props_of(id) {
                    return Err(Unsupported);
                }
                self.set(id);
                if self.props(id) && !bare {
                    self.out.put(" ");
                }
                self.scalar(id);
            }
            'q' => {
                self.set(id);
                if self.props(id) {
                    self.out.put(" ");
                }
                self.out.put("[");
                let kids = n.kids.clone();
                for (i, k) in kids.iter().enumerate() {
                    if i > 0 {
                        self.out.put(", ");
                    }
                    self.space();
                    self.flow(*k, depth + 1)?;
                    // an alias or an empty node must not swallow the comma
                    self.out.put(" ");
                }
                if self.roll(4) && !kids.is_empty() {
                    self.out.put(",");
                }
                self.out.put("]");
            }
            'm' => {
                self.set(id);
                if self.props(id) {
                    self.out.put(" ");
                }
                self.out.put("{");
                let kids = n.kids.clone();
                for (i, kv) in kids.chunks(2).enumerate() {
                    if i > 0 {
                        self.out.put(", ");
                    }
                    self.space();
                    if !self.simple_key(kv[0]) || self.roll(5) {
                        self.out.put("? ");
                    }
                    self.flow(kv[0], depth + 1)?;
                    self.out.put(" : ");
                    let v = self.target(kv[1]);
                    let n = &self.nodes[v];
                    if n.k == 's' && n.st == 'p' && n.v.is_empty() && !self.props_of(v) {
                        continue;
                    }
                    self.flow(kv[1], depth + 1)?;
                    self.out.put(" ");
                }
                self.out.put("}");
            }
            _ => return Err(Unsupported),
        }
        Ok(())
    }

    fn simple_key(&self, id: usize) -> bool {
        let n = &self.nodes[self.target(id)];
        match n.k {
            'a' => true,
            's' => "psd".contains(n.st) && n.v.len() < 100 && !(n.v.is_empty() && n.st == 'p'),
            _ => false,
        }
    }

    /// Whether the node is written as an indented block.
    fn block_collection(&self, id: usize) -> bool {
        let n = &self.nodes[self.target(id)];
        (n.k == 'q' || n.k == 'm') && !n.kids.is_empty()
    }

    /// Writes a node whose children are indented by `indent`. For a block
    /// collection without properties the caller is at its first column.
    pub fn block(&mut self, id: usize, indent: usize, inline_start: bool) -> R {
        let id = self.target(id);
        self.budget = self.budget.checked_sub(1).ok_or(Unsupported)?;
        if indent > 2000 {
            return Err(Unsupported);
        }
        let n = &self.nodes[id];
        if !self.block_collection(id) {
            if n.k == 's' && (n.st == 'l' || n.st == 'f') {
                if n.v.contains(['\n', '\r', '\t']) || n.v.trim() != n.v || n.v.is_empty() {
                    return Err(Unsupported);
                }
                self.set(id);
                if self.props(id) {
                    self.out.put(" ");
                }
                let head = if n.st == 'l' { "|-" } else { ">-" };
                let text = format!("{head}\n{}{}", " ".repeat(indent + 2), n.v);
                self.out.put(&text);
                self.out.put("\n");
                return Ok(());
            }
            let bare = n.k == 's' && n.st == 'p' && n.v.is_empty();
            if bare && !self.props_of(id) {
                // an empty node has no place of its own
                self.newline();
                return Ok(());
            }
            self.flow(id, 0)?;
            self.newline();
            return Ok(());
        }
        self.set(id);
        let had_props = self.props(id);
        if had_props {
            self.newline();
        } else {
            self.marks[id] = None;
        }
        let mut first = !had_props && inline_start;
        let kids = n.kids.clone();
        let pad = " ".repeat(indent);
        if n.k == 'q' {
            for k in &kids {
                if !first {
                    self.noise_line(indent);
                    self.out.put(&pad);
                }
                first = false;
                self.set(id);
                self.out.put("-");
                let gap = if self.roll(6) { 3 } else { 1 };
                self.out.put(&" ".repeat(gap));
                if self.block_collection(*k) && !self.props_of(self.target(*k)) && self.roll(4) {
                    self.newline();
                    self.block(*k, indent + 1 + gap, false)?;
                } else {
                    self.block(*k, indent + 1 + gap, true)?;
                }
            }
        } else {
            for kv in kids.chunks(2) {
                if !first {
                    self.noise_line(indent);
                    self.out.put(&pad);
                }
                first = false;
                let explicit = !self.simple_key(kv[0]) || self.roll(6);
                if explicit {
                    self.set(id);
                    self.out.put("? ");
                    self.block(kv[0], indent + 2, true)?;
                    self.out.put(&pad);
                    self.out.put(": ");
                    self.block(kv[1], indent + 2, true)?;
                } else {
                    self.set(id);
                    self.flow(kv[0], 0)?;
                    let alias = self.nodes[self.target(kv[0])].k == 'a';
                    self.out.put(if alias { " :" } else { ":" });
                    let v = self.target(kv[1]);
                    if self.block_collection(v) && !self.props_of(v) {
                        self.newline();
                        // a sequence may sit at the indentation of its key
                        let deeper = if self.nodes[v].k == 'q' && self.roll(3) { 0 } else { 2 };
                        self.block(v, indent + deeper, false)?;
                    } else {
                        self.out.put(" ");
                        self.block(v, indent + 2, true)?;
                    }
                }
            }
        }
        Ok(())
    }
}
