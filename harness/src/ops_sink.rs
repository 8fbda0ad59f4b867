//! Recording what a Serializer does to a scripted writer.
use crate::j::{arr, st, J};
use crate::ops_ser::{calls, Call, C};
use crate::rt::try_;
use serde::Serialize;
use serde_json::json;
use std::cell::RefCell;
use std::io::{self, Write};
use std::rc::Rc;

struct Script {
    answers: Vec<(String, usize, String)>,
    flushes: Vec<(String, String)>,
    next: usize,
    next_flush: usize,
    got: Vec<u8>,
    want: Vec<u8>,
    trace: Vec<J>,
}
fn failure(kind: &str) -> io::Error {
    use io::ErrorKind::*;
    let kind = match kind {
        "eof" => UnexpectedEof,
        "block" => WouldBlock,
        "pipe" => BrokenPipe,
        "zero" => WriteZero,
        "data" => InvalidData,
        _ => Other,
    };
    io::Error::new(kind, "the sink failed")
}
struct Sink(Rc<RefCell<Script>>);
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        let s = &mut *s;
        let fits = s.want[s.got.len().min(s.want.len())..].starts_with(buf);
        let (r, k, kind) = s.answers.get(s.next).cloned().unwrap_or(("ok".to_owned(), usize::MAX, String::new()));
        s.next += 1;
        let k = if r == "ok" { k.min(buf.len()) } else { 0 };
        s.trace.push(json!({"e": "write", "n": buf.len(), "fits": fits, "r": r, "took": k}));
        s.got.extend_from_slice(&buf[..k]);
        match r.as_str() {
            "ok" => Ok(k),
            "intr" => Err(io::Error::from(io::ErrorKind::Interrupted)),
            "zero" => Ok(0),
            _ => Err(failure(&kind)),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut s = self.0.borrow_mut();
        let (r, kind) = s.flushes.get(s.next_flush).cloned().unwrap_or(("ok".to_owned(), String::new()));
        s.next_flush += 1;
        s.trace.push(json!({"e": "flush", "r": r}));
        if r == "ok" {
            Ok(())
        } else {
            Err(failure(&kind))
        }
    }
}

/// How an error presents itself.
fn why(e: &serde_yaml::Error) -> &'static str {
    let mut src: Option<&(dyn std::error::Error + 'static)> = Some(e);
    let mut text = e.to_string();
    while let Some(x) = src {
        text.push_str(&x.to_string());
        src = x.source();
    }
    if text.contains("the sink failed") {
        "err"
    } else if text.contains("write whole buffer") {
        "zero"
    } else {
        "data"
    }
}

pub fn record(pool: &J, c: &J) -> J {
    let pool: Vec<Vec<Call>> = arr(pool).iter().map(calls).collect();
    let doc = |h: &J| &pool[h["d"].as_u64().unwrap() as usize - 1];
    let hist = arr(&c["hist"]);
    let writes = |h: &&J| matches!(st(&h["c"]), "ser" | "to_writer");
    let refused = |h: &J| serde_yaml::to_string(&C(doc(h), 1, crate::ops_ser::Yes)).is_err();
    // in memory, and what each document is by itself
    let mut mem = Vec::new();
    {
        let mut s = serde_yaml::Serializer::new(&mut mem);
        for h in hist.iter().filter(writes) {
            if C(doc(h), 1, crate::ops_ser::Yes).serialize(&mut s).is_err() {
                break;
            }
        }
    }
    let mut segs = vec![];
    let mut rest = &mem[..];
    for h in hist.iter().filter(writes) {
        let Ok(text) = serde_yaml::to_string(&C(doc(h), 1, crate::ops_ser::Yes)) else { continue };
        if !segs.is_empty() {
            let n = 4.min(rest.len());
            segs.push(json!({"k": "mark", "s": String::from_utf8_lossy(&rest[..n]), "n": n}));
            rest = &rest[n..];
        }
        let same = rest.starts_with(text.as_bytes());
        segs.push(json!({"k": if same { "doc" } else { "other" }, "s": "", "n": text.len()}));
        rest = &rest[text.len().min(rest.len())..];
    }
    // a document that is refused may have begun
    let all_ok = hist.iter().filter(writes).all(|h| !refused(h));
    if all_ok && !rest.is_empty() {
        segs.push(json!({"k": "other", "s": "", "n": rest.len()}));
    }
    mem.extend_from_slice(b"...\n");
    let script = Rc::new(RefCell::new(Script {
        answers: arr(&c["answers"]).iter().map(|a| (st(&a["r"]).to_owned(), a["k"].as_u64().unwrap() as usize, st(&a["kind"]).to_owned())).collect(),
        flushes: arr(&c["flushes"]).iter().map(|a| (st(&a["r"]).to_owned(), st(&a["kind"]).to_owned())).collect(),
        next: 0,
        next_flush: 0,
        got: vec![],
        want: mem,
        trace: vec![],
    }));
    let note = |j: J| script.borrow_mut().trace.push(j);
    let ret = |r: Result<Result<(), serde_yaml::Error>, String>| -> J {
        match r {
            Ok(Ok(())) => json!({"e": "ret", "ok": true, "why": ""}),
            Ok(Err(e)) => json!({"e": "ret", "ok": false, "why": why(&e)}),
            Err(p) => json!({"e": "panic", "msg": p}),
        }
    };
    let mut ser = Some(serde_yaml::Serializer::new(Sink(script.clone())));
    for h in hist {
        let c = st(&h["c"]);
        if ser.is_none() {
            break;
        }
        note(json!({"e": "call", "c": c, "refused": writes(&h) && refused(h)}));
        let r = ret(try_(|| match c {
            "ser" => C(doc(h), 1, crate::ops_ser::Yes).serialize(ser.as_mut().unwrap()),
            "to_writer" => serde_yaml::to_writer(Sink(script.clone()), &C(doc(h), 1, crate::ops_ser::Yes)),
            "flush" => ser.as_mut().unwrap().flush(),
            "finish" => ser.take().unwrap().into_inner().map(|_| ()),
            "drop" => {
                ser = None;
                Ok(())
            }
            other => panic!("call {other}"),
        }));
        let stop = r["ok"] != true;
        note(r);
        if stop {
            break;
        }
    }
    drop(ser);
    let t = std::mem::take(&mut script.borrow_mut().trace);
    json!({"segs": segs, "trace": t, "hist": hist, "answers": c["answers"]})
}
