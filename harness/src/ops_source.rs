//! Sources: byte strings, chunked, interrupted and failing readers.
use crate::j::{arr, vjson, J};
use crate::ops_doc::errj;
use crate::rt::{guard, Ctx};
use serde::Deserialize;
use serde_json::json;
use serde_yaml::{Deserializer, Value};
use std::io::{self, Read};

pub fn val<'de>(d: Deserializer<'de>) -> J {
    guard(|| match Value::deserialize(d) {
        Ok(v) => vjson(&v),
        Err(e) => errj(e),
    })
}

fn from_slice(b: &[u8]) -> J {
    guard(|| match serde_yaml::from_slice::<Value>(b) {
        Ok(v) => vjson(&v),
        Err(e) => errj(e),
    })
}

struct Scripted<'a> {
    data: &'a [u8],
    calls: Vec<i64>,
    at: usize,
    kind: io::ErrorKind,
}
impl<'a> Read for Scripted<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let c = self.calls.get(self.at).copied().unwrap_or(0);
        match c {
            -1 => {
                self.at += 1;
                Err(io::Error::from(io::ErrorKind::Interrupted))
            }
            -2 => {
                self.at += 1;
                Err(io::Error::new(self.kind, "the source failed"))
            }
            0 => {
                self.at += 1;
                Ok(0)
            }
            k => {
                let k = k as usize;
                let n = k.min(buf.len());
                buf[..n].copy_from_slice(&self.data[..n]);
                self.data = &self.data[n..];
                if n == k {
                    self.at += 1;
                } else {
                    self.calls[self.at] -= n as i64;
                }
                Ok(n)
            }
        }
    }
}

const TEXTS: [&[u8]; 26] = [
    b"[1, 2]", b"a: b", b"- \xc3\xa9", b"x", b"\"\\n\"", b"[a", b"- 1\n- 2\n", b"a: {b: c}\n", b"1\n--- 2", b"# c\n", b"'\xe2\x82\xac'",
    b"&a [*b]", b"|\n a\n b", b"{a: 1, a: 1}", b"\xff: 1", b"- \xf0\x9f\x98\x80 x",
    b"\xef\xbb\xbfa: 1\nb: [", b"\xef\xbb\xbf- x", b"\xef\xbb\xbf", b"a: 1\n\0", b"a\0b: 1\n", b"a: 1\r\nb: 2\r\n", b"\xff\xfea\0", b"%YAML 1.2\n--- x\n...\n", b"a: 1\n... \n# end", b"x \n\n ",
];

pub fn source(ctx: &mut Ctx, c: &J) {
    let calls: Vec<i64> = arr(&c["calls"]).iter().map(|x| x.as_i64().unwrap()).collect();
    let n = c["n"].as_u64().unwrap() as usize;
    let big = format!("# {}\n{}", "é".repeat(5000), "- [x, 1.5]\n".repeat(1500)).into_bytes();
    // (beyond every plausible size of a buffer)
    let huge = if calls.len() <= 2 { format!("# {}\n- 1\n# {}\n- [x, 1.5]\n- [", "é".repeat(40000), "-".repeat(1200000)).into_bytes() } else { vec![] };
    for t in TEXTS.iter().copied().chain([&big[..], &huge[..]]) {
        // scale the calls of the model to the text
        let unit = t.len().div_ceil(n).max(1);
        let mut left = t.len();
        let mut calls2 = Vec::new();
        let mut total = 0;
        for k in &calls {
            if *k > 0 {
                let g = (*k as usize * unit).min(left);
                left -= g;
                total += g;
                if g > 0 {
                    calls2.push(g as i64);
                }
            } else {
                calls2.push(*k);
            }
        }
        for (i, kind) in [io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::WouldBlock].into_iter().enumerate() {
            if i > 0 && c["io"] == false {
                break;
            }
            let rdr = || Scripted { data: t, calls: calls2.clone(), at: 0, kind };
            let input = format!("{:?} read by {:?}", String::from_utf8_lossy(&t[..t.len().min(60)]), calls2);
            let obs = guard(|| match serde_yaml::from_reader::<_, Value>(rdr()) {
                Ok(v) => vjson(&v),
                Err(e) => errj(e),
            });
            let by_de = val(Deserializer::from_reader(rdr()));
            let by_iter = guard(|| match Deserializer::from_reader(rdr()).next() {
                Some(d) => val(d),
                None => json!("nothing"),
            });
            if c["io"] == true {
                let io = |o: &J| o["k"] == "err" && o["msg"] == "the source failed" && o["loc"].is_null();
                ctx.ok("a failing source is reported", &input, io(&obs), obs.clone());
                ctx.ok("a failing source is reported (Deserializer)", &input, io(&by_de), by_de.clone());
                ctx.ok("a failing source is reported (iterator)", &input, io(&by_iter), by_iter.clone());
                // every item keeps reporting it
                let mut it = Deserializer::from_reader(rdr());
                for _ in 0..3 {
                    let o = guard(|| it.next().map_or(json!("nothing"), val));
                    ctx.ok("a failing source is reported again", &input, io(&o), o.clone());
                }
                let src = guard(|| match serde_yaml::from_reader::<_, Value>(rdr()) {
                    Ok(_) => json!("value"),
                    Err(e) => match std::error::Error::source(&e) {
                        _ if e.location().is_some() => json!("location"),
                        Some(s) => json!(s.to_string()),
                        None => J::Null,
                    },
                });
                ctx.ok("its source error is kept", &input, src.is_null() || src == "the source failed", src);
            } else {
                let want = from_slice(&t[..total]);
                ctx.ok("a reader's text reads like the slice", &input, obs == want, json!([want, obs]));
                ctx.ok("a reader's text reads like the slice (Deserializer)", &input, by_de == want, json!([want, by_de]));
                let first = guard(|| match Deserializer::from_slice(&t[..total]).next() {
                    Some(d) => val(d),
                    None => json!("nothing"),
                });
                ctx.ok("a reader's text reads like the slice (iterator)", &input, by_iter == first, json!([first, by_iter]));
            }
        }
    }
}

pub fn utf8(ctx: &mut Ctx, c: &J) {
    let b: Vec<u8> = arr(&c["b"]).iter().map(|x| x.as_u64().unwrap() as u8).collect();
    let ok = c["ok"] == true;
    let allowed = c["allowed"] == true;
    let around = |a: &str, z: &str| [a.as_bytes(), &b[..], z.as_bytes()].concat();
    let texts = [
        ("double", around("\"", "\"\n"), true),
        ("single, in a sequence", around("[x, '", "']"), true),
        ("key", around("{\"k", "\": x}"), true),
        ("comment", around("x # ", "\n"), true),
        ("tag", around("!t", " x"), false),
        ("literal", around("|\n  x", "\n"), true),
        ("second document", around("--- 1\n--- \"", "\"\n"), true),
    ];
    for (name, t, _) in &texts {
        let input = format!("{name}: {:?}", t);
        let s = from_slice(t);
        let r = guard(|| match serde_yaml::from_reader::<_, Value>(&t[..]) {
            Ok(v) => vjson(&v),
            Err(e) => errj(e),
        });
        ctx.ok("from_reader reads like from_slice", &input, s == r, json!([s, r]));
        ctx.ok("no panic", &input, s["k"] != "panic", s.clone());
        if !ok {
            ctx.ok("bytes that are not UTF-8 are refused", &input, s["k"] == "err", s.clone());
            // also when iterating
            let all = guard(|| {
                let mut any = false;
                for d in Deserializer::from_slice(t).take(4) {
                    any |= val(d)["k"] == "err";
                }
                json!(any)
            });
            ctx.ok("bytes that are not UTF-8 are refused (iterator)", &input, all == true, all.clone());
        } else {
            let text = std::str::from_utf8(t).unwrap();
            let f = guard(|| match serde_yaml::from_str::<Value>(text) {
                Ok(v) => vjson(&v),
                Err(e) => errj(e),
            });
            ctx.ok("from_str reads like from_slice", &input, s == f, json!([s, f]));
            let bounded = s["loc"].is_null() || s["loc"][2].as_u64().unwrap_or(0) as usize <= t.len();
            ctx.ok("location within the text", &input, bounded, s.clone());
            if !allowed {
                ctx.ok("characters YAML does not allow are refused", &input, s["k"] == "err", s.clone());
            } else if c["plain"] == true && *name == "double" && !b.contains(&b'"') && !b.contains(&b'\\') {
                let want = json!({"k": "str", "s": std::str::from_utf8(&b).unwrap()});
                ctx.ok("text is kept", &input, s == want, json!([want, s]));
            }
        }
    }
}
