//! Scalar resolution, typed scalars, quoting and Number text.
use crate::j::*;
use crate::rt::*;
use serde::de::DeserializeOwned;
use serde_json::json;
use serde_yaml::{Number, Value};

fn err() -> J {
    json!({"k": "err"})
}

pub fn value_of(text: &str) -> J {
    guard(|| match serde_yaml::from_str::<Value>(text) {
        Ok(v) => vjson(&v),
        Err(_) => err(),
    })
}

fn typed<T: DeserializeOwned>(text: &str, f: impl Fn(T) -> J) -> J {
    guard(|| match serde_yaml::from_str::<T>(text) {
        Ok(v) => f(v),
        Err(_) => err(),
    })
}

fn int(s: String) -> J {
    json!({"k": "int", "s": s})
}

pub fn float(f: f64) -> J {
    json!({"k": "float", "t": canon_f64(f)})
}

/// Whether the text is a plain scalar wherever a value may stand.
pub fn plain_safe(s: &str) -> bool {
    !s.is_empty()
        && s.bytes().all(|b| b.is_ascii_alphanumeric() || b"+-._~".contains(&b))
        && s != "-"
        && !s.starts_with("---")
        && !s.starts_with("...")
}

pub fn single(s: &str) -> String {
    format!("'{}'", s.replace('\'', "''"))
}

pub fn double(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            ' '..='~' => o.push(c),
            _ => {
                let n = c as u32;
                if n <= 0xff {
                    o.push_str(&format!("\\x{n:02x}"));
                } else if n <= 0xffff {
                    o.push_str(&format!("\\u{n:04x}"));
                } else {
                    o.push_str(&format!("\\U{n:08x}"));
                }
            }
        }
    }
    o.push('"');
    o
}

pub fn run(ctx: &mut Ctx, c: &J) {
    let s = st(&c["s"]);
    if ctx.wants("untyped") {
        untyped(ctx, c, s);
    }
    if ctx.wants("typed") && plain_safe(s) {
        typed_reads(ctx, c, s);
    }
    if ctx.wants("write") {
        write(ctx, s);
    }
    if ctx.wants("number") {
        number(ctx, c, s);
    }
}

fn wrap(exp: &J, f: impl Fn(J) -> J) -> J {
    if exp["k"] == "err" {
        err()
    } else {
        f(exp.clone())
    }
}

fn untyped(ctx: &mut Ctx, c: &J, s: &str) {
    let p = &c["p"];
    let one = json!({"k": "str", "s": "z"});
    let string = json!({"k": "str", "s": s});
    let seq = |v: J| json!({"k": "seq", "e": [v]});
    if plain_safe(s) {
        let ctxs: Vec<(String, J)> = vec![
            (format!("{s}\n"), p.clone()),
            (format!("--- {s}\n...\n"), p.clone()),
            (format!("- {s}\n- z\n"), wrap(p, |v| json!({"k": "seq", "e": [v, one]}))),
            (format!("z: {s} # comment\n"), wrap(p, |v| json!({"k": "map", "e": [[one, v]]}))),
            (format!("{s}: z\n"), wrap(p, |v| json!({"k": "map", "e": [[v, one]]}))),
            (format!("[ {s} ]\n"), wrap(p, seq)),
            (format!("{{z: {s}}}\n"), wrap(p, |v| json!({"k": "map", "e": [[one, v]]}))),
            (format!("[&a {s}, *a]\n"), wrap(p, |v| json!({"k": "seq", "e": [v, v]}))),
            (format!("!x {s}\n"), wrap(p, |v| json!({"k": "tag", "t": "x", "v": v}))),
            (format!("!!bool {s}\n"), c["tb"].clone()),
            (format!("!!int {s}\n"), c["ti"].clone()),
            (format!("!!float {s}\n"), c["tf"].clone()),
            (format!("!!null {s}\n"), c["tn"].clone()),
            (format!("!!str {s}\n"), string.clone()),
            (format!("- !!bool {s}\n"), wrap(&c["tb"], seq)),
            (format!("[!!int {s}]\n"), wrap(&c["ti"], seq)),
        ];
        for (text, exp) in ctxs {
            let obs = value_of(&text);
            ctx.eq("untyped plain scalar", &text, &exp, &obs);
        }
    }
    let (q, d) = (single(s), double(s));
    let no_break = !s.contains(['\n', '\r', '\u{85}', '\u{2028}', '\u{2029}'])
        && s.chars().all(|c| c == '\t' || !c.is_control())
        && !s.contains(['\u{feff}', '\u{fffe}', '\u{ffff}']);
    let mut quoted: Vec<(String, J)> = vec![
        (format!("{d}\n"), string.clone()),
        (format!("- {d}\n"), seq(string.clone())),
        (format!("!x {d}\n"), json!({"k": "tag", "t": "x", "v": string})),
        (format!("!!int {d}\n"), c["ti"].clone()),
        (format!("!!bool {d}\n"), c["tb"].clone()),
        (format!("!!str {d}\n"), string.clone()),
        // an implicit key has at most 1024 characters
        (if d.len() < 1000 { format!("{{{d}: z}}\n") } else { format!("{{? {d} : z}}\n") }, json!({"k": "map", "e": [[string, one]]})),
    ];
    if no_break {
        quoted.push((format!("{q}\n"), string.clone()));
        quoted.push((format!("z: {q}\n"), json!({"k": "map", "e": [[one, string]]})));
        quoted.push((format!("!!float {q}\n"), c["tf"].clone()));
        if !s.is_empty() && !s.starts_with([' ', '\t']) && !s.ends_with([' ', '\t']) {
            quoted.push((format!("|-\n  {s}\n"), string.clone()));
            quoted.push((format!(">-\n  {s}\n"), string.clone()));
            quoted.push((format!("- |\n  {s}\n"), seq(json!({"k": "str", "s": format!("{s}\n")}))));
            quoted.push((format!("!!int |-\n  {s}\n"), c["ti"].clone()));
        }
    }
    for (text, exp) in quoted {
        let obs = value_of(&text);
        ctx.eq("untyped quoted scalar", &text, &exp, &obs);
    }
}

fn typed_reads(ctx: &mut Ctx, c: &J, s: &str) {
    for (pre, post) in [("", "\n"), ("!x ", "\n"), ("[", "]\n")] {
        let text = format!("{pre}{s}{post}");
        if pre == "[" {
            macro_rules! ints1 { ($($t:ident)*) => { $(
                let obs = typed::<($t,)>(&text, |v| int(v.0.to_string()));
                ctx.eq(concat!("read as (", stringify!($t), ",)"), &text, &c["ints"][stringify!($t)], &obs);
            )* } }
            ints1!(i8 i64 u8 u64);
            continue;
        }
        macro_rules! ints { ($($t:ident)*) => { $(
            let obs = typed::<$t>(&text, |v| int(v.to_string()));
            ctx.eq(concat!("read as ", stringify!($t)), &text, &c["ints"][stringify!($t)], &obs);
        )* } }
        ints!(i8 i16 i32 i64 i128 u8 u16 u32 u64 u128);
        let obs = typed::<f64>(&text, float);
        ctx.eq("read as f64", &text, &c["f64"], &obs);
        let exp32 = match c["f64"]["t"].as_str() {
            Some(t) => float((t.parse::<f64>().unwrap() as f32) as f64),
            None => err(),
        };
        let obs = typed::<f32>(&text, |f| float(f as f64));
        ctx.eq("read as f32", &text, &exp32, &obs);
        let obs = typed::<bool>(&text, |b| json!({"k": "bool", "b": b}));
        ctx.eq("read as bool", &text, &c["bool"], &obs);
        let obs = typed::<String>(&text, |s| json!({"k": "str", "s": s}));
        ctx.eq("read as String", &text, &json!({"k": "str", "s": s}), &obs);
        let some = |j: &J| json!({"k": "some", "v": j});
        let obs = typed::<Option<i64>>(&text, |v| match v {
            None => json!({"k": "none"}),
            Some(i) => some(&int(i.to_string())),
        });
        let exp = if pre.is_empty() && c["kind"] == "null" {
            json!({"k": "none"})
        } else {
            wrap(&c["ints"]["i64"], |v| some(&v))
        };
        ctx.eq("read as Option<i64>", &text, &exp, &obs);
        if pre.is_empty() {
            let obs = typed::<()>(&text, |()| json!({"k": "null"}));
            let exp = if c["kind"] == "null" { json!({"k": "null"}) } else { err() };
            ctx.eq("read as unit", &text, &exp, &obs);
        }
        let obs = typed::<char>(&text, |s| json!({"k": "str", "s": s.to_string()}));
        let exp = if s.chars().count() == 1 { json!({"k": "str", "s": s}) } else { err() };
        ctx.eq("read as char", &text, &exp, &obs);
    }
    // quoted text is never a number or boolean, whatever it says
    for text in [single(s), double(s)] {
        let obs = typed::<i64>(&text, |v| int(v.to_string()));
        ctx.eq("quoted read as i64", &text, &err(), &obs);
        let obs = typed::<u64>(&text, |v| int(v.to_string()));
        ctx.eq("quoted read as u64", &text, &err(), &obs);
        let obs = typed::<f64>(&text, float);
        ctx.eq("quoted read as f64", &text, &err(), &obs);
        let obs = typed::<bool>(&text, |b| json!({"k": "bool", "b": b}));
        ctx.eq("quoted read as bool", &text, &err(), &obs);
        let obs = typed::<()>(&text, |()| json!({"k": "null"}));
        ctx.eq("quoted read as unit", &text, &err(), &obs);
    }
}

/// The string written in every position reads back as itself.
pub fn write(ctx: &mut Ctx, s: &str) {
    use serde_yaml::value::{Tag, TaggedValue};
    use serde_yaml::Mapping;
    let v = Value::String(s.to_owned());
    let z = Value::String("z".into());
    let m = |k: &Value, v: &Value| {
        let mut m = Mapping::new();
        m.insert(k.clone(), v.clone());
        m
    };
    let mut two = m(&v, &v);
    two.insert(Value::Sequence(vec![v.clone()]), v.clone());
    let vals = vec![
        v.clone(),
        Value::Sequence(vec![v.clone(), z.clone(), v.clone()]),
        Value::Mapping(m(&z, &v)),
        Value::Mapping(m(&v, &z)),
        Value::Mapping(two),
        Value::Sequence(vec![Value::Mapping(m(&v, &Value::Sequence(vec![v.clone()])))]),
        Value::Tagged(Box::new(TaggedValue { tag: Tag::new("x"), value: v.clone() })),
    ];
    for val in vals {
        let obs = guard(|| match serde_yaml::to_string(&val) {
            Err(e) => json!({"k": "err", "to_string": e.to_string()}),
            Ok(t) => match serde_yaml::from_str::<Value>(&t) {
                Ok(v) => vjson(&v),
                Err(e) => json!({"k": "unreadable", "text": t, "e": e.to_string()}),
            },
        });
        let text = vjson(&val).to_string();
        ctx.eq("string written and read back", &text, &vjson(&val), &obs);
    }
    // typed
    let obs = guard(|| match serde_yaml::to_string(s).map(|t| (serde_yaml::from_str::<String>(&t), t)) {
        Ok((Ok(r), _)) => json!(r),
        Ok((Err(e), t)) => json!({"k": "err", "e": e.to_string(), "text": t}),
        Err(e) => json!({"k": "err", "e": e.to_string()}),
    });
    ctx.eq("string written and read as String", s, &json!(s), &obs);
    let obs = guard(|| {
        let v = vec![s.to_owned(), s.to_owned()];
        match serde_yaml::to_string(&v).map(|t| (serde_yaml::from_str::<Vec<String>>(&t), t)) {
            Ok((Ok(r), _)) => json!(r),
            Ok((Err(e), t)) => json!({"k": "err", "e": e.to_string(), "text": t}),
            Err(e) => json!({"k": "err", "e": e.to_string()}),
        }
    });
    ctx.eq("strings written and read as Vec<String>", s, &json!([s, s]), &obs);
    let obs = guard(|| {
        let mut b = std::collections::BTreeMap::new();
        b.insert(s.to_owned(), s.to_owned());
        match serde_yaml::to_string(&b)
            .map(|t| (serde_yaml::from_str::<std::collections::BTreeMap<String, String>>(&t), t))
        {
            Ok((Ok(r), _)) => json!(r.into_iter().collect::<Vec<_>>()),
            Ok((Err(e), t)) => json!({"k": "err", "e": e.to_string(), "text": t}),
            Err(e) => json!({"k": "err", "e": e.to_string()}),
        }
    });
    ctx.eq("strings written and read as map", s, &json!([[s, s]]), &obs);
    let mut cs = s.chars();
    if let (Some(ch), None) = (cs.next(), cs.next()) {
        let obs = guard(|| match serde_yaml::to_string(&ch) {
            Ok(t) => match (serde_yaml::from_str::<char>(&t), serde_yaml::from_str::<Value>(&t)) {
                (Ok(c), Ok(v)) => json!([c.to_string(), vjson(&v)]),
                e => json!({"k": "err", "e": format!("{e:?}"), "text": t}),
            },
            Err(e) => json!({"k": "err", "e": e.to_string()}),
        });
        ctx.eq("char written and read back", s, &json!([s, {"k": "str", "s": s}]), &obs);
    }
}

fn number(ctx: &mut Ctx, c: &J, s: &str) {
    let p = &c["p"];
    let exp = match p["k"].as_str().unwrap() {
        "int" | "float" => p.clone(),
        _ => err(),
    };
    let obs = guard(|| match s.parse::<Number>() {
        Ok(n) => vnum(&n),
        Err(_) => err(),
    });
    ctx.eq("Number from text", s, &exp, &obs);
    if exp["k"] == "err" {
        return;
    }
    // print and parse back, through every door
    let obs = guard(|| {
        let n: Number = s.parse().unwrap();
        let shown = n.to_string();
        let back = match shown.parse::<Number>() {
            Ok(n) => vnum(&n),
            Err(_) => err(),
        };
        let yaml = serde_yaml::to_string(&n).unwrap();
        let via_yaml = match serde_yaml::from_str::<Number>(&yaml) {
            Ok(n) => vnum(&n),
            Err(_) => err(),
        };
        let via_value = vjson(&serde_yaml::to_value(&n).unwrap());
        let from_value = vnum(&serde_yaml::from_value::<Number>(Value::Number(n.clone())).unwrap());
        json!([back, via_yaml, via_value, from_value])
    });
    ctx.eq("Number printed and read back", s, &json!([exp, exp, exp, exp]), &obs);
    let obs = guard(|| {
        let n: Number = s.parse().unwrap();
        json!([n.is_u64(), n.is_i64(), n.is_f64(), n.as_u64().map(|u| u.to_string()),
               n.as_i64().map(|u| u.to_string()), n.as_f64().map(canon_f64), n.is_nan(), n.is_infinite(), n.is_finite()])
    });
    let e = if exp["k"] == "int" {
        let t = st(&exp["s"]);
        let u = t.parse::<u64>().ok();
        let i = t.parse::<i64>().ok();
        json!([u.is_some(), i.is_some(), false, u.map(|u| u.to_string()), i.map(|i| i.to_string()),
               canon_f64(t.parse::<f64>().unwrap()), false, false, true])
    } else {
        let f: f64 = st(&exp["t"]).parse().unwrap();
        json!([false, false, true, null, null, canon_f64(f), f.is_nan(), f.is_infinite(), f.is_finite()])
    };
    ctx.eq("Number accessors", s, &e, &obs);
}
