//! Borrowed strings: which scalars are lent out, and as what.
use crate::j::{st, J};
use crate::rt::{guard, Ctx};
use serde::de::{self, DeserializeSeed, Deserializer as _, IgnoredAny, MapAccess, SeqAccess, Visitor};
use serde::Deserialize;
use serde_json::json;
use serde_yaml::Deserializer;
use std::borrow::Cow;
use std::fmt;

/// What a string arrived as: lent from an address, passing by, or owned.
#[derive(Debug, Clone, PartialEq)]
enum Got {
    Lent(usize, String),
    Passing(String),
    Owned(String),
    Other,
}
struct GotV;
impl<'de> Visitor<'de> for GotV {
    type Value = Got;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a string")
    }
    fn visit_borrowed_str<E>(self, s: &'de str) -> Result<Got, E> {
        Ok(Got::Lent(s.as_ptr() as usize, s.to_owned()))
    }
    fn visit_str<E>(self, s: &str) -> Result<Got, E> {
        Ok(Got::Passing(s.to_owned()))
    }
    fn visit_string<E>(self, s: String) -> Result<Got, E> {
        Ok(Got::Owned(s))
    }
    fn visit_unit<E>(self) -> Result<Got, E> {
        Ok(Got::Other)
    }
    fn visit_some<D: de::Deserializer<'de>>(self, d: D) -> Result<Got, D::Error> {
        d.deserialize_str(self)
    }
    fn visit_newtype_struct<D: de::Deserializer<'de>>(self, d: D) -> Result<Got, D::Error> {
        d.deserialize_str(self)
    }
}

/// Ways to ask for a string.
const WAYS: &[&str] = &["str", "string", "any", "identifier", "option", "newtype", "&str", "String", "cow"];

/// Where the string is: the i-th element, the i-th value or key.
#[derive(Clone, Copy)]
enum At {
    Root,
    Elem(usize),
    Value(usize),
    Key(usize),
    ElemValue(usize, usize),
}
#[derive(Clone, Copy)]
struct Find<'w>(At, &'w str); // (where, and in which way)
impl<'de, 'w> DeserializeSeed<'de> for Find<'w> {
    type Value = Got;
    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<Got, D::Error> {
        match self.0 {
            At::Root => match self.1 {
                "str" => d.deserialize_str(GotV),
                "string" => d.deserialize_string(GotV),
                "any" => d.deserialize_any(GotV),
                "identifier" => d.deserialize_identifier(GotV),
                "option" => d.deserialize_option(GotV),
                "newtype" => d.deserialize_newtype_struct("N", GotV),
                "&str" => <&str>::deserialize(d).map(|s| Got::Lent(s.as_ptr() as usize, s.to_owned())),
                "String" => String::deserialize(d).map(Got::Owned),
                "cow" => {
                    #[derive(serde::Deserialize)]
                    struct Wrapped<'a>(#[serde(borrow)] Cow<'a, str>);
                    Wrapped::deserialize(d).map(|c| match c.0 {
                        Cow::Borrowed(s) => Got::Lent(s.as_ptr() as usize, s.to_owned()),
                        Cow::Owned(s) => Got::Owned(s),
                    })
                }
                other => panic!("way {other}"),
            },
            At::Elem(_) | At::ElemValue(..) => d.deserialize_seq(self),
            At::Value(_) | At::Key(_) => d.deserialize_map(self),
        }
    }
}
impl<'de, 'w> Visitor<'de> for Find<'w> {
    type Value = Got;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a collection")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Got, A::Error> {
        let (n, inner) = match self.0 {
            At::Elem(n) => (n, At::Root),
            At::ElemValue(n, m) => (n, At::Value(m)),
            _ => unreachable!(),
        };
        for _ in 0..n {
            a.next_element::<IgnoredAny>()?;
        }
        let got = a.next_element_seed(Find(inner, self.1))?;
        while a.next_element::<IgnoredAny>()?.is_some() {}
        Ok(got.unwrap())
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Got, A::Error> {
        let (n, key) = match self.0 {
            At::Value(n) => (n, false),
            At::Key(n) => (n, true),
            _ => unreachable!(),
        };
        for _ in 0..n {
            a.next_entry::<IgnoredAny, IgnoredAny>()?;
        }
        let here = Find(At::Root, self.1);
        let got = if key {
            let g = a.next_key_seed(here)?.unwrap();
            a.next_value::<IgnoredAny>()?;
            g
        } else {
            a.next_key::<IgnoredAny>()?;
            a.next_value_seed(here)?
        };
        while a.next_entry::<IgnoredAny, IgnoredAny>()?.is_some() {}
        Ok(got)
    }
}

/// The same through the adapters, which read types.
struct Found(Got);
thread_local!(static FIND: std::cell::Cell<Option<Find<'static>>> = const { std::cell::Cell::new(None) });
impl<'de> Deserialize<'de> for Found {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Found, D::Error> {
        FIND.take().unwrap().deserialize(d).map(Found)
    }
}
const THROUGH: &[&str] = &["", " through singleton_map", " through singleton_map_recursive"];
fn find<'de, D: de::Deserializer<'de>>(at: At, way: &'static str, through: usize, d: D) -> Result<Got, D::Error> {
    let find = Find(at, way);
    FIND.set(Some(find));
    match through {
        0 => find.deserialize(d),
        1 => serde_yaml::with::singleton_map::deserialize::<Found, D>(d).map(|f| f.0),
        _ => serde_yaml::with::singleton_map_recursive::deserialize::<Found, D>(d).map(|f| f.0),
    }
}

/// A string in a Value: a borrowed Value lends it wherever it is, an owned one never does.
fn in_values(ctx: &mut Ctx, txt: &str, of_ref: &str, of_own: &str) {
    use serde_yaml::value::{Tag, TaggedValue};
    use serde_yaml::Value;
    let tagged = |v: Value| Value::Tagged(Box::new(TaggedValue { tag: Tag::new("t"), value: v }));
    let s = || Value::String(txt.to_owned());
    let map = |k: Value, v: Value| Value::Mapping([(Value::Null, Value::Null), (k, v)].into_iter().collect());
    let seq = |v: Value| Value::Sequence(vec![Value::Null, v]);
    let values = [
        (s(), At::Root, false),
        (tagged(s()), At::Root, true),
        (seq(s()), At::Elem(1), false),
        (tagged(seq(tagged(tagged(s())))), At::Elem(1), true),
        (map(Value::Bool(true), s()), At::Value(1), false),
        (map(s(), Value::Bool(true)), At::Key(1), false),
        (tagged(map(tagged(s()), tagged(s()))), At::Key(1), true),
        (seq(map(Value::Bool(true), tagged(s()))), At::ElemValue(1, 1), true),
    ];
    fn addresses(v: &Value, out: &mut Vec<usize>) {
        match v {
            Value::String(s) => out.push(s.as_ptr() as usize),
            Value::Sequence(s) => s.iter().for_each(|v| addresses(v, out)),
            Value::Mapping(m) => m.iter().for_each(|(k, v)| {
                addresses(k, out);
                addresses(v, out)
            }),
            Value::Tagged(t) => addresses(&t.value, out),
            _ => {}
        }
    }
    for (v, at, tags) in values {
        let mut there = Vec::new();
        addresses(&v, &mut there);
        for way in WAYS {
            if tags && *way == "any" {
                continue;
            }
            for through in 0..THROUGH.len() {
                for own in [false, true] {
                    let mut got = None;
                    let crashed = guard(|| {
                        got = Some(if own { find(at, way, through, v.clone()) } else { find(at, way, through, &v) });
                        J::Null
                    });
                    let input = format!("{v:?} as {way}{} {}", THROUGH[through], if own { "by value" } else { "by reference" });
                    let Some(got) = got else {
                        ctx.fail("reading a string panicked", &input, J::Null, crashed);
                        continue;
                    };
                    let lend = if own { of_own } else { of_ref };
                    let fits = match &got {
                        Ok(Got::Lent(p, s)) => lend == "must" && there.contains(p) && s == txt && *way != "String",
                        Ok(Got::Passing(s) | Got::Owned(s)) => s == txt && (lend == "never" || *way == "String") && *way != "&str",
                        Ok(Got::Other) => false,
                        Err(_) => lend == "never" && *way == "&str",
                    };
                    ctx.ok("a borrowed Value lends its strings, an owned one none", &input, fits, json!([lend, format!("{got:?}")]));
                }
            }
        }
    }
}

const PLACES: &[(&str, &str, At, usize)] = &[
    // before, after, where, in which document
    ("", "\n", At::Root, 0),
    ("--- ", "", At::Root, 0),
    ("# é\n- x\n-   ", "   # comment\n- y", At::Elem(1), 0),
    ("[é, ", " ,z]", At::Elem(1), 0),
    ("é:  ", "\nb: c\n", At::Value(0), 0),
    ("{a: é, b: ", "}", At::Value(1), 0),
    ("a: b\n? ", "\n: é", At::Key(1), 0),
    ("{? ", " : y}", At::Key(0), 0),
    ("", " : y", At::Key(0), 0),
    ("- - é\n- a: é\n  字: ", "\n  c: d\n", At::ElemValue(1, 1), 0),
    ("é\n--- !x\n- ", "\n...\n", At::Elem(0), 1),
    ("a\r\n---\r\nk: ", "\r\n", At::Value(0), 1),
    ("\u{feff}", "", At::Root, 0),
    ("%YAML 1.1\n---\n", "", At::Root, 0),
];

struct Trickle<'a>(&'a [u8]);
impl<'a> std::io::Read for Trickle<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.0.len().min(b.len()).min(3);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

pub fn run(ctx: &mut Ctx, c: &J) {
    let (style, src, txt, lend) = (st(&c["style"]), st(&c["src"]), st(&c["txt"]), st(&c["lend"]));
    in_values(ctx, txt, st(&c["byref"]), st(&c["byval"]));
    let block = style == "l" || style == "f";
    let written = match style {
        "p" => src.to_owned(),
        "s" => format!("'{src}'"),
        "d" => format!("\"{src}\""),
        "l" => format!("|-\n      {src}\n"),
        _ => format!(">-\n      {src}\n"),
    };
    for (i, (before, after, at, document)) in PLACES.iter().enumerate() {
        // implicit keys are on one line, and block scalars not in flow
        if c["lines"] == true && (i == 8 || i == 11 || i == 12 || i == 13 || i == 6) || block && (i >= 2 && i <= 5 || i >= 7 && i != 9) {
            continue;
        }
        for prop in ["", "&a ", "!t ", "!!str ", "&b !t "] {
            // a tag at an implicit key or document start is fine, an alias comes last
            let text = format!("{before}{prop}{written}{after}");
            let lead = before.len() + prop.len() + (style != "p") as usize;
            check(ctx, c, &text, *at, *document, Some(lead), txt, lend, prop);
        }
    }
    if !block {
        let text = format!("[&a {written}, é, *a]");
        check(ctx, c, &text, At::Elem(2), 0, Some(4 + (style != "p") as usize), txt, lend, "&a ");
        let text = format!("a: &e1 {written}\nb: *e1\n");
        check(ctx, c, &text, At::Value(1), 0, Some("a: &e1 ".len() + (style != "p") as usize), txt, lend, "&a ");
    }
}

#[allow(clippy::too_many_arguments)]
fn check(ctx: &mut Ctx, _c: &J, text: &str, at: At, document: usize, lead: Option<usize>, txt: &str, lend: &str, prop: &str) {
    for way in WAYS {
        if *way == "any" && prop.contains("!t") {
            continue;
        }
        for (source, through) in [("str", 0), ("slice", 0), ("read", 0), ("str", 1), ("str", 2), ("slice", 2), ("read", 2)] {
            let mut got: Option<Result<Got, serde_yaml::Error>> = None;
            let crashed = guard(|| {
                let mut d = match source {
                    "str" => Deserializer::from_str(text),
                    "slice" => Deserializer::from_slice(text.as_bytes()),
                    _ => Deserializer::from_reader(Trickle(text.as_bytes())),
                };
                got = Some(if document == 0 && !text.contains("\n---") {
                    find(at, way, through, d)
                } else {
                    find(at, way, through, d.nth(document).unwrap())
                });
                J::Null
            });
            let input = format!("{text:?} as {way} from {source}{}", THROUGH[through]);
            let Some(got) = got else {
                ctx.fail("reading a string panicked", &input, J::Null, crashed);
                continue;
            };
            let base = text.as_ptr() as usize;
            // (an empty plain scalar is no string to untyped targets)
            let verdict = match &got {
                Ok(Got::Lent(p, s)) => {
                    let offset = p.wrapping_sub(base);
                    source != "read"
                        && lend != "never"
                        && s == txt
                        && offset <= text.len()
                        && text.get(offset..offset + s.len()) == Some(txt)
                        && (lend != "must" || lead.map_or(true, |l| offset == l))
                        && *way != "String"
                }
                Ok(Got::Passing(s)) => s == txt && (source == "read" || lend != "must") && *way != "&str" && *way != "String",
                Ok(Got::Owned(s)) => s == txt && (*way == "String" || source == "read" || lend != "must") && *way != "&str",
                Ok(Got::Other) => false,
                // only a target that insists on borrowing is refused
                Err(_) => *way == "&str" && (source == "read" || lend != "must"),
            };
            ctx.ok("a string is lent exactly when it is the source text", &input, verdict, json!([lend, lead, format!("{got:?}")]));
        }
    }
}
