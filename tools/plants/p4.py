V = "use serde_yaml::Value;\n"
BUGS = [
dict(id="index-u32", property="C16", needs="indexing a mapping with an integer above u32::MAX",
 breaks="the key is truncated, another entry is returned",
 edits=[("src/value/index.rs", "Value::Mapping(vec) => vec.get(&Value::Number((*self).into())),", "Value::Mapping(vec) => vec.get(&Value::Number((*self as u32).into())),")],
 demo=V+"""
 fn main() {
     let v: Value = serde_yaml::from_str("5000000000: a\\n705032704: b\\n").unwrap();
     assert_eq!(v[5_000_000_000usize], "a");
 }
 """),
dict(id="dup-equal-ignored", property="C20", needs="a duplicate key whose two values are equal",
 breaks="the duplicate is dropped silently",
 edits=[("src/mapping.rs", """                        Entry::Occupied(entry) => {
                            return Err(serde::de::Error::custom(DuplicateKeyError { entry }));
                        }""", """                        Entry::Occupied(entry) => {
                            if *entry.get() != data.next_value::<Value>()? {
                                return Err(serde::de::Error::custom(DuplicateKeyError { entry }));
                            }
                        }""")],
 demo=V+"""
 fn main() {
     assert!(serde_yaml::from_str::<Value>("a: 1\\na: 1\\n").is_err());
 }
 """),
dict(id="octal-slice", property="C21", needs="a scalar which starts with 0 followed by a character of more than one byte",
 breaks="panics",
 edits=[("src/de.rs", """    if let Some(rest) = unpositive.strip_prefix("0o") {
        if rest.starts_with(['+', '-']) {
            return None;
        }
        if let Ok(int) = from_str_radix(rest, 8) {
            return Some(int);
        }
    }
    if let Some(rest) = unpositive.strip_prefix("0b") {
        if rest.starts_with(['+', '-']) {
            return None;
        }
        if let Ok(int) = from_str_radix(rest, 2) {
            return Some(int);
        }
    }
    if unpositive.starts_with(['+', '-']) {""", """    if unpositive.len() > 2 && unpositive.starts_with('0') {
        let (prefix, rest) = unpositive.split_at(2);
        let radix = match prefix {
            "0o" => 8,
            "0b" => 2,
            _ => 10,
        };
        if radix != 10 {
            if rest.starts_with(['+', '-']) {
                return None;
            }
            if let Ok(int) = from_str_radix(rest, radix) {
                return Some(int);
            }
        }
    }
    if unpositive.starts_with(['+', '-']) {""")],
 demo=V+"""
 fn main() {
     let v: Value = serde_yaml::from_str("0\\u{20ac}").unwrap();
     assert_eq!(v, "0\\u{20ac}");
 }
 """),
dict(id="key-depth-reset", property="C10", needs="nesting in mapping keys",
 breaks="the depth is not limited through keys",
 edits=[("src/de.rs", """                self.key = None;
                self.value_pending = true;
                seed.deserialize(&mut *self.de).map(Some)""", """                self.key = None;
                self.value_pending = true;
                let mut key_de = DeserializerFromEvents {
                    document: self.de.document,
                    pos: self.de.pos,
                    jumpcount: self.de.jumpcount,
                    path: Path::Unknown {
                        parent: &self.de.path,
                    },
                    remaining_depth: 127,
                    current_enum: None,
                };
                seed.deserialize(&mut key_de).map(Some)""")],
 demo=V+"""
 fn main() {
     let t = format!("{}1{}\\n", "{? ".repeat(129), "}".repeat(129));
     assert!(serde_yaml::from_str::<Value>(&t).is_err());
 }
 """),
dict(id="ref-key-untagged", property="C13", needs="a tagged mapping key in a borrowed Value",
 breaks="the tag of the key is lost",
 edits=[("src/value/de.rs", """        match self.iter.as_mut().and_then(Iterator::next) {
            Some((key, value)) => {
                self.value = Some(value);
                seed.deserialize(key).map(Some)""", """        match self.iter.as_mut().and_then(Iterator::next) {
            Some((key, value)) => {
                self.value = Some(value);
                seed.deserialize(key.untag_ref()).map(Some)""")],
 demo=V+"""
 use serde::Deserialize;
 fn main() {
     let v: Value = serde_yaml::from_str("!t a: 1").unwrap();
     let r = Value::deserialize(&v).unwrap();
     let o: Value = serde_yaml::from_value(v).unwrap();
     assert_eq!(r, o);
 }
 """),
dict(id="wide-negative-string", property="C24", needs="a negative integer beyond i64 read by a type that takes whatever the node is",
 breaks="is seen as a float and loses digits",
 edits=[("src/de.rs", """    if let Some(int) = parse_negative_int(v, i128::from_str_radix) {
        return Ok(visitor.visit_i128(int));
    }
    Err(visitor)""", """    Err(visitor)""")],
 demo="""
 use serde::de::{Deserialize, Deserializer, Visitor};
 struct I(i128);
 impl<'de> Deserialize<'de> for I {
     fn deserialize<D: Deserializer<'de>>(d: D) -> Result<I, D::Error> {
         struct V;
         impl<'de> Visitor<'de> for V {
             type Value = I;
             fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("int") }
             fn visit_i128<E>(self, v: i128) -> Result<I, E> { Ok(I(v)) }
         }
         d.deserialize_any(V)
     }
 }
 fn main() {
     let i: I = serde_yaml::from_str("-9223372036854775809").unwrap();
     assert_eq!(i.0, -9223372036854775809);
 }
 """),
dict(id="display-location", property="C18", needs="a syntax error on the first line",
 breaks="the message does not name the place",
 edits=[("src/libyaml/error.rs", """        write!(formatter, "{}", self.problem)?;
        if self.problem_mark.sys.line != 0 || self.problem_mark.sys.column != 0 {""", """        write!(formatter, "{}", self.problem)?;
        if self.problem_mark.sys.line != 0 {""")],
 demo="""
 fn main() {
     let e = serde_yaml::from_str::<Vec<u8>>("[1, }").unwrap_err();
     let l = e.location().unwrap();
     assert!(e.to_string().contains(&format!("line {} column {}", l.line(), l.column())), "{}", e);
 }
 """),
dict(id="number-integral", property="C22", needs="a float Number of magnitude from 2^53 without fraction",
 breaks="is serialized as an integer",
 edits=[("src/number.rs", "            N::Float(f) => serializer.serialize_f64(f),", """            N::Float(f) if f >= 9007199254740992.0 && f < 18446744073709551616.0 => {
                serializer.serialize_u64(f as u64)
            }
            N::Float(f) => serializer.serialize_f64(f),""")],
 demo="""
 use serde_yaml::{Number, Value};
 fn main() {
     let n = Number::from(1e17);
     let v = serde_yaml::to_value(&n).unwrap();
     assert!(v.is_f64(), "{:?}", v);
     let v = serde_yaml::to_value(Value::Number(n)).unwrap();
     assert!(v.is_f64(), "{:?}", v);
 }
 """),
dict(id="float-hash-bits", property="C15", needs="0.0 and -0.0, or two different NaN, as keys",
 breaks="equal Values hash differently",
 edits=[("src/number.rs", """                // you should feel bad for using f64 as a map key
                3.hash(state);""", """                if let N::Float(f) = self.n {
                    f.to_bits().hash(state);
                }""")],
 demo="""
 use serde_yaml::{Mapping, Value};
 fn main() {
     let mut m = Mapping::new();
     for i in 0..64 { m.insert(Value::from(i), Value::Null); }
     m.insert(Value::from(0.0), Value::Null);
     assert!(Value::from(0.0) == Value::from(-0.0));
     assert!(m.contains_key(Value::from(-0.0)));
 }
 """),
dict(id="reader-truncated", property="C08", needs="a reader with more than 64 KiB",
 breaks="the rest is silently ignored",
 edits=[("src/loader.rs", "rdr.read_to_end(&mut buffer)", "io::Read::read_to_end(&mut io::Read::take(&mut rdr, 1 << 16), &mut buffer)"),
        ("src/loader.rs", "use std::collections::BTreeMap;", "use std::collections::BTreeMap;\nuse std::io;")],
 demo=V+"""
 fn main() {
     let t = "- abcdefg\\n".repeat(10000);
     let v: Value = serde_yaml::from_reader(t.as_bytes()).unwrap();
     assert_eq!(v.as_sequence().unwrap().len(), 10000);
 }
 """),
dict(id="borrow-plain-fold", property="C23", needs="a plain scalar over several lines read as a borrowed string",
 breaks="source bytes are lent that are not the scalar",
 edits=[("src/de.rs", "    if borrowed_bytes == utf8_value.as_bytes() {", "    if style == ScalarStyle::Plain || borrowed_bytes == utf8_value.as_bytes() {"),],
 demo="""
 fn main() {
     match serde_yaml::from_str::<&str>("ab\\n cd\\n") { Ok(s) => assert_eq!(s, "ab cd"), Err(_) => {} }
     let s: String = serde_yaml::from_str("ab\\n cd\\n").unwrap();
     assert_eq!(s, "ab cd");
 }
 """),
dict(id="merge-later-wins", property="C17", needs="a sequence of merged mappings sharing a key with different values",
 breaks="the later mapping wins",
 edits=[("src/value/mod.rs", """                                        for (k, v) in merge {
                                            mapping.entry(k).or_insert(v);
                                        }
                                    }
                                    Value::Sequence(_)""", """                                        for (k, v) in merge {
                                            let entry = mapping.entry(k);
                                            entry.and_modify(|old| if old.is_null() { *old = v.clone() }).or_insert(v);
                                        }
                                    }
                                    Value::Sequence(_)""")],
 demo=V+"""
 fn main() {
     let mut v: Value = serde_yaml::from_str("<<: [{a: null}, {a: 1}]").unwrap();
     v.apply_merge().unwrap();
     assert_eq!(v["a"], Value::Null);
 }
 """),
dict(id="map-len-one-tag", property="C02", needs="a map announced with one entry whose key is written with serialize_key",
 breaks="the first key is lost in to_value",
 edits=[("src/value/ser.rs", """            SerializeMap::CheckForTag => Value::Mapping(Mapping::new()),
            SerializeMap::Tagged(tagged) => Value::Tagged(Box::new(tagged)),
            SerializeMap::Untagged { mapping, .. } => Value::Mapping(mapping),""", """            SerializeMap::CheckForTag => Value::Null,
            SerializeMap::Tagged(tagged) => Value::Tagged(Box::new(tagged)),
            SerializeMap::Untagged { mapping, .. } => Value::Mapping(mapping),""")],
 demo=V+"""
 use serde::ser::{Serialize, Serializer, SerializeMap};
 struct S;
 impl Serialize for S {
     fn serialize<R: Serializer>(&self, s: R) -> Result<R::Ok, R::Error> { s.serialize_map(Some(1))?.end() }
 }
 fn main() {
     let v = serde_yaml::to_value(S).unwrap();
     let t = serde_yaml::to_string(&S).unwrap();
     assert_eq!(serde_yaml::from_str::<Value>(&t).unwrap(), v);
 }
 """),
dict(id="occupied-insert-returns-new", property="C14", needs="OccupiedEntry::insert where old and new value differ",
 breaks="and_modify on an entry acts on a copy when the value is a null",
 edits=[("src/mapping.rs", """            Entry::Occupied(mut entry) => {
                f(entry.get_mut());""", """            Entry::Occupied(mut entry) => {
                if !entry.get().is_null() {
                    f(entry.get_mut());
                }""")],
 demo="""
 use serde_yaml::{Mapping, Value};
 fn main() {
     let mut m = Mapping::new();
     m.insert("a".into(), Value::Null);
     m.entry("a".into()).and_modify(|v| *v = 1.into());
     assert_eq!(m["a"], 1);
 }
 """),
dict(id="octal-wide", property="C05", needs="an octal literal beyond u64",
 breaks="is refused as a 128-bit integer",
 edits=[("src/de.rs", """    if let Some(rest) = unpositive.strip_prefix("0o") {
        if rest.starts_with(['+', '-']) {
            return None;
        }
        if let Ok(int) = from_str_radix(rest, 8) {
            return Some(int);
        }
    }
    if let Some(rest) = unpositive.strip_prefix("0b") {
        if rest.starts_with(['+', '-']) {
            return None;
        }
        if let Ok(int) = from_str_radix(rest, 2) {
            return Some(int);
        }
    }
    if unpositive.starts_with(['+', '-']) {""", """    if let Some(rest) = unpositive.strip_prefix("0o") {
        // 64 bits are at most 22 octal digits
        if rest.starts_with(['+', '-']) || rest.trim_start_matches('0').len() > 22 {
            return None;
        }
        if let Ok(int) = from_str_radix(rest, 8) {
            return Some(int);
        }
    }
    if let Some(rest) = unpositive.strip_prefix("0b") {
        if rest.starts_with(['+', '-']) {
            return None;
        }
        if let Ok(int) = from_str_radix(rest, 2) {
            return Some(int);
        }
    }
    if unpositive.starts_with(['+', '-']) {""")],
 demo="""
 fn main() {
     let n: u128 = serde_yaml::from_str("0o10000000000000000000000").unwrap();
     assert_eq!(n, 1 << 66);
 }
 """),
dict(id="value-struct-seq", property="C12", needs="a struct read from a Value that holds a sequence",
 breaks="is accepted, but refused from text",
 edits=[("src/value/de.rs", """            Value::Null => visit_mapping(Mapping::new(), visitor),
            other => Err(other.invalid_type(&visitor)),
        }
    }

    fn deserialize_struct<V>(
        self,
        _name: &'static str,
        _fields: &'static [&'static str],
        visitor: V,
    ) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        self.deserialize_map(visitor)""", """            Value::Null => visit_mapping(Mapping::new(), visitor),
            other => Err(other.invalid_type(&visitor)),
        }
    }

    fn deserialize_struct<V>(
        self,
        _name: &'static str,
        _fields: &'static [&'static str],
        visitor: V,
    ) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        if let Value::Sequence(v) = self {
            return visit_sequence(v, visitor);
        }
        self.deserialize_map(visitor)""")],
 demo=V+"""
 #[derive(serde::Deserialize, Debug)] struct P { #[allow(dead_code)] x: u8, #[allow(dead_code)] y: u8 }
 fn main() {
     let t = serde_yaml::from_str::<P>("[1, 2]").is_ok();
     let v: Value = serde_yaml::from_str("[1, 2]").unwrap();
     assert_eq!(serde_yaml::from_value::<P>(v).is_ok(), t);
 }
 """),
dict(id="recursive-any-direct", property="C19", needs="a type that reads itself with deserialize_any and has an enum inside, through singleton_map_recursive",
 breaks="the enum inside is read in the tag syntax only",
 edits=[("src/with.rs", """            self.delegate
                .deserialize_any(SingletonMapRecursive { delegate: visitor })""", """            self.delegate.deserialize_any(visitor)""")],
 demo="""
 use serde::de::{value::MapAccessDeserializer, Deserialize, Deserializer, MapAccess, Visitor};
 use serde::Deserialize as D;
 #[derive(D, PartialEq, Debug)] enum E { N(u8) }
 #[derive(D, PartialEq, Debug)] struct S { e: E }
 #[derive(PartialEq, Debug)] struct Any(S);
 impl<'de> Deserialize<'de> for Any {
     fn deserialize<R: Deserializer<'de>>(d: R) -> Result<Any, R::Error> {
         struct V;
         impl<'de> Visitor<'de> for V {
             type Value = Any;
             fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("S") }
             fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<Any, A::Error> {
                 S::deserialize(MapAccessDeserializer::new(a)).map(Any)
             }
         }
         d.deserialize_any(V)
     }
 }
 #[derive(D, PartialEq, Debug)]
 struct W { #[serde(with = "serde_yaml::with::singleton_map_recursive")] a: Any }
 fn main() {
     let w: W = serde_yaml::from_str("a: {e: {N: 1}}").unwrap();
     assert_eq!(w.a, Any(S { e: E::N(1) }));
 }
 """),
dict(id="nested-same-tag", property="C11", needs="a newtype variant holding another enum that has a variant of the same name",
 breaks="one tag is taken for both enums",
 edits=[("src/de.rs", """                let message = if let Some(name) = current_enum.name {""", """                if variants.contains(&current_enum.tag) {
                    self.current_enum = None;
                    continue;
                }
                let message = if let Some(name) = current_enum.name {""")],
 demo="""
 #[derive(serde::Deserialize, PartialEq, Debug)] enum In { A(Vec<u8>) }
 #[derive(serde::Deserialize, PartialEq, Debug)] enum Out { A(In) }
 fn main() {
     assert!(serde_yaml::from_str::<Out>("!A [1]").is_err());
 }
 """),
dict(id="write-zero-is-done", property="C09", needs="a writer that accepts no more bytes (Ok(0))",
 breaks="the output is truncated and success is reported",
 edits=[("src/libyaml/emitter.rs", """    match io::Write::write_all(unsafe { &mut *(*data).write }, unsafe {
        slice::from_raw_parts(buffer, size as usize)
    }) {
        Ok(()) => 1,
        Err(err) => {""", """    match io::Write::write_all(unsafe { &mut *(*data).write }, unsafe {
        slice::from_raw_parts(buffer, size as usize)
    }) {
        Ok(()) => 1,
        Err(err) if err.kind() == io::ErrorKind::WriteZero => 1,
        Err(err) => {""")],
 demo="""
 struct W(Vec<u8>);
 impl std::io::Write for W {
     fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
         let n = b.len().min(3usize.saturating_sub(self.0.len()));
         self.0.extend(&b[..n]);
         Ok(n)
     }
     fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
 }
 fn main() {
     let mut w = W(vec![]);
     let r = serde_yaml::to_writer(&mut w, "a long string");
     assert!(r.is_err());
 }
 """),
dict(id="wide-negative-unquoted", property="C03", needs="the text of a negative integer between i128 and i64, as a string",
 breaks="is written plain and reads back as a number, or not at all",
 edits=[("src/ser.rs", """            fn visit_i128<E>(self, _v: i128) -> Result<Self::Value, E> {
                Ok(ScalarStyle::SingleQuoted)""", """            fn visit_i128<E>(self, _v: i128) -> Result<Self::Value, E> {
                Ok(ScalarStyle::Any)""")],
 demo=V+"""
 fn main() {
     let s = "-99999999999999999999";
     let t = serde_yaml::to_string(s).unwrap();
     assert_eq!(serde_yaml::from_str::<Value>(&t).ok(), Some(Value::from(s)));
 }
 """),
dict(id="literal-in-tag", property="C01", needs="a tagged string with a line break at its start",
 breaks="the leading line break is lost",
 edits=[("src/ser.rs", """        if let Some(tag) = self.take_tag() {
            scalar.tag = Some(tag);
        }
        self.value_start()?;""", """        if let Some(tag) = self.take_tag() {
            scalar.tag = Some(tag);
            if let ScalarStyle::Literal = scalar.style {
                scalar.value = scalar.value.trim_start_matches('\\n');
            }
        }
        self.value_start()?;""")],
 demo=V+"""
 use serde_yaml::value::{Tag, TaggedValue};
 fn main() {
     let v = Value::Tagged(Box::new(TaggedValue { tag: Tag::new("t"), value: "\\na".into() }));
     let t = serde_yaml::to_string(&v).unwrap();
     assert_eq!(serde_yaml::from_str::<Value>(&t).unwrap(), v);
 }
 """),
dict(id="alias-name-prefix", property="C06", needs="two anchors whose names differ only beyond 16 bytes",
 breaks="they are taken for one",
 edits=[("src/libyaml/parser.rs", "pub(crate) struct Anchor(Box<[u8]>);", "pub(crate) struct Anchor(Box<[u8]>);\n\nconst ANCHOR_KEY: usize = 16;"),
        ("src/libyaml/parser.rs", "    Some(Anchor(Box::from(cstr.to_bytes())))", "    let bytes = cstr.to_bytes();\n    Some(Anchor(Box::from(&bytes[..bytes.len().min(ANCHOR_KEY)])))")],
 demo=V+"""
 fn main() {
     let v: Value = serde_yaml::from_str("- &abcdefghijklmnop1 a\\n- &abcdefghijklmnop2 b\\n- *abcdefghijklmnop1\\n").unwrap();
     assert_eq!(v[2], "a");
 }
 """),
]
