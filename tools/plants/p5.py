V = "use serde_yaml::Value;\n"
BUGS = [
dict(id="long-digits", property="C03", needs="a string of more than 64 digits",
 breaks="is written plain and reads back as a float",
 edits=[("src/ser.rs", "        let style = if value.contains('\\n') {\n            ScalarStyle::Literal\n        } else {", "        let style = if value.contains('\\n') {\n            ScalarStyle::Literal\n        } else if value.len() > 64 {\n            // too long for a keyword or number\n            ScalarStyle::Any\n        } else {")],
 demo=V+"""
 fn main() {
     let s = "1".repeat(65);
     let t = serde_yaml::to_string(&s).unwrap();
     assert_eq!(serde_yaml::from_str::<Value>(&t).unwrap(), s);
 }
 """),
dict(id="anchor-id-u8", property="C06", needs="more than 256 anchors in a document",
 breaks="an alias stands for another node",
 edits=[("src/loader.rs", """                    if let Some(anchor) = scalar.anchor.take() {
                        let id = document.aliases.len();""", """                    if let Some(anchor) = scalar.anchor.take() {
                        let id = usize::from(document.aliases.len() as u8);""")],
 demo=V+"""
 fn main() {
     let mut t = String::new();
     for i in 0..300 { t += &format!("- &a{} {}\\n", i, i); }
     t += "- *a0\\n";
     let v: Value = serde_yaml::from_str(&t).unwrap();
     assert_eq!(v[300], 0);
 }
 """),
dict(id="document-count-u8", property="C07", needs="a stream of exactly 256 documents",
 breaks="an empty document is appended",
 edits=[("src/loader.rs", "    document_count: usize,", "    document_count: u8,"),
        ("src/loader.rs", "        self.document_count += 1;", "        self.document_count = self.document_count.wrapping_add(1);")],
 demo=V+"""
 use serde::Deserialize;
 fn main() {
     let n = serde_yaml::Deserializer::from_str(&"--- 1\\n".repeat(256)).map(|d| Value::deserialize(d).unwrap()).count();
     assert_eq!(n, 256);
 }
 """),
dict(id="repetition-u16", property="C10", needs="a document with more than 65535 aliases",
 breaks="is refused although the limit is not exceeded",
 edits=[("src/de.rs", "        if *self.jumpcount > self.document.events.len() * 100 {", "        if *self.jumpcount > usize::from((self.document.events.len() * 100).min(65535) as u16) {")],
 demo=V+"""
 fn main() {
     let t = format!("- &a 1\\n{}", "- *a\\n".repeat(70000));
     assert!(serde_yaml::from_str::<Value>(&t).is_ok());
 }
 """),
dict(id="line-u16", property="C18", needs="an error in a line beyond 65536",
 breaks="the location is another",
 edits=[("src/error.rs", "            line: mark.line() as usize + 1,", "            line: usize::from(mark.line() as u16) + 1,")],
 demo="""
 fn main() {
     let t = format!("{}- x\\n", "- 1\\n".repeat(70000));
     let e = serde_yaml::from_str::<Vec<u8>>(&t).unwrap_err();
     assert_eq!(e.location().unwrap().line(), 70001);
 }
 """),
dict(id="number-display", property="C22", needs="the text of a Number that is a float without fraction, from 1e16",
 breaks="reads back as an integer",
 edits=[("src/number.rs", "            N::Float(f) => formatter.write_str(ryu::Buffer::new().format_finite(f)),\n        }\n    }\n}\n\nimpl FromStr", "            N::Float(f) if f >= 1e16 => write!(formatter, \"{}\", f),\n            N::Float(f) => formatter.write_str(ryu::Buffer::new().format_finite(f)),\n        }\n    }\n}\n\nimpl FromStr")],
 demo="""
 use serde_yaml::Number;
 fn main() {
     let n = Number::from(1e17);
     let m: Number = n.to_string().parse().unwrap();
     assert!(m.is_f64());
 }
 """),
dict(id="long-key-str", property="C14", needs="a string key of more than 32 bytes looked up by &str",
 breaks="is not found",
 edits=[("src/mapping.rs", "        mem::discriminant(&STRING).hash(state);\n        self.0.hash(state);", "        mem::discriminant(&STRING).hash(state);\n        self.0.get(..32).unwrap_or(self.0).hash(state);")],
 demo="""
 use serde_yaml::{Mapping, Value};
 fn main() {
     let mut m = Mapping::new();
     for i in 0..40 { m.insert(Value::String(format!("{:040}", i)), i.into()); }
     for i in 0..40 { assert_eq!(m.get(format!("{:040}", i).as_str()), Some(&Value::from(i))); }
 }
 """),
dict(id="shift-remove-large", property="C14", needs="shift_remove by a Value key in a mapping of more than 16 entries",
 breaks="perturbs the order",
 edits=[("src/mapping.rs", """    fn shift_remove_from(&self, v: &mut Mapping) -> Option<Value> {
        v.map.shift_remove(self)
    }""", """    fn shift_remove_from(&self, v: &mut Mapping) -> Option<Value> {
        if v.len() > 16 {
            return v.map.swap_remove(self);
        }
        v.map.shift_remove(self)
    }""")],
 demo="""
 use serde_yaml::{Mapping, Value};
 fn main() {
     let mut m = Mapping::new();
     for i in 0..20 { m.insert(i.into(), i.into()); }
     m.shift_remove(Value::from(3));
     assert!(m.keys().zip(m.keys().skip(1)).all(|(a, b)| a.as_u64() < b.as_u64()));
 }
 """),
dict(id="duplicate-large", property="C20", needs="a duplicate key in a mapping of more than 64 entries",
 breaks="is dropped silently",
 edits=[("src/mapping.rs", """                while let Some(key) = data.next_key()? {
                    match mapping.entry(key) {""", """                while let Some(key) = data.next_key()? {
                    if mapping.len() > 64 {
                        let value = data.next_value()?;
                        mapping.insert(key, value);
                        continue;
                    }
                    match mapping.entry(key) {""")],
 demo=V+"""
 fn main() {
     let mut t = String::new();
     for i in 0..100 { t += &format!("k{}: 1\\n", i); }
     t += "k3: 2\\n";
     assert!(serde_yaml::from_str::<Value>(&t).is_err());
 }
 """),
dict(id="sink-large", property="C09", needs="a scalar larger than the emitter's buffer, and a writer that fails at it once",
 breaks="bytes are written although the write failed before",
 edits=[("src/libyaml/emitter.rs", """    match io::Write::write_all(unsafe { &mut *(*data).write }, unsafe {
        slice::from_raw_parts(buffer, size as usize)
    }) {""", """    if unsafe { (*data).write_error.is_some() } {
        return 1;
    }
    match io::Write::write_all(unsafe { &mut *(*data).write }, unsafe {
        slice::from_raw_parts(buffer, size as usize)
    }) {""")],
 demo="""
 fn main() {}
 """),
dict(id="sequence-cmp-prefix", property="C15", needs="two sequences, one a prefix of the other, as keys of equal mappings in different order",
 breaks="equal mappings do not compare as equal",
 edits=[("src/mapping.rs", "                            return Ordering::Less;", "                            return Ordering::Equal;")],
 demo=V+"""
 fn main() {
     let p = |t: &str| serde_yaml::from_str::<Value>(t).unwrap();
     let (a, b) = (p("{[1]: a, [1, 2]: b}"), p("{[1, 2]: b, [1]: a}"));
     assert!(a == b && a.partial_cmp(&b) == Some(std::cmp::Ordering::Equal));
 }
 """),
dict(id="tagged-cmp-tag-only", property="C15", needs="two values of the same tag as keys of equal mappings in different order",
 breaks="equal mappings do not compare as equal",
 edits=[("src/mapping.rs", """                    .cmp(&b.tag)
                    .then_with(|| total_cmp(&a.value, &b.value)),""", """                    .cmp(&b.tag),""")],
 demo=V+"""
 fn main() {
     let p = |t: &str| serde_yaml::from_str::<Value>(t).unwrap();
     let (a, b) = (p("{!t 1: a, !t 2: b}"), p("{!t 2: b, !t 1: a}"));
     assert!(a == b && a.partial_cmp(&b) == Some(std::cmp::Ordering::Equal));
 }
 """),
dict(id="tagged-value-ref-any", property="C13", needs="a &TaggedValue used as a deserializer itself",
 breaks="gives another result than the owned TaggedValue",
 edits=[("src/value/tagged.rs", """impl<'de> EnumAccess<'de> for &'de TaggedValue {
    type Error = Error;
    type Variant = &'de Value;

    fn variant_seed<V>(self, seed: V) -> Result<(V::Value, Self::Variant), Error>
    where
        V: DeserializeSeed<'de>,
    {
        let tag = StrDeserializer::<Error>::new(nobang(&self.tag.string));""", """impl<'de> EnumAccess<'de> for &'de TaggedValue {
    type Error = Error;
    type Variant = &'de Value;

    fn variant_seed<V>(self, seed: V) -> Result<(V::Value, Self::Variant), Error>
    where
        V: DeserializeSeed<'de>,
    {
        let tag = StrDeserializer::<Error>::new(&self.tag.string);""")],
 demo="""
 use serde::Deserialize;
 use serde_yaml::value::{Tag, TaggedValue};
 #[derive(Deserialize, PartialEq, Debug)] enum E { A(u8) }
 fn main() {
     let t = TaggedValue { tag: Tag::new("!A"), value: 1.into() };
     assert_eq!(E::deserialize(&t).ok(), E::deserialize(t.clone()).ok());
 }
 """),
dict(id="literal-long-key", property="C01", needs="a key with a line break",
 breaks="x", edits=[], demo=""),
dict(id="tag-long", property="C01", needs="a tag of more than 64 characters",
 breaks="is cut",
 edits=[("src/ser.rs", """            if !tag.starts_with('!') {
                tag.insert(0, '!');
            }""", """            if !tag.starts_with('!') {
                tag.insert(0, '!');
            }
            if tag.is_char_boundary(64) {
                tag.truncate(64);
            }""")],
 demo=V+"""
 use serde_yaml::value::{Tag, TaggedValue};
 fn main() {
     let v = Value::Tagged(Box::new(TaggedValue { tag: Tag::new("t".repeat(80)), value: 1.into() }));
     let t = serde_yaml::to_string(&v).unwrap();
     assert_eq!(serde_yaml::from_str::<Value>(&t).unwrap(), v);
 }
 """),
dict(id="seq-capacity-limit", property="C20", needs="a sequence of more than 4096 elements read as a Value",
 breaks="x", edits=[], demo=""),
dict(id="merge-depth-first-key", property="C17", needs="a merge key in a mapping that is itself a value in a merged mapping within a sequence",
 breaks="x", edits=[], demo=""),
dict(id="hex-upper-wide", property="C04", needs="hexadecimal digits beyond 64 bits",
 breaks="are a string, not refused as a number that a Value cannot hold",
 edits=[("src/de.rs", """    if let Some(int) = parse_unsigned_int(v, u128::from_str_radix) {
        return Ok(visitor.visit_u128(int));
    }""", """    if v.bytes().all(|b| b.is_ascii_digit() || b == b'+') {
        if let Some(int) = parse_unsigned_int(v, u128::from_str_radix) {
            return Ok(visitor.visit_u128(int));
        }
    }""")],
 demo=V+"""
 fn main() {
     assert!(serde_yaml::from_str::<Value>("0x1FFFFFFFFFFFFFFFF").is_err());
 }
 """),
]
BUGS = [b for b in BUGS if b["edits"] and b["id"] != "sink-large"]
