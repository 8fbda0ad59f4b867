BUGS = [
dict(id="anchor-map-first", property="C06", needs="an anchor name redefined on a mapping node within one document, aliased after the redefinition",
 breaks="the alias stands for the first node of that name instead of the last",
 edits=[("src/loader.rs", """                    if let Some(anchor) = mapping_start.anchor.take() {
                        let id = document.aliases.len();
                        anchors.insert(anchor, id);""", """                    if let Some(anchor) = mapping_start.anchor.take() {
                        let id = document.aliases.len();
                        anchors.entry(anchor).or_insert(id);""")],
 demo="""
 use serde_yaml::Value;
 fn main() {
     let a: Value = serde_yaml::from_str("- &a x\\n- *a\\n- &a {k: 1}\\n- *a\\n").unwrap();
     let b: Value = serde_yaml::from_str("- x\\n- x\\n- {k: 1}\\n- {k: 1}\\n").unwrap();
     assert_eq!(a, b);
 }
 """),
dict(id="negative-binary-fallback", property="C05", needs="a negative binary literal beyond i64, read untyped or as i128 through visit_any",
 breaks="a negative literal with radix prefix is interpreted with another radix only on the wide path",
 edits=[("src/de.rs", """    if let Some(int) = parse_negative_int(v, i128::from_str_radix) {
        return Ok(visitor.visit_i128(int));
    }
    Err(visitor)""", """    if v.starts_with('-') {
        if let Ok(int) = v.parse::<i128>() {
            return Ok(visitor.visit_i128(int));
        }
    }
    Err(visitor)""")],
 demo="""
 use serde::de::{Deserializer, Visitor};
 struct V;
 impl<'de> Visitor<'de> for V {
     type Value = String;
     fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("int") }
     fn visit_i64<E>(self, v: i64) -> Result<String, E> { Ok(v.to_string()) }
     fn visit_u64<E>(self, v: u64) -> Result<String, E> { Ok(v.to_string()) }
     fn visit_i128<E>(self, v: i128) -> Result<String, E> { Ok(v.to_string()) }
     fn visit_u128<E>(self, v: u128) -> Result<String, E> { Ok(v.to_string()) }
     fn visit_str<E>(self, v: &str) -> Result<String, E> { Ok(format!("str {v}")) }
 }
 fn main() {
     let s = "-0xFFFFFFFFFFFFFFFFFF";
     let got = serde_yaml::Deserializer::from_str(s).deserialize_any(V).unwrap();
     assert_eq!(got, (-0xFFFFFFFFFFFFFFFFFFi128).to_string());
 }
 """),
dict(id="stale-key-in-path", property="C18", needs="a mapping where a scalar key precedes a non-scalar key whose value does not fit",
 breaks="the error names the earlier scalar key as the path of the offending value",
 edits=[("src/de.rs", """            _ => {
                self.len += 1;
                self.key = None;
                self.value_pending = true;
                seed""", """            _ => {
                self.len += 1;
                self.value_pending = true;
                seed""")],
 demo="""
 use std::collections::BTreeMap;
 #[derive(serde::Deserialize, Debug, PartialEq, Eq, PartialOrd, Ord)]
 #[serde(untagged)]
 enum K { S(String), L(Vec<String>) }
 fn main() {
     let e = serde_yaml::from_str::<BTreeMap<K, u8>>("good: 1\\n? [a]\\n: bad\\n").unwrap_err().to_string();
     assert!(!e.contains("good"), "{e}");
 }
 """),
dict(id="short-read-is-eof", property="C08", needs="a reader which returns fewer bytes than asked before its end",
 breaks="input behind a short read is ignored without an error",
 edits=[("src/loader.rs", """                if let Err(io_error) = rdr.read_to_end(&mut buffer) {
                    return Err(error::new(ErrorImpl::Io(io_error)));
                }""", """                let mut chunk = [0u8; 4096];
                loop {
                    match rdr.read(&mut chunk) {
                        Ok(n) => {
                            buffer.extend_from_slice(&chunk[..n]);
                            if n < 64 {
                                break;
                            }
                        }
                        Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                        Err(io_error) => return Err(error::new(ErrorImpl::Io(io_error))),
                    }
                }""")],
 demo="""
 struct R(Vec<&'static [u8]>);
 impl std::io::Read for R {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         if self.0.is_empty() { return Ok(0); }
         let c = self.0.remove(0);
         buf[..c.len()].copy_from_slice(c);
         Ok(c.len())
     }
 }
 fn main() {
     let v: Vec<u8> = serde_yaml::from_reader(R(vec![b"- 1\\n", b"- 2\\n"])).unwrap();
     assert_eq!(v, [1, 2]);
 }
 """),
dict(id="is-i64-boundary", property="C22", needs="the number i64::MAX",
 breaks="is_i64 disagrees with as_i64 at the boundary",
 edits=[("src/number.rs", "N::PosInt(v) => v <= i64::max_value() as u64,", "N::PosInt(v) => v >> 63 == 0 && v.count_ones() < 63,")],
 demo="""
 fn main() {
     let n = serde_yaml::Number::from(i64::MAX as u64);
     assert_eq!(n.is_i64(), n.as_i64().is_some());
 }
 """),
dict(id="ref-seq-leftover", property="C13", needs="a borrowed Value with more elements than the target takes, the surplus being exactly one null",
 breaks="reading by reference drops a surplus trailing null which reading by value refuses",
 edits=[("src/value/de.rs", """    let mut deserializer = SeqRefDeserializer::new(sequence);
    let seq = visitor.visit_seq(&mut deserializer)?;
    let remaining = deserializer.iter.len();
    if remaining == 0 {
        Ok(seq)
    } else {
        Err(Error::invalid_length(len, &"fewer elements in sequence"))
    }
}

fn visit_mapping<'de, V>(""", """    let mut deserializer = SeqRefDeserializer::new(sequence);
    let seq = visitor.visit_seq(&mut deserializer)?;
    if deserializer.iter.all(Value::is_null) {
        Ok(seq)
    } else {
        Err(Error::invalid_length(len, &"fewer elements in sequence"))
    }
}

fn visit_mapping<'de, V>(""")],
 demo="""
 use serde::Deserialize;
 use serde_yaml::Value;
 fn main() {
     let v: Value = serde_yaml::from_str("[1, 2, ~]").unwrap();
     let r = <(u8, u8)>::deserialize(&v).ok();
     let o = serde_yaml::from_value::<(u8, u8)>(v.clone()).ok();
     assert_eq!(r, o);
 }
 """),
dict(id="map-surplus-entry", property="C20", needs="a visitor that stops early in a mapping read from text, with exactly one entry left",
 breaks="one left-over entry of a mapping is dropped silently",
 edits=[("src/de.rs", """            while de::MapAccess::next_entry::<IgnoredAny, IgnoredAny>(&mut map)?.is_some() {}
            map.len
        };""", """            while de::MapAccess::next_entry::<IgnoredAny, IgnoredAny>(&mut map)?.is_some() {}
            if map.len == len + 1 && map.key.is_none() {
                len
            } else {
                map.len
            }
        };""")],
 demo="""
 use serde::de::*;
 struct First;
 impl<'de> Deserialize<'de> for First {
     fn deserialize<D: Deserializer<'de>>(d: D) -> Result<First, D::Error> {
         struct V;
         impl<'de> Visitor<'de> for V {
             type Value = First;
             fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("map") }
             fn visit_map<A: MapAccess<'de>>(self, mut m: A) -> Result<First, A::Error> {
                 m.next_entry::<IgnoredAny, IgnoredAny>()?;
                 Ok(First)
             }
         }
         d.deserialize_map(V)
     }
 }
 fn main() {
     assert!(serde_yaml::from_str::<First>("a: 1\\n").is_ok());
     assert!(serde_yaml::from_str::<First>("a: 1\\n? [b]\\n: 2\\n").is_err());
 }
 """),
]
