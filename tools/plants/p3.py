V = "use serde_yaml::Value;\n"
BUGS = [
dict(id="empty-anchor", property="C06", needs="an anchor on an empty node, with an alias to it after an earlier anchor of the same name",
 breaks="the empty node does not take over the anchor",
 edits=[("src/loader.rs", """                    if let Some(anchor) = scalar.anchor.take() {""", """                    let content = !scalar.value.is_empty();
                    if let Some(anchor) = scalar.anchor.take().filter(|_| content) {""")],
 demo=V+"""
 fn main() {
     let v: Value = serde_yaml::from_str("- &a 1\\n- &a\\n- *a\\n").unwrap();
     assert_eq!(v[2], Value::Null);
 }
 """),
dict(id="nested-struct-variant", property="C02", needs="a newtype variant holding a struct variant of another enum",
 breaks="the outer tag is lost in the text, which to_value keeps",
 edits=[("src/ser.rs", """    ) -> Result<Self::SerializeStructVariant> {
        if let State::FoundTag(_) = self.state {
            return Err(error::new(ErrorImpl::SerializeNestedEnum));
        }
""", """    ) -> Result<Self::SerializeStructVariant> {
""")],
 demo=V+"""
 use serde::Serialize;
 #[derive(Serialize)] enum In { S { a: u8 } }
 #[derive(Serialize)] enum Out { N(In) }
 fn main() {
     let o = Out::N(In::S { a: 1 });
     let v = serde_yaml::to_value(&o).unwrap();
     if let Ok(t) = serde_yaml::to_string(&o) {
         assert_eq!(serde_yaml::from_str::<Value>(&t).unwrap(), v);
     }
 }
 """),
dict(id="tag-order-bang", property="C15", needs="two equal tags, one made with and one without the exclamation mark",
 breaks="equal values compare as unequal",
 edits=[("src/value/tagged.rs", "        Ord::cmp(nobang(&self.string), nobang(&other.string))", "        Ord::cmp(&self.string, &other.string)")],
 demo=V+"""
 use serde_yaml::value::{Tag, TaggedValue};
 fn main() {
     let t = |s: &str| Value::Tagged(Box::new(TaggedValue { tag: Tag::new(s), value: Value::Null }));
     assert!(t("!a") == t("a"));
     assert_eq!(t("!a").partial_cmp(&t("a")), Some(std::cmp::Ordering::Equal));
 }
 """),
dict(id="flush-would-block", property="C09", needs="a writer whose flush fails with WouldBlock",
 breaks="the failure of the flush is not reported",
 edits=[("src/libyaml/emitter.rs", "        emitter.write.flush().map_err(Error::Io)", """        match emitter.write.flush() {
            Err(err) if err.kind() == io::ErrorKind::WouldBlock => Ok(()),
            other => other.map_err(Error::Io),
        }""")],
 demo="""
 use std::io::{self, Write};
 use serde::Serialize;
 struct W;
 impl Write for W {
     fn write(&mut self, b: &[u8]) -> io::Result<usize> { Ok(b.len()) }
     fn flush(&mut self) -> io::Result<()> { Err(io::ErrorKind::WouldBlock.into()) }
 }
 fn main() {
     let mut s = serde_yaml::Serializer::new(W);
     1u8.serialize(&mut s).unwrap();
     assert!(s.flush().is_err());
 }
 """),
dict(id="reader-strips-bom", property="C08", needs="input beginning with a byte order mark, given by a reader",
 breaks="the reader's result differs from that of the same text as a string",
 edits=[("src/loader.rs", """                Cow::Owned(buffer)
""", """                if buffer.starts_with(b"\\xef\\xbb\\xbf") {
                    buffer.drain(..3);
                }
                Cow::Owned(buffer)
""")],
 demo=V+"""
 fn main() {
     let t = "\\u{feff}a: 1\\nb: [\\n";
     let a = serde_yaml::from_str::<Value>(t).map_err(|e| format!("{} {:?}", e, e.location().map(|l| l.index())));
     let b = serde_yaml::from_reader::<_, Value>(t.as_bytes()).map_err(|e| format!("{} {:?}", e, e.location().map(|l| l.index())));
     assert_eq!(a, b);
 }
 """),
dict(id="reader-trims-nul", property="C08", needs="input whose last byte is NUL, given by a reader",
 breaks="the reader accepts what the string refuses",
 edits=[("src/loader.rs", """                Cow::Owned(buffer)
""", """                while buffer.last() == Some(&0) {
                    buffer.pop();
                }
                Cow::Owned(buffer)
""")],
 demo=V+"""
 fn main() {
     let t = "a: 1\\n\\0";
     assert_eq!(serde_yaml::from_str::<Value>(t).is_ok(), serde_yaml::from_reader::<_, Value>(t.as_bytes()).is_ok());
 }
 """),
dict(id="ref-null-tuple-variant", property="C13", needs="a tagged null read as a tuple variant without fields from a borrowed Value",
 breaks="the borrowed Value is refused, the owned one accepted",
 edits=[("src/value/tagged.rs", """impl<'de> VariantAccess<'de> for &'de Value {
    type Error = Error;

    fn unit_variant(self) -> Result<(), Error> {
        Deserialize::deserialize(self)
    }

    fn newtype_variant_seed<T>(self, seed: T) -> Result<T::Value, Error>
    where
        T: DeserializeSeed<'de>,
    {
        seed.deserialize(self)
    }

    fn tuple_variant<V>(self, _len: usize, visitor: V) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        if let Value::Sequence(_) | Value::Null = self {""", """impl<'de> VariantAccess<'de> for &'de Value {
    type Error = Error;

    fn unit_variant(self) -> Result<(), Error> {
        Deserialize::deserialize(self)
    }

    fn newtype_variant_seed<T>(self, seed: T) -> Result<T::Value, Error>
    where
        T: DeserializeSeed<'de>,
    {
        seed.deserialize(self)
    }

    fn tuple_variant<V>(self, _len: usize, visitor: V) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        if let Value::Sequence(_) = self {""")],
 demo=V+"""
 use serde::Deserialize;
 #[derive(Deserialize, PartialEq, Debug)] enum E { T() }
 fn main() {
     let v: Value = serde_yaml::from_str("!T").unwrap();
     let a = E::deserialize(v.clone()).ok();
     let b = E::deserialize(&v).ok();
     assert_eq!(a, b);
 }
 """),
dict(id="merge-null-overwritten", property="C17", needs="a mapping whose own entry is null and a merge that has the same key",
 breaks="the merge overwrites the mapping's own null entry",
 edits=[("src/value/mod.rs", """                        Some(Value::Mapping(merge)) => {
                            for (k, v) in merge {
                                mapping.entry(k).or_insert(v);
                            }
                        }
                        Some(Value::Sequence""", """                        Some(Value::Mapping(merge)) => {
                            for (k, v) in merge {
                                let own = mapping.entry(k).or_insert(Value::Null);
                                if own.is_null() {
                                    *own = v;
                                }
                            }
                        }
                        Some(Value::Sequence""")],
 demo=V+"""
 fn main() {
     let mut v: Value = serde_yaml::from_str("b: &b {k: 1}\\nm: {k: ~, <<: *b}\\n").unwrap();
     v.apply_merge().unwrap();
     assert_eq!(v["m"]["k"], Value::Null);
 }
 """),
dict(id="merge-stops-descent", property="C17", needs="a merge with an explicit sibling mapping that has a merge of its own",
 breaks="mappings below one that merged a sequence are not merged",
 edits=[("src/value/mod.rs", """                        None => {}
                        Some(Value::Tagged(_)) =>""", """                        None => stack.extend(mapping.values_mut()),
                        Some(Value::Tagged(_)) =>"""),
        ("src/value/mod.rs", """                    stack.extend(mapping.values_mut());
                }
                Value::Sequence""", """                }
                Value::Sequence""")],
 demo=V+"""
 fn main() {
     let mut v: Value = serde_yaml::from_str("b: &b {k: 1}\\nm: {<<: *b, x: {<<: *b}}\\n").unwrap();
     v.apply_merge().unwrap();
     assert_eq!(v["m"]["x"]["k"], Value::from(1));
 }
 """),
dict(id="binary-double-sign", property="C04", needs="a binary literal with a second sign, 0b+1",
 breaks="a string is read as an integer",
 edits=[("src/de.rs", """    if let Some(rest) = unpositive.strip_prefix("0b") {
        if rest.starts_with(['+', '-']) {
            return None;
        }
        if let Ok(int) = from_str_radix(rest, 2) {
            return Some(int);
        }
    }
    if unpositive.starts_with""", """    if let Some(rest) = unpositive.strip_prefix("0b") {
        if rest.starts_with('-') {
            return None;
        }
        if let Ok(int) = from_str_radix(rest, 2) {
            return Some(int);
        }
    }
    if unpositive.starts_with""")],
 demo=V+"""
 fn main() {
     assert_eq!(serde_yaml::from_str::<Value>("0b+1").unwrap(), Value::String("0b+1".into()));
 }
 """),
dict(id="alias-count-scalars", property="C10", needs="very many repetitions whose innermost targets are scalars",
 breaks="aliases of scalars do not count towards the repetition limit",
 edits=[("src/de.rs", """        *self.jumpcount += 1;
        if""", """        let scalar = match self.document.aliases.get(pos) {
            Some(&target) => matches!(self.document.events[target].0, Event::Scalar(_)),
            None => false,
        };
        if !scalar {
            *self.jumpcount += 1;
        }
        if""")],
 demo=V+"""
 fn main() {
     let mut t = String::from("a: &a 1\\nb: &b [*a, *a, *a, *a, *a, *a, *a, *a, *a]\\nc: &c [*b, *b, *b, *b, *b, *b, *b, *b, *b]\\nd: &d [*c, *c, *c, *c, *c, *c, *c, *c, *c]\\n");
     t.push_str("e: [*d, *d, *d, *d, *d, *d, *d, *d]\\n");
     // 9 + 90 + 819 + 8 * (1 + 9 + 81 + 729) = 7478 aliases expanded; 44 events or so
     assert!(serde_yaml::from_str::<Value>(&t).is_err());
 }
 """),
dict(id="negative-zero", property="C05", needs="the float -0.0 written as text",
 breaks="the sign is lost",
 edits=[("src/ser.rs", """    fn serialize_f64(self, v: f64) -> Result<()> {
        let mut buffer = ryu::Buffer::new();""", """    fn serialize_f64(self, v: f64) -> Result<()> {
        let v = if v == 0.0 { 0.0 } else { v };
        let mut buffer = ryu::Buffer::new();""")],
 demo="""
 fn main() {
     let t = serde_yaml::to_string(&-0.0f64).unwrap();
     assert_eq!(serde_yaml::from_str::<f64>(&t).unwrap().to_bits(), (-0.0f64).to_bits());
 }
 """),
dict(id="char-unquoted", property="C03", needs="the character ~ written as a char",
 breaks="it is read back as null",
 edits=[("src/ser.rs", "            style: ScalarStyle::SingleQuoted,\n        })", """            style: if value.is_ascii_punctuation() && value != '~' || value.is_alphanumeric() || value.is_whitespace() {
                ScalarStyle::SingleQuoted
            } else {
                ScalarStyle::Any
            },
        })""")],
 demo=V+"""
 fn main() {
     let t = serde_yaml::to_string(&'~').unwrap();
     assert_eq!(serde_yaml::from_str::<Value>(&t).unwrap(), Value::String("~".into()));
 }
 """),
dict(id="variant-unquoted", property="C02", needs="a unit variant renamed to a string that would read as something else, and a digit string at that",
 breaks="the variant is written bare and reads back as a number",
 edits=[("src/ser.rs", """        self.serialize_str(variant)
    }""", """        if variant.starts_with(|c: char| c.is_ascii_digit()) {
            return self.emit_scalar(Scalar {
                tag: None,
                value: variant,
                style: ScalarStyle::Any,
            });
        }
        self.serialize_str(variant)
    }""")],
 demo=V+"""
 use serde::Serialize;
 #[derive(Serialize)] enum E { #[serde(rename = "1e3")] A }
 fn main() {
     let t = serde_yaml::to_string(&E::A).unwrap();
     assert_eq!(serde_yaml::from_str::<Value>(&t).unwrap(), serde_yaml::to_value(&E::A).unwrap());
 }
 """),
dict(id="to-value-i128", property="C02", needs="an i128 between i64::MAX and u64::MAX given to to_value",
 breaks="to_value makes a string of it where the text has a number",
 edits=[("src/value/ser.rs", """        if let Ok(v) = u64::try_from(v) {
            self.serialize_u64(v)
        } else if let Ok(v) = i64::try_from(v) {""", """        if let Ok(v) = i64::try_from(v) {""")],
 demo=V+"""
 fn main() {
     let n = u64::MAX as i128;
     let t = serde_yaml::to_string(&n).unwrap();
     assert_eq!(serde_yaml::from_str::<Value>(&t).unwrap(), serde_yaml::to_value(&n).unwrap());
 }
 """),
dict(id="duplicate-null", property="C20", needs="a mapping with two null keys",
 breaks="the first entry is dropped silently",
 edits=[("src/mapping.rs", """                        Entry::Occupied(entry) => {
                            return Err(""", """                        Entry::Occupied(mut entry) if entry.key().is_null() => {
                            entry.insert(data.next_value()?);
                        }
                        Entry::Occupied(entry) => {
                            return Err(""")],
 demo=V+"""
 fn main() {
     assert!(serde_yaml::from_str::<Value>("{~: 1, null: 2}").is_err());
 }
 """),
dict(id="as-f64-big", property="C22", needs="a positive integer above i64::MAX converted to f64",
 breaks="the conversion goes through a signed integer",
 edits=[("src/number.rs", """            N::PosInt(n) => Some(n as f64),
            N::NegInt(n) => Some(n as f64),
            N::Float(n) => Some(n),""", """            N::PosInt(n) => Some(n as i64 as f64),
            N::NegInt(n) => Some(n as f64),
            N::Float(n) => Some(n),""")],
 demo=V+"""
 fn main() { assert_eq!(serde_yaml::Number::from(u64::MAX).as_f64(), Some(u64::MAX as f64)); }
 """),
dict(id="stream-trailing-doc", property="C07", needs="a single-document read of a stream whose second document is empty",
 breaks="the second document is ignored",
 edits=[("src/de.rs", "        if loader.next_document().is_none() {", """        if loader.next_document().map_or(true, |next| {
            next.error.is_none() && next.events.len() == 1 && matches!(&next.events[0].0, Event::Scalar(s) if s.value.is_empty())
        }) {""")],
 demo=V+"""
 fn main() {
     assert!(serde_yaml::from_str::<Value>("a\\n---\\n").is_err());
     assert!(serde_yaml::from_str::<Value>("a\\n--- ''\\n").is_err());
 }
 """),
dict(id="unit-variant-payload-key", property="C11", needs="a unit variant tag on a nonempty plain scalar that happens to be a number",
 breaks="a payload is dropped",
 edits=[("src/de.rs", """    fn unit_variant(mut self) -> Result<()> {
        Deserialize::deserialize(&mut self)
    }""", """    fn unit_variant(mut self) -> Result<()> {
        if let Event::Scalar(scalar) = self.peek_event()? {
            if scalar.value.iter().all(u8::is_ascii_digit) {
                self.next_event()?;
                return Ok(());
            }
        }
        Deserialize::deserialize(&mut self)
    }""")],
 demo="""
 use serde::Deserialize;
 #[derive(Deserialize, Debug)] enum E { A }
 fn main() {
     assert!(serde_yaml::from_str::<E>("!A 5").is_err());
     assert!(serde_yaml::from_str::<E>("!A").is_ok());
 }
 """),
dict(id="value-i64-order", property="C12", needs="the struct or enum read from a Value where a field is an option of a tagged null",
 breaks="an option sees the null behind a tag",
 edits=[("src/value/de.rs", """        match self {
            Value::Null => visitor.visit_none(),
            _ => visitor.visit_some(self),
        }
    }

    fn deserialize_unit<V>(self, visitor: V) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        match self {
            Value::Null => visitor.visit_unit(),
            _ => Err(self.invalid_type(&visitor)),
        }
    }

    fn deserialize_unit_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        self.deserialize_unit(visitor)
    }

    fn deserialize_newtype_struct<V>(
        self,
        _name: &'static str,
        visitor: V,
    ) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        visitor.visit_newtype_struct(self)
    }

    fn deserialize_seq<V>(self, visitor: V) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        match self.untag() {""", """        match self {
            Value::Null => visitor.visit_none(),
            _ => visitor.visit_some(self),
        }
    }

    fn deserialize_unit<V>(self, visitor: V) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        match self.untag() {
            Value::Null => visitor.visit_unit(),
            other => Err(other.invalid_type(&visitor)),
        }
    }

    fn deserialize_unit_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        self.deserialize_unit(visitor)
    }

    fn deserialize_newtype_struct<V>(
        self,
        _name: &'static str,
        visitor: V,
    ) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        visitor.visit_newtype_struct(self)
    }

    fn deserialize_seq<V>(self, visitor: V) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        match self.untag() {""")],
 demo=V+"""
 fn main() {
     let t = "!t null";
     let v: Value = serde_yaml::from_str(t).unwrap();
     assert_eq!(serde_yaml::from_str::<()>(t).is_ok(), serde_yaml::from_value::<()>(v).is_ok());
 }
 """),
dict(id="singleton-trailing-key", property="C19", needs="a struct variant given as a mapping with a second key",
 breaks="the second entry is ignored",
 edits=[("src/with.rs", """            let value = self.delegate.next_value_seed(StructVariantSeed {
                name: self.name,
                fields,
                visitor,
            })?;
            match self.delegate.next_key()? {
                None => Ok(value),
                Some(IgnoredAny) => Err(de::Error::invalid_value(
                    Unexpected::Map,
                    &"map with a single key",
                )),
            }
        }
    }

    struct TupleVariantSeed<V> {
        len: usize,
        visitor: V,
    }

    impl<'de, V> DeserializeSeed<'de> for TupleVariantSeed<V>
    where
        V: Visitor<'de>,
    {
        type Value = V::Value;

        fn deserialize<D>(self, deserializer: D) -> Result<Self::Value, D::Error>
        where
            D: Deserializer<'de>,
        {
            deserializer.deserialize_tuple(self.len, self.visitor)
        }
    }

    struct StructVariantSeed<V> {
        name: &'static str,
        fields: &'static [&'static str],
        visitor: V,
    }

    impl<'de, V> DeserializeSeed<'de> for StructVariantSeed<V>
    where
        V: Visitor<'de>,
    {
        type Value = V::Value;

        fn deserialize<D>(self, deserializer: D) -> Result<Self::Value, D::Error>
        where
            D: Deserializer<'de>,
        {
            deserializer.deserialize_struct(self.name, self.fields, self.visitor)
        }
    }
}

/// Apply [`singleton_map`] to *all* enums""", """            let value = self.delegate.next_value_seed(StructVariantSeed {
                name: self.name,
                fields,
                visitor,
            })?;
            while let Some((IgnoredAny, IgnoredAny)) = self.delegate.next_entry()? {}
            Ok(value)
        }
    }

    struct TupleVariantSeed<V> {
        len: usize,
        visitor: V,
    }

    impl<'de, V> DeserializeSeed<'de> for TupleVariantSeed<V>
    where
        V: Visitor<'de>,
    {
        type Value = V::Value;

        fn deserialize<D>(self, deserializer: D) -> Result<Self::Value, D::Error>
        where
            D: Deserializer<'de>,
        {
            deserializer.deserialize_tuple(self.len, self.visitor)
        }
    }

    struct StructVariantSeed<V> {
        name: &'static str,
        fields: &'static [&'static str],
        visitor: V,
    }

    impl<'de, V> DeserializeSeed<'de> for StructVariantSeed<V>
    where
        V: Visitor<'de>,
    {
        type Value = V::Value;

        fn deserialize<D>(self, deserializer: D) -> Result<Self::Value, D::Error>
        where
            D: Deserializer<'de>,
        {
            deserializer.deserialize_struct(self.name, self.fields, self.visitor)
        }
    }
}

/// Apply [`singleton_map`] to *all* enums""")],
 demo="""
 use serde::Deserialize;
 #[derive(Deserialize, Debug)] enum E { A { x: u8 } }
 fn main() {
     let de = serde_yaml::Deserializer::from_str("A: {x: 1}\\nB: 2\\n");
     assert!(serde_yaml::with::singleton_map::deserialize::<E, _>(de).is_err());
 }
 """),
dict(id="insert-keeps-old-key", property="C16", needs="assigning through an index into a null that sits behind a tag",
 breaks="the tagged null becomes a mapping without its tag",
 edits=[("src/value/index.rs", """    if let Value::Null = *v {
        *v = Value::Mapping""", """    if v.is_null() {
        *v = Value::Mapping""")],
 demo=V+"""
 fn main() {
     let mut v: Value = serde_yaml::from_str("!t null").unwrap();
     let w = v.clone();
     let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { v["k"] = Value::Bool(true); }));
     if r.is_err() { assert_eq!(v, w); } else { assert!(matches!(v, Value::Tagged(_))); }
 }
 """),
dict(id="borrow-trailing", property="C23", needs="a plain scalar whose text occurs only as escaped text: a double quoted scalar ending in an escaped quote",
 breaks="a borrowed string that does not lie inside its own scalar",
 edits=[("src/de.rs", """        ScalarStyle::SingleQuoted | ScalarStyle::DoubleQuoted => 1,
        ScalarStyle::Literal | ScalarStyle::Folded => return None,
    };
    let expected_end = borrowed_repr.len().checked_sub(expected_offset)?;
    let expected_start = expected_end.checked_sub(utf8_value.len())?;""", """        ScalarStyle::SingleQuoted | ScalarStyle::DoubleQuoted => 1,
        ScalarStyle::Literal | ScalarStyle::Folded => return None,
    };
    if expected_offset == 1 && !borrowed_repr.contains(&b'\\\\') && !borrowed_repr.contains(&b'\\n') {
        let inner = &borrowed_repr[1..borrowed_repr.len() - 1];
        return Some(unsafe { str::from_utf8_unchecked(inner) });
    }
    let expected_end = borrowed_repr.len().checked_sub(expected_offset)?;
    let expected_start = expected_end.checked_sub(utf8_value.len())?;""")],
 demo="""
 fn main() {
     assert_eq!(serde_yaml::from_str::<String>("'it''s'").unwrap(), "it's");
     assert!(serde_yaml::from_str::<&str>("'it''s'").is_err());
 }
 """),
dict(id="error-mark-of-key", property="C18", needs="an error in a nested value of a mapping whose key is an alias",
 breaks="the path names a key from somewhere else",
 edits=[("src/de.rs", """            _ => {
                self.len += 1;
                self.key = None;
                self.value_pending = true;""", """            Event::Alias(id) => {
                self.len += 1;
                self.key = self.document_scalar(*id);
                self.value_pending = true;
                seed.deserialize(&mut *self.de).map(Some)
            }
            _ => {
                self.len += 1;
                self.key = None;
                self.value_pending = true;"""),
        ("src/de.rs", """impl<'de, 'document, 'map> de::MapAccess<'de> for MapAccess<'de, 'document, 'map> {""", """impl<'de, 'document, 'map> MapAccess<'de, 'document, 'map> {
    fn document_scalar(&self, event: usize) -> Option<&'document [u8]> {
        match self.de.document.events.get(event) {
            Some((Event::Scalar(scalar), _)) => Some(&scalar.value),
            _ => None,
        }
    }
}

impl<'de, 'document, 'map> de::MapAccess<'de> for MapAccess<'de, 'document, 'map> {""")],
 demo="""
 use std::collections::BTreeMap;
 fn main() {
     let e = serde_yaml::from_str::<BTreeMap<String, u8>>("&a x: 1\\ny: &b 2\\n*b : z\\n").unwrap_err();
     assert!(!e.to_string().contains("x:"), "{}", e);
 }
 """),
dict(id="mapping-extend-keeps", property="C14", needs="extending a mapping with a key it already has",
 breaks="the old value stays",
 edits=[("src/mapping.rs", "        self.map.extend(iter);", """        for (k, v) in iter {
            self.map.entry(k).or_insert(v);
        }""")],
 demo=V+"""
 fn main() {
     let mut m: serde_yaml::Mapping = [(Value::from("a"), Value::from(1))].into_iter().collect();
     m.extend([(Value::from("a"), Value::from(2))]);
     assert_eq!(m["a"], Value::from(2));
 }
 """),
dict(id="flow-alias-depth", property="C10", needs="deep nesting reached through an alias",
 breaks="an alias gives its target a fresh allowance of depth",
 edits=[("src/de.rs", """                    path: Path::Alias { parent: &self.path },
                    remaining_depth: self.remaining_depth,""", """                    path: Path::Alias { parent: &self.path },
                    remaining_depth: self.remaining_depth.max(64),""")],
 demo=V+"""
 fn main() {
     let mut t = format!("a: &a {}1{}\\nb: ", "[".repeat(60), "]".repeat(60));
     t.push_str(&format!("{}*a{}\\n", "[".repeat(100), "]".repeat(100)));
     assert!(serde_yaml::from_str::<Value>(&t).is_err());
 }
 """),
]
