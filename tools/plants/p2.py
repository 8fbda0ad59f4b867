V = "use serde_yaml::Value;\n"
BUGS = [
dict(id="already-tagged-sticks", property="C01", needs="a tagged value followed, in the same document, by a mapping whose length is not one",
 breaks="the state left by a tagged value suppresses the end of a later mapping",
 edits=[("src/ser.rs", """        if !matches!(self.state, State::AlreadyTagged) {
            self.emit_mapping_end()?;
        }
        self.state = State::NothingInParticular;
        Ok(())""", """        if !matches!(self.state, State::AlreadyTagged) {
            self.emit_mapping_end()?;
            self.state = State::NothingInParticular;
        }
        Ok(())""")],
 demo=V+"""
 fn main() {
     let a: Value = serde_yaml::from_str("- !t x\\n- {a: 1, b: 2}\\n- z\\n").unwrap();
     let t = serde_yaml::to_string(&a).unwrap();
     let b: Value = serde_yaml::from_str(&t).unwrap();
     assert_eq!(a, b);
 }
 """),
dict(id="duplicate-tag-state", property="C02", needs="a tagged one-entry mapping whose value is a string displayed (collect_str) with a leading exclamation mark",
 breaks="the value is taken for a second tag and refused in text although to_value accepts it",
 edits=[("src/ser.rs", """            self.emit_mapping_start()?;
        } else if let State::CheckForDuplicateTag = self.state {
            self.state = State::NothingInParticular;
        }""", """            self.emit_mapping_start()?;
        }""")],
 demo="""
 use serde::{Serialize, Serializer};
 use std::collections::BTreeMap;
 struct D;
 impl Serialize for D {
     fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str("!important") }
 }
 #[derive(Serialize)]
 enum E { Css(BTreeMap<String, D>) }
 fn main() {
     let mut m = BTreeMap::new();
     m.insert("k".to_string(), D);
     let e = E::Css(m);
     let v = serde_yaml::to_value(&e).unwrap();
     let t = serde_yaml::to_string(&e).unwrap();
     assert_eq!(v, serde_yaml::from_str::<serde_yaml::Value>(&t).unwrap());
 }
 """),
dict(id="huge-digit-string", property="C03", needs="a string of digits beyond u64 (not beyond u128)",
 breaks="the string is written without quotes and does not read back as a string",
 edits=[("src/ser.rs", """            fn visit_u128<E>(self, _v: u128) -> Result<Self::Value, E> {
                Ok(ScalarStyle::SingleQuoted)""", """            fn visit_u128<E>(self, _v: u128) -> Result<Self::Value, E> {
                Ok(ScalarStyle::Any)""")],
 demo=V+"""
 fn main() {
     let s = "99999999999999999999";
     let t = serde_yaml::to_string(s).unwrap();
     assert_eq!(serde_yaml::from_str::<Value>(&t).unwrap(), Value::String(s.into()));
 }
 """),
dict(id="signed-nan", property="C04", needs="the plain scalar +.nan",
 breaks="a string is read as a float",
 edits=[("src/de.rs", """    if let ".nan" | ".NaN" | ".NAN" = scalar {""", """    if let ".nan" | ".NaN" | ".NAN" = unpositive {""")],
 demo=V+"""
 fn main() {
     assert_eq!(serde_yaml::from_str::<Value>("+.nan").unwrap(), Value::String("+.nan".into()));
 }
 """),
dict(id="i128-min", property="C05", needs="the most negative 128-bit integer, read as such",
 breaks="the value is in range but refused",
 edits=[("src/de.rs", """                        if let Some(int) = parse_signed_int(value, i128::from_str_radix) {
                            break visitor.visit_i128(int);
                        }""", """                        let magnitude = value.strip_prefix('-');
                        if let Some(abs) = magnitude.filter(|v| v.starts_with(|c: char| c.is_ascii_digit())) {
                            if let Some(int) = parse_unsigned_int(abs, u128::from_str_radix) {
                                if let Ok(int) = i128::try_from(int) {
                                    break visitor.visit_i128(-int);
                                }
                            }
                        } else if let Some(int) = parse_signed_int(value, i128::from_str_radix) {
                            break visitor.visit_i128(int);
                        }""")],
 demo="""
 fn main() {
     let s = i128::MIN.to_string();
     assert_eq!(serde_yaml::from_str::<i128>(&s).unwrap(), i128::MIN);
 }
 """),
dict(id="anchor-id-reuse", property="C06", needs="an anchor name defined twice on scalars, then another anchor on a scalar, then an alias to the first name",
 breaks="two anchors share an id, and the alias stands for the wrong node",
 edits=[("src/loader.rs", """                    if let Some(anchor) = scalar.anchor.take() {
                        let id = document.aliases.len();
                        anchors.insert(anchor, id);""", """                    if let Some(anchor) = scalar.anchor.take() {
                        let id = anchors.len();
                        anchors.insert(anchor, id);""")],
 demo=V+"""
 fn main() {
     let a: Value = serde_yaml::from_str("[&a 1, &a 2, &b 3, *a, *b]").unwrap();
     let b: Value = serde_yaml::from_str("[1, 2, 3, 2, 3]").unwrap();
     assert_eq!(a, b);
 }
 """),
dict(id="anchors-leak-on-error", property="C07", needs="a stream where a document with an unknown anchor is followed by documents, the next containing a nested collection",
 breaks="recovery after an unknown anchor stops at the first end of a collection",
 edits=[("src/loader.rs", """                            if let YamlEvent::DocumentEnd = event {
                                break;
                            }""", """                            if let YamlEvent::DocumentEnd | YamlEvent::MappingEnd = event {
                                break;
                            }""")],
 demo="""
 use serde::Deserialize;
 use serde_yaml::Value;
 fn main() {
     let s = "- *x\\n- {a: 1}\\n- 2\\n--- 3\\n";
     let r: Vec<_> = serde_yaml::Deserializer::from_str(s).map(|d| Value::deserialize(d).ok()).collect();
     assert_eq!(r, vec![None, Some(Value::from(3))]);
 }
 """),
dict(id="eof-kind-swallowed", property="C08", needs="a reader that fails with the error kind UnexpectedEof",
 breaks="the failure of the reader is taken for the end of input",
 edits=[("src/loader.rs", """                if let Err(io_error) = rdr.read_to_end(&mut buffer) {
                    return Err(error::new(ErrorImpl::Io(io_error)));
                }""", """                match rdr.read_to_end(&mut buffer) {
                    Ok(_) => {}
                    Err(io_error) if io_error.kind() == std::io::ErrorKind::UnexpectedEof => {}
                    Err(io_error) => return Err(error::new(ErrorImpl::Io(io_error))),
                }""")],
 demo="""
 use std::io::{self, Read};
 struct R(u8);
 impl Read for R {
     fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
         self.0 += 1;
         if self.0 == 1 { b[0] = b'1'; Ok(1) } else { Err(io::ErrorKind::UnexpectedEof.into()) }
     }
 }
 fn main() {
     assert!(serde_yaml::from_reader::<_, u8>(R(0)).is_err());
 }
 """),
dict(id="flush-before-drain", property="C09", needs="a buffering writer and a call to flush after which the delivered bytes are looked at without further writes",
 breaks="the writer is flushed before the last bytes are handed to it",
 edits=[("src/ser.rs", """        self.emitter.flush()?;
        self.emitter.flush_writer()?;
        Ok(())""", """        self.emitter.flush_writer()?;
        self.emitter.flush()?;
        Ok(())""")],
 demo="""
 use serde::Serialize;
 use std::cell::RefCell; use std::io::{self, Write}; use std::rc::Rc;
 struct W { held: Vec<u8>, out: Rc<RefCell<Vec<u8>>> }
 impl Write for W {
     fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.held.extend_from_slice(b); Ok(b.len()) }
     fn flush(&mut self) -> io::Result<()> { self.out.borrow_mut().append(&mut self.held); Ok(()) }
 }
 fn main() {
     let out = Rc::new(RefCell::new(Vec::new()));
     let mut s = serde_yaml::Serializer::new(W { held: vec![], out: out.clone() });
     "x".serialize(&mut s).unwrap();
     s.flush().unwrap();
     // a stream that is open may keep what belongs to the next document, never the value
     assert!(out.borrow().starts_with(b"x"), "{:?}", out.borrow());
 }
 """),
dict(id="interrupted-write", property="C09", needs="a writer that is interrupted",
 breaks="an interruption is reported as a failure",
 edits=[("src/libyaml/emitter.rs", """    match io::Write::write_all(unsafe { &mut *(*data).write }, unsafe {
        slice::from_raw_parts(buffer, size as usize)
    }) {""", """    let bytes = unsafe { slice::from_raw_parts(buffer, size as usize) };
    let write = unsafe { &mut *(*data).write };
    match io::Write::write(write, bytes)
        .and_then(|n| io::Write::write_all(write, &bytes[n..]))
    {""")],
 demo="""
 use std::io::{self, Write};
 struct W(bool, Vec<u8>);
 impl Write for W {
     fn write(&mut self, b: &[u8]) -> io::Result<usize> {
         if !self.0 { self.0 = true; return Err(io::ErrorKind::Interrupted.into()); }
         self.1.extend_from_slice(b); Ok(b.len())
     }
     fn flush(&mut self) -> io::Result<()> { Ok(()) }
 }
 fn main() {
     let mut w = W(false, vec![]);
     serde_yaml::to_writer(&mut w, &1).unwrap();
     assert_eq!(w.1, b"1\\n");
 }
 """),
dict(id="tag-resets-depth", property="C10", needs="a document whose collections are tagged, nested deeper than 128, read untyped",
 breaks="each tag resets the nesting limit",
 edits=[("src/de.rs", """            path: self.de.path,
            remaining_depth: self.de.remaining_depth,
            current_enum: Some(CurrentEnum {""", """            path: self.de.path,
            remaining_depth: 128,
            current_enum: Some(CurrentEnum {""")],
 demo=V+"""
 fn main() {
     std::thread::Builder::new().stack_size(64 << 20).spawn(|| {
         let s = format!("{}1{}", "!t [".repeat(200), "]".repeat(200));
         assert!(serde_yaml::from_str::<Value>(&s).is_err());
     }).unwrap().join().unwrap();
 }
 """),
dict(id="repetition-off-by-one", property="C10", needs="aliases followed exactly 100 times as often as there are events",
 breaks="the limit is one lower than designed",
 edits=[("src/de.rs", "if *self.jumpcount > self.document.events.len() * 100 {", "if *self.jumpcount >= self.document.events.len() * 100 {")],
 demo="""
 // [&a [x, x, ...], *a, ...] style documents: every document that stays at the limit is read.
 use serde_yaml::Value;
 fn main() {
     // 3 levels: l0 scalar, l1 = p aliases of l0, l2 = q aliases of l1, l3 = r aliases of l2
     // events: stream of sequences; search a document whose count is exactly 100 * events
     for p in 1..60u64 { for q in 1..60u64 { for r in 1..60u64 {
         let events = 2 + 1 + (2 + p) + (2 + q) + (2 + r);
         let jumps = p + q * (1 + p) + r * (1 + q * (1 + p));
         if jumps == 100 * events {
             let al = |n: &str, k: u64| vec![format!("*{n}"); k as usize].join(", ");
             let s = format!("[&a x, &b [{}], &c [{}], [{}]]", al("a", p), al("b", q), al("c", r));
             serde_yaml::from_str::<Value>(&s).unwrap();
             return;
         }
     }}}
     panic!("no document found");
 }
 """),
dict(id="unit-payload-ignored", property="C11", needs="a tagged payload that is an empty collection, read as a unit variant through a Value",
 breaks="a payload of the wrong shape is accepted",
 edits=[("src/value/de.rs", """    fn unit_variant(self) -> Result<(), Error> {
        match self.value {
            Some(value) => value.unit_variant(),
            None => Ok(()),
        }
    }

    fn newtype_variant_seed<T>(self, seed: T) -> Result<T::Value, Error>
    where
        T: DeserializeSeed<'de>,
    {
        match self.value {
            Some(value) => value.newtype_variant_seed(seed),
            None => Err(Error::invalid_type(
                Unexpected::UnitVariant,
                &"newtype variant",
            )),
        }
    }

    fn tuple_variant<V>(self, len: usize, visitor: V) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        match self.value {
            Some(value) => value.tuple_variant(len, visitor),
            None => Err(Error::invalid_type(
                Unexpected::UnitVariant,
                &"tuple variant",
            )),
        }
    }

    fn struct_variant<V>(
        self,
        fields: &'static [&'static str],
        visitor: V,
    ) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        match self.value {
            Some(value) => value.struct_variant(fields, visitor),
            None => Err(Error::invalid_type(
                Unexpected::UnitVariant,
                &"struct variant",
            )),
        }
    }
}

pub(crate) struct SeqDeserializer {""", """    fn unit_variant(self) -> Result<(), Error> {
        match self.value {
            Some(Value::Mapping(fields)) if fields.is_empty() => Ok(()),
            Some(value) => value.unit_variant(),
            None => Ok(()),
        }
    }

    fn newtype_variant_seed<T>(self, seed: T) -> Result<T::Value, Error>
    where
        T: DeserializeSeed<'de>,
    {
        match self.value {
            Some(value) => value.newtype_variant_seed(seed),
            None => Err(Error::invalid_type(
                Unexpected::UnitVariant,
                &"newtype variant",
            )),
        }
    }

    fn tuple_variant<V>(self, len: usize, visitor: V) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        match self.value {
            Some(value) => value.tuple_variant(len, visitor),
            None => Err(Error::invalid_type(
                Unexpected::UnitVariant,
                &"tuple variant",
            )),
        }
    }

    fn struct_variant<V>(
        self,
        fields: &'static [&'static str],
        visitor: V,
    ) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        match self.value {
            Some(value) => value.struct_variant(fields, visitor),
            None => Err(Error::invalid_type(
                Unexpected::UnitVariant,
                &"struct variant",
            )),
        }
    }
}

pub(crate) struct SeqDeserializer {""")],
 demo=V+"""
 #[derive(serde::Deserialize, Debug)]
 enum E { U }
 fn main() {
     let v: Value = serde_yaml::from_str("!U {}").unwrap();
     assert!(serde_yaml::from_value::<E>(v).is_err());
     let _ = E::U;
 }
 """),
dict(id="option-sees-through-tags", property="C12", needs="a tagged null read as an option through a Value",
 breaks="a tagged null becomes None through a Value but Some from text",
 edits=[("src/value/de.rs", """    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        match self {
            Value::Null => visitor.visit_none(),
            _ => visitor.visit_some(self),
        }
    }

    fn deserialize_unit<V>(self, visitor: V) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        match self {
            Value::Null => visitor.visit_unit(),
            _ => Err(self.invalid_type(&visitor)),
        }
    }

    fn deserialize_unit_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        self.deserialize_unit(visitor)
    }

    fn deserialize_newtype_struct<V>(
        self,
        _name: &'static str,
        visitor: V,
    ) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        visitor.visit_newtype_struct(self)
    }

    fn deserialize_seq<V>(self, visitor: V) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        match self.untag() {""", """    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        match self.untag_ref() {
            Value::Null => visitor.visit_none(),
            _ => visitor.visit_some(self),
        }
    }

    fn deserialize_unit<V>(self, visitor: V) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        match self {
            Value::Null => visitor.visit_unit(),
            _ => Err(self.invalid_type(&visitor)),
        }
    }

    fn deserialize_unit_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        self.deserialize_unit(visitor)
    }

    fn deserialize_newtype_struct<V>(
        self,
        _name: &'static str,
        visitor: V,
    ) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        visitor.visit_newtype_struct(self)
    }

    fn deserialize_seq<V>(self, visitor: V) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        match self.untag() {""")],
 demo=V+"""
 #[derive(serde::Deserialize, Debug, PartialEq)]
 enum E { U }
 fn main() {
     let s = "[!U null]";
     let direct: Vec<Option<E>> = serde_yaml::from_str(s).unwrap();
     let v: Value = serde_yaml::from_str(s).unwrap();
     let via: Vec<Option<E>> = serde_yaml::from_value(v).unwrap();
     assert_eq!(direct, via);
 }
 """),
dict(id="ref-untag-map", property="C13", needs="a doubly tagged mapping, deserialized by reference as a map",
 breaks="by reference only one tag is looked through",
 edits=[("src/value/de.rs", """        match self.untag_ref() {
            Value::Mapping(v) => visit_mapping_ref(v, visitor),""", """        let value = match self {
            Value::Tagged(tagged) => &tagged.value,
            value => value,
        };
        match value {
            Value::Mapping(v) => visit_mapping_ref(v, visitor),""")],
 demo="""
 use serde::Deserialize;
 use serde_yaml::value::{Tag, TaggedValue};
 use serde_yaml::{Mapping, Value};
 use std::collections::BTreeMap;
 fn main() {
     let tag = |v| Value::Tagged(Box::new(TaggedValue { tag: Tag::new("t"), value: v }));
     let v = tag(tag(Value::Mapping(Mapping::new())));
     let r = BTreeMap::<String, u8>::deserialize(&v).ok();
     let o = BTreeMap::<String, u8>::deserialize(v).ok();
     assert_eq!(r, o);
 }
 """),
dict(id="str-shift-remove-entry", property="C14", needs="shift_remove_entry by &str of an entry that is neither last nor next to last",
 breaks="the order of the remaining entries changes",
 edits=[("src/mapping.rs", """        v.map.shift_remove_entry(&HashLikeValue(self))""", """        v.map.swap_remove_entry(&HashLikeValue(self))""")],
 demo=V+"""
 fn main() {
     let mut m: serde_yaml::Mapping = serde_yaml::from_str("{a: 1, b: 2, c: 3}").unwrap();
     m.shift_remove_entry("a");
     let k: Vec<Value> = m.keys().cloned().collect();
     assert_eq!(k, [Value::from("b"), Value::from("c")]);
 }
 """),
dict(id="mapping-hash-order", property="C15", needs="two equal mappings with two entries in different order, hashed",
 breaks="equal mappings hash differently",
 edits=[("src/mapping.rs", """            v.hash(&mut hasher);
            xor ^= hasher.finish();""", """            v.hash(&mut hasher);
            xor = u64::rotate_left(xor, 1) ^ hasher.finish();""")],
 demo=V+"""
 use std::collections::HashSet;
 fn main() {
     let a: Value = serde_yaml::from_str("{a: 1, b: 2}").unwrap();
     let b: Value = serde_yaml::from_str("{b: 2, a: 1}").unwrap();
     assert_eq!(a, b);
     let mut s = HashSet::new();
     s.insert(a);
     assert!(s.contains(&b));
 }
 """),
dict(id="tagged-order-by-value", property="C15", needs="two tagged values whose tags and contents are ordered differently, as parts of mappings",
 breaks="tagged values inside mappings are ordered by content before tag, unlike elsewhere",
 edits=[("src/mapping.rs", """                (Value::Tagged(a), Value::Tagged(b)) => a
                    .tag
                    .cmp(&b.tag)
                    .then_with(|| total_cmp(&a.value, &b.value)),""", """                (Value::Tagged(a), Value::Tagged(b)) => {
                    total_cmp(&a.value, &b.value).then_with(|| a.tag.string_len().cmp(&b.tag.string_len()))
                }"""),
  ("src/value/tagged.rs", """impl Value {
    pub(crate) fn untag(self) -> Self {""", """impl Tag {
    pub(crate) fn string_len(&self) -> usize {
        self.string.len()
    }
}

impl Value {
    pub(crate) fn untag(self) -> Self {""")],
 demo=V+"""
 use std::cmp::Ordering;
 fn main() {
     let a: Value = serde_yaml::from_str("{k: !a x}").unwrap();
     let b: Value = serde_yaml::from_str("{k: !b x}").unwrap();
     assert_ne!(a, b);
     assert_ne!(a.partial_cmp(&b), Some(Ordering::Equal));
 }
 """),
dict(id="index-mut-position", property="C16", needs="mutable indexing of a mapping by an existing integer key",
 breaks="indexing moves the entry to the end",
 edits=[("src/value/index.rs", """                    let n = Value::Number((*self).into());
                    return map.entry(n).or_insert(Value::Null);""", """                    let n = Value::Number((*self).into());
                    let value = map.shift_remove(&n).unwrap_or(Value::Null);
                    return map.entry(n).or_insert(value);""")],
 demo=V+"""
 fn main() {
     let mut v: Value = serde_yaml::from_str("{1: a, 2: b}").unwrap();
     v[1] = Value::from("c");
     assert_eq!(serde_yaml::to_string(&v).unwrap(), "1: c\\n2: b\\n");
 }
 """),
dict(id="merge-late-wins", property="C17", needs="a merge sequence in which two mappings share a key the target lacks",
 breaks="the last mapping of a merge sequence wins instead of the first",
 edits=[("src/value/mod.rs", """                        Some(Value::Sequence(sequence)) => {
                            for value in sequence {
                                match value {""", """                        Some(Value::Sequence(sequence)) => {
                            for value in sequence.into_iter().rev() {
                                match value {""")],
 demo=V+"""
 fn main() {
     let mut v: Value = serde_yaml::from_str("{<<: [{a: 1}, {a: 2}]}").unwrap();
     v.apply_merge().unwrap();
     assert_eq!(v["a"], Value::from(1));
 }
 """),
dict(id="merge-merged-skipped", property="C17", needs="a merged mapping which itself contains a merge key",
 breaks="keys reached through the merge key of a merged mapping are lost or left",
 edits=[("src/value/mod.rs", """                    if let Some(merge) = &mut merge {
                        merge.apply_merge()?;
                    }""", """                    if let Some(merge @ Value::Mapping(_)) = &mut merge {
                        merge.apply_merge()?;
                    }""")],
 demo=V+"""
 fn main() {
     let mut v: Value = serde_yaml::from_str("{<<: [{<<: {a: 1}, b: 2}], c: 3}").unwrap();
     v.apply_merge().unwrap();
     let w: Value = serde_yaml::from_str("{a: 1, b: 2, c: 3}").unwrap();
     assert_eq!(v, w);
 }
 """),
dict(id="alias-mark", property="C18", needs="a scalar behind an alias in a sequence that does not fit its type",
 breaks="the error is located at the alias instead of the anchored node",
 edits=[("src/de.rs", """                Event::Alias(mut pos) => break self.jump(&mut pos)?.deserialize_u64(visitor),""", """                Event::Alias(mut pos) => {
                    let mut target = self.jump(&mut pos)?;
                    let (event, _) = target.peek_event_mark()?;
                    if let Event::SequenceStart(_) | Event::MappingStart(_) = event {
                        break Err(invalid_type(event, &visitor));
                    }
                    break target.deserialize_u64(visitor);
                }""")],
 demo="""
 fn main() {
     let s = "a: &x [1]\\nb: 2\\nc: *x\\n";
     #[derive(serde::Deserialize, Debug)]
     #[allow(dead_code)]
     struct T { a: serde_yaml::Value, b: u8, c: u8 }
     let e = serde_yaml::from_str::<T>(s).unwrap_err();
     assert_eq!(e.location().unwrap().line(), 1);
 }
 """),
dict(id="duplicate-only-strings", property="C20", needs="a mapping with a duplicate key that is not a string",
 breaks="one of the equal entries is dropped silently",
 edits=[("src/mapping.rs", """                        Entry::Occupied(entry) => {
                            return Err(""", """                        Entry::Occupied(mut entry) if !entry.key().is_string() => {
                            entry.insert(data.next_value()?);
                        }
                        Entry::Occupied(entry) => {
                            return Err(""")],
 demo=V+"""
 fn main() {
     assert!(serde_yaml::from_str::<Value>("{1: a, 1: b}").is_err());
 }
 """),
dict(id="tag-utf8-unwrap", property="C21", needs="a tag with percent escapes that are not UTF-8",
 breaks="a panic",
 edits=[("src/de.rs", """        str::from_utf8(bytes).ok()
    } else {""", """        Some(str::from_utf8(bytes).expect("libyaml checks the encoding"))
    } else {""")],
 demo=V+"""
 fn main() {
     let _ = serde_yaml::from_str::<Value>("!%ED%A0%80 x");
 }
 """),
dict(id="negative-fromstr", property="C22", needs="parsing a Number from a negative hexadecimal literal at the edge of i64",
 breaks="a literal that YAML resolves to an integer is refused",
 edits=[("src/number.rs", """        if let Ok(result) = de::visit_int(NumberVisitor, repr) {
            return result;
        }""", """        if let Some(negative) = repr.strip_prefix('-') {
            if let Ok(result) = de::visit_int(NumberVisitor, negative) {
                return match result?.as_i64() {
                    Some(int) if int > 0 => Ok(Number::from(-int)),
                    _ => repr
                        .parse::<i64>()
                        .map(Number::from)
                        .map_err(|_| error::new(ErrorImpl::FailedToParseNumber)),
                };
            }
        } else if let Ok(result) = de::visit_int(NumberVisitor, repr) {
            return result;
        }""")],
 demo="""
 use serde_yaml::Number;
 fn main() {
     let n: Number = "-0x8000000000000000".parse().unwrap();
     assert_eq!(n, Number::from(i64::MIN));
 }
 """),
dict(id="borrow-folded-break", property="C23", needs="a quoted scalar with a folded line break without indentation, read as a borrowed string",
 breaks="the borrowed slice contains the line break instead of the space",
 edits=[("src/de.rs", """    if borrowed_bytes == utf8_value.as_bytes() {
        return""", """    let verbatim = borrowed_bytes
        .iter()
        .zip(utf8_value.as_bytes())
        .all(|(source, value)| source == value || source.is_ascii_whitespace() && value.is_ascii_whitespace());
    if verbatim {
        return""")],
 demo="""
 fn main() {
     let s = "\\"a\\nb\\"";
     let owned: String = serde_yaml::from_str(s).unwrap();
     assert_eq!(owned, "a b");
     if let Ok(b) = serde_yaml::from_str::<&str>(s) { assert_eq!(b, owned); }
 }
 """),
dict(id="recursive-struct-field", property="C19", needs="an enum in a struct-variant field through singleton_map_recursive",
 breaks="the nested enum is written with a tag",
 edits=[("src/with.rs", """            let value = field
                .serialize(SingletonMapRecursive {
                    delegate: crate::value::Serializer,
                })
                .map_err(ser::Error::custom)?;
            self.mapping.insert(Value::String(name.to_owned()), value);""", """            let value = field
                .serialize(crate::value::Serializer)
                .map_err(ser::Error::custom)?;
            self.mapping.insert(Value::String(name.to_owned()), value);""")],
 demo="""
 use serde::{Deserialize, Serialize};
 #[derive(Serialize, Deserialize, PartialEq, Debug)]
 enum A { N(u8) }
 #[derive(Serialize, Deserialize, PartialEq, Debug)]
 enum B { S { a: A } }
 #[derive(Serialize, Deserialize, PartialEq, Debug)]
 struct T(#[serde(with = "serde_yaml::with::singleton_map_recursive")] B);
 fn main() {
     let t = T(B::S { a: A::N(1) });
     let s = serde_yaml::to_string(&t).unwrap();
     assert!(!s.contains('!'), "{s}");
     assert_eq!(serde_yaml::from_str::<T>(&s).unwrap(), t);
 }
 """),
]
