From 8ab7325b48693b3a1e594a678a8fca95c05a645b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:14 +0000
Subject: [PATCH 01/14] fix: give every anchor its own id when an anchor name
 is redefined

Ids were taken from the number of distinct anchor names, so after an
anchor was redefined the next new anchor reused its id and aliases to
the redefined anchor resolved to the wrong node.
---
 src/loader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/loader.rs b/src/loader.rs
index 7c7c7b6..27dfc51 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -88,7 +88,7 @@ impl<'input> Loader<'input> {
                 },
                 YamlEvent::Scalar(mut scalar) => {
                     if let Some(anchor) = scalar.anchor.take() {
-                        let id = anchors.len();
+                        let id = document.aliases.len();
                         anchors.insert(anchor, id);
                         document.aliases.insert(id, document.events.len());
                     }
@@ -96,7 +96,7 @@ impl<'input> Loader<'input> {
                 }
                 YamlEvent::SequenceStart(mut sequence_start) => {
                     if let Some(anchor) = sequence_start.anchor.take() {
-                        let id = anchors.len();
+                        let id = document.aliases.len();
                         anchors.insert(anchor, id);
                         document.aliases.insert(id, document.events.len());
                     }
@@ -105,7 +105,7 @@ impl<'input> Loader<'input> {
                 YamlEvent::SequenceEnd => Event::SequenceEnd,
                 YamlEvent::MappingStart(mut mapping_start) => {
                     if let Some(anchor) = mapping_start.anchor.take() {
-                        let id = anchors.len();
+                        let id = document.aliases.len();
                         anchors.insert(anchor, id);
                         document.aliases.insert(id, document.events.len());
                     }
-- 
2.43.0


From a3ca067ae60faeef23880178c2b50f9c0b9032e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:14 +0000
Subject: [PATCH 02/14] fix: resume at a document boundary after an unknown
 anchor

Iterating past a document containing an unknown anchor continued loading
in the middle of that document, producing bogus documents or panicking
with "unexpected end of sequence".
---
 src/loader.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/loader.rs b/src/loader.rs
index 27dfc51..23b5c84 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -83,6 +83,12 @@ impl<'input> Loader<'input> {
                     Some(id) => Event::Alias(*id),
                     None => {
                         document.error = Some(error::new(ErrorImpl::UnknownAnchor(mark)).shared());
+                        // Leave the parser at the boundary of the next document.
+                        while let Ok((event, _mark)) = parser.next() {
+                            if let YamlEvent::DocumentEnd = event {
+                                break;
+                            }
+                        }
                         return Some(document);
                     }
                 },
-- 
2.43.0


From cf46bbe012c3f4deab8e8902f71d88615c6f64da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:14 +0000
Subject: [PATCH 03/14] fix: do not lose the mapping start when a sole key is a
 map or enum

A mapping with exactly one entry delays its mapping start event until
its key is known not to be a tag. If the key was itself a single-entry
mapping, a tagged value or an enum variant with data, the pending event
was forgotten and serialization failed with an emitter error.
---
 src/ser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ser.rs b/src/ser.rs
index 23c761b..f77f5cf 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -416,6 +416,7 @@ where
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
+        self.flush_mapping_start()?;
         self.state = State::FoundTag(variant.to_owned());
         value.serialize(&mut *self)
     }
@@ -460,6 +461,7 @@ where
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
+        self.flush_mapping_start()?;
         self.state = State::FoundTag(variant.to_owned());
         self.emit_sequence_start()?;
         Ok(self)
@@ -471,6 +473,7 @@ where
                 self.emit_mapping_start()?;
                 State::CheckForDuplicateTag
             } else {
+                self.flush_mapping_start()?;
                 State::CheckForTag
             };
         } else {
@@ -494,6 +497,7 @@ where
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
+        self.flush_mapping_start()?;
         self.state = State::FoundTag(variant.to_owned());
         self.emit_mapping_start()?;
         Ok(self)
-- 
2.43.0


From 0ec9248ced40a76ed84246e29c73392e8865e767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:14 +0000
Subject: [PATCH 04/14] fix: compare mapping keys independently of their
 insertion order

Mapping::partial_cmp sorted the entries by keys, but ordered keys which
are mappings by insertion order, so two equal mappings could compare as
Less or Greater.
---
 src/mapping.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mapping.rs b/src/mapping.rs
index 667cd4b..20eb56e 100644
--- a/src/mapping.rs
+++ b/src/mapping.rs
@@ -428,6 +428,10 @@ impl PartialOrd for Mapping {
                 (_, Value::Sequence(_)) => Ordering::Greater,
 
                 (Value::Mapping(a), Value::Mapping(b)) => {
+                    let mut a = Vec::from_iter(a);
+                    let mut b = Vec::from_iter(b);
+                    a.sort_by(|(ak, _), (bk, _)| total_cmp(ak, bk));
+                    b.sort_by(|(ak, _), (bk, _)| total_cmp(ak, bk));
                     iter_cmp_by(a, b, |(ak, av), (bk, bv)| {
                         total_cmp(ak, bk).then_with(|| total_cmp(av, bv))
                     })
-- 
2.43.0


From 765f515eca9be28701d9ae2a6e3764b37b55c8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:57 +0000
Subject: [PATCH 05/14] fix: apply merge keys inside of a mapping that is
 merged

A mapping merged through `<<` that itself contains a `<<` key brought
that key along, leaving the surrounding mapping with an unmerged `<<`.
---
 src/value/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 27a170b..537e564 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -629,7 +629,12 @@ impl Value {
         while let Some(node) = stack.pop() {
             match node {
                 Value::Mapping(mapping) => {
-                    match mapping.remove("<<") {
+                    let mut merge = mapping.remove("<<");
+                    if let Some(merge) = &mut merge {
+                        // What is merged may itself be the result of a merge.
+                        merge.apply_merge()?;
+                    }
+                    match merge {
                         Some(Value::Mapping(merge)) => {
                             for (k, v) in merge {
                                 mapping.entry(k).or_insert(v);
-- 
2.43.0


From f96997de3c5f061dd658f87266b43971275b2d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 06/14] fix: read tuple and struct variants from a Value like
 from YAML text

Reading the payload of a tuple or struct variant from a Value rejected
an empty sequence and an empty (null) payload which from_str accepts,
and silently dropped trailing entries of a struct variant that the
visitor did not consume.
---
 src/value/tagged.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/value/tagged.rs b/src/value/tagged.rs
index baf6a0a..7422f83 100644
--- a/src/value/tagged.rs
+++ b/src/value/tagged.rs
@@ -1,4 +1,3 @@
-use crate::value::de::{MapDeserializer, MapRefDeserializer, SeqDeserializer, SeqRefDeserializer};
 use crate::value::Value;
 use crate::Error;
 use serde::de::value::{BorrowedStrDeserializer, StrDeserializer};
@@ -278,8 +277,8 @@ impl<'de> VariantAccess<'de> for Value {
     where
         V: Visitor<'de>,
     {
-        if let Value::Sequence(v) = self {
-            Deserializer::deserialize_any(SeqDeserializer::new(v), visitor)
+        if let Value::Sequence(_) | Value::Null = self {
+            Deserializer::deserialize_seq(self, visitor)
         } else {
             Err(Error::invalid_type(self.unexpected(), &"tuple variant"))
         }
@@ -293,8 +292,8 @@ impl<'de> VariantAccess<'de> for Value {
     where
         V: Visitor<'de>,
     {
-        if let Value::Mapping(v) = self {
-            Deserializer::deserialize_any(MapDeserializer::new(v), visitor)
+        if let Value::Mapping(_) | Value::Null = self {
+            Deserializer::deserialize_map(self, visitor)
         } else {
             Err(Error::invalid_type(self.unexpected(), &"struct variant"))
         }
@@ -357,8 +356,8 @@ impl<'de> VariantAccess<'de> for &'de Value {
     where
         V: Visitor<'de>,
     {
-        if let Value::Sequence(v) = self {
-            Deserializer::deserialize_any(SeqRefDeserializer::new(v), visitor)
+        if let Value::Sequence(_) | Value::Null = self {
+            Deserializer::deserialize_seq(self, visitor)
         } else {
             Err(Error::invalid_type(self.unexpected(), &"tuple variant"))
         }
@@ -372,8 +371,8 @@ impl<'de> VariantAccess<'de> for &'de Value {
     where
         V: Visitor<'de>,
     {
-        if let Value::Mapping(v) = self {
-            Deserializer::deserialize_any(MapRefDeserializer::new(v), visitor)
+        if let Value::Mapping(_) | Value::Null = self {
+            Deserializer::deserialize_map(self, visitor)
         } else {
             Err(Error::invalid_type(self.unexpected(), &"struct variant"))
         }
-- 
2.43.0


From d6d1aefea329fe94096e4ad6b07ee8282da64930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 07/14] fix: locate the error about a wrong null tag at its
 node

---
 src/de.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 566f5f0..8de6275 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1518,7 +1518,8 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
     where
         V: Visitor<'de>,
     {
-        let is_some = match self.peek_event()? {
+        let (next, mark) = self.peek_event_mark()?;
+        let is_some = match next {
             Event::Alias(mut pos) => {
                 *self.pos += 1;
                 return self.jump(&mut pos)?.deserialize_option(visitor);
@@ -1531,13 +1532,13 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
                     if tag == Tag::NULL {
                         if let Some(()) = parse_null(&scalar.value) {
                             false
-                        } else if let Ok(v) = str::from_utf8(&scalar.value) {
-                            return Err(de::Error::invalid_value(Unexpected::Str(v), &"null"));
                         } else {
-                            return Err(de::Error::invalid_value(
-                                Unexpected::Bytes(&scalar.value),
-                                &"null",
-                            ));
+                            let unexpected = match str::from_utf8(&scalar.value) {
+                                Ok(v) => Unexpected::Str(v),
+                                Err(_) => Unexpected::Bytes(&scalar.value),
+                            };
+                            let err = de::Error::invalid_value(unexpected, &"null");
+                            return Err(error::fix_mark(err, mark, self.path));
                         }
                     } else {
                         true
-- 
2.43.0


From 50f3a99fc1aa24d0eabf198ef6d7c29993baebe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 08/14] fix: keep the '!' of a map key that is displayed in
 more than two pieces

---
 src/value/tagged.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/value/tagged.rs b/src/value/tagged.rs
index 7422f83..79debc2 100644
--- a/src/value/tagged.rs
+++ b/src/value/tagged.rs
@@ -451,6 +451,7 @@ where
                 }
                 CheckForTag::Tag(string) => {
                     let mut string = mem::take(string);
+                    string.insert(0, '!');
                     string.push_str(s);
                     *self = CheckForTag::NotTag(string);
                 }
-- 
2.43.0


From 988fc0ecf8563dd8942dabd39d20e22d1cc19185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 09/14] fix: see through newtypes and options when a map key is
 a tag in to_value

---
 src/value/ser.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/value/ser.rs b/src/value/ser.rs
index 50b08d6..6f4d23e 100644
--- a/src/value/ser.rs
+++ b/src/value/ser.rs
@@ -502,13 +502,11 @@ impl ser::SerializeMap for SerializeMap {
                     .map(MaybeTag::NotTag)
             }
 
-            fn serialize_newtype_struct<T>(self, name: &'static str, value: &T) -> Result<Self::Ok>
+            fn serialize_newtype_struct<T>(self, _name: &'static str, value: &T) -> Result<Self::Ok>
             where
                 T: ?Sized + ser::Serialize,
             {
-                Serializer
-                    .serialize_newtype_struct(name, value)
-                    .map(MaybeTag::NotTag)
+                value.serialize(self)
             }
 
             fn serialize_newtype_variant<T>(
@@ -534,7 +532,7 @@ impl ser::SerializeMap for SerializeMap {
             where
                 V: ?Sized + ser::Serialize,
             {
-                Serializer.serialize_some(value).map(MaybeTag::NotTag)
+                value.serialize(self)
             }
 
             fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq> {
-- 
2.43.0


From c621406befed8197b973aeb524bfc6bfa6c0e10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 10/14] fix: Serializer::flush flushes the underlying writer,
 as documented

---
 src/libyaml/emitter.rs | 5 +++++
 src/ser.rs             | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/libyaml/emitter.rs b/src/libyaml/emitter.rs
index 686f06e..d8ae92a 100644
--- a/src/libyaml/emitter.rs
+++ b/src/libyaml/emitter.rs
@@ -180,6 +180,11 @@ impl<'a> Emitter<'a> {
         Ok(())
     }
 
+    pub fn flush_writer(&mut self) -> Result<(), Error> {
+        let emitter = unsafe { &mut *self.pin.ptr };
+        emitter.write.flush().map_err(Error::Io)
+    }
+
     pub fn into_inner(self) -> Box<dyn io::Write + 'a> {
         let sink = Box::new(io::sink());
         unsafe { mem::replace(&mut (*self.pin.ptr).write, sink) }
diff --git a/src/ser.rs b/src/ser.rs
index f77f5cf..196eb5e 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -79,6 +79,7 @@ where
     /// object.
     pub fn flush(&mut self) -> Result<()> {
         self.emitter.flush()?;
+        self.emitter.flush_writer()?;
         Ok(())
     }
 
-- 
2.43.0


From f2ab9a2bbbbb3b5e1dbaa8cbb4ce1388fe374a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 11/14] fix: singleton_map_recursive reads tagged values of
 untyped fields back

---
 src/with.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/with.rs b/src/with.rs
index d0bdc7c..71cd6ce 100644
--- a/src/with.rs
+++ b/src/with.rs
@@ -1868,6 +1868,13 @@ pub mod singleton_map_recursive {
             self.delegate
                 .visit_map(SingletonMapRecursive { delegate: map })
         }
+
+        fn visit_enum<A>(self, data: A) -> Result<Self::Value, A::Error>
+        where
+            A: EnumAccess<'de>,
+        {
+            self.delegate.visit_enum(data)
+        }
     }
 
     impl<'de, T> DeserializeSeed<'de> for SingletonMapRecursive<T>
-- 
2.43.0


From bc448f9360c994769a2bfc4f10f737888ed8fc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 12/14] fix: a map entry whose value a visitor leaves unread is
 an error, not a panic or a shifted result

---
 src/de.rs       | 18 ++++++++++++++++++
 src/value/de.rs | 13 +++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/src/de.rs b/src/de.rs
index 8de6275..4c23b59 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -558,8 +558,12 @@ impl<'de, 'document> DeserializerFromEvents<'de, 'document> {
                 de,
                 len: 0,
                 key: None,
+                value_pending: false,
             };
             let value = visitor.visit_map(&mut map)?;
+            if map.value_pending {
+                return Err(value_not_consumed());
+            }
             Ok((value, map.len))
         })?;
         self.end_mapping(len)?;
@@ -604,6 +608,7 @@ impl<'de, 'document> DeserializerFromEvents<'de, 'document> {
                 de: self,
                 len,
                 key: None,
+                value_pending: false,
             };
             while de::MapAccess::next_entry::<IgnoredAny, IgnoredAny>(&mut map)?.is_some() {}
             map.len
@@ -687,6 +692,8 @@ struct MapAccess<'de, 'document, 'map> {
     de: &'map mut DeserializerFromEvents<'de, 'document>,
     len: usize,
     key: Option<&'document [u8]>,
+    // Whether a key has been read whose value has not.
+    value_pending: bool,
 }
 
 impl<'de, 'document, 'map> de::MapAccess<'de> for MapAccess<'de, 'document, 'map> {
@@ -699,16 +706,21 @@ impl<'de, 'document, 'map> de::MapAccess<'de> for MapAccess<'de, 'document, 'map
         if self.empty {
             return Ok(None);
         }
+        if self.value_pending {
+            return Err(value_not_consumed());
+        }
         match self.de.peek_event()? {
             Event::MappingEnd | Event::Void => Ok(None),
             Event::Scalar(scalar) => {
                 self.len += 1;
                 self.key = Some(&scalar.value);
+                self.value_pending = true;
                 seed.deserialize(&mut *self.de).map(Some)
             }
             _ => {
                 self.len += 1;
                 self.key = None;
+                self.value_pending = true;
                 seed.deserialize(&mut *self.de).map(Some)
             }
         }
@@ -718,6 +730,7 @@ impl<'de, 'document, 'map> de::MapAccess<'de> for MapAccess<'de, 'document, 'map
     where
         V: DeserializeSeed<'de>,
     {
+        self.value_pending = false;
         let mut value_de = DeserializerFromEvents {
             document: self.de.document,
             pos: self.de.pos,
@@ -739,6 +752,10 @@ impl<'de, 'document, 'map> de::MapAccess<'de> for MapAccess<'de, 'document, 'map
     }
 }
 
+pub(crate) fn value_not_consumed() -> Error {
+    de::Error::custom("value of a map entry was not consumed")
+}
+
 struct EnumAccess<'de, 'document, 'variant> {
     de: &'variant mut DeserializerFromEvents<'de, 'document>,
     name: Option<&'static str>,
@@ -1679,6 +1696,7 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
                         de: self,
                         len: 0,
                         key: None,
+                        value_pending: false,
                     })
                 } else {
                     Err(invalid_type(other, &visitor))
diff --git a/src/value/de.rs b/src/value/de.rs
index b1ff576..a64c54a 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -1,3 +1,4 @@
+use crate::de::value_not_consumed;
 use crate::value::tagged::{self, TagStringVisitor};
 use crate::value::TaggedValue;
 use crate::{number, Error, Mapping, Sequence, Value};
@@ -169,6 +170,9 @@ where
     let len = mapping.len();
     let mut deserializer = MapDeserializer::new(mapping);
     let map = visitor.visit_map(&mut deserializer)?;
+    if deserializer.value.is_some() {
+        return Err(value_not_consumed());
+    }
     let remaining = deserializer.iter.len();
     if remaining == 0 {
         Ok(map)
@@ -184,6 +188,9 @@ where
     let len = mapping.len();
     let mut deserializer = MapRefDeserializer::new(mapping);
     let map = visitor.visit_map(&mut deserializer)?;
+    if deserializer.value.is_some() {
+        return Err(value_not_consumed());
+    }
     let remaining = deserializer.iter.unwrap().len();
     if remaining == 0 {
         Ok(map)
@@ -656,6 +663,9 @@ impl<'de> MapAccess<'de> for MapDeserializer {
     where
         T: DeserializeSeed<'de>,
     {
+        if self.value.is_some() {
+            return Err(value_not_consumed());
+        }
         match self.iter.next() {
             Some((key, value)) => {
                 self.value = Some(value);
@@ -1166,6 +1176,9 @@ impl<'de> MapAccess<'de> for MapRefDeserializer<'de> {
     where
         T: DeserializeSeed<'de>,
     {
+        if self.value.is_some() {
+            return Err(value_not_consumed());
+        }
         match self.iter.as_mut().and_then(Iterator::next) {
             Some((key, value)) => {
                 self.value = Some(value);
-- 
2.43.0


From 8558e761b36862780024061b21681c34b9f27723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:27 +0000
Subject: [PATCH 13/14] fix: an enum whose content a visitor leaves unread is
 skipped, not read again

---
 src/de.rs | 75 ++++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 49 insertions(+), 26 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 4c23b59..e3dffda 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -570,6 +570,16 @@ impl<'de, 'document> DeserializerFromEvents<'de, 'document> {
         Ok(value)
     }
 
+    // Reads one node, or skips it if `f` did not read anything.
+    fn visit_node<F: FnOnce(&mut Self) -> Result<T>, T>(&mut self, f: F) -> Result<T> {
+        let start = *self.pos;
+        let value = f(self)?;
+        if *self.pos == start {
+            self.ignore_any()?;
+        }
+        Ok(value)
+    }
+
     fn end_sequence(&mut self, len: usize) -> Result<()> {
         let total = {
             let mut seq = SeqAccess {
@@ -1240,10 +1250,12 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
                 Event::Scalar(scalar) => {
                     if let Some(tag) = enum_tag(&scalar.tag, tagged_already) {
                         *self.pos -= 1;
-                        break visitor.visit_enum(EnumAccess {
-                            de: self,
-                            name: None,
-                            tag,
+                        break self.visit_node(|de| {
+                            visitor.visit_enum(EnumAccess {
+                                de,
+                                name: None,
+                                tag,
+                            })
                         });
                     }
                     break visit_scalar(visitor, scalar, tagged_already);
@@ -1251,10 +1263,12 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
                 Event::SequenceStart(sequence) => {
                     if let Some(tag) = enum_tag(&sequence.tag, tagged_already) {
                         *self.pos -= 1;
-                        break visitor.visit_enum(EnumAccess {
-                            de: self,
-                            name: None,
-                            tag,
+                        break self.visit_node(|de| {
+                            visitor.visit_enum(EnumAccess {
+                                de,
+                                name: None,
+                                tag,
+                            })
                         });
                     }
                     break self.visit_sequence(visitor, mark);
@@ -1262,10 +1276,12 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
                 Event::MappingStart(mapping) => {
                     if let Some(tag) = enum_tag(&mapping.tag, tagged_already) {
                         *self.pos -= 1;
-                        break visitor.visit_enum(EnumAccess {
-                            de: self,
-                            name: None,
-                            tag,
+                        break self.visit_node(|de| {
+                            visitor.visit_enum(EnumAccess {
+                                de,
+                                name: None,
+                                tag,
+                            })
                         });
                     }
                     break self.visit_mapping(visitor, mark);
@@ -1735,7 +1751,8 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
             if let Some(current_enum) = self.current_enum {
                 if let Event::Scalar(scalar) = next {
                     if !scalar.value.is_empty() {
-                        break visitor.visit_enum(UnitVariantAccess { de: self });
+                        break self
+                            .visit_node(|de| visitor.visit_enum(UnitVariantAccess { de }));
                     }
                 }
                 let message = if let Some(name) = current_enum.name {
@@ -1759,20 +1776,24 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
                 }
                 Event::Scalar(scalar) => {
                     if let Some(tag) = parse_tag(&scalar.tag) {
-                        return visitor.visit_enum(EnumAccess {
-                            de: self,
-                            name: Some(name),
-                            tag,
+                        return self.visit_node(|de| {
+                            visitor.visit_enum(EnumAccess {
+                                de,
+                                name: Some(name),
+                                tag,
+                            })
                         });
                     }
-                    visitor.visit_enum(UnitVariantAccess { de: self })
+                    self.visit_node(|de| visitor.visit_enum(UnitVariantAccess { de }))
                 }
                 Event::MappingStart(mapping) => {
                     if let Some(tag) = parse_tag(&mapping.tag) {
-                        return visitor.visit_enum(EnumAccess {
-                            de: self,
-                            name: Some(name),
-                            tag,
+                        return self.visit_node(|de| {
+                            visitor.visit_enum(EnumAccess {
+                                de,
+                                name: Some(name),
+                                tag,
+                            })
                         });
                     }
                     let err =
@@ -1781,10 +1802,12 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
                 }
                 Event::SequenceStart(sequence) => {
                     if let Some(tag) = parse_tag(&sequence.tag) {
-                        return visitor.visit_enum(EnumAccess {
-                            de: self,
-                            name: Some(name),
-                            tag,
+                        return self.visit_node(|de| {
+                            visitor.visit_enum(EnumAccess {
+                                de,
+                                name: Some(name),
+                                tag,
+                            })
                         });
                     }
                     let err =
-- 
2.43.0


From 192a88c1fd00f96dfd72ba5eddcd302cd3825da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:48 +0000
Subject: [PATCH 14/14] fix: write an f32 so that it reads back although floats
 are parsed as f64

---
 src/ser.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ser.rs b/src/ser.rs
index 196eb5e..88e76b0 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -272,13 +272,24 @@ where
 
     fn serialize_f32(self, v: f32) -> Result<()> {
         let mut buffer = ryu::Buffer::new();
+        let mut widened = ryu::Buffer::new();
         self.emit_scalar(Scalar {
             tag: None,
             value: match v.classify() {
                 num::FpCategory::Infinite if v.is_sign_positive() => ".inf",
                 num::FpCategory::Infinite => "-.inf",
                 num::FpCategory::Nan => ".nan",
-                _ => buffer.format_finite(v),
+                _ => {
+                    // Floats are parsed as f64. The shortest text that
+                    // identifies an f32 does not always survive being rounded
+                    // to f64 first and then to f32.
+                    let shortest = buffer.format_finite(v);
+                    if shortest.parse().map_or(false, |f: f64| f as f32 == v) {
+                        shortest
+                    } else {
+                        widened.format_finite(f64::from(v))
+                    }
+                }
             },
             style: ScalarStyle::Plain,
         })
-- 
2.43.0

