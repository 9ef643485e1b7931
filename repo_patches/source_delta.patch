From 15d85494dff318b9d86ce220e156e18fbdb94dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:47 +0000
Subject: [PATCH 01/11] fix: resolve aliases correctly after an anchor name is
 redefined

The id given to an anchor was the number of distinct anchor names seen so
far, which is not unique once a name has been redefined: a later anchor
reused the id of an earlier one, and aliases to the earlier anchor resolved
to the wrong node.
---
 src/loader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/loader.rs b/src/loader.rs
index 7c7c7b6..27dfc51 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -88,7 +88,7 @@ impl<'input> Loader<'input> {
                 },
                 YamlEvent::Scalar(mut scalar) => {
                     if let Some(anchor) = scalar.anchor.take() {
-                        let id = anchors.len();
+                        let id = document.aliases.len();
                         anchors.insert(anchor, id);
                         document.aliases.insert(id, document.events.len());
                     }
@@ -96,7 +96,7 @@ impl<'input> Loader<'input> {
                 }
                 YamlEvent::SequenceStart(mut sequence_start) => {
                     if let Some(anchor) = sequence_start.anchor.take() {
-                        let id = anchors.len();
+                        let id = document.aliases.len();
                         anchors.insert(anchor, id);
                         document.aliases.insert(id, document.events.len());
                     }
@@ -105,7 +105,7 @@ impl<'input> Loader<'input> {
                 YamlEvent::SequenceEnd => Event::SequenceEnd,
                 YamlEvent::MappingStart(mut mapping_start) => {
                     if let Some(anchor) = mapping_start.anchor.take() {
-                        let id = anchors.len();
+                        let id = document.aliases.len();
                         anchors.insert(anchor, id);
                         document.aliases.insert(id, document.events.len());
                     }
-- 
2.43.0


From e7e393b3447d73cf669cdc6819fc75dbd75e32a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:13 +0000
Subject: [PATCH 02/11] fix: skip the rest of a document that has an unknown
 anchor

After reporting an unknown anchor, the remaining events of the broken
document were yielded as the beginning of the next document: iterating over
the stream produced documents that are not in the input, or panicked.
---
 src/loader.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/loader.rs b/src/loader.rs
index 27dfc51..cc480d3 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -83,6 +83,13 @@ impl<'input> Loader<'input> {
                     Some(id) => Event::Alias(*id),
                     None => {
                         document.error = Some(error::new(ErrorImpl::UnknownAnchor(mark)).shared());
+                        // Discard the rest of this document so that it is not
+                        // mistaken for the beginning of the next one.
+                        while let Ok((event, _mark)) = parser.next() {
+                            if let YamlEvent::DocumentEnd = event {
+                                break;
+                            }
+                        }
                         return Some(document);
                     }
                 },
-- 
2.43.0


From 7bfa4d6ec1da8595f8af16b6f751b9d67cf77358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 03/11] fix: make Serializer::flush flush the underlying writer

It is documented to call io::Write::flush on the underlying object, but only
moved libyaml's own buffer to the writer: data acknowledged by flush() could
still sit in the caller's BufWriter or unsynced in its file.
---
 src/libyaml/emitter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libyaml/emitter.rs b/src/libyaml/emitter.rs
index 686f06e..b269d39 100644
--- a/src/libyaml/emitter.rs
+++ b/src/libyaml/emitter.rs
@@ -176,8 +176,8 @@ impl<'a> Emitter<'a> {
             if sys::yaml_emitter_flush(emitter).fail {
                 return Err(self.error());
             }
+            io::Write::flush(&mut (*self.pin.ptr).write).map_err(Error::Io)
         }
-        Ok(())
     }
 
     pub fn into_inner(self) -> Box<dyn io::Write + 'a> {
-- 
2.43.0


From f9cbbe5702da474f0f26a0e666120acc887e08d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 04/11] fix: compare mappings in keys regardless of their
 insertion order

---
 src/mapping.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mapping.rs b/src/mapping.rs
index 667cd4b..bd0736d 100644
--- a/src/mapping.rs
+++ b/src/mapping.rs
@@ -400,9 +400,6 @@ impl Hash for Mapping {
 
 impl PartialOrd for Mapping {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        let mut self_entries = Vec::from_iter(self);
-        let mut other_entries = Vec::from_iter(other);
-
         // Sort in an arbitrary order that is consistent with Value's PartialOrd
         // impl.
         fn total_cmp(a: &Value, b: &Value) -> Ordering {
@@ -428,7 +425,7 @@ impl PartialOrd for Mapping {
                 (_, Value::Sequence(_)) => Ordering::Greater,
 
                 (Value::Mapping(a), Value::Mapping(b)) => {
-                    iter_cmp_by(a, b, |(ak, av), (bk, bv)| {
+                    iter_cmp_by(sorted_entries(a), sorted_entries(b), |(ak, av), (bk, bv)| {
                         total_cmp(ak, bk).then_with(|| total_cmp(av, bv))
                     })
                 }
@@ -477,10 +474,13 @@ impl PartialOrd for Mapping {
         // While sorting by map key, we get to assume that no two keys are
         // equal, otherwise they wouldn't both be in the map. This is not a safe
         // assumption outside of this situation.
-        let total_cmp = |&(a, _): &_, &(b, _): &_| total_cmp(a, b);
-        self_entries.sort_by(total_cmp);
-        other_entries.sort_by(total_cmp);
-        self_entries.partial_cmp(&other_entries)
+        fn sorted_entries(mapping: &Mapping) -> Vec<(&Value, &Value)> {
+            let mut entries = Vec::from_iter(mapping);
+            entries.sort_by(|&(a, _), &(b, _)| total_cmp(a, b));
+            entries
+        }
+
+        sorted_entries(self).partial_cmp(&sorted_entries(other))
     }
 }
 
-- 
2.43.0


From 871aa33afc87b25ee4575da21cc1f466e89981f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 05/11] fix: serialize single-entry mappings whose key is
 itself a mapping or tagged

---
 src/ser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ser.rs b/src/ser.rs
index 23c761b..f77f5cf 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -416,6 +416,7 @@ where
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
+        self.flush_mapping_start()?;
         self.state = State::FoundTag(variant.to_owned());
         value.serialize(&mut *self)
     }
@@ -460,6 +461,7 @@ where
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
+        self.flush_mapping_start()?;
         self.state = State::FoundTag(variant.to_owned());
         self.emit_sequence_start()?;
         Ok(self)
@@ -471,6 +473,7 @@ where
                 self.emit_mapping_start()?;
                 State::CheckForDuplicateTag
             } else {
+                self.flush_mapping_start()?;
                 State::CheckForTag
             };
         } else {
@@ -494,6 +497,7 @@ where
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
+        self.flush_mapping_start()?;
         self.state = State::FoundTag(variant.to_owned());
         self.emit_mapping_start()?;
         Ok(self)
-- 
2.43.0


From b508fb8915d13ff4c0c991e68c720ae1775d9a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:51 +0000
Subject: [PATCH 06/11] fix: deserialize empty tuple variants from a Value

---
 src/value/de.rs | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/value/de.rs b/src/value/de.rs
index b1ff576..816840c 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -586,16 +586,12 @@ impl<'de> Deserializer<'de> for SeqDeserializer {
         V: Visitor<'de>,
     {
         let len = self.iter.len();
-        if len == 0 {
-            visitor.visit_unit()
+        let ret = visitor.visit_seq(&mut self)?;
+        let remaining = self.iter.len();
+        if remaining == 0 {
+            Ok(ret)
         } else {
-            let ret = visitor.visit_seq(&mut self)?;
-            let remaining = self.iter.len();
-            if remaining == 0 {
-                Ok(ret)
-            } else {
-                Err(Error::invalid_length(len, &"fewer elements in sequence"))
-            }
+            Err(Error::invalid_length(len, &"fewer elements in sequence"))
         }
     }
 
@@ -1097,16 +1093,12 @@ impl<'de> Deserializer<'de> for SeqRefDeserializer<'de> {
         V: Visitor<'de>,
     {
         let len = self.iter.len();
-        if len == 0 {
-            visitor.visit_unit()
+        let ret = visitor.visit_seq(&mut self)?;
+        let remaining = self.iter.len();
+        if remaining == 0 {
+            Ok(ret)
         } else {
-            let ret = visitor.visit_seq(&mut self)?;
-            let remaining = self.iter.len();
-            if remaining == 0 {
-                Ok(ret)
-            } else {
-                Err(Error::invalid_length(len, &"fewer elements in sequence"))
-            }
+            Err(Error::invalid_length(len, &"fewer elements in sequence"))
         }
     }
 
-- 
2.43.0


From 30e68d6e1e9406fdf5551afea796f10e8463eb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 07/11] fix: resolve merge keys inside merged mappings

A mapping merged by `<<` can itself contain `<<`. Value::apply_merge
copied that key along instead of resolving it.
---
 src/value/mod.rs | 48 ++++++++++++++++++++++--------------------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 27a170b..1c5241b 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -629,35 +629,31 @@ impl Value {
         while let Some(node) = stack.pop() {
             match node {
                 Value::Mapping(mapping) => {
-                    match mapping.remove("<<") {
-                        Some(Value::Mapping(merge)) => {
-                            for (k, v) in merge {
-                                mapping.entry(k).or_insert(v);
-                            }
-                        }
-                        Some(Value::Sequence(sequence)) => {
-                            for value in sequence {
-                                match value {
-                                    Value::Mapping(merge) => {
-                                        for (k, v) in merge {
-                                            mapping.entry(k).or_insert(v);
-                                        }
-                                    }
-                                    Value::Sequence(_) => {
-                                        return Err(error::new(ErrorImpl::SequenceInMergeElement));
-                                    }
-                                    Value::Tagged(_) => {
-                                        return Err(error::new(ErrorImpl::TaggedInMerge));
-                                    }
-                                    _unexpected => {
-                                        return Err(error::new(ErrorImpl::ScalarInMergeElement));
-                                    }
+                    // A merged mapping can itself contain a `<<` key, whose
+                    // entries rank below that mapping's own entries but above
+                    // those of the sources that follow it.
+                    let mut sources = Vec::new();
+                    sources.extend(mapping.remove("<<").map(|source| (source, false)));
+                    while let Some((source, is_element)) = sources.pop() {
+                        match source {
+                            Value::Mapping(mut merge) => {
+                                sources.extend(merge.remove("<<").map(|source| (source, false)));
+                                for (k, v) in merge {
+                                    mapping.entry(k).or_insert(v);
                                 }
                             }
+                            Value::Sequence(_) if is_element => {
+                                return Err(error::new(ErrorImpl::SequenceInMergeElement));
+                            }
+                            Value::Sequence(sequence) => {
+                                sources.extend(sequence.into_iter().rev().map(|value| (value, true)));
+                            }
+                            Value::Tagged(_) => return Err(error::new(ErrorImpl::TaggedInMerge)),
+                            _unexpected if is_element => {
+                                return Err(error::new(ErrorImpl::ScalarInMergeElement));
+                            }
+                            _unexpected => return Err(error::new(ErrorImpl::ScalarInMerge)),
                         }
-                        None => {}
-                        Some(Value::Tagged(_)) => return Err(error::new(ErrorImpl::TaggedInMerge)),
-                        Some(_unexpected) => return Err(error::new(ErrorImpl::ScalarInMerge)),
                     }
                     stack.extend(mapping.values_mut());
                 }
-- 
2.43.0


From a5cda0191796fb2fd4cc7120b9d34a2fa2bf0c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 08/11] fix: locate errors raised around an element at that
 element

Errors raised while an element, key or entry value was deserialized but
outside of a visitor that knows its position (conversions after reading,
refused enum variants, options, newtype structs) were located at the
enclosing collection, or nowhere.
---
 src/de.rs | 88 ++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 54 insertions(+), 34 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 566f5f0..66c9829 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -459,6 +459,18 @@ impl<'de, 'document> DeserializerFromEvents<'de, 'document> {
         }
     }
 
+    /// Where the next node begins, or the anchored node if it is an alias.
+    fn peek_node_mark(&self) -> Result<Mark> {
+        let (event, mark) = self.peek_event_mark()?;
+        if let Event::Alias(id) = event {
+            let target = self.document.aliases.get(id);
+            if let Some((_event, mark)) = target.and_then(|pos| self.document.events.get(*pos)) {
+                return Ok(*mark);
+            }
+        }
+        Ok(mark)
+    }
+
     fn next_event(&mut self) -> Result<&'document Event<'de>> {
         self.next_event_mark().map(|(event, _mark)| event)
     }
@@ -664,19 +676,23 @@ impl<'de, 'document, 'seq> de::SeqAccess<'de> for SeqAccess<'de, 'document, 'seq
         match self.de.peek_event()? {
             Event::SequenceEnd | Event::Void => Ok(None),
             _ => {
+                let mark = self.de.peek_node_mark()?;
+                let path = Path::Seq {
+                    parent: &self.de.path,
+                    index: self.len,
+                };
                 let mut element_de = DeserializerFromEvents {
                     document: self.de.document,
                     pos: self.de.pos,
                     jumpcount: self.de.jumpcount,
-                    path: Path::Seq {
-                        parent: &self.de.path,
-                        index: self.len,
-                    },
+                    path,
                     remaining_depth: self.de.remaining_depth,
                     current_enum: None,
                 };
                 self.len += 1;
-                seed.deserialize(&mut element_de).map(Some)
+                seed.deserialize(&mut element_de)
+                    .map(Some)
+                    .map_err(|err| error::fix_mark(err, mark, path))
             }
         }
     }
@@ -699,43 +715,43 @@ impl<'de, 'document, 'map> de::MapAccess<'de> for MapAccess<'de, 'document, 'map
         if self.empty {
             return Ok(None);
         }
-        match self.de.peek_event()? {
-            Event::MappingEnd | Event::Void => Ok(None),
-            Event::Scalar(scalar) => {
-                self.len += 1;
-                self.key = Some(&scalar.value);
-                seed.deserialize(&mut *self.de).map(Some)
-            }
-            _ => {
-                self.len += 1;
-                self.key = None;
-                seed.deserialize(&mut *self.de).map(Some)
-            }
-        }
+        self.key = match self.de.peek_event()? {
+            Event::MappingEnd | Event::Void => return Ok(None),
+            Event::Scalar(scalar) => Some(&scalar.value),
+            _ => None,
+        };
+        self.len += 1;
+        let mark = self.de.peek_node_mark()?;
+        seed.deserialize(&mut *self.de)
+            .map(Some)
+            .map_err(|err| error::fix_mark(err, mark, self.de.path))
     }
 
     fn next_value_seed<V>(&mut self, seed: V) -> Result<V::Value>
     where
         V: DeserializeSeed<'de>,
     {
+        let mark = self.de.peek_node_mark()?;
+        let path = if let Some(key) = self.key.and_then(|key| str::from_utf8(key).ok()) {
+            Path::Map {
+                parent: &self.de.path,
+                key,
+            }
+        } else {
+            Path::Unknown {
+                parent: &self.de.path,
+            }
+        };
         let mut value_de = DeserializerFromEvents {
             document: self.de.document,
             pos: self.de.pos,
             jumpcount: self.de.jumpcount,
-            path: if let Some(key) = self.key.and_then(|key| str::from_utf8(key).ok()) {
-                Path::Map {
-                    parent: &self.de.path,
-                    key,
-                }
-            } else {
-                Path::Unknown {
-                    parent: &self.de.path,
-                }
-            },
+            path,
             remaining_depth: self.de.remaining_depth,
             current_enum: None,
         };
         seed.deserialize(&mut value_de)
+            .map_err(|err| error::fix_mark(err, mark, path))
     }
 }
 
@@ -1518,7 +1534,8 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
     where
         V: Visitor<'de>,
     {
-        let is_some = match self.peek_event()? {
+        let (next, mark) = self.peek_event_mark()?;
+        let is_some = match next {
             Event::Alias(mut pos) => {
                 *self.pos += 1;
                 return self.jump(&mut pos)?.deserialize_option(visitor);
@@ -1532,12 +1549,14 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
                         if let Some(()) = parse_null(&scalar.value) {
                             false
                         } else if let Ok(v) = str::from_utf8(&scalar.value) {
-                            return Err(de::Error::invalid_value(Unexpected::Str(v), &"null"));
+                            let err = de::Error::invalid_value(Unexpected::Str(v), &"null");
+                            return Err(error::fix_mark(err, mark, self.path));
                         } else {
-                            return Err(de::Error::invalid_value(
+                            let err = de::Error::invalid_value(
                                 Unexpected::Bytes(&scalar.value),
                                 &"null",
-                            ));
+                            );
+                            return Err(error::fix_mark(err, mark, self.path));
                         }
                     } else {
                         true
@@ -1735,8 +1754,9 @@ impl<'de, 'document> de::Deserializer<'de> for &mut DeserializerFromEvents<'de,
             break match next {
                 Event::Alias(mut pos) => {
                     *self.pos += 1;
-                    self.jump(&mut pos)?
-                        .deserialize_enum(name, variants, visitor)
+                    return self
+                        .jump(&mut pos)?
+                        .deserialize_enum(name, variants, visitor);
                 }
                 Event::Scalar(scalar) => {
                     if let Some(tag) = parse_tag(&scalar.tag) {
-- 
2.43.0


From e3a4b720deb1f51359a3853bf6c98e50d14b2f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:55 +0000
Subject: [PATCH 09/11] fix: serialize an empty map whose length was announced
 as one

---
 src/ser.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index f77f5cf..a71dc96 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -640,9 +640,7 @@ where
     }
 
     fn end(self) -> Result<()> {
-        if let State::CheckForTag = self.state {
-            self.emit_mapping_start()?;
-        }
+        self.flush_mapping_start()?;
         if !matches!(self.state, State::AlreadyTagged) {
             self.emit_mapping_end()?;
         }
-- 
2.43.0


From c5de61ff905418fc437c53cfceb7a60dc6c0bb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 10/11] fix: do not locate undecodable input at its first byte

---
 src/error.rs         | 2 +-
 src/libyaml/error.rs | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 01f8ed1..1b7e6db 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -198,7 +198,7 @@ impl ErrorImpl {
             ErrorImpl::Message(_, Some(Pos { mark, path: _ }))
             | ErrorImpl::RecursionLimitExceeded(mark)
             | ErrorImpl::UnknownAnchor(mark) => Some(*mark),
-            ErrorImpl::Libyaml(err) => Some(err.mark()),
+            ErrorImpl::Libyaml(err) => err.mark(),
             ErrorImpl::Shared(err) => err.mark(),
             _ => None,
         }
diff --git a/src/libyaml/error.rs b/src/libyaml/error.rs
index 8397f6e..c7cc6a3 100644
--- a/src/libyaml/error.rs
+++ b/src/libyaml/error.rs
@@ -57,8 +57,13 @@ impl Error {
         }
     }
 
-    pub fn mark(&self) -> Mark {
-        self.problem_mark
+    /// Position of the problem, if libyaml knows one. It does not if the input
+    /// cannot be decoded, nor for anything that goes wrong while emitting.
+    pub fn mark(&self) -> Option<Mark> {
+        match self.kind {
+            sys::YAML_SCANNER_ERROR | sys::YAML_PARSER_ERROR => Some(self.problem_mark),
+            _ => None,
+        }
     }
 }
 
-- 
2.43.0


From 1a7e90d5e1e95fdaf93ec84f56178a83470e1581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:03 +0000
Subject: [PATCH 11/11] fix: keep the leading '!' of a map key that is
 displayed in several pieces

---
 src/value/tagged.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/value/tagged.rs b/src/value/tagged.rs
index baf6a0a..636c6a6 100644
--- a/src/value/tagged.rs
+++ b/src/value/tagged.rs
@@ -451,9 +451,8 @@ where
                     *self = CheckForTag::Tag(s.to_owned());
                 }
                 CheckForTag::Tag(string) => {
-                    let mut string = mem::take(string);
-                    string.push_str(s);
-                    *self = CheckForTag::NotTag(string);
+                    let string = mem::take(string);
+                    *self = CheckForTag::NotTag(format!("!{}{}", string, s));
                 }
                 CheckForTag::NotTag(string) => {
                     string.push_str(s);
-- 
2.43.0

