From ad83fb415662812e0ff315e1f29e64267a83e7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:57 +0000
Subject: [PATCH 01/29] fix: tie the lifetime of DeserializeDriver to the sink
 passed to from_sink

---
 deser/src/de/driver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser/src/de/driver.rs b/deser/src/de/driver.rs
index 10c18cf..64a9890 100644
--- a/deser/src/de/driver.rs
+++ b/deser/src/de/driver.rs
@@ -32,7 +32,7 @@ impl<'a> DeserializeDriver<'a> {
     }
 
     /// Creates a new deserializer driver from a sink.
-    pub fn from_sink(sink: SinkHandle) -> DeserializeDriver<'a> {
+    pub fn from_sink(sink: SinkHandle<'a>) -> DeserializeDriver<'a> {
         DeserializeDriver {
             state: DeserializerState {
                 extensions: Extensions::default(),
-- 
2.43.0


From 4835b503cff3b6013e1cb59f79f9618776921386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:23 +0000
Subject: [PATCH 02/29] fix: never keep a child sink alive longer than its
 parent in DeserializeDriver

---
 deser/src/de/driver.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/deser/src/de/driver.rs b/deser/src/de/driver.rs
index 64a9890..c4a0ebc 100644
--- a/deser/src/de/driver.rs
+++ b/deser/src/de/driver.rs
@@ -59,6 +59,11 @@ impl<'a> DeserializeDriver<'a> {
     }
 
     fn update_current_sink(&mut self) -> Result<(), Error> {
+        // A leftover child borrows from its parent and must be gone before
+        // the parent is used again.
+        if !self.sink_stack.is_empty() {
+            self.current_sink = None;
+        }
         match self.sink_stack.last_mut() {
             Some((map_sink, Layer::Map(ref mut is_key))) => {
                 let next_sink = if *is_key {
@@ -92,6 +97,7 @@ impl<'a> DeserializeDriver<'a> {
                 let current_sink = current_sink!();
                 current_sink.atom(atom, &self.state)?;
                 current_sink.finish(&self.state)?;
+                self.current_sink = None;
             }
             Event::MapStart => {
                 let current_sink = current_sink!();
@@ -104,11 +110,13 @@ impl<'a> DeserializeDriver<'a> {
                     .push((self.current_sink.take().unwrap(), Layer::Map(true)));
                 return Ok(());
             }
-            Event::MapEnd => match self.sink_stack.pop() {
-                Some((mut map_sink, Layer::Map(_))) => {
-                    map_sink.finish(&self.state)?;
+            Event::MapEnd => match self.sink_stack.last_mut() {
+                Some((map_sink, Layer::Map(_))) => {
+                    self.current_sink = None;
+                    let rv = map_sink.finish(&self.state);
                     self.state.descriptor_stack.pop();
-                    self.current_sink = Some(map_sink);
+                    self.sink_stack.pop();
+                    return rv;
                 }
                 _ => panic!("not inside a MapSink"),
             },
@@ -123,11 +131,13 @@ impl<'a> DeserializeDriver<'a> {
                     .push((self.current_sink.take().unwrap(), Layer::Seq));
                 return Ok(());
             }
-            Event::SeqEnd => match self.sink_stack.pop() {
-                Some((mut seq_sink, Layer::Seq)) => {
-                    seq_sink.finish(&self.state)?;
+            Event::SeqEnd => match self.sink_stack.last_mut() {
+                Some((seq_sink, Layer::Seq)) => {
+                    self.current_sink = None;
+                    let rv = seq_sink.finish(&self.state);
                     self.state.descriptor_stack.pop();
-                    self.current_sink = Some(seq_sink);
+                    self.sink_stack.pop();
+                    return rv;
                 }
                 _ => panic!("not inside a SeqSink"),
             },
@@ -139,6 +149,8 @@ impl<'a> DeserializeDriver<'a> {
 
 impl<'a> Drop for DeserializeDriver<'a> {
     fn drop(&mut self) {
+        // the current sink may borrow from the sinks on the stack
+        self.current_sink = None;
         unsafe {
             while let Some(_item) = self.sink_stack.pop() {
                 // drop in inverse order
-- 
2.43.0


From e3479efeba8bf95fb3013f2127df1c9b1f474746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:41 +0000
Subject: [PATCH 03/29] fix: drop suspended values before the emitters they
 borrow from in SerializeDriver

---
 deser/src/ser/driver.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/deser/src/ser/driver.rs b/deser/src/ser/driver.rs
index c420421..44367a1 100644
--- a/deser/src/ser/driver.rs
+++ b/deser/src/ser/driver.rs
@@ -59,11 +59,21 @@ enum Emitter {
 impl<'a> Drop for SerializeDriver<'a> {
     fn drop(&mut self) {
         self.next_event.take();
-        while let Some(_emitter) = self.emitter_stack.pop() {
-            // drop in inverse order
-        }
-        while let Some(_emitter) = self.serializable_stack.pop() {
-            // drop in inverse order
+        // drop in inverse order.  Every state belongs to one serializable and the
+        // states of suspended containers also belong to one emitter.  Values may
+        // borrow from the emitter below and emitters borrow from their value.
+        while let Some(state) = self.state_stack.pop() {
+            match state {
+                DriverState::Serialize | DriverState::FinishSerialize => {}
+                DriverState::SeqEmitterAdvance
+                | DriverState::MapEmitterNextKey
+                | DriverState::MapEmitterNextValue
+                | DriverState::StructEmitterAdvance
+                | DriverState::PopEmitter => {
+                    self.emitter_stack.pop();
+                }
+            }
+            self.serializable_stack.pop();
         }
         unsafe {
             ManuallyDrop::drop(&mut self.serializable_stack);
-- 
2.43.0


From 7dcf010d75c817c98d102e7d301e0df9390b3e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 04/29] fix: do not hand out the sink handle of an OwnedSink
 mutably

The handle could be replaced by one with a shorter lifetime.
---
 deser/src/de/owned.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/deser/src/de/owned.rs b/deser/src/de/owned.rs
index 1667cdf..0ee0956 100644
--- a/deser/src/de/owned.rs
+++ b/deser/src/de/owned.rs
@@ -2,7 +2,7 @@ use std::mem::{transmute, ManuallyDrop};
 use std::ops::{Deref, DerefMut};
 use std::ptr::NonNull;
 
-use crate::de::{Deserialize, SinkHandle};
+use crate::de::{Deserialize, Sink, SinkHandle};
 
 struct NonuniqueBox<T: ?Sized> {
     ptr: NonNull<T>,
@@ -116,9 +116,12 @@ impl<T: Deserialize> OwnedSink<T> {
     }
 
     /// Mutably borrows from the owned sink.
+    ///
+    /// This returns the sink and not the handle so that the handle, which needs to
+    /// live as long as the owned sink, cannot be replaced by one that does not.
     #[allow(clippy::should_implement_trait)]
-    pub fn borrow_mut(&mut self) -> &mut SinkHandle<'_> {
-        unsafe { extend_lifetime!(&mut self.sink, &mut SinkHandle<'_>) }
+    pub fn borrow_mut(&mut self) -> &mut (dyn Sink + '_) {
+        &mut **self.sink
     }
 
     /// Takes the value produced by the sink.
-- 
2.43.0


From 0d3eb7f0d31b42d57f0c4d241667764c78d838d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 05/29] fix: report a trailing comma in a JSON array instead of
 panicking

---
 deser-json/src/de.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index afc9cae..02c811a 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -92,6 +92,9 @@ impl<'a> Deserializer<'a> {
                             return Err(Error::new(ErrorKind::Unexpected, "expected a comma"));
                         }
                         token = self.next_token()?;
+                        if matches!(token, Token::MapEnd | Token::SeqEnd) {
+                            return Err(Error::new(ErrorKind::Unexpected, "trailing comma"));
+                        }
                     }
 
                     // handle keys
-- 
2.43.0


From 9574581cb1e5b6980a8b059a55badd0b4b1ec99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 06/29] fix: reject a JSON object that ends before the value of
 a key

---
 deser-json/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index 02c811a..d899609 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -67,7 +67,7 @@ impl<'a> Deserializer<'a> {
             // try to exit containers first
             match token {
                 Token::MapEnd => {
-                    if !matches!(stack.pop(), Some(ContainerState::Map { .. })) {
+                    if !matches!(stack.pop(), Some(ContainerState::Map { key_pos: true, .. })) {
                         return Err(Error::new(ErrorKind::Unexpected, "unexpected end of map"));
                     }
                     driver.emit(Event::MapEnd)?;
-- 
2.43.0


From 5e7a52ec5f35b3bd7228f933447851e385fc60e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 07/29] fix: do not overflow on the smallest possible JSON
 exponent

---
 deser-json/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index d899609..c2572e5 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -612,7 +612,7 @@ impl<'a> Deserializer<'a> {
 fn f64_from_parts(nonnegative: bool, significand: u64, mut exponent: i32) -> Result<f64, Error> {
     let mut f = significand as f64;
     loop {
-        match POW10.get(exponent.abs() as usize) {
+        match POW10.get(exponent.unsigned_abs() as usize) {
             Some(&pow) => {
                 if exponent >= 0 {
                     f *= pow;
-- 
2.43.0


From ccf94429d6de8058a94471822b5484cede328f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 08/29] fix: check that JSON strings are valid UTF-8

---
 deser-json/src/de.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index c2572e5..b9e0d89 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -202,10 +202,9 @@ impl<'a> Deserializer<'a> {
     }
 
     fn parse_str(&mut self) -> Result<&str, Error> {
-        fn result(bytes: &[u8]) -> &str {
-            // The input is assumed to be valid UTF-8 and the \u-escapes are
-            // checked along the way, so don't need to check here.
-            unsafe { str::from_utf8_unchecked(bytes) }
+        fn result(bytes: &[u8]) -> Result<&str, Error> {
+            str::from_utf8(bytes)
+                .map_err(|_| Error::new(ErrorKind::Unexpected, "invalid utf-8 in string"))
         }
 
         // Index of the first byte not yet copied into the scratch space.
@@ -229,11 +228,11 @@ impl<'a> Deserializer<'a> {
                         // copying.
                         let borrowed = &self.input[start..self.pos];
                         self.pos += 1;
-                        return Ok(result(borrowed));
+                        return result(borrowed);
                     } else {
                         self.buffer.extend_from_slice(&self.input[start..self.pos]);
                         self.pos += 1;
-                        return Ok(result(&self.buffer));
+                        return result(&self.buffer);
                     }
                 }
                 b'\\' => {
-- 
2.43.0


From 5cac6201dd2ec11265e0d9626c42e6622fc80a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:18 +0000
Subject: [PATCH 09/29] fix: write chars to JSON as the string the deserializer
 reads them from

---
 deser-json/src/ser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deser-json/src/ser.rs b/deser-json/src/ser.rs
index a5786de..0352fe5 100644
--- a/deser-json/src/ser.rs
+++ b/deser-json/src/ser.rs
@@ -77,7 +77,7 @@ impl Serializer {
                     match event {
                         Event::Atom(Atom::Str(val)) => self.write_escaped_str(&val),
                         Event::Atom(Atom::Char(c)) => {
-                            self.write_escaped_str(&(c as u32).to_string())
+                            self.write_escaped_str(c.encode_utf8(&mut [0; 4]))
                         }
                         _ => unsupported!("JSON does not support this value for map keys"),
                     }
@@ -93,7 +93,7 @@ impl Serializer {
                     Atom::Bool(false) => self.write_str("false"),
                     Atom::Str(val) => self.write_escaped_str(&val),
                     Atom::Bytes(_val) => unsupported!("JSON doesn't support bytes"),
-                    Atom::Char(c) => self.write_escaped_str(&(c as u32).to_string()),
+                    Atom::Char(c) => self.write_escaped_str(c.encode_utf8(&mut [0; 4])),
                     Atom::U64(val) => {
                         #[cfg(feature = "speedups")]
                         {
-- 
2.43.0


From 9f0833abda096d8ce20c22866e3ac0544b71823a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:18 +0000
Subject: [PATCH 10/29] fix: reject integers that do not fit instead of
 wrapping around the sign

---
 deser/src/de/impls.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/deser/src/de/impls.rs b/deser/src/de/impls.rs
index 014365c..4692c71 100644
--- a/deser/src/de/impls.rs
+++ b/deser/src/de/impls.rs
@@ -87,9 +87,8 @@ macro_rules! int_sink {
             fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
                 match atom {
                     Atom::U64(value) => {
-                        let truncated = value as $ty;
-                        if truncated as u64 == value {
-                            **self = Some(truncated);
+                        if let Ok(value) = <$ty>::try_from(value) {
+                            **self = Some(value);
                             Ok(())
                         } else {
                             Err(Error::new(
@@ -99,9 +98,8 @@ macro_rules! int_sink {
                         }
                     }
                     Atom::I64(value) => {
-                        let truncated = value as $ty;
-                        if truncated as i64 == value {
-                            **self = Some(truncated);
+                        if let Ok(value) = <$ty>::try_from(value) {
+                            **self = Some(value);
                             Ok(())
                         } else {
                             Err(Error::new(
-- 
2.43.0


From ddf3610ecc303805da4c81f9bacc9a322babba4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:18 +0000
Subject: [PATCH 11/29] fix: accept maps for HashMap

---
 deser/src/de/impls.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deser/src/de/impls.rs b/deser/src/de/impls.rs
index 4692c71..3af4fde 100644
--- a/deser/src/de/impls.rs
+++ b/deser/src/de/impls.rs
@@ -386,6 +386,10 @@ where
                 &DESCRIPTOR
             }
 
+            fn map(&mut self, _state: &DeserializerState) -> Result<(), Error> {
+                Ok(())
+            }
+
             fn next_key(&mut self, _state: &DeserializerState) -> Result<SinkHandle, Error> {
                 self.flush();
                 Ok(Deserialize::deserialize_into(&mut self.key))
-- 
2.43.0


From 9c77cb7c569d022c496a1aa0154f8705e259e631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:18 +0000
Subject: [PATCH 12/29] fix: finish the value of an option so that options can
 hold containers

---
 deser/src/de/impls.rs | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/deser/src/de/impls.rs b/deser/src/de/impls.rs
index 3af4fde..d974be2 100644
--- a/deser/src/de/impls.rs
+++ b/deser/src/de/impls.rs
@@ -530,7 +530,10 @@ where
         let sink = Deserialize::deserialize_into(out.as_mut().unwrap());
         match sink {
             SinkHandle::Null(_) => sink,
-            sink => SinkHandle::boxed(NullIgnoringSink { sink }),
+            sink => SinkHandle::boxed(NullIgnoringSink {
+                sink,
+                is_some: false,
+            }),
         }
     }
 
@@ -541,21 +544,28 @@ where
 
 struct NullIgnoringSink<'a> {
     sink: SinkHandle<'a>,
+    // set once the inner sink received something it needs to finish
+    is_some: bool,
 }
 
 impl<'a> Sink for NullIgnoringSink<'a> {
     fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
         match atom {
             Atom::Null => Ok(()),
-            other => self.sink.atom(other, state),
+            other => {
+                self.is_some = true;
+                self.sink.atom(other, state)
+            }
         }
     }
 
     fn map(&mut self, state: &DeserializerState) -> Result<(), Error> {
+        self.is_some = true;
         self.sink.map(state)
     }
 
     fn seq(&mut self, state: &DeserializerState) -> Result<(), Error> {
+        self.is_some = true;
         self.sink.seq(state)
     }
 
@@ -567,9 +577,31 @@ impl<'a> Sink for NullIgnoringSink<'a> {
         self.sink.next_value(state)
     }
 
+    fn value_for_key(
+        &mut self,
+        key: &str,
+        state: &DeserializerState,
+    ) -> Result<Option<SinkHandle>, Error> {
+        let value = self.sink.value_for_key(key, state)?;
+        self.is_some |= value.is_some();
+        Ok(value)
+    }
+
+    fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
+        if self.is_some {
+            self.sink.finish(state)
+        } else {
+            Ok(())
+        }
+    }
+
     fn descriptor(&self) -> &dyn Descriptor {
         self.sink.descriptor()
     }
+
+    fn expecting(&self) -> std::borrow::Cow<'_, str> {
+        self.sink.expecting()
+    }
 }
 
 macro_rules! deserialize_for_tuple {
-- 
2.43.0


From f56e01fcb89251b5d0714f19a9d5364148378d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:39 +0000
Subject: [PATCH 13/29] fix: finish the serialization of the value in an option

---
 deser/src/ser/impls.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/deser/src/ser/impls.rs b/deser/src/ser/impls.rs
index 18e6642..8123550 100644
--- a/deser/src/ser/impls.rs
+++ b/deser/src/ser/impls.rs
@@ -323,6 +323,13 @@ where
             None => Ok(Chunk::Atom(Atom::Null)),
         }
     }
+
+    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
+        match self {
+            Some(value) => value.finish(state),
+            None => Ok(()),
+        }
+    }
 }
 
 macro_rules! serialize_for_tuple {
-- 
2.43.0


From 8b649d16ac69dfb43b47d4d81eae756f46f45d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:39 +0000
Subject: [PATCH 14/29] fix: forward descriptor, finish and is_optional through
 references and boxes

---
 deser/src/ser/impls.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/deser/src/ser/impls.rs b/deser/src/ser/impls.rs
index 8123550..e842f74 100644
--- a/deser/src/ser/impls.rs
+++ b/deser/src/ser/impls.rs
@@ -398,20 +398,34 @@ impl<T: Serialize, const N: usize> Serialize for [T; N] {
     }
 }
 
+macro_rules! serialize_forward {
+    ($($deref:tt)*) => {
+        fn descriptor(&self) -> &dyn Descriptor {
+            ($($deref)*self).descriptor()
+        }
+
+        fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
+            ($($deref)*self).serialize(state)
+        }
+
+        fn finish(&self, state: &SerializerState) -> Result<(), Error> {
+            ($($deref)*self).finish(state)
+        }
+
+        fn is_optional(&self) -> bool {
+            ($($deref)*self).is_optional()
+        }
+    };
+}
+
 impl<'a, T: Serialize> Serialize for &'a T {
-    fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
-        Serialize::serialize(*self, state)
-    }
+    serialize_forward!(**);
 }
 
 impl<'a, T: Serialize> Serialize for &'a mut T {
-    fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
-        Serialize::serialize(*self, state)
-    }
+    serialize_forward!(**);
 }
 
 impl<T: Serialize> Serialize for Box<T> {
-    fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
-        Serialize::serialize(&**self, state)
-    }
+    serialize_forward!(**);
 }
-- 
2.43.0


From e5e2ac610a8925b59b0934d76ed2fa4bc1990e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:57 +0000
Subject: [PATCH 15/29] fix: do not report negative map keys as huge indexes in
 the path

---
 deser-path/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser-path/src/de.rs b/deser-path/src/de.rs
index 9023b9b..ab7ccbe 100644
--- a/deser-path/src/de.rs
+++ b/deser-path/src/de.rs
@@ -49,7 +49,7 @@ impl<'a> Sink for PathSink<'a> {
             *capture.borrow_mut() = match atom {
                 Atom::Str(ref value) => Some(PathSegment::Key(value.to_string())),
                 Atom::U64(value) => Some(PathSegment::Index(value as usize)),
-                Atom::I64(value) => Some(PathSegment::Index(value as usize)),
+                Atom::I64(value) if value >= 0 => Some(PathSegment::Index(value as usize)),
                 _ => None,
             };
         }
-- 
2.43.0


From 93990debfea0a88803186880df5e4c704fa2c235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:57 +0000
Subject: [PATCH 16/29] fix: keep the path in step with the containers during
 deserialization

---
 deser-path/src/de.rs | 70 ++++++++++++++++++++++++++++++++------------
 1 file changed, 52 insertions(+), 18 deletions(-)

diff --git a/deser-path/src/de.rs b/deser-path/src/de.rs
index ab7ccbe..e9a03a1 100644
--- a/deser-path/src/de.rs
+++ b/deser-path/src/de.rs
@@ -17,7 +17,8 @@ enum Container {
 pub struct PathSink<'a> {
     sink: SinkHandle<'a>,
     container: Container,
-    set_segment: Option<PathSegment>,
+    segment: Option<PathSegment>,
+    entered: bool,
 }
 
 impl<'a> PathSink<'a> {
@@ -31,20 +32,43 @@ impl<'a> PathSink<'a> {
         PathSink {
             sink,
             container: Container::None,
-            set_segment: None,
+            segment: None,
+            entered: false,
         }
     }
 
-    fn set_segment(&mut self, state: &DeserializerState) {
-        if let Some(segment) = self.set_segment.take() {
-            *state.get_mut::<Path>().segments.last_mut().unwrap() = segment;
+    /// Adds the segment of this value to the path.
+    fn enter(&mut self, state: &DeserializerState) {
+        if let Some(segment) = self.segment.take() {
+            state.get_mut::<Path>().segments.push(segment);
+            self.entered = true;
         }
     }
+
+    /// Removes the segment of this value from the path.
+    fn leave(&mut self, state: &DeserializerState) {
+        if self.entered {
+            state.get_mut::<Path>().segments.pop();
+            self.entered = false;
+        }
+    }
+
+    /// Leaves the path if the value was rejected and will not be finished.
+    fn leave_on_error(
+        &mut self,
+        rv: Result<(), Error>,
+        state: &DeserializerState,
+    ) -> Result<(), Error> {
+        if rv.is_err() {
+            self.leave(state);
+        }
+        rv
+    }
 }
 
 impl<'a> Sink for PathSink<'a> {
     fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
-        self.set_segment(state);
+        self.enter(state);
         if let Container::Map(ref capture) = self.container {
             *capture.borrow_mut() = match atom {
                 Atom::Str(ref value) => Some(PathSegment::Key(value.to_string())),
@@ -53,21 +77,22 @@ impl<'a> Sink for PathSink<'a> {
                 _ => None,
             };
         }
-        self.sink.atom(atom, state)
+        let rv = self.sink.atom(atom, state);
+        self.leave_on_error(rv, state)
     }
 
     fn map(&mut self, state: &DeserializerState) -> Result<(), Error> {
-        self.set_segment(state);
-        state.get_mut::<Path>().segments.push(PathSegment::Unknown);
+        self.enter(state);
         self.container = Container::Map(Rc::default());
-        self.sink.map(state)
+        let rv = self.sink.map(state);
+        self.leave_on_error(rv, state)
     }
 
     fn seq(&mut self, state: &DeserializerState) -> Result<(), Error> {
-        self.set_segment(state);
-        state.get_mut::<Path>().segments.push(PathSegment::Unknown);
+        self.enter(state);
         self.container = Container::Seq(0);
-        self.sink.seq(state)
+        let rv = self.sink.seq(state);
+        self.leave_on_error(rv, state)
     }
 
     fn next_key(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
@@ -78,15 +103,21 @@ impl<'a> Sink for PathSink<'a> {
                     Container::Map(ref capture) => Container::Map(capture.clone()),
                     _ => unreachable!(),
                 },
-                set_segment: None,
+                segment: None,
+                entered: false,
             })
         })
     }
 
     fn next_value(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
-        let set_segment = match self.container {
+        let segment = match self.container {
             Container::None => None,
-            Container::Map(ref captured_key) => captured_key.borrow_mut().take(),
+            Container::Map(ref captured_key) => Some(
+                captured_key
+                    .borrow_mut()
+                    .take()
+                    .unwrap_or(PathSegment::Unknown),
+            ),
             Container::Seq(ref mut index) => {
                 let old_index = *index;
                 *index += 1;
@@ -97,13 +128,16 @@ impl<'a> Sink for PathSink<'a> {
             SinkHandle::boxed(PathSink {
                 sink,
                 container: Container::None,
-                set_segment,
+                segment,
+                entered: false,
             })
         })
     }
 
     fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
-        self.sink.finish(state)
+        let rv = self.sink.finish(state);
+        self.leave(state);
+        rv
     }
 
     fn descriptor(&self) -> &dyn Descriptor {
-- 
2.43.0


From 24d6d659218dc56bea7b04a2cc0a7b3b112e70d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:57 +0000
Subject: [PATCH 17/29] fix: forward value_for_key through PathSink

---
 deser-path/src/de.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/deser-path/src/de.rs b/deser-path/src/de.rs
index e9a03a1..7fe30ee 100644
--- a/deser-path/src/de.rs
+++ b/deser-path/src/de.rs
@@ -134,6 +134,21 @@ impl<'a> Sink for PathSink<'a> {
         })
     }
 
+    fn value_for_key(
+        &mut self,
+        key: &str,
+        state: &DeserializerState,
+    ) -> Result<Option<SinkHandle>, Error> {
+        Ok(self.sink.value_for_key(key, state)?.map(|sink| {
+            SinkHandle::boxed(PathSink {
+                sink,
+                container: Container::None,
+                segment: Some(PathSegment::Key(key.to_string())),
+                entered: false,
+            })
+        }))
+    }
+
     fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
         let rv = self.sink.finish(state);
         self.leave(state);
-- 
2.43.0


From 5d19b90c3d681c468ca9a593026f1432abe2dbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:57 +0000
Subject: [PATCH 18/29] fix: forward descriptor and is_optional through path
 tracking

---
 deser-path/src/ser.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/deser-path/src/ser.rs b/deser-path/src/ser.rs
index 708ce8b..265fb9a 100644
--- a/deser-path/src/ser.rs
+++ b/deser-path/src/ser.rs
@@ -5,7 +5,7 @@ use std::rc::Rc;
 use deser::ser::{
     Chunk, MapEmitter, SeqEmitter, Serialize, SerializeHandle, SerializerState, StructEmitter,
 };
-use deser::{Atom, Error};
+use deser::{Atom, Descriptor, Error};
 
 use crate::{Path, PathSegment};
 
@@ -39,6 +39,14 @@ impl<'a> Serialize for PathSerializable<'a> {
         }
     }
 
+    fn descriptor(&self) -> &dyn Descriptor {
+        self.serializable.descriptor()
+    }
+
+    fn is_optional(&self) -> bool {
+        self.serializable.is_optional()
+    }
+
     fn finish(&self, state: &SerializerState) -> Result<(), Error> {
         self.serializable.finish(state)
     }
@@ -141,6 +149,14 @@ impl<'a> Serialize for SegmentPushingSerializable<'a> {
         }
     }
 
+    fn descriptor(&self) -> &dyn Descriptor {
+        self.serializable.descriptor()
+    }
+
+    fn is_optional(&self) -> bool {
+        self.serializable.is_optional()
+    }
+
     fn finish(&self, state: &SerializerState) -> Result<(), Error> {
         self.serializable.finish(state)?;
         let mut path = state.get_mut::<Path>();
@@ -169,6 +185,14 @@ impl<'a> Serialize for SegmentCollectingSerializable<'a> {
         }
     }
 
+    fn descriptor(&self) -> &dyn Descriptor {
+        self.serializable.descriptor()
+    }
+
+    fn is_optional(&self) -> bool {
+        self.serializable.is_optional()
+    }
+
     fn finish(&self, state: &SerializerState) -> Result<(), Error> {
         self.serializable.finish(state)
     }
-- 
2.43.0


From d91959b102c205d457a70b69f67cc280e1b1eba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:28 +0000
Subject: [PATCH 19/29] fix: stop formatting when the writer of the debug
 output fails

---
 deser-debug/src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/deser-debug/src/lib.rs b/deser-debug/src/lib.rs
index 648211d..fee77b6 100644
--- a/deser-debug/src/lib.rs
+++ b/deser-debug/src/lib.rs
@@ -88,7 +88,12 @@ fn dump<'a, 'f>(
                         map.value(&inner);
                     }
                     is_key = !is_key;
-                    rest = &rest[inner.1.load(atomic::Ordering::Relaxed)..];
+                    let consumed = inner.1.load(atomic::Ordering::Relaxed);
+                    if consumed == 0 {
+                        // the formatter failed
+                        return Err(fmt::Error);
+                    }
+                    rest = &rest[consumed..];
                 }
                 map.finish()?;
             }
@@ -107,7 +112,12 @@ fn dump<'a, 'f>(
                     }
                     let inner = Helper(rest, AtomicUsize::default());
                     list.entry(&inner);
-                    rest = &rest[inner.1.load(atomic::Ordering::Relaxed)..];
+                    let consumed = inner.1.load(atomic::Ordering::Relaxed);
+                    if consumed == 0 {
+                        // the formatter failed
+                        return Err(fmt::Error);
+                    }
+                    rest = &rest[consumed..];
                 }
                 list.finish()?;
             }
-- 
2.43.0


From 5e35526e2c0d440f4af6d6728ed1c14d225a2eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:28 +0000
Subject: [PATCH 20/29] fix: derive Deserialize for generic types with the
 right bounds

---
 deser-derive/src/de.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index 13784ad..580374a 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -122,7 +122,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
 
     let wrapper_generics = with_lifetime_bound(&input.generics, "'__a");
     let (wrapper_impl_generics, wrapper_ty_generics, _) = wrapper_generics.split_for_impl();
-    let bound = syn::parse_quote!(::deser::Serialize);
+    let bound = syn::parse_quote!(::deser::Deserialize);
     let bounded_where_clause = where_clause_with_bound(&input.generics, bound);
 
     let field_stage1_default = attrs
@@ -200,7 +200,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
                 need_container_default.into_iter().unzip();
             let type_default = match container_attrs.default().unwrap() {
                 TypeDefault::Implicit => quote! {
-                    <#ident as ::deser::__derive::Default>::default()
+                    <#ident #ty_generics as ::deser::__derive::Default>::default()
                 },
                 TypeDefault::Explicit(path) => quote! { #path() },
             };
@@ -462,7 +462,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
 
     let wrapper_generics = with_lifetime_bound(&input.generics, "'__a");
     let (wrapper_impl_generics, wrapper_ty_generics, _) = wrapper_generics.split_for_impl();
-    let bound = syn::parse_quote!(::deser::Serialize);
+    let bound = syn::parse_quote!(::deser::Deserialize);
     let bounded_where_clause = where_clause_with_bound(&input.generics, bound);
 
     Ok(quote! {
@@ -470,7 +470,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
         const #dummy: () = {
             struct __Sink #wrapper_impl_generics #where_clause {
                 slot: &'__a mut ::deser::__derive::Option<#ident #ty_generics>,
-                sink: ::deser::de::OwnedSink<#field_type #ty_generics>,
+                sink: ::deser::de::OwnedSink<#field_type>,
             }
 
             #[automatically_derived]
-- 
2.43.0


From c7a63b863c0996d763b763eff26ed095573d883b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:12 +0000
Subject: [PATCH 21/29] fix: take missing optional fields from the default of
 the container

---
 deser-derive/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index 580374a..f81e310 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -70,7 +70,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
                 quote! {
                     ::deser::de::OwnedSink::deserialize()
                 }
-            } else if f.default().is_some() {
+            } else if f.default().is_some() || container_attrs.default().is_some() {
                 quote! {
                     ::deser::__derive::None
                 }
-- 
2.43.0


From a7d971ed24ab94cbf90f1525d323fe300b47bee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:23 +0000
Subject: [PATCH 22/29] fix: use the plain name of raw identifiers in derives

---
 deser-derive/src/attr.rs | 8 +++++---
 deser-derive/src/de.rs   | 9 +++++----
 deser-derive/src/ser.rs  | 7 ++++---
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/deser-derive/src/attr.rs b/deser-derive/src/attr.rs
index eeb20f0..f314bc6 100644
--- a/deser-derive/src/attr.rs
+++ b/deser-derive/src/attr.rs
@@ -1,5 +1,7 @@
 use std::borrow::Cow;
 
+use syn::ext::IdentExt;
+
 #[derive(Copy, Clone)]
 #[allow(clippy::enum_variant_names)]
 pub enum RenameAll {
@@ -165,12 +167,12 @@ impl<'a> ContainerAttrs<'a> {
     pub fn container_name(&self) -> String {
         match self.rename {
             Some(ref name) => name.clone(),
-            None => self.ident.to_string(),
+            None => self.ident.unraw().to_string(),
         }
     }
 
     pub fn get_field_name(&self, field: &syn::Field) -> String {
-        let name = field.ident.as_ref().unwrap().to_string();
+        let name = field.ident.as_ref().unwrap().unraw().to_string();
         if let Some(rename_all) = self.rename_all {
             match rename_all {
                 RenameAll::LowerCase | RenameAll::SnakeCase => name,
@@ -222,7 +224,7 @@ impl<'a> ContainerAttrs<'a> {
     }
 
     pub fn get_variant_name(&self, variant: &syn::Variant) -> String {
-        let name = variant.ident.to_string();
+        let name = variant.ident.unraw().to_string();
         if let Some(rename_all) = self.rename_all {
             match rename_all {
                 RenameAll::PascalCase => name,
diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index f81e310..f026ab5 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -2,6 +2,7 @@ use std::collections::HashSet;
 
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
+use syn::ext::IdentExt;
 
 use crate::attr::{
     ensure_no_field_attrs, ContainerAttrs, EnumVariantAttrs, FieldAttrs, TypeDefault,
@@ -27,7 +28,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
     let ident = &input.ident;
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
     let dummy = syn::Ident::new(
-        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
@@ -43,7 +44,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
         .iter()
         .map(|x| {
             syn::Ident::new(
-                &format!("field_{}", x.field().ident.as_ref().unwrap()),
+                &format!("field_{}", x.field().ident.as_ref().unwrap().unraw()),
                 Span::call_site(),
             )
         })
@@ -337,7 +338,7 @@ pub fn derive_enum(
 
     let ident = &input.ident;
     let dummy = syn::Ident::new(
-        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
@@ -447,7 +448,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
     let ident = &input.ident;
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
     let dummy = syn::Ident::new(
-        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
diff --git a/deser-derive/src/ser.rs b/deser-derive/src/ser.rs
index 79206d8..455eeb0 100644
--- a/deser-derive/src/ser.rs
+++ b/deser-derive/src/ser.rs
@@ -1,5 +1,6 @@
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
+use syn::ext::IdentExt;
 
 use crate::attr::{ensure_no_field_attrs, ContainerAttrs, EnumVariantAttrs, FieldAttrs};
 use crate::bound::{where_clause_with_bound, with_lifetime_bound};
@@ -23,7 +24,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
     let ident = &input.ident;
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
     let dummy = syn::Ident::new(
-        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
@@ -210,7 +211,7 @@ fn derive_enum(input: &syn::DeriveInput, enumeration: &syn::DataEnum) -> syn::Re
 
     let ident = &input.ident;
     let dummy = syn::Ident::new(
-        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
@@ -261,7 +262,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
     let ident = &input.ident;
     let (impl_generics, ty_generics, _) = input.generics.split_for_impl();
     let dummy = syn::Ident::new(
-        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
-- 
2.43.0


From 881d7015538397b9268e35bb336df0f756611331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:40 +0000
Subject: [PATCH 23/29] fix: parse JSON floats to the nearest float instead of
 accumulating errors

The largest floats could not be read back at all from the output of the
serializer.
---
 deser-json/src/de.rs | 202 ++++++++-----------------------------------
 1 file changed, 36 insertions(+), 166 deletions(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index b9e0d89..3ae85a3 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -31,6 +31,7 @@ pub struct Deserializer<'a> {
     input: &'a [u8],
     pos: usize,
     buffer: Vec<u8>,
+    number_start: usize,
 }
 
 enum ContainerState {
@@ -45,6 +46,7 @@ impl<'a> Deserializer<'a> {
             input,
             pos: 0,
             buffer: Vec::new(),
+            number_start: 0,
         }
     }
 
@@ -391,13 +393,7 @@ impl<'a> Deserializer<'a> {
                             // number as a `u64` until we grow too large. At that point, switch to
                             // parsing the value as a `f64`.
                             if overflow!(res * 10 + digit, u64::max_value()) {
-                                return self
-                                    .parse_long_integer(
-                                        nonnegative,
-                                        res,
-                                        1, // res * 10^1
-                                    )
-                                    .map(Token::F64);
+                                return self.parse_long_integer().map(Token::F64);
                             }
 
                             res = res * 10 + digit;
@@ -412,28 +408,20 @@ impl<'a> Deserializer<'a> {
         }
     }
 
-    fn parse_long_integer(
-        &mut self,
-        nonnegative: bool,
-        significand: u64,
-        mut exponent: i32,
-    ) -> Result<f64, Error> {
+    fn parse_long_integer(&mut self) -> Result<f64, Error> {
         loop {
             match self.peek_or_nul() {
                 b'0'..=b'9' => {
                     self.bump();
-                    // This could overflow... if your integer is gigabytes long.
-                    // Ignore that possibility.
-                    exponent += 1;
                 }
                 b'.' => {
-                    return self.parse_decimal(nonnegative, significand, exponent);
+                    return self.parse_decimal();
                 }
                 b'e' | b'E' => {
-                    return self.parse_exponent(nonnegative, significand, exponent);
+                    return self.parse_exponent();
                 }
                 _ => {
-                    return f64_from_parts(nonnegative, significand, exponent);
+                    return self.parse_float();
                 }
             }
         }
@@ -441,12 +429,8 @@ impl<'a> Deserializer<'a> {
 
     fn parse_number(&mut self, nonnegative: bool, significand: u64) -> Result<Token, Error> {
         match self.peek_or_nul() {
-            b'.' => self
-                .parse_decimal(nonnegative, significand, 0)
-                .map(Token::F64),
-            b'e' | b'E' => self
-                .parse_exponent(nonnegative, significand, 0)
-                .map(Token::F64),
+            b'.' => self.parse_decimal().map(Token::F64),
+            b'e' | b'E' => self.parse_exponent().map(Token::F64),
             _ => {
                 Ok(if nonnegative {
                     Token::U64(significand)
@@ -464,31 +448,13 @@ impl<'a> Deserializer<'a> {
         }
     }
 
-    fn parse_decimal(
-        &mut self,
-        nonnegative: bool,
-        mut significand: u64,
-        mut exponent: i32,
-    ) -> Result<f64, Error> {
+    fn parse_decimal(&mut self) -> Result<f64, Error> {
         self.bump();
 
         let mut at_least_one_digit = false;
-        while let c @ b'0'..=b'9' = self.peek_or_nul() {
+        while let b'0'..=b'9' = self.peek_or_nul() {
             self.bump();
-            let digit = u64::from(c - b'0');
             at_least_one_digit = true;
-
-            if overflow!(significand * 10 + digit, u64::max_value()) {
-                // The next multiply/add would overflow, so just ignore all
-                // further digits.
-                while let b'0'..=b'9' = self.peek_or_nul() {
-                    self.bump();
-                }
-                break;
-            }
-
-            significand = significand * 10 + digit;
-            exponent -= 1;
         }
 
         if !at_least_one_digit {
@@ -496,80 +462,46 @@ impl<'a> Deserializer<'a> {
         }
 
         match self.peek_or_nul() {
-            b'e' | b'E' => self.parse_exponent(nonnegative, significand, exponent),
-            _ => f64_from_parts(nonnegative, significand, exponent),
+            b'e' | b'E' => self.parse_exponent(),
+            _ => self.parse_float(),
         }
     }
 
-    fn parse_exponent(
-        &mut self,
-        nonnegative: bool,
-        significand: u64,
-        starting_exp: i32,
-    ) -> Result<f64, Error> {
+    fn parse_exponent(&mut self) -> Result<f64, Error> {
         self.bump();
 
-        let positive_exp = match self.peek_or_nul() {
-            b'+' => {
-                self.bump();
-                true
-            }
-            b'-' => {
-                self.bump();
-                false
-            }
-            _ => true,
-        };
+        if let b'+' | b'-' = self.peek_or_nul() {
+            self.bump();
+        }
 
-        let mut exp = match self.next_or_nul() {
-            c @ b'0'..=b'9' => i32::from(c - b'0'),
+        match self.next_or_nul() {
+            b'0'..=b'9' => {}
             _ => {
                 return Err(Error::new(
                     ErrorKind::Unexpected,
                     "expected digit after exponent",
                 ));
             }
-        };
+        }
 
-        while let c @ b'0'..=b'9' = self.peek_or_nul() {
+        while let b'0'..=b'9' = self.peek_or_nul() {
             self.bump();
-            let digit = i32::from(c - b'0');
-
-            if overflow!(exp * 10 + digit, i32::max_value()) {
-                return self.parse_exponent_overflow(nonnegative, significand, positive_exp);
-            }
-
-            exp = exp * 10 + digit;
         }
 
-        let final_exp = if positive_exp {
-            starting_exp.saturating_add(exp)
-        } else {
-            starting_exp.saturating_sub(exp)
-        };
-
-        f64_from_parts(nonnegative, significand, final_exp)
+        self.parse_float()
     }
 
-    // This cold code should not be inlined into the middle of the hot
-    // exponent-parsing loop above.
-    #[cold]
-    #[inline(never)]
-    fn parse_exponent_overflow(
-        &mut self,
-        nonnegative: bool,
-        significand: u64,
-        positive_exp: bool,
-    ) -> Result<f64, Error> {
+    /// Converts the number that was scanned last to the nearest float.
+    fn parse_float(&self) -> Result<f64, Error> {
+        let value: f64 = str::from_utf8(&self.input[self.number_start..self.pos])
+            .ok()
+            .and_then(|x| x.parse().ok())
+            .ok_or_else(|| Error::new(ErrorKind::Unexpected, "invalid float"))?;
         // Error instead of +/- infinity.
-        if significand != 0 && positive_exp {
-            return Err(Error::new(ErrorKind::Unexpected, "infinity takes no sign"));
-        }
-
-        while let b'0'..=b'9' = self.peek_or_nul() {
-            self.bump();
+        if value.is_infinite() {
+            return Err(Error::new(ErrorKind::OutOfRange, "infinite float"));
         }
-        Ok(if nonnegative { 0.0 } else { -0.0 })
+        Ok(value)
     }
 
     fn next_token(&mut self) -> Result<Token, Error> {
@@ -580,8 +512,12 @@ impl<'a> Deserializer<'a> {
         self.bump();
         match peek {
             b'"' => self.parse_str().map(Token::Str),
-            digit @ b'0'..=b'9' => self.parse_integer(true, digit),
+            digit @ b'0'..=b'9' => {
+                self.number_start = self.pos - 1;
+                self.parse_integer(true, digit)
+            }
             b'-' => {
+                self.number_start = self.pos - 1;
                 let first_digit = self.next_or_nul();
                 self.parse_integer(false, first_digit)
             }
@@ -608,72 +544,6 @@ impl<'a> Deserializer<'a> {
     }
 }
 
-fn f64_from_parts(nonnegative: bool, significand: u64, mut exponent: i32) -> Result<f64, Error> {
-    let mut f = significand as f64;
-    loop {
-        match POW10.get(exponent.unsigned_abs() as usize) {
-            Some(&pow) => {
-                if exponent >= 0 {
-                    f *= pow;
-                    if f.is_infinite() {
-                        return Err(Error::new(ErrorKind::OutOfRange, "infinite float"));
-                    }
-                } else {
-                    f /= pow;
-                }
-                break;
-            }
-            None => {
-                if f == 0.0 {
-                    break;
-                }
-                if exponent >= 0 {
-                    return Err(Error::new(ErrorKind::Unexpected, "unexpected float"));
-                }
-                f /= 1e308;
-                exponent += 308;
-            }
-        }
-    }
-    Ok(if nonnegative { f } else { -f })
-}
-
-// Clippy bug: https://github.com/rust-lang/rust-clippy/issues/5201
-#[allow(clippy::excessive_precision)]
-static POW10: [f64; 309] = [
-    1e000, 1e001, 1e002, 1e003, 1e004, 1e005, 1e006, 1e007, 1e008, 1e009, //
-    1e010, 1e011, 1e012, 1e013, 1e014, 1e015, 1e016, 1e017, 1e018, 1e019, //
-    1e020, 1e021, 1e022, 1e023, 1e024, 1e025, 1e026, 1e027, 1e028, 1e029, //
-    1e030, 1e031, 1e032, 1e033, 1e034, 1e035, 1e036, 1e037, 1e038, 1e039, //
-    1e040, 1e041, 1e042, 1e043, 1e044, 1e045, 1e046, 1e047, 1e048, 1e049, //
-    1e050, 1e051, 1e052, 1e053, 1e054, 1e055, 1e056, 1e057, 1e058, 1e059, //
-    1e060, 1e061, 1e062, 1e063, 1e064, 1e065, 1e066, 1e067, 1e068, 1e069, //
-    1e070, 1e071, 1e072, 1e073, 1e074, 1e075, 1e076, 1e077, 1e078, 1e079, //
-    1e080, 1e081, 1e082, 1e083, 1e084, 1e085, 1e086, 1e087, 1e088, 1e089, //
-    1e090, 1e091, 1e092, 1e093, 1e094, 1e095, 1e096, 1e097, 1e098, 1e099, //
-    1e100, 1e101, 1e102, 1e103, 1e104, 1e105, 1e106, 1e107, 1e108, 1e109, //
-    1e110, 1e111, 1e112, 1e113, 1e114, 1e115, 1e116, 1e117, 1e118, 1e119, //
-    1e120, 1e121, 1e122, 1e123, 1e124, 1e125, 1e126, 1e127, 1e128, 1e129, //
-    1e130, 1e131, 1e132, 1e133, 1e134, 1e135, 1e136, 1e137, 1e138, 1e139, //
-    1e140, 1e141, 1e142, 1e143, 1e144, 1e145, 1e146, 1e147, 1e148, 1e149, //
-    1e150, 1e151, 1e152, 1e153, 1e154, 1e155, 1e156, 1e157, 1e158, 1e159, //
-    1e160, 1e161, 1e162, 1e163, 1e164, 1e165, 1e166, 1e167, 1e168, 1e169, //
-    1e170, 1e171, 1e172, 1e173, 1e174, 1e175, 1e176, 1e177, 1e178, 1e179, //
-    1e180, 1e181, 1e182, 1e183, 1e184, 1e185, 1e186, 1e187, 1e188, 1e189, //
-    1e190, 1e191, 1e192, 1e193, 1e194, 1e195, 1e196, 1e197, 1e198, 1e199, //
-    1e200, 1e201, 1e202, 1e203, 1e204, 1e205, 1e206, 1e207, 1e208, 1e209, //
-    1e210, 1e211, 1e212, 1e213, 1e214, 1e215, 1e216, 1e217, 1e218, 1e219, //
-    1e220, 1e221, 1e222, 1e223, 1e224, 1e225, 1e226, 1e227, 1e228, 1e229, //
-    1e230, 1e231, 1e232, 1e233, 1e234, 1e235, 1e236, 1e237, 1e238, 1e239, //
-    1e240, 1e241, 1e242, 1e243, 1e244, 1e245, 1e246, 1e247, 1e248, 1e249, //
-    1e250, 1e251, 1e252, 1e253, 1e254, 1e255, 1e256, 1e257, 1e258, 1e259, //
-    1e260, 1e261, 1e262, 1e263, 1e264, 1e265, 1e266, 1e267, 1e268, 1e269, //
-    1e270, 1e271, 1e272, 1e273, 1e274, 1e275, 1e276, 1e277, 1e278, 1e279, //
-    1e280, 1e281, 1e282, 1e283, 1e284, 1e285, 1e286, 1e287, 1e288, 1e289, //
-    1e290, 1e291, 1e292, 1e293, 1e294, 1e295, 1e296, 1e297, 1e298, 1e299, //
-    1e300, 1e301, 1e302, 1e303, 1e304, 1e305, 1e306, 1e307, 1e308,
-];
-
 const CT: bool = true; // control character \x00..=\x1F
 const QU: bool = true; // quote \x22
 const BS: bool = true; // backslash \x5C
-- 
2.43.0


From 3c1df3088449a6baa0808250b78faa784db5e823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:37 +0000
Subject: [PATCH 24/29] fix: drop the sink of an OwnedSink before its value is
 taken

A sink that was used or dropped after the value had been moved out of its slot
could drop that value a second time.
---
 deser/src/de/driver.rs | 6 ++++--
 deser/src/de/owned.rs  | 6 +++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/deser/src/de/driver.rs b/deser/src/de/driver.rs
index c4a0ebc..21768c2 100644
--- a/deser/src/de/driver.rs
+++ b/deser/src/de/driver.rs
@@ -113,8 +113,9 @@ impl<'a> DeserializeDriver<'a> {
             Event::MapEnd => match self.sink_stack.last_mut() {
                 Some((map_sink, Layer::Map(_))) => {
                     self.current_sink = None;
-                    let rv = map_sink.finish(&self.state);
+                    // the descriptor may belong to something that goes away in finish
                     self.state.descriptor_stack.pop();
+                    let rv = map_sink.finish(&self.state);
                     self.sink_stack.pop();
                     return rv;
                 }
@@ -134,8 +135,9 @@ impl<'a> DeserializeDriver<'a> {
             Event::SeqEnd => match self.sink_stack.last_mut() {
                 Some((seq_sink, Layer::Seq)) => {
                     self.current_sink = None;
-                    let rv = seq_sink.finish(&self.state);
+                    // the descriptor may belong to something that goes away in finish
                     self.state.descriptor_stack.pop();
+                    let rv = seq_sink.finish(&self.state);
                     self.sink_stack.pop();
                     return rv;
                 }
diff --git a/deser/src/de/owned.rs b/deser/src/de/owned.rs
index 0ee0956..ada6c7c 100644
--- a/deser/src/de/owned.rs
+++ b/deser/src/de/owned.rs
@@ -1,4 +1,4 @@
-use std::mem::{transmute, ManuallyDrop};
+use std::mem::{replace, transmute, ManuallyDrop};
 use std::ops::{Deref, DerefMut};
 use std::ptr::NonNull;
 
@@ -125,7 +125,11 @@ impl<T: Deserialize> OwnedSink<T> {
     }
 
     /// Takes the value produced by the sink.
+    ///
+    /// As the sink writes into the slot the value is taken from, the sink is dropped
+    /// first.  What is sent to the owned sink afterwards is ignored.
     pub fn take(&mut self) -> Option<T> {
+        drop(replace(&mut *self.sink, SinkHandle::null()));
         self.storage.take()
     }
 }
-- 
2.43.0


From 29551ec58e155d6d097b8159f3f80414cd4f520f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 25/29] fix: qualify all names in derived code

---
 deser-derive/src/de.rs  | 6 +++---
 deser-derive/src/ser.rs | 6 +++---
 deser/src/lib.rs        | 1 +
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index f026ab5..b9d55de 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -213,7 +213,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
                 ].iter().any(|x| *x) {
                     let __default = #type_default;
                     #(
-                        #sink_name = #sink_name.or_else(|| Some(__default.#original_name));
+                        #sink_name = #sink_name.or_else(|| ::deser::__derive::Some(__default.#original_name));
                     )*
                 }
             })
@@ -229,7 +229,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
         const #dummy: () = {
             struct __Sink #wrapper_impl_generics #where_clause {
                 slot: &'__a mut ::deser::__derive::Option<#ident #ty_generics>,
-                key: ::deser::__derive::Option<String>,
+                key: ::deser::__derive::Option<::deser::__derive::String>,
                 #(
                     #sink_fieldname: #sink_fieldty,
                 )*
@@ -524,7 +524,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
                 fn finish(&mut self, __state: &::deser::de::DeserializerState) -> ::deser::__derive::Result<()> {
                     self.sink.borrow_mut().finish(__state)?;
                     *self.slot = self.sink.take().map(#ident);
-                    Ok(())
+                    ::deser::__derive::Ok(())
                 }
 
                 fn descriptor(&self) -> &dyn ::deser::Descriptor {
diff --git a/deser-derive/src/ser.rs b/deser-derive/src/ser.rs
index 455eeb0..0f2fe92 100644
--- a/deser-derive/src/ser.rs
+++ b/deser-derive/src/ser.rs
@@ -106,7 +106,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
                         if self.nested_emitter_exhausted {
                             self.nested_emitter = match ::deser::ser::Serialize::serialize(&self.data.#name, __state)? {
                                 ::deser::ser::Chunk::Struct(__inner) => {
-                                    Some(__inner)
+                                    ::deser::__derive::Some(__inner)
                                 }
                                 _ => return ::deser::__derive::Err(::deser::Error::new(
                                     ::deser::ErrorKind::Unexpected,
@@ -158,7 +158,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
                     &__Descriptor
                 }
                 fn serialize(&self, __state: &::deser::ser::SerializerState) -> ::deser::__derive::Result<::deser::ser::Chunk> {
-                    ::deser::__derive::Ok(::deser::ser::Chunk::Struct(Box::new(__StructEmitter {
+                    ::deser::__derive::Ok(::deser::ser::Chunk::Struct(::deser::__derive::Box::new(__StructEmitter {
                         data: self,
                         index: 0,
                         #temp_emitter_init
@@ -183,7 +183,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
             #[automatically_derived]
             impl #wrapper_impl_generics ::deser::ser::StructEmitter for __StructEmitter #wrapper_ty_generics #bounded_where_clause {
                 fn next(&mut self, __state: &::deser::ser::SerializerState)
-                    -> ::deser::__derive::Result<::deser::__derive::Option<(deser::__derive::StrCow, ::deser::ser::SerializeHandle)>>
+                    -> ::deser::__derive::Result<::deser::__derive::Option<(::deser::__derive::StrCow, ::deser::ser::SerializeHandle)>>
                 {
                     #[allow(clippy::never_loop)]
                     loop {
diff --git a/deser/src/lib.rs b/deser/src/lib.rs
index f18959b..ee89286 100644
--- a/deser/src/lib.rs
+++ b/deser/src/lib.rs
@@ -77,6 +77,7 @@ pub mod __derive {
     pub use std::default::Default;
     pub use std::option::Option::{self, None, Some};
     pub use std::result::Result::{Err, Ok};
+    pub use std::string::String;
     pub type Result<T> = std::result::Result<T, super::Error>;
     pub type StrCow<'a> = Cow<'a, str>;
 
-- 
2.43.0


From 72da57d276e9aebfe5ac155a562eec031c8cc674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:46 +0000
Subject: [PATCH 26/29] fix: refuse malformed deser attributes instead of
 ignoring them

---
 deser-derive/src/attr.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/deser-derive/src/attr.rs b/deser-derive/src/attr.rs
index f314bc6..ab30c24 100644
--- a/deser-derive/src/attr.rs
+++ b/deser-derive/src/attr.rs
@@ -49,16 +49,15 @@ pub struct ContainerAttrs<'a> {
     skip_serializing_optionals: bool,
 }
 
-pub fn get_meta_items(attr: &syn::Attribute) -> syn::Result<Vec<syn::NestedMeta>> {
-    if !attr.path.is_ident("deser") {
-        return Ok(Vec::new());
-    }
-
-    match attr.parse_meta() {
-        Ok(syn::Meta::List(meta)) => Ok(meta.nested.into_iter().collect()),
-        Ok(_) => Err(syn::Error::new_spanned(attr, "expected #[deser(...)]")),
-        Err(err) => Err(err),
+pub fn get_meta_items(attrs: &[syn::Attribute]) -> syn::Result<Vec<syn::NestedMeta>> {
+    let mut rv = Vec::new();
+    for attr in attrs.iter().filter(|x| x.path.is_ident("deser")) {
+        match attr.parse_meta()? {
+            syn::Meta::List(meta) => rv.extend(meta.nested),
+            _ => return Err(syn::Error::new_spanned(attr, "expected #[deser(...)]")),
+        }
     }
+    Ok(rv)
 }
 
 fn respan(stream: proc_macro2::TokenStream, span: proc_macro2::Span) -> proc_macro2::TokenStream {
@@ -104,7 +103,7 @@ impl<'a> ContainerAttrs<'a> {
             skip_serializing_optionals: false,
         };
 
-        for meta_item in input.attrs.iter().flat_map(get_meta_items).flatten() {
+        for meta_item in get_meta_items(&input.attrs)? {
             if let syn::NestedMeta::Meta(meta) = meta_item {
                 match &meta {
                     syn::Meta::NameValue(nv) if nv.path.is_ident("rename_all") => {
@@ -268,7 +267,7 @@ impl<'a> ContainerAttrs<'a> {
 }
 
 pub fn ensure_no_field_attrs(field: &syn::Field) -> syn::Result<()> {
-    if let Some(first) = field.attrs.iter().flat_map(get_meta_items).flatten().next() {
+    if let Some(first) = get_meta_items(&field.attrs)?.first() {
         Err(syn::Error::new_spanned(first, "unsupported attribute"))
     } else {
         Ok(())
@@ -295,7 +294,7 @@ impl<'a> FieldAttrs<'a> {
             skip_serializing_if: None,
         };
 
-        for meta_item in field.attrs.iter().flat_map(get_meta_items).flatten() {
+        for meta_item in get_meta_items(&field.attrs)? {
             if let syn::NestedMeta::Meta(meta) = meta_item {
                 match &meta {
                     syn::Meta::NameValue(nv) if nv.path.is_ident("rename") => {
@@ -408,7 +407,7 @@ impl<'a> EnumVariantAttrs<'a> {
             aliases: Vec::new(),
         };
 
-        for meta_item in variant.attrs.iter().flat_map(get_meta_items).flatten() {
+        for meta_item in get_meta_items(&variant.attrs)? {
             if let syn::NestedMeta::Meta(meta) = meta_item {
                 match &meta {
                     syn::Meta::NameValue(nv) if nv.path.is_ident("rename") => {
-- 
2.43.0


From a8ac8758de55057bb9ee5175c24feff952e02f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:46 +0000
Subject: [PATCH 27/29] fix: camelCase of variants that start with a non-ASCII
 letter

---
 deser-derive/src/attr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/deser-derive/src/attr.rs b/deser-derive/src/attr.rs
index ab30c24..7c26925 100644
--- a/deser-derive/src/attr.rs
+++ b/deser-derive/src/attr.rs
@@ -229,7 +229,10 @@ impl<'a> ContainerAttrs<'a> {
                 RenameAll::PascalCase => name,
                 RenameAll::LowerCase => name.to_ascii_lowercase(),
                 RenameAll::UpperCase => name.to_ascii_uppercase(),
-                RenameAll::CamelCase => name[..1].to_ascii_lowercase() + &name[1..],
+                RenameAll::CamelCase => {
+                    let first_len = name.chars().next().map_or(0, char::len_utf8);
+                    name[..first_len].to_ascii_lowercase() + &name[first_len..]
+                }
                 RenameAll::SnakeCase
                 | RenameAll::ScreamingSnakeCase
                 | RenameAll::KebabCase
-- 
2.43.0


From 5b38506d1031e7b7fe5f55d2f60036a047448eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:55 +0000
Subject: [PATCH 28/29] fix: descriptor of newtypes around types with a method
 of that name

---
 deser-derive/src/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser-derive/src/ser.rs b/deser-derive/src/ser.rs
index 0f2fe92..6b1c68d 100644
--- a/deser-derive/src/ser.rs
+++ b/deser-derive/src/ser.rs
@@ -282,7 +282,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
             #[automatically_derived]
             impl #impl_generics ::deser::Serialize for #ident #ty_generics #bounded_where_clause {
                 fn descriptor(&self) -> &dyn ::deser::Descriptor {
-                    self.0.descriptor()
+                    ::deser::ser::Serialize::descriptor(&self.0)
                 }
                 fn serialize(&self, __state: &::deser::ser::SerializerState) -> ::deser::__derive::Result<::deser::ser::Chunk> {
                     ::deser::ser::Serialize::serialize(&self.0, __state)
-- 
2.43.0


From edc54b4a488eced424326c372e3b6d18de67c0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:37 +0000
Subject: [PATCH 29/29] fix: name the problem with an unknown rename_all style

---
 deser-derive/src/attr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser-derive/src/attr.rs b/deser-derive/src/attr.rs
index 7c26925..138f133 100644
--- a/deser-derive/src/attr.rs
+++ b/deser-derive/src/attr.rs
@@ -27,7 +27,7 @@ impl RenameAll {
                 "SCREAMING_SNAKE_CASE" => Ok(RenameAll::ScreamingSnakeCase),
                 "kebab-case" => Ok(RenameAll::KebabCase),
                 "SCREAMING-KEBAB-CASE" => Ok(RenameAll::ScreamingKebabCase),
-                _ => Err(syn::Error::new_spanned(lit, "")),
+                _ => Err(syn::Error::new_spanned(lit, "unknown rename_all style")),
             }
         } else {
             Err(syn::Error::new_spanned(lit, "rename expects a string"))
-- 
2.43.0

