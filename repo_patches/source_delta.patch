From d66849994803d5a2cb3bd3ca380fbee396677dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 01/32] fix: skip unknown fields of any size without panicking
 or over-allocating

Skipping a varint decoded it as a `u8` (shift overflow from the third byte
on); skipping a sized field pre-allocated whatever size the input declared,
and accepted a payload shorter than declared.
---
 steit/src/de/reader.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/steit/src/de/reader.rs b/steit/src/de/reader.rs
index 3aaba8a..b7eb1a2 100644
--- a/steit/src/de/reader.rs
+++ b/steit/src/de/reader.rs
@@ -43,13 +43,22 @@ impl<R: io::Read> Reader<R> {
     pub fn skip_field(&mut self, wire_type: WireType) -> io::Result<()> {
         match wire_type {
             WireType::Varint => {
-                u8::deserialize(self)?;
+                let mut buf = [0x80];
+
+                while buf[0] & 0x80 != 0 {
+                    self.read_exact(&mut buf)?;
+                }
             }
 
             WireType::Sized => {
-                let size = u64::deserialize(self)?;
-                let mut buf = Vec::with_capacity(size as usize);
-                self.by_ref().take(size).read_to_end(&mut buf)?;
+                let mut size = u64::deserialize(self)?;
+                let mut buf = [0; 64];
+
+                while size > 0 {
+                    let len = size.min(buf.len() as u64) as usize;
+                    self.read_exact(&mut buf[..len])?;
+                    size -= len as u64;
+                }
             }
         }
 
-- 
2.43.0


From a0deccc324b26ddb619ee8530fa1fc01773a60af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 02/32] fix: decode overlong varints without shift overflow

A varint with more bytes than its type needs panicked in debug builds and
wrapped the shift around, corrupting the value, in release builds.  Discard
the bits which do not fit, as the C# reader does.
---
 steit/src/impls/varint.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/steit/src/impls/varint.rs b/steit/src/impls/varint.rs
index 4a880fe..e9ad34e 100644
--- a/steit/src/impls/varint.rs
+++ b/steit/src/impls/varint.rs
@@ -43,21 +43,24 @@ macro_rules! impl_unsigned_varint {
                 ) -> ::std::io::Result<()> {
                     use ::std::io::Read;
 
-                    let mut value = 0;
+                    let mut value: $type = 0;
 
                     let mut buf = [0];
-                    let mut offset = 0;
+                    let mut offset = 0u32;
 
                     loop {
                         reader.read_exact(&mut buf)?;
-                        value |= (buf[0] & 0x7f) as $type << offset;
+                        let bits = (buf[0] & 0x7f) as $type;
+
+                        // Bits which do not fit in the type are discarded.
+                        value |= bits.checked_shl(offset).unwrap_or(0);
 
                         if buf[0] & 0x80 == 0 {
                             *self = value;
                             return Ok(());
                         }
 
-                        offset += 7;
+                        offset = offset.saturating_add(7);
                     }
                 }
             }
-- 
2.43.0


From 5c80756f716cf4b70ad289c28b2a5643208e4594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 03/32] fix: reject nested values which are shorter than
 declared

A sized value cut short by the end of the input was accepted as if it were
complete, so a torn log entry or snapshot was applied in part.
---
 steit/src/de/de.rs     |  6 +++++-
 steit/src/de/reader.rs | 14 ++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/steit/src/de/de.rs b/steit/src/de/de.rs
index 80ef6a4..f948a7c 100644
--- a/steit/src/de/de.rs
+++ b/steit/src/de/de.rs
@@ -24,7 +24,11 @@ pub trait Deserialize: Default + HasWireType {
 
         match wire_type {
             WireType::Varint => self.merge(reader),
-            WireType::Sized => self.merge(&mut reader.nested()?),
+            WireType::Sized => {
+                let mut nested = reader.nested()?;
+                self.merge(&mut nested)?;
+                nested.finish()
+            }
         }
     }
 
diff --git a/steit/src/de/reader.rs b/steit/src/de/reader.rs
index b7eb1a2..55dbc5a 100644
--- a/steit/src/de/reader.rs
+++ b/steit/src/de/reader.rs
@@ -70,6 +70,20 @@ impl<R: io::Read> Reader<R> {
     }
 }
 
+impl<R: io::Read> Reader<io::Take<R>> {
+    /// Skips whatever is left, and fails if the source ends before the limit is reached.
+    pub fn finish(mut self) -> io::Result<()> {
+        let mut buf = [0; 64];
+
+        while self.read(&mut buf)? > 0 {}
+
+        match self.into_inner().limit() {
+            0 => Ok(()),
+            _ => Err(io::ErrorKind::UnexpectedEof.into()),
+        }
+    }
+}
+
 impl<R: io::Read> io::Read for Reader<R> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         self.inner.read(buf)
-- 
2.43.0


From a3a138757398733d52aaa4965d218a801090a29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 04/32] fix: keep the address of enum items right in
 `List::swap_remove`

The runtime of an enum is that of its current variant, so its sibling is
not the address of another item of the list: changes made to a moved enum
item were logged under a path which does not exist.
---
 steit/src/types/list.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/steit/src/types/list.rs b/steit/src/types/list.rs
index e07e9b1..c62e5e0 100644
--- a/steit/src/types/list.rs
+++ b/steit/src/types/list.rs
@@ -103,8 +103,7 @@ impl<T: State> List<T> {
         let swapped = &mut self.items[index];
 
         if swapped.wire_type() == WireType::Sized {
-            let runtime = removed.runtime().sibling(index as u32);
-            swapped.set_runtime(runtime);
+            swapped.set_runtime(self.runtime.nested(index as u32));
         }
 
         Some(removed)
-- 
2.43.0


From 19945e197605474e755a76d32ecde7bfd182f34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:09 +0000
Subject: [PATCH 05/32] fix: set the runtime of values passed to `Map::insert`

Changes made to a value after it had been inserted went to whatever logger
and path it was created with, instead of those of the map.
---
 steit/src/types/map/map.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 96350fc..d21dce6 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -58,8 +58,9 @@ impl<K: MapKey, V: State> Map<K, V> {
         self.entries.get_mut(&key.as_field_number())
     }
 
-    pub fn insert(&mut self, key: K, value: V) -> Option<V> {
+    pub fn insert(&mut self, key: K, mut value: V) -> Option<V> {
         let field_number = key.as_field_number();
+        value.set_runtime(self.runtime.nested(field_number));
         self.runtime.log_update_child(field_number, &value).unwrap();
         self.entries.insert(field_number, value)
     }
-- 
2.43.0


From 44ebaf7f45a5efa74a99e31a881360bbbb0878f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 06/32] fix: do not log the removal of keys which a `Map` does
 not contain

Replaying such an entry fails.
---
 steit/src/types/map/map.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index d21dce6..4f8cb24 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -75,6 +75,11 @@ impl<K: MapKey, V: State> Map<K, V> {
 
     pub fn remove(&mut self, key: &K) -> Option<V> {
         let field_number = key.as_field_number();
+
+        if !self.entries.contains_key(&field_number) {
+            return None;
+        }
+
         self.runtime.log_map_remove(field_number).unwrap();
         self.entries.remove(&field_number)
     }
-- 
2.43.0


From 7ee96ef3b2ddfcee1066c5ac60ebc17aa2cca317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 07/32] fix: validate keys of `Map` entries inserted by replay

A log entry with a key which the key type does not allow was accepted, and
made iterating over or serializing the map panic later.
---
 steit/src/types/map/map.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 4f8cb24..a6e3772 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -235,6 +235,9 @@ impl<K: MapKey, V: State> State for Map<K, V> {
             if let Some(value) = self.entries.get_mut(&field_number) {
                 value.handle(path, kind, key, reader)
             } else if kind == LogEntryKind::Update && path.next().is_none() {
+                wire_fmt::validate_field_number(field_number)?;
+                K::try_from_field_number(field_number)?;
+
                 let mut value = V::with_runtime(self.runtime.nested(field_number));
                 value.merge(reader)?;
 
-- 
2.43.0


From 7b11b1369a54bc975e1f87bf0801467b85354a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:13 +0000
Subject: [PATCH 08/32] fix: skip `Map` entries of another wire type

Their bodies were decoded as if they were of the expected one, which
garbled the entries after them.
---
 steit/src/types/map/map.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index a6e3772..8c0cd34 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -190,8 +190,14 @@ impl<K: MapKey, V: State> Deserialize for Map<K, V> {
     fn merge(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
         while !reader.eof()? {
             let field_number = u32::deserialize(reader)?;
-            let (field_number, _) = wire_fmt::parse_tag(field_number)?;
+            let (field_number, wire_type) = wire_fmt::parse_tag(field_number)?;
             wire_fmt::validate_field_number(field_number)?;
+
+            if wire_type != V::WIRE_TYPE {
+                reader.skip_field(wire_type)?;
+                continue;
+            }
+
             K::try_from_field_number(field_number)?;
 
             if let Some(value) = self.entries.get_mut(&field_number) {
-- 
2.43.0


From 38529e830f8a9cf93f2bb07926cf313bf4d94618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 09/32] fix: nest runtimes of `Maybe::some` and `Maybe::none`
 properly

An enum stores the runtime of its current variant.  With that of the enum
itself, `is_root`, `merge` and `replay` panicked on a root, and changes to
the inner value were logged under a wrong path elsewhere.
---
 steit/src/types/maybe.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/steit/src/types/maybe.rs b/steit/src/types/maybe.rs
index cce3f68..4659bc0 100644
--- a/steit/src/types/maybe.rs
+++ b/steit/src/types/maybe.rs
@@ -20,7 +20,10 @@ pub enum Maybe<T: State> {
 }
 
 impl<T: State> Maybe<T> {
-    pub fn some(runtime: Runtime, value: T) -> Self {
+    pub fn some(runtime: Runtime, mut value: T) -> Self {
+        let runtime = runtime.nested(1);
+        value.set_runtime(runtime.nested(0));
+
         Maybe::Some {
             value,
             size_cache: SizeCache::new(),
@@ -29,7 +32,9 @@ impl<T: State> Maybe<T> {
     }
 
     pub fn none(runtime: Runtime) -> Self {
-        Maybe::None { runtime }
+        Maybe::None {
+            runtime: runtime.nested(0),
+        }
     }
 
     pub fn from_option(runtime: Runtime, option: Option<T>) -> Self {
-- 
2.43.0


From 6287274cb83ec97e0fbb14cd2ebf47b96493b11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 10/32] fix: let `Box` forward `is_root` and `handle_update`

A boxed enum was never regarded as root, hence could not be replayed.
---
 steit/src/impls/box.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/steit/src/impls/box.rs b/steit/src/impls/box.rs
index 7802a7c..177a7d4 100644
--- a/steit/src/impls/box.rs
+++ b/steit/src/impls/box.rs
@@ -47,6 +47,14 @@ impl<T: State> State for Box<T> {
         self.as_mut().set_runtime(runtime)
     }
 
+    fn is_root(&self) -> bool {
+        self.as_ref().is_root()
+    }
+
+    fn handle_update(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
+        self.as_mut().handle_update(reader)
+    }
+
     fn handle(
         &mut self,
         path: impl Iterator<Item = u32>,
-- 
2.43.0


From 4a6cf15cc3cd7962e3c1243ba20ae0faa4dcda81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:18 +0000
Subject: [PATCH 11/32] fix: stop values removed from `List` and `Map` from
 logging

Changes made to a removed or replaced value were still logged under its
former path, so replaying the log failed or changed another value.
---
 steit/src/rt/runtime.rs    | 13 ++++++++++++-
 steit/src/types/list.rs    | 11 +++++++++--
 steit/src/types/map/map.rs | 12 ++++++++++--
 3 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/steit/src/rt/runtime.rs b/steit/src/rt/runtime.rs
index abb68c0..5fea953 100644
--- a/steit/src/rt/runtime.rs
+++ b/steit/src/rt/runtime.rs
@@ -8,7 +8,10 @@ use std::{
 use serde::Serialize as JsonSerialize;
 
 use crate::{
-    log::{loggers::BufferLogger, LogEntry, Logger},
+    log::{
+        loggers::{BufferLogger, NoopLogger},
+        LogEntry, Logger,
+    },
     ser::Serialize,
 };
 
@@ -83,6 +86,14 @@ impl Runtime {
         }
     }
 
+    /// Creates a runtime at the same path which doesn't log anything.
+    pub fn detached(&self) -> Self {
+        Self {
+            logger: Arc::new(Mutex::new(RuntimeLogger::new(NoopLogger::new()))),
+            path: self.path.clone(),
+        }
+    }
+
     pub fn path(&self) -> &Arc<Node<u32>> {
         &self.path
     }
diff --git a/steit/src/types/list.rs b/steit/src/types/list.rs
index c62e5e0..c2a5945 100644
--- a/steit/src/types/list.rs
+++ b/steit/src/types/list.rs
@@ -73,7 +73,8 @@ impl<T: State> List<T> {
     pub fn pop(&mut self) -> Option<T> {
         if !self.items.is_empty() {
             self.runtime.log_list_pop().unwrap();
-            self.items.pop()
+            let index = self.items.len() - 1;
+            self.items.pop().map(|item| self.detach(index, item))
         } else {
             None
         }
@@ -106,7 +107,13 @@ impl<T: State> List<T> {
             swapped.set_runtime(self.runtime.nested(index as u32));
         }
 
-        Some(removed)
+        Some(self.detach(index, removed))
+    }
+
+    /// Stops a removed item from logging on behalf of this list.
+    fn detach(&self, index: usize, mut removed: T) -> T {
+        removed.set_runtime(self.runtime.nested(index as u32).detached());
+        removed
     }
 
     pub fn iter_mut(&mut self) -> slice::IterMut<T> {
diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 8c0cd34..216968c 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -62,7 +62,8 @@ impl<K: MapKey, V: State> Map<K, V> {
         let field_number = key.as_field_number();
         value.set_runtime(self.runtime.nested(field_number));
         self.runtime.log_update_child(field_number, &value).unwrap();
-        self.entries.insert(field_number, value)
+        let replaced = self.entries.insert(field_number, value);
+        replaced.map(|value| self.detach(field_number, value))
     }
 
     pub fn insert_with(&mut self, key: K, get_value: impl FnOnce(Runtime) -> V) -> Option<V> {
@@ -81,7 +82,14 @@ impl<K: MapKey, V: State> Map<K, V> {
         }
 
         self.runtime.log_map_remove(field_number).unwrap();
-        self.entries.remove(&field_number)
+        let removed = self.entries.remove(&field_number);
+        removed.map(|value| self.detach(field_number, value))
+    }
+
+    /// Stops a removed value from logging on behalf of this map.
+    fn detach(&self, field_number: u32, mut removed: V) -> V {
+        removed.set_runtime(self.runtime.nested(field_number).detached());
+        removed
     }
 
     pub fn iter(&self) -> MapIter<K, V> {
-- 
2.43.0


From e7cf4a528ac00ebab40d014ec883cfc63c9ce7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 12/32] fix: do not pause the shared logger while a value is
 being constructed

Entries logged meanwhile by other threads, or by the callback itself for
other states, were lost, and a panic in the callback left the logger paused
forever.  Hand out a runtime which doesn't log instead.
---
 steit-derive/src/derive/field.rs |  5 ++---
 steit/src/types/list.rs          | 18 +++++++-----------
 steit/src/types/map/map.rs       |  6 ++----
 3 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/steit-derive/src/derive/field.rs b/steit-derive/src/derive/field.rs
index f2f0bce..86da564 100644
--- a/steit-derive/src/derive/field.rs
+++ b/steit-derive/src/derive/field.rs
@@ -309,9 +309,8 @@ impl<'a> DeriveField<'a> {
                     pub fn #setter_with_name(&mut self, get_value: impl FnOnce(Runtime) -> #ty) -> &mut Self {
                         #reset_variant
                         #declare_runtime
-                        runtime.pause_logger();
-                        let value = get_value(runtime.nested(#tag));
-                        runtime.unpause_logger();
+                        let mut value = get_value(runtime.nested(#tag).detached());
+                        value.set_runtime(runtime.nested(#tag));
                         #log_update
                         #set_value
                         self
diff --git a/steit/src/types/list.rs b/steit/src/types/list.rs
index c2a5945..1a81d19 100644
--- a/steit/src/types/list.rs
+++ b/steit/src/types/list.rs
@@ -51,18 +51,8 @@ impl<T: State> List<T> {
     }
 
     pub fn push(&mut self, mut item: T) -> usize {
-        self.push_with(|runtime| {
-            item.set_runtime(runtime);
-            item
-        })
-    }
-
-    pub fn push_with(&mut self, get_item: impl FnOnce(Runtime) -> T) -> usize {
         let field_number = self.items.len() as u32;
-
-        self.runtime.pause_logger();
-        let item = get_item(self.runtime.nested(field_number));
-        self.runtime.unpause_logger();
+        item.set_runtime(self.runtime.nested(field_number));
 
         self.runtime.log_list_push(&item).unwrap();
         self.items.push(item);
@@ -70,6 +60,12 @@ impl<T: State> List<T> {
         field_number as usize
     }
 
+    pub fn push_with(&mut self, get_item: impl FnOnce(Runtime) -> T) -> usize {
+        let field_number = self.items.len() as u32;
+        let item = get_item(self.runtime.nested(field_number).detached());
+        self.push(item)
+    }
+
     pub fn pop(&mut self) -> Option<T> {
         if !self.items.is_empty() {
             self.runtime.log_list_pop().unwrap();
diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 216968c..1ab97b8 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -67,10 +67,8 @@ impl<K: MapKey, V: State> Map<K, V> {
     }
 
     pub fn insert_with(&mut self, key: K, get_value: impl FnOnce(Runtime) -> V) -> Option<V> {
-        let tag = key.as_field_number();
-        self.runtime.pause_logger();
-        let value = get_value(self.runtime.nested(tag));
-        self.runtime.unpause_logger();
+        let field_number = key.as_field_number();
+        let value = get_value(self.runtime.nested(field_number).detached());
         self.insert(key, value)
     }
 
-- 
2.43.0


From 367b92d75e620f86686d113dc42a29023bd3b104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 13/32] fix: leave a state untouched when replaying an update
 fails

An update with a malformed value reset its target and applied a part of the
value before returning the error.
---
 steit-derive/src/derive/enum.rs | 6 ++++--
 steit/src/state.rs              | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/steit-derive/src/derive/enum.rs b/steit-derive/src/derive/enum.rs
index b56da2b..e726ddb 100644
--- a/steit-derive/src/derive/enum.rs
+++ b/steit-derive/src/derive/enum.rs
@@ -417,8 +417,10 @@ impl<'a> Enum<'a> {
                 }
 
                 fn handle_update(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
-                    *self = Self::with_runtime(self.runtime().parent());
-                    self.merge(reader)
+                    let mut value = Self::with_runtime(self.runtime().parent());
+                    value.merge(reader)?;
+                    *self = value;
+                    Ok(())
                 }
 
                 fn handle(
diff --git a/steit/src/state.rs b/steit/src/state.rs
index a5d3b7a..5f30227 100644
--- a/steit/src/state.rs
+++ b/steit/src/state.rs
@@ -30,8 +30,10 @@ pub trait State: Serialize + Deserialize {
     }
 
     fn handle_update(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
-        *self = Self::with_runtime(self.runtime().clone());
-        self.merge(reader)
+        let mut value = Self::with_runtime(self.runtime().clone());
+        value.merge(reader)?;
+        *self = value;
+        Ok(())
     }
 
     fn replay(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
-- 
2.43.0


From c86279a75ef4a60a50faab1a028756efef773b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 14/32] fix: do not lose a byte in `Reader::as_mut_read` after
 `eof`

The byte read ahead by `eof` was bypassed by the new reader.
---
 steit/src/de/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steit/src/de/reader.rs b/steit/src/de/reader.rs
index 55dbc5a..6cc9b6e 100644
--- a/steit/src/de/reader.rs
+++ b/steit/src/de/reader.rs
@@ -19,7 +19,7 @@ impl<R: io::Read> Reader<R> {
 
     pub fn as_mut_read(&mut self) -> Reader<&mut dyn io::Read> {
         Reader {
-            inner: Eof::new(self.inner.get_mut()),
+            inner: Eof::new(&mut self.inner),
         }
     }
 
-- 
2.43.0


From 5e39b2fb3cb9782231487485d8d6ff5b81aeff23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 15/32] fix: keep the names of variant fields apart from
 generated variables

---
 steit-derive/src/derive/field.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/steit-derive/src/derive/field.rs b/steit-derive/src/derive/field.rs
index 86da564..7dade02 100644
--- a/steit-derive/src/derive/field.rs
+++ b/steit-derive/src/derive/field.rs
@@ -154,8 +154,9 @@ impl Field {
         self.init(name.into_token_stream())
     }
 
+    /// The alias is prefixed, otherwise it might shadow other variables in scope.
     pub fn destructure_alias(&self) -> TokenStream {
-        self.destructure(self.alias())
+        self.destructure_alias_prefixed(format_ident!("this"))
     }
 
     pub fn destructure_alias_prefixed(&self, prefix: impl Into<Option<syn::Ident>>) -> TokenStream {
@@ -179,7 +180,13 @@ impl Field {
     }
 
     pub fn field(&self, is_variant: bool) -> TokenStream {
-        self.field_other(None, is_variant)
+        let prefix = if is_variant {
+            Some(format_ident!("this"))
+        } else {
+            None
+        };
+
+        self.field_other(prefix, is_variant)
     }
 }
 
-- 
2.43.0


From 7286a6d05ada5c3a2e5ed320caa14644ef30992b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 16/32] fix: call `State::set_runtime` rather than the setter
 of a field named `runtime`

---
 steit-derive/src/derive/field.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/steit-derive/src/derive/field.rs b/steit-derive/src/derive/field.rs
index 7dade02..c63bbd9 100644
--- a/steit-derive/src/derive/field.rs
+++ b/steit-derive/src/derive/field.rs
@@ -306,7 +306,7 @@ impl<'a> DeriveField<'a> {
                     pub fn #setter_name(&mut self, mut value: #ty) -> &mut Self {
                         #reset_variant
                         #declare_runtime
-                        value.set_runtime(runtime.nested(#tag));
+                        State::set_runtime(&mut value, runtime.nested(#tag));
                         #log_update
                         #set_value
                         self
@@ -317,7 +317,7 @@ impl<'a> DeriveField<'a> {
                         #reset_variant
                         #declare_runtime
                         let mut value = get_value(runtime.nested(#tag).detached());
-                        value.set_runtime(runtime.nested(#tag));
+                        State::set_runtime(&mut value, runtime.nested(#tag));
                         #log_update
                         #set_value
                         self
@@ -389,7 +389,14 @@ impl<'a> DeriveField<'a> {
         if self.is_state() {
             let tag = self.tag();
             let field = self.field(is_variant);
-            Some(quote! { #field.set_runtime(runtime.nested(#tag)); })
+
+            let field = if is_variant {
+                field
+            } else {
+                quote!(&mut #field)
+            };
+
+            Some(quote! { State::set_runtime(#field, runtime.nested(#tag)); })
         } else {
             None
         }
-- 
2.43.0


From 05cef909a783cbb11778e9ff1e28109d78c5ecb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:38 +0000
Subject: [PATCH 17/32] fix: decode zigzag integers with a logical shift

Values of a signed type at least a quarter of its range away from zero, such
as 2147483647i32, came back as others, since the arithmetic shift extended the
most significant bit.
---
 steit/src/impls/varint.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/steit/src/impls/varint.rs b/steit/src/impls/varint.rs
index e9ad34e..b475203 100644
--- a/steit/src/impls/varint.rs
+++ b/steit/src/impls/varint.rs
@@ -90,8 +90,9 @@ macro_rules! impl_signed_varint {
                 (value << 1) ^ (value >> ((std::mem::size_of::<$type>() << 3) - 1))
             }
 
-            fn decode(value: $type) -> $type {
-                (value >> 1) ^ -(value & 1)
+            fn decode(value: $unsigned_type) -> $type {
+                // The shift has to be logical for the most significant bit not to be extended.
+                (value >> 1) as $type ^ -((value & 1) as $type)
             }
 
             fn compute_size(value: &$type) -> u32 {
@@ -114,7 +115,7 @@ macro_rules! impl_signed_varint {
                     &mut self,
                     reader: &mut $crate::de::Reader<impl ::std::io::Read>,
                 ) -> ::std::io::Result<()> {
-                    let encoded = <$unsigned_type>::deserialize(reader)? as $type;
+                    let encoded = <$unsigned_type>::deserialize(reader)?;
                     *self = decode(encoded);
                     Ok(())
                 }
-- 
2.43.0


From 5618940a82e470196d562e19c90095b6befd53ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 18/32] fix: decode zigzag integers with a logical shift in the
 C# client

---
 steit-csharp/src/Codec/Reader.cs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/steit-csharp/src/Codec/Reader.cs b/steit-csharp/src/Codec/Reader.cs
index d068dab..2b0e87a 100644
--- a/steit-csharp/src/Codec/Reader.cs
+++ b/steit-csharp/src/Codec/Reader.cs
@@ -38,8 +38,8 @@ namespace Steit.Codec {
         }
 
         public static long ReadSignedVarint(this IReader reader) {
-            long value = (long) reader.ReadUnsignedVarint();
-            return (value >> 1) ^ -(value & 1);
+            ulong value = reader.ReadUnsignedVarint();
+            return (long) (value >> 1) ^ -(long) (value & 1);
         }
 
         public static Byte ReadByte(this IReader reader) { return (Byte) reader.ReadUnsignedVarint(); }
-- 
2.43.0


From 821c122738668d87b1b3e246a191eb55577f6173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:12 +0000
Subject: [PATCH 19/32] fix: discover the messages behind a Box

---
 steit/src/impls/box.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/steit/src/impls/box.rs b/steit/src/impls/box.rs
index 177a7d4..850d17d 100644
--- a/steit/src/impls/box.rs
+++ b/steit/src/impls/box.rs
@@ -74,11 +74,7 @@ impl<T: HasMeta> HasMeta for Box<T> {
 
     const TYPE: &'static TypeMeta = T::TYPE;
 
-    const LINK: &'static MetaLink = &MetaLink {
-        r#type: Self::TYPE,
-        msg: None,
-        links: || &[T::LINK],
-    };
+    const LINK: &'static MetaLink = T::LINK;
 }
 
 #[cfg(test)]
-- 
2.43.0


From 9833f0c303c0b672680e0602557b1862a9ea0268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:30 +0000
Subject: [PATCH 20/32] fix: bypass Box in every part of the generated class

---
 steit/src/gen/generators/csharp.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/steit/src/gen/generators/csharp.rs b/steit/src/gen/generators/csharp.rs
index 214652d..154230f 100644
--- a/steit/src/gen/generators/csharp.rs
+++ b/steit/src/gen/generators/csharp.rs
@@ -139,7 +139,7 @@ impl Generator for CSharpGenerator {
 
         // Initiate nested states
         for field in &fields {
-            let init = match field.meta.ty {
+            let init = match field.ty {
                 FieldTypeMeta::Type(TypeMeta::Primitive(_, _)) => None,
                 FieldTypeMeta::Type(TypeMeta::Ref(_, _)) => Some(format!(
                     "new {}(this.Path.GetNested({}))",
@@ -244,7 +244,7 @@ impl Generator for CSharpGenerator {
             .indent();
 
         // Return wire types
-        for field in r#struct.fields {
+        for field in &fields {
             let wire_type = match field.ty {
                 FieldTypeMeta::Type(TypeMeta::Primitive(_, wire_type)) => match wire_type {
                     WireType::Varint => "WireType.Varint".to_string(),
@@ -259,7 +259,10 @@ impl Generator for CSharpGenerator {
                 ),
             };
 
-            writer.writeln(format!("case {}: return {};", field.tag, wire_type));
+            writer.writeln(format!(
+                "case {}: return {};",
+                field.meta.tag, wire_type
+            ));
         }
 
         writer
@@ -274,7 +277,7 @@ impl Generator for CSharpGenerator {
 
         // Return nested states
         for field in &fields {
-            let nested = match field.meta.ty {
+            let nested = match field.ty {
                 FieldTypeMeta::Type(TypeMeta::Primitive(_, _)) => None,
                 FieldTypeMeta::Type(TypeMeta::Ref(_, _)) => {
                     Some(format!("this.{}", field.upper_camel_case_name))
@@ -300,7 +303,7 @@ impl Generator for CSharpGenerator {
 
         // Replace fields and notify event handlers
         for field in &fields {
-            match field.meta.ty {
+            match field.ty {
                 FieldTypeMeta::Type(TypeMeta::Primitive(_, _)) => {
                     writer.writeln(format!(
                         "case {0}: this.{1} = this.MaybeNotify({0}, reader.Read{2}(), this.{1}, On{1}Update, shouldNotify); break;",
@@ -578,6 +581,8 @@ impl Generator for CSharpGenerator {
 
 struct CSharpField {
     meta: &'static FieldMeta,
+    // A `Box` is bypassed in favor of what's inside.
+    ty: &'static FieldTypeMeta,
     // UpperCamelCase
     upper_camel_case_name: String,
     type_name: String,
@@ -587,6 +592,7 @@ impl CSharpField {
     pub fn from_meta(field: &'static FieldMeta) -> Self {
         Self {
             meta: field,
+            ty: unboxed(field.ty),
             upper_camel_case_name: field
                 .name
                 .csharp(|name| str_util::to_camel_case(name, true)),
@@ -621,6 +627,15 @@ fn type_params(type_params: &'static [&'static str]) -> String {
     format!("<{}>", type_params.join(", "))
 }
 
+fn unboxed(ty: &'static FieldTypeMeta) -> &'static FieldTypeMeta {
+    match ty {
+        FieldTypeMeta::Type(TypeMeta::Ref(name, [type_arg])) if name.rust == "Box" => {
+            unboxed(type_arg)
+        }
+        _ => ty,
+    }
+}
+
 fn field_type(ty: &'static FieldTypeMeta) -> String {
     match *ty {
         FieldTypeMeta::Type(ty) => match ty {
-- 
2.43.0


From 89ca5485887c5cb945d66f1588630764c0373e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:51 +0000
Subject: [PATCH 21/32] fix: keep the value type of a Map behind a type alias

---
 steit/src/gen/generators/csharp.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/steit/src/gen/generators/csharp.rs b/steit/src/gen/generators/csharp.rs
index 154230f..ab74544 100644
--- a/steit/src/gen/generators/csharp.rs
+++ b/steit/src/gen/generators/csharp.rs
@@ -658,8 +658,9 @@ fn field_type(ty: &'static FieldTypeMeta) -> String {
                     return type_args[0].clone();
                 }
 
-                // A hack to shadow the first type argument of `Map`
-                if &type_name == "StateMap" {
+                // A hack to shadow the key type of `Map`,
+                // which is already absent if the map is behind a type alias.
+                if &type_name == "StateMap" && type_args.len() > 1 {
                     type_args.remove(0);
                 }
 
-- 
2.43.0


From c7308f668137edb1075b480aa3f55fd8384738e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 22/32] fix: give the client's containers the constructor that
 `StateFactory` looks for

---
 steit-csharp/src/Builtins/Bytes.cs        | 4 ++++
 steit-csharp/src/Collections/StateList.cs | 4 ++++
 steit-csharp/src/Collections/StateMap.cs  | 4 ++++
 steit-csharp/src/Collections/Vector.cs    | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/steit-csharp/src/Builtins/Bytes.cs b/steit-csharp/src/Builtins/Bytes.cs
index d120867..e7d4971 100644
--- a/steit-csharp/src/Builtins/Bytes.cs
+++ b/steit-csharp/src/Builtins/Bytes.cs
@@ -8,6 +8,10 @@ namespace Steit.Builtins {
     public sealed partial class Bytes : ReadOnlyCollection<Byte>, IState {
         public Path Path { get; }
 
+        // `StateFactory` looks for this constructor.
+        // public Bytes(Path? path) : this(path, null) { }
+        public Bytes(Path path) : this(path, null) { }
+
         // public Bytes(Path? path = null, byte[]? bytes = null) : base(bytes ?? new byte[0]) {
         public Bytes(Path path = null, byte[] bytes = null) : base(bytes ?? new byte[0]) {
             this.Path = path ?? Path.Root;
diff --git a/steit-csharp/src/Collections/StateList.cs b/steit-csharp/src/Collections/StateList.cs
index ccef903..930db87 100644
--- a/steit-csharp/src/Collections/StateList.cs
+++ b/steit-csharp/src/Collections/StateList.cs
@@ -10,6 +10,10 @@ namespace Steit.Collections {
     public sealed partial class StateList<T> : ReadOnlyCollection<T>, IState {
         public Path Path { get; }
 
+        // `StateFactory` looks for this constructor.
+        // public StateList(Path? path) : this(path, null) { }
+        public StateList(Path path) : this(path, null) { }
+
         // public StateList(Path? path = null, IList<T>? items = null) : base(items ?? new List<T>()) {
         public StateList(Path path = null, IList<T> items = null) : base(items ?? new List<T>()) {
             StateFactory.ValidateType(typeof(T));
diff --git a/steit-csharp/src/Collections/StateMap.cs b/steit-csharp/src/Collections/StateMap.cs
index c14223a..6f9310b 100644
--- a/steit-csharp/src/Collections/StateMap.cs
+++ b/steit-csharp/src/Collections/StateMap.cs
@@ -10,6 +10,10 @@ namespace Steit.Collections {
     public sealed partial class StateMap<T> : ReadOnlyDictionary<UInt32, T>, IState {
         public Path Path { get; }
 
+        // `StateFactory` looks for this constructor.
+        // public StateMap(Path? path) : this(path, null) { }
+        public StateMap(Path path) : this(path, null) { }
+
         // public StateMap(Path? path = null, IDictionary<UInt32, T>? items = null) : base(items ?? new Dictionary<UInt32, T>()) {
         public StateMap(Path path = null, IDictionary<UInt32, T> items = null) : base(items ?? new Dictionary<UInt32, T>()) {
             StateFactory.ValidateType(typeof(T));
diff --git a/steit-csharp/src/Collections/Vector.cs b/steit-csharp/src/Collections/Vector.cs
index e3dc086..58ba5fa 100644
--- a/steit-csharp/src/Collections/Vector.cs
+++ b/steit-csharp/src/Collections/Vector.cs
@@ -9,6 +9,10 @@ namespace Steit.Collections {
     public sealed partial class Vector<T> : ReadOnlyCollection<T>, IState {
         public Path Path { get; }
 
+        // `StateFactory` looks for this constructor.
+        // public Vector(Path? path) : this(path, null) { }
+        public Vector(Path path) : this(path, null) { }
+
         // public Vector(Path? path = null, IList<T>? items = null) : base(items ?? new List<T>()) {
         public Vector(Path path = null, IList<T> items = null) : base(items ?? new List<T>()) {
             StateFactory.ValidateType(typeof(T));
-- 
2.43.0


From 3b420d0d331ef9a03ed26d063c61f0930f72c0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:13 +0000
Subject: [PATCH 23/32] fix: report failures to write the rest of a generated
 file

---
 steit/src/gen/generator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/steit/src/gen/generator.rs b/steit/src/gen/generator.rs
index 13072d0..1e2bcda 100644
--- a/steit/src/gen/generator.rs
+++ b/steit/src/gen/generator.rs
@@ -54,6 +54,7 @@ pub trait Generator {
             let mut writer = io::BufWriter::new(file);
 
             writer.write_all(source.as_bytes())?;
+            writer.flush()?;
             generated_names.push(name);
         }
 
-- 
2.43.0


From 3d62d3999233c0f78b9caa010b5196a45068317e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:40 +0000
Subject: [PATCH 24/32] fix: bound the type parameters of `Deserialize` for
 structs like those of `Default`

---
 steit-derive/src/derive/struct.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/steit-derive/src/derive/struct.rs b/steit-derive/src/derive/struct.rs
index d7e6297..6c43c45 100644
--- a/steit-derive/src/derive/struct.rs
+++ b/steit-derive/src/derive/struct.rs
@@ -372,8 +372,9 @@ impl<'a> Struct<'a> {
     fn impl_deserialize(&self) -> TokenStream {
         let merger = self.merger();
 
-        self.impler.impl_for(
+        self.impler.impl_for_with(
             "Deserialize",
+            self.trait_bounds(&["Deserialize"]),
             quote! {
                 fn merge(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
                     #merger
-- 
2.43.0


From ea1fd064981dfd572c58b12cc1987b9e2b894388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:40 +0000
Subject: [PATCH 25/32] fix: keep the type parameter of `hash` apart from those
 of the type

---
 steit-derive/src/derive/enum.rs   | 2 +-
 steit-derive/src/derive/struct.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/steit-derive/src/derive/enum.rs b/steit-derive/src/derive/enum.rs
index e726ddb..65fb183 100644
--- a/steit-derive/src/derive/enum.rs
+++ b/steit-derive/src/derive/enum.rs
@@ -200,7 +200,7 @@ impl<'a> Enum<'a> {
         self.impler.impl_for(
             "Hash",
             quote! {
-                fn hash<H: Hasher>(&self, state: &mut H) {
+                fn hash<__H: Hasher>(&self, state: &mut __H) {
                     match self { #(#hashers)* }
                 }
             },
diff --git a/steit-derive/src/derive/struct.rs b/steit-derive/src/derive/struct.rs
index 6c43c45..e9f1d0f 100644
--- a/steit-derive/src/derive/struct.rs
+++ b/steit-derive/src/derive/struct.rs
@@ -292,7 +292,7 @@ impl<'a> Struct<'a> {
         self.impler.impl_for(
             "Hash",
             quote! {
-                fn hash<H: Hasher>(&self, state: &mut H) {
+                fn hash<__H: Hasher>(&self, state: &mut __H) {
                     #hasher
                 }
             },
-- 
2.43.0


From 190fbb679da5ee1e7286ed6a65c1541f68a7e91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:40 +0000
Subject: [PATCH 26/32] fix: wrap what is derived in unnamed constants, whose
 names cannot clash

---
 steit-derive/src/derive/derive.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/steit-derive/src/derive/derive.rs b/steit-derive/src/derive/derive.rs
index 60b16c8..61749ca 100644
--- a/steit-derive/src/derive/derive.rs
+++ b/steit-derive/src/derive/derive.rs
@@ -5,7 +5,6 @@ use crate::{
     attr::{Attribute, AttributeParse},
     ctx::Context,
     r#impl::Implementer,
-    str_util,
 };
 
 use super::{r#enum::Enum, r#struct::Struct};
@@ -200,7 +199,7 @@ pub fn derive(args: syn::AttributeArgs, mut input: syn::DeriveInput) -> TokenStr
         }
     };
 
-    let output = wrap_in_const(&setting, &input.ident, output);
+    let output = wrap_in_const(&setting, output);
     let derives = setting.derives;
     let errors = ctx.check().err().map(to_compile_errors);
 
@@ -236,17 +235,12 @@ fn to_compile_errors(errors: Vec<syn::Error>) -> TokenStream {
     quote!(#(#compile_errors)*)
 }
 
-fn wrap_in_const(setting: &DeriveSetting, name: &syn::Ident, tokens: TokenStream) -> TokenStream {
-    let dummy_const = format_ident!(
-        "_IMPL_STEIT_FOR_{}",
-        str_util::to_snake_case(name.to_string()).to_uppercase(),
-    );
-
+fn wrap_in_const(setting: &DeriveSetting, tokens: TokenStream) -> TokenStream {
     let extern_crate = setting.extern_crate();
     let krate = setting.krate();
 
     quote! {
-        const #dummy_const: () = {
+        const _: () = {
             #extern_crate
 
             use std::{
-- 
2.43.0


From 31dd1f05abf9ea2059e5426e3baf427d724b2848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:52 +0000
Subject: [PATCH 27/32] fix: drop the prefix of raw identifiers from names of
 constructors, setters and messages

---
 steit-derive/src/derive/enum.rs    | 3 ++-
 steit-derive/src/derive/struct.rs  | 7 ++++---
 steit-derive/src/derive/variant.rs | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/steit-derive/src/derive/enum.rs b/steit-derive/src/derive/enum.rs
index 65fb183..0436147 100644
--- a/steit-derive/src/derive/enum.rs
+++ b/steit-derive/src/derive/enum.rs
@@ -2,6 +2,7 @@ use std::collections::HashSet;
 
 use proc_macro2::TokenStream;
 use quote::ToTokens;
+use syn::ext::IdentExt;
 
 use crate::{
     attr::{Attribute, AttributeParse, VecAttribute},
@@ -455,7 +456,7 @@ impl<'a> Enum<'a> {
     }
 
     fn impl_meta(&self) -> TokenStream {
-        let rust_name = self.impler.name().to_string();
+        let rust_name = self.impler.name().unraw().to_string();
 
         let csharp_name = match &self.attrs.csharp_name {
             Some(csharp_name) => quote!(Some(#csharp_name)),
diff --git a/steit-derive/src/derive/struct.rs b/steit-derive/src/derive/struct.rs
index e9f1d0f..610db55 100644
--- a/steit-derive/src/derive/struct.rs
+++ b/steit-derive/src/derive/struct.rs
@@ -2,6 +2,7 @@ use std::collections::HashSet;
 
 use proc_macro2::TokenStream;
 use quote::ToTokens;
+use syn::ext::IdentExt;
 
 use crate::{
     attr::{Attribute, AttributeParse, VecAttribute},
@@ -478,8 +479,8 @@ impl<'a> Struct<'a> {
 
     pub fn meta(&self) -> TokenStream {
         let rust_name = match &self.variant {
-            Some(variant) => variant.name().to_string(),
-            None => self.impler.name().to_string(),
+            Some(variant) => variant.name().unraw().to_string(),
+            None => self.impler.name().unraw().to_string(),
         };
 
         let csharp_name = match &self.attrs.csharp_name {
@@ -525,7 +526,7 @@ impl<'a> Struct<'a> {
 
     fn impl_meta(&self) -> TokenStream {
         let meta = self.meta();
-        let rust_name = self.impler.name().to_string();
+        let rust_name = self.impler.name().unraw().to_string();
 
         let csharp_name = match &self.attrs.csharp_name {
             Some(csharp_name) => quote!(Some(#csharp_name)),
diff --git a/steit-derive/src/derive/variant.rs b/steit-derive/src/derive/variant.rs
index 61a08fc..8bdf5ae 100644
--- a/steit-derive/src/derive/variant.rs
+++ b/steit-derive/src/derive/variant.rs
@@ -1,4 +1,5 @@
 use proc_macro2::TokenStream;
+use syn::ext::IdentExt;
 
 use crate::{
     attr::{Attribute, AttributeParse},
@@ -74,7 +75,7 @@ impl<'a> Variant<'a> {
     }
 
     pub fn snake_case_name(&self) -> String {
-        str_util::to_snake_case(self.name.to_string())
+        str_util::to_snake_case(self.name.unraw().to_string())
     }
 
     pub fn qual(&self) -> TokenStream {
-- 
2.43.0


From 80fb3ab617857a1d81af7bcdd16f98ee476a43cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:31 +0000
Subject: [PATCH 28/32] fix: let threads share and send values that contain a
 Map

---
 steit/src/types/map/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 1ab97b8..f529e54 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -24,7 +24,7 @@ pub struct Map<K: MapKey, V: State> {
     entries: IndexMap<u32, V>,
     size_cache: SizeCache,
     runtime: Runtime,
-    _marker: PhantomData<*const K>,
+    _marker: PhantomData<K>,
 }
 
 impl<K: MapKey, V: State> Map<K, V> {
-- 
2.43.0


From 8784c63d6c0f101e7b707ea9f66c3430fdcf10c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:01 +0000
Subject: [PATCH 29/32] fix: don't replay a log entry of an unknown kind as an
 update of the whole root

A kind of log entry the client doesn't know was read as an update with an
empty path and no value, and so reset the whole state to its default.
---
 steit-csharp/src/State/StateReplayer.cs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/steit-csharp/src/State/StateReplayer.cs b/steit-csharp/src/State/StateReplayer.cs
index 97dde3c..55303f0 100644
--- a/steit-csharp/src/State/StateReplayer.cs
+++ b/steit-csharp/src/State/StateReplayer.cs
@@ -8,7 +8,15 @@ namespace Steit.State {
     public static class StateReplayer {
         public static void Replay<T>(ref T root, IReader reader) where T : IState {
             while (!reader.EndOfStream()) {
-                var entry = LogEntry.Deserialize(reader.GetNested());
+                var bytes = reader.GetNested().ReadToEnd();
+                var tag = new ByteReader(bytes).ReadUInt32();
+                var entry = LogEntry.Deserialize(new ByteReader(bytes));
+
+                // Reading leaves the default variant in place of one it doesn't know.
+                if (entry.Tag != tag) {
+                    throw new InvalidOperationException(String.Format("Unknown log entry tag {0}", tag));
+                }
+
                 Replay(ref root, entry);
             }
         }
-- 
2.43.0


From 145b2ca0298de3bd49158d437c37f71d4e35c8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:47 +0000
Subject: [PATCH 30/32] fix: skip `StateMap` entries of another wire type

They were read as if they had the expected one, which threw or left the
reader in the middle of a field.
---
 steit-csharp/src/Collections/StateMap.cs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/steit-csharp/src/Collections/StateMap.cs b/steit-csharp/src/Collections/StateMap.cs
index 6f9310b..f856d77 100644
--- a/steit-csharp/src/Collections/StateMap.cs
+++ b/steit-csharp/src/Collections/StateMap.cs
@@ -37,10 +37,18 @@ namespace Steit.Collections {
             path = path ?? Path.Root;
 
             var entries = new Dictionary<UInt32, T>();
+            var isSized = StateFactory.IsStateType(typeof(T)) || typeof(T) == typeof(String);
+            var expectedWireType = isSized ? WireType.Sized : WireType.Varint;
 
             while (!reader.EndOfStream()) {
-                var tag = reader.ReadKey().Tag;
-                // TODO: Wire type should be considered here.
+                var (tag, wireType) = reader.ReadKey();
+
+                if (wireType != expectedWireType) {
+                    var entryReader = wireType == WireType.Sized ? reader.GetNested() : reader;
+                    entryReader.SkipField(wireType);
+                    continue;
+                }
+
                 entries[tag] = reader.ReadValue<T>(path, tag);
             }
 
-- 
2.43.0


From d0d61245c11c7a9e7851c832c641a6db6c8d7753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:14 +0000
Subject: [PATCH 31/32] fix: don't name local variables of generated C# classes
 after keywords

Classes like `Event`, `Object` or `In`, and such variants, did not
compile.
---
 steit/src/gen/generators/csharp.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/steit/src/gen/generators/csharp.rs b/steit/src/gen/generators/csharp.rs
index ab74544..fa83ae5 100644
--- a/steit/src/gen/generators/csharp.rs
+++ b/steit/src/gen/generators/csharp.rs
@@ -4,6 +4,29 @@ use crate::{
     wire_fmt::WireType,
 };
 
+/// Names that a local variable cannot have in the methods generated.
+const RESERVED_NAMES: &[&str] = &[
+    "abstract", "as", "base", "bool", "break", "byte", "case", "catch", "char", "checked", "class",
+    "const", "continue", "decimal", "default", "delegate", "do", "double", "else", "enum", "event",
+    "explicit", "extern", "false", "finally", "fixed", "float", "for", "foreach", "goto", "if",
+    "implicit", "in", "int", "interface", "internal", "is", "lock", "long", "namespace", "new",
+    "null", "object", "operator", "out", "override", "params", "path", "private", "protected",
+    "public", "reader", "readonly", "ref", "return", "sbyte", "sealed", "short", "sizeof",
+    "stackalloc", "static", "string", "struct", "switch", "this", "throw", "true", "try", "typeof",
+    "uint", "ulong", "unchecked", "unsafe", "ushort", "using", "virtual", "void", "volatile",
+    "while",
+];
+
+fn local_name(type_name: &str) -> String {
+    let name = str_util::uncap_first_char(type_name);
+
+    if RESERVED_NAMES.contains(&name.as_str()) {
+        format!("_{}", name)
+    } else {
+        name
+    }
+}
+
 pub struct CSharpSetting {
     namespace: String,
     used_namespaces: Vec<String>,
@@ -75,7 +98,7 @@ impl Generator for CSharpGenerator {
         writer: &mut Writer,
     ) {
         let name = r#struct.name.csharp(String::from);
-        let var_name = str_util::uncap_first_char(&name);
+        let var_name = local_name(&name);
 
         let type_name = if !is_variant {
             format!("{}{}", &name, type_params(r#struct.type_params))
@@ -376,7 +399,7 @@ impl Generator for CSharpGenerator {
 
     fn gen_enum(&self, r#enum: &EnumMeta, setting: &Self::Setting, writer: &mut Writer) {
         let name = r#enum.name.csharp(String::from);
-        let var_name = str_util::uncap_first_char(&name);
+        let var_name = local_name(&name);
         let type_name = format!("{}{}", &name, type_params(r#enum.type_params));
 
         let variants: Vec<_> = r#enum
-- 
2.43.0


From 221a3c438a1feb0782bebdd57a713c93ede8128e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:01 +0000
Subject: [PATCH 32/32] fix: put the items of collected lists and maps in their
 places

`FromIterator` of `List` and `Map` left items with whatever address and
logger they had before, so that changes to them were recorded elsewhere.
---
 steit/src/types/list.rs    | 11 ++++++-----
 steit/src/types/map/map.rs | 23 ++++++++++++-----------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/steit/src/types/list.rs b/steit/src/types/list.rs
index 1a81d19..acabc03 100644
--- a/steit/src/types/list.rs
+++ b/steit/src/types/list.rs
@@ -41,7 +41,11 @@ impl<T: State> List<T> {
     }
 
     pub fn from_iter(runtime: Runtime, iter: impl IntoIterator<Item = T>) -> Self {
-        let mut list: Self = FromIterator::from_iter(iter);
+        let mut list = Self {
+            items: iter.into_iter().collect(),
+            ..Default::default()
+        };
+
         list.set_runtime(runtime);
         list
     }
@@ -133,10 +137,7 @@ impl<T: State> ops::IndexMut<usize> for List<T> {
 
 impl<T: State> FromIterator<T> for List<T> {
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
-        Self {
-            items: iter.into_iter().collect(),
-            ..Default::default()
-        }
+        Self::from_iter(Runtime::default(), iter)
     }
 }
 
diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index f529e54..58b56b6 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -38,7 +38,17 @@ impl<K: MapKey, V: State> Map<K, V> {
     }
 
     pub fn from_iter(runtime: Runtime, iter: impl IntoIterator<Item = (K, V)>) -> Self {
-        let mut map: Self = FromIterator::from_iter(iter);
+        let mut map = Self {
+            entries: iter
+                .into_iter()
+                .map(|(key, value)| {
+                    let key = key.as_field_number();
+                    (key, value)
+                })
+                .collect(),
+            ..Default::default()
+        };
+
         map.set_runtime(runtime);
         map
     }
@@ -133,16 +143,7 @@ impl<K: MapKey, V: State> Default for Map<K, V> {
 
 impl<K: MapKey, V: State> FromIterator<(K, V)> for Map<K, V> {
     fn from_iter<I: IntoIterator<Item = (K, V)>>(iter: I) -> Self {
-        Self {
-            entries: iter
-                .into_iter()
-                .map(|(key, value)| {
-                    let key = key.as_field_number();
-                    (key, value)
-                })
-                .collect(),
-            ..Default::default()
-        }
+        Self::from_iter(Runtime::default(), iter)
     }
 }
 
-- 
2.43.0

