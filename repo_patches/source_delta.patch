From 35057b193a20e6bbd0ade209299cbdce063de5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 01/25] fix: decode the largest signed varints to the values
 that were encoded

---
 steit/src/impls/varint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steit/src/impls/varint.rs b/steit/src/impls/varint.rs
index 4a880fe..915f2f0 100644
--- a/steit/src/impls/varint.rs
+++ b/steit/src/impls/varint.rs
@@ -88,7 +88,7 @@ macro_rules! impl_signed_varint {
             }
 
             fn decode(value: $type) -> $type {
-                (value >> 1) ^ -(value & 1)
+                ((value as $unsigned_type) >> 1) as $type ^ -(value & 1)
             }
 
             fn compute_size(value: &$type) -> u32 {
-- 
2.43.0


From 89cf4d5068189c27d609b1be19f29010127df40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 02/25] fix: do not overflow when decoding or skipping an
 over-long varint

---
 steit/src/impls/varint.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/steit/src/impls/varint.rs b/steit/src/impls/varint.rs
index 915f2f0..6cf3204 100644
--- a/steit/src/impls/varint.rs
+++ b/steit/src/impls/varint.rs
@@ -50,14 +50,17 @@ macro_rules! impl_unsigned_varint {
 
                     loop {
                         reader.read_exact(&mut buf)?;
-                        value |= (buf[0] & 0x7f) as $type << offset;
+
+                        // Bits that don't fit into the type are ignored.
+                        if offset < std::mem::size_of::<$type>() << 3 {
+                            value |= (buf[0] & 0x7f) as $type << offset;
+                            offset += 7;
+                        }
 
                         if buf[0] & 0x80 == 0 {
                             *self = value;
                             return Ok(());
                         }
-
-                        offset += 7;
                     }
                 }
             }
-- 
2.43.0


From 2c926f4b96a065f4cf01d7babdb10238c7039d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:06 +0000
Subject: [PATCH 03/25] fix: skip a sized field without allocating the size it
 claims

---
 steit/src/de/reader.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/steit/src/de/reader.rs b/steit/src/de/reader.rs
index 3aaba8a..0ccb8df 100644
--- a/steit/src/de/reader.rs
+++ b/steit/src/de/reader.rs
@@ -48,8 +48,7 @@ impl<R: io::Read> Reader<R> {
 
             WireType::Sized => {
                 let size = u64::deserialize(self)?;
-                let mut buf = Vec::with_capacity(size as usize);
-                self.by_ref().take(size).read_to_end(&mut buf)?;
+                io::copy(&mut self.by_ref().take(size), &mut io::sink())?;
             }
         }
 
-- 
2.43.0


From 16a882b56a398eea0670a26d97a77abb4c98b851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 04/25] fix: keep the peeked byte when borrowing a reader after
 probing for eof

---
 steit/src/de/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steit/src/de/reader.rs b/steit/src/de/reader.rs
index 0ccb8df..2ed11ec 100644
--- a/steit/src/de/reader.rs
+++ b/steit/src/de/reader.rs
@@ -19,7 +19,7 @@ impl<R: io::Read> Reader<R> {
 
     pub fn as_mut_read(&mut self) -> Reader<&mut dyn io::Read> {
         Reader {
-            inner: Eof::new(self.inner.get_mut()),
+            inner: Eof::new(self),
         }
     }
 
-- 
2.43.0


From 408201d6fef82d3700e90964b367ef402b586385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 05/25] fix: report a length-prefixed payload that ends
 prematurely

---
 steit/src/de/reader.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/steit/src/de/reader.rs b/steit/src/de/reader.rs
index 2ed11ec..85fc359 100644
--- a/steit/src/de/reader.rs
+++ b/steit/src/de/reader.rs
@@ -27,9 +27,9 @@ impl<R: io::Read> Reader<R> {
         self.inner.eof()
     }
 
-    pub fn nested(&mut self) -> io::Result<Reader<io::Take<Reader<&mut dyn io::Read>>>> {
+    pub fn nested(&mut self) -> io::Result<Reader<io::Take<Announced<Reader<&mut dyn io::Read>>>>> {
         let size = u64::deserialize(self)?;
-        let reader = self.as_mut_read().take(size);
+        let reader = Announced(self.as_mut_read()).take(size);
         Ok(Reader {
             inner: Eof::new(reader)
         })
@@ -47,8 +47,7 @@ impl<R: io::Read> Reader<R> {
             }
 
             WireType::Sized => {
-                let size = u64::deserialize(self)?;
-                io::copy(&mut self.by_ref().take(size), &mut io::sink())?;
+                io::copy(&mut self.nested()?, &mut io::sink())?;
             }
         }
 
@@ -71,3 +70,15 @@ impl<R: io::Read> From<R> for Reader<R> {
         Self::new(inner)
     }
 }
+
+/// Reads data whose size has been announced, so it's an error if the data ends prematurely.
+pub struct Announced<R: io::Read>(R);
+
+impl<R: io::Read> io::Read for Announced<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        match self.0.read(buf)? {
+            0 if !buf.is_empty() => Err(io::ErrorKind::UnexpectedEof.into()),
+            size => Ok(size),
+        }
+    }
+}
-- 
2.43.0


From 96edb7e1c21e8a9245fea4cb9e64bfad78c8420c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 06/25] fix: attach values inserted into a map to its runtime

---
 steit/src/types/map/map.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 96350fc..d21dce6 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -58,8 +58,9 @@ impl<K: MapKey, V: State> Map<K, V> {
         self.entries.get_mut(&key.as_field_number())
     }
 
-    pub fn insert(&mut self, key: K, value: V) -> Option<V> {
+    pub fn insert(&mut self, key: K, mut value: V) -> Option<V> {
         let field_number = key.as_field_number();
+        value.set_runtime(self.runtime.nested(field_number));
         self.runtime.log_update_child(field_number, &value).unwrap();
         self.entries.insert(field_number, value)
     }
-- 
2.43.0


From 8f195b2911e59aed733c59b8ef64d9f5cb0f7b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 07/25] fix: do not log the removal of a key that is not in the
 map

---
 steit/src/types/map/map.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index d21dce6..4f8cb24 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -75,6 +75,11 @@ impl<K: MapKey, V: State> Map<K, V> {
 
     pub fn remove(&mut self, key: &K) -> Option<V> {
         let field_number = key.as_field_number();
+
+        if !self.entries.contains_key(&field_number) {
+            return None;
+        }
+
         self.runtime.log_map_remove(field_number).unwrap();
         self.entries.remove(&field_number)
     }
-- 
2.43.0


From f7247b0b6d782dd2ddf82e7d0caa2a1bb7d74491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 08/25] fix: refuse to replay an insertion under an invalid map
 key

---
 steit/src/types/map/map.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 4f8cb24..a6e3772 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -235,6 +235,9 @@ impl<K: MapKey, V: State> State for Map<K, V> {
             if let Some(value) = self.entries.get_mut(&field_number) {
                 value.handle(path, kind, key, reader)
             } else if kind == LogEntryKind::Update && path.next().is_none() {
+                wire_fmt::validate_field_number(field_number)?;
+                K::try_from_field_number(field_number)?;
+
                 let mut value = V::with_runtime(self.runtime.nested(field_number));
                 value.merge(reader)?;
 
-- 
2.43.0


From 8c11839f19a5a8fb696e79dd68f35ba4ab7e6f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 09/25] fix: attach the item moved by swap_remove to its new
 index

---
 steit/src/types/list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steit/src/types/list.rs b/steit/src/types/list.rs
index e07e9b1..e668a9b 100644
--- a/steit/src/types/list.rs
+++ b/steit/src/types/list.rs
@@ -103,7 +103,7 @@ impl<T: State> List<T> {
         let swapped = &mut self.items[index];
 
         if swapped.wire_type() == WireType::Sized {
-            let runtime = removed.runtime().sibling(index as u32);
+            let runtime = self.runtime.nested(index as u32);
             swapped.set_runtime(runtime);
         }
 
-- 
2.43.0


From 903e14aa858e172e22651d8ea88d2adc13402a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 10/25] fix: attach Maybe values built from parts to their own
 paths

---
 steit/src/types/maybe.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/steit/src/types/maybe.rs b/steit/src/types/maybe.rs
index cce3f68..87b9dec 100644
--- a/steit/src/types/maybe.rs
+++ b/steit/src/types/maybe.rs
@@ -20,7 +20,10 @@ pub enum Maybe<T: State> {
 }
 
 impl<T: State> Maybe<T> {
-    pub fn some(runtime: Runtime, value: T) -> Self {
+    pub fn some(runtime: Runtime, mut value: T) -> Self {
+        let runtime = runtime.nested(1);
+        value.set_runtime(runtime.nested(0));
+
         Maybe::Some {
             value,
             size_cache: SizeCache::new(),
@@ -29,7 +32,7 @@ impl<T: State> Maybe<T> {
     }
 
     pub fn none(runtime: Runtime) -> Self {
-        Maybe::None { runtime }
+        Self::new_none(runtime)
     }
 
     pub fn from_option(runtime: Runtime, option: Option<T>) -> Self {
-- 
2.43.0


From 7118e22ed6f0e19dce45d1b47e915bdb8233fc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 11/25] fix: let a boxed enum state be a root and handle its
 own updates

---
 steit/src/impls/box.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/steit/src/impls/box.rs b/steit/src/impls/box.rs
index 7802a7c..177a7d4 100644
--- a/steit/src/impls/box.rs
+++ b/steit/src/impls/box.rs
@@ -47,6 +47,14 @@ impl<T: State> State for Box<T> {
         self.as_mut().set_runtime(runtime)
     }
 
+    fn is_root(&self) -> bool {
+        self.as_ref().is_root()
+    }
+
+    fn handle_update(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
+        self.as_mut().handle_update(reader)
+    }
+
     fn handle(
         &mut self,
         path: impl Iterator<Item = u32>,
-- 
2.43.0


From ad51f769f9f1134f8a0b5d95236b6cc0c89c5bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 12/25] fix: generate messages that are reachable only through
 a Box

---
 steit/src/impls/box.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/steit/src/impls/box.rs b/steit/src/impls/box.rs
index 177a7d4..850d17d 100644
--- a/steit/src/impls/box.rs
+++ b/steit/src/impls/box.rs
@@ -74,11 +74,7 @@ impl<T: HasMeta> HasMeta for Box<T> {
 
     const TYPE: &'static TypeMeta = T::TYPE;
 
-    const LINK: &'static MetaLink = &MetaLink {
-        r#type: Self::TYPE,
-        msg: None,
-        links: || &[T::LINK],
-    };
+    const LINK: &'static MetaLink = T::LINK;
 }
 
 #[cfg(test)]
-- 
2.43.0


From 08d4a71ed7ddf59e123f9ac05dc6c0e742a20909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:03 +0000
Subject: [PATCH 13/25] fix: accept enum variant fields named like identifiers
 in generated code

---
 steit-derive/src/derive/field.rs  | 11 ++++++-----
 steit-derive/src/derive/struct.rs |  4 ++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/steit-derive/src/derive/field.rs b/steit-derive/src/derive/field.rs
index f2f0bce..6e1c440 100644
--- a/steit-derive/src/derive/field.rs
+++ b/steit-derive/src/derive/field.rs
@@ -154,10 +154,6 @@ impl Field {
         self.init(name.into_token_stream())
     }
 
-    pub fn destructure_alias(&self) -> TokenStream {
-        self.destructure(self.alias())
-    }
-
     pub fn destructure_alias_prefixed(&self, prefix: impl Into<Option<syn::Ident>>) -> TokenStream {
         self.destructure(self.alias_prefixed(prefix))
     }
@@ -179,7 +175,12 @@ impl Field {
     }
 
     pub fn field(&self, is_variant: bool) -> TokenStream {
-        self.field_other(None, is_variant)
+        if is_variant {
+            // Bound under this name by `Struct::destructure`
+            self.alias_prefixed(format_ident!("this")).into_token_stream()
+        } else {
+            self.field_other(None, is_variant)
+        }
     }
 }
 
diff --git a/steit-derive/src/derive/struct.rs b/steit-derive/src/derive/struct.rs
index d7e6297..fc65e3a 100644
--- a/steit-derive/src/derive/struct.rs
+++ b/steit-derive/src/derive/struct.rs
@@ -173,8 +173,8 @@ impl<'a> Struct<'a> {
     }
 
     pub fn destructure(&self) -> TokenStream {
-        let destructure = map_fields!(self, _.destructure_alias());
-        quote!(#(#destructure,)*)
+        // A prefix keeps field names apart from other names in generated code.
+        self.destructure_prefixed(format_ident!("this"))
     }
 
     pub fn destructure_prefixed(&self, prefix: impl Into<Option<syn::Ident>>) -> TokenStream {
-- 
2.43.0


From 60ff764a2b01b3c11f45d0fe7e287932a4ad6373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 14/25] fix: derive State for generic structs without an
 explicit bound

---
 steit-derive/src/derive/struct.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/steit-derive/src/derive/struct.rs b/steit-derive/src/derive/struct.rs
index fc65e3a..b049a4d 100644
--- a/steit-derive/src/derive/struct.rs
+++ b/steit-derive/src/derive/struct.rs
@@ -372,8 +372,9 @@ impl<'a> Struct<'a> {
     fn impl_deserialize(&self) -> TokenStream {
         let merger = self.merger();
 
-        self.impler.impl_for(
+        self.impler.impl_for_with(
             "Deserialize",
+            self.trait_bounds(&["Deserialize"]),
             quote! {
                 fn merge(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
                     #merger
-- 
2.43.0


From d0e18735bfbc662756dfc3b9cdd24f4b99e624d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 15/25] fix: do not pause the shared logger while pushing an
 existing item

---
 steit/src/types/list.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/steit/src/types/list.rs b/steit/src/types/list.rs
index e668a9b..9740851 100644
--- a/steit/src/types/list.rs
+++ b/steit/src/types/list.rs
@@ -51,10 +51,13 @@ impl<T: State> List<T> {
     }
 
     pub fn push(&mut self, mut item: T) -> usize {
-        self.push_with(|runtime| {
-            item.set_runtime(runtime);
-            item
-        })
+        let field_number = self.items.len() as u32;
+
+        item.set_runtime(self.runtime.nested(field_number));
+        self.runtime.log_list_push(&item).unwrap();
+        self.items.push(item);
+
+        field_number as usize
     }
 
     pub fn push_with(&mut self, get_item: impl FnOnce(Runtime) -> T) -> usize {
-- 
2.43.0


From 713980ddd88d83b0b3533f9f1268f89d07e91364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 16/25] fix: generate C# for boxed fields as for their content

A boxed primitive or type parameter was constructed, read and announced as a nested state.
---
 steit/src/gen/generators/csharp.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/steit/src/gen/generators/csharp.rs b/steit/src/gen/generators/csharp.rs
index 214652d..c2cca09 100644
--- a/steit/src/gen/generators/csharp.rs
+++ b/steit/src/gen/generators/csharp.rs
@@ -139,7 +139,7 @@ impl Generator for CSharpGenerator {
 
         // Initiate nested states
         for field in &fields {
-            let init = match field.meta.ty {
+            let init = match field.ty {
                 FieldTypeMeta::Type(TypeMeta::Primitive(_, _)) => None,
                 FieldTypeMeta::Type(TypeMeta::Ref(_, _)) => Some(format!(
                     "new {}(this.Path.GetNested({}))",
@@ -244,7 +244,7 @@ impl Generator for CSharpGenerator {
             .indent();
 
         // Return wire types
-        for field in r#struct.fields {
+        for field in &fields {
             let wire_type = match field.ty {
                 FieldTypeMeta::Type(TypeMeta::Primitive(_, wire_type)) => match wire_type {
                     WireType::Varint => "WireType.Varint".to_string(),
@@ -259,7 +259,7 @@ impl Generator for CSharpGenerator {
                 ),
             };
 
-            writer.writeln(format!("case {}: return {};", field.tag, wire_type));
+            writer.writeln(format!("case {}: return {};", field.meta.tag, wire_type));
         }
 
         writer
@@ -274,7 +274,7 @@ impl Generator for CSharpGenerator {
 
         // Return nested states
         for field in &fields {
-            let nested = match field.meta.ty {
+            let nested = match field.ty {
                 FieldTypeMeta::Type(TypeMeta::Primitive(_, _)) => None,
                 FieldTypeMeta::Type(TypeMeta::Ref(_, _)) => {
                     Some(format!("this.{}", field.upper_camel_case_name))
@@ -300,7 +300,7 @@ impl Generator for CSharpGenerator {
 
         // Replace fields and notify event handlers
         for field in &fields {
-            match field.meta.ty {
+            match field.ty {
                 FieldTypeMeta::Type(TypeMeta::Primitive(_, _)) => {
                     writer.writeln(format!(
                         "case {0}: this.{1} = this.MaybeNotify({0}, reader.Read{2}(), this.{1}, On{1}Update, shouldNotify); break;",
@@ -578,6 +578,7 @@ impl Generator for CSharpGenerator {
 
 struct CSharpField {
     meta: &'static FieldMeta,
+    ty: &'static FieldTypeMeta,
     // UpperCamelCase
     upper_camel_case_name: String,
     type_name: String,
@@ -587,6 +588,7 @@ impl CSharpField {
     pub fn from_meta(field: &'static FieldMeta) -> Self {
         Self {
             meta: field,
+            ty: unbox(field.ty),
             upper_camel_case_name: field
                 .name
                 .csharp(|name| str_util::to_camel_case(name, true)),
@@ -621,6 +623,17 @@ fn type_params(type_params: &'static [&'static str]) -> String {
     format!("<{}>", type_params.join(", "))
 }
 
+/// A box looks the same as its content to C# code.
+fn unbox(ty: &'static FieldTypeMeta) -> &'static FieldTypeMeta {
+    match ty {
+        FieldTypeMeta::Type(TypeMeta::Ref(NameMeta { rust: "Box", .. }, [content])) => {
+            unbox(content)
+        }
+
+        _ => ty,
+    }
+}
+
 fn field_type(ty: &'static FieldTypeMeta) -> String {
     match *ty {
         FieldTypeMeta::Type(ty) => match ty {
-- 
2.43.0


From 2c2ae0434550702da9d55053ab6d63941ab35953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 17/25] fix: derive the constructors that a derived Default
 calls

---
 steit-derive/src/derive/derive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steit-derive/src/derive/derive.rs b/steit-derive/src/derive/derive.rs
index 60b16c8..7fd61ab 100644
--- a/steit-derive/src/derive/derive.rs
+++ b/steit-derive/src/derive/derive.rs
@@ -112,7 +112,7 @@ impl DeriveSetting {
         let has_size_cache = derive_serialize && !no_size_cache.get().unwrap_or_default();
         let has_runtime = derive_state;
 
-        let derive_ctors = derive_deserialize || derive_ctors.get().unwrap_or_default();
+        let derive_ctors = derive_default || derive_ctors.get().unwrap_or_default();
         let derive_setters = derive_state || derive_setters.get().unwrap_or_default();
         let derive_wire_type = derive_serialize || derive_deserialize;
         let derive_meta = derive_deserialize && !no_meta.get().unwrap_or_default();
-- 
2.43.0


From b295bd4a9258e600989c05759f5f93c1fbfb318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 18/25] fix: name the type parameters in the constructors of
 generic enum classes

The generated NewX methods (and those of Maybe.cs) used the bare class
name as type, which C# rejects for a generic class.
---
 steit-csharp/src/Builtins/Maybe.cs | 4 ++--
 steit/src/gen/generators/csharp.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/steit-csharp/src/Builtins/Maybe.cs b/steit-csharp/src/Builtins/Maybe.cs
index ca38583..693a424 100644
--- a/steit-csharp/src/Builtins/Maybe.cs
+++ b/steit-csharp/src/Builtins/Maybe.cs
@@ -33,8 +33,8 @@ namespace Steit.Builtins {
             }
         }
 
-        public static Maybe NewNone(Path path = null) { return new Maybe(path, 0); }
-        public static Maybe NewSome(Path path = null) { return new Maybe(path, 1); }
+        public static Maybe<T> NewNone(Path path = null) { return new Maybe<T>(path, 0); }
+        public static Maybe<T> NewSome(Path path = null) { return new Maybe<T>(path, 1); }
 
         public static event EventHandler<VariantUpdateEventArgs<Maybe<T>>> OnUpdate;
 
diff --git a/steit/src/gen/generators/csharp.rs b/steit/src/gen/generators/csharp.rs
index c2cca09..38ffd44 100644
--- a/steit/src/gen/generators/csharp.rs
+++ b/steit/src/gen/generators/csharp.rs
@@ -475,7 +475,7 @@ impl Generator for CSharpGenerator {
         for variant in &variants {
             writer.writeln(format!(
                 "public static {0} New{1}(Path path = null) {{ return new {0}(path, {2}); }}",
-                name, variant.upper_camel_case_name, variant.meta.tag,
+                type_name, variant.upper_camel_case_name, variant.meta.tag,
             ));
         }
 
-- 
2.43.0


From 34d76a983fd18a89e1a12326edbdd704e8993ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:47 +0000
Subject: [PATCH 19/25] fix: decode signed varints of 64 bits with a logical
 shift in the C# reader

---
 steit-csharp/src/Codec/Reader.cs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/steit-csharp/src/Codec/Reader.cs b/steit-csharp/src/Codec/Reader.cs
index d068dab..2b0e87a 100644
--- a/steit-csharp/src/Codec/Reader.cs
+++ b/steit-csharp/src/Codec/Reader.cs
@@ -38,8 +38,8 @@ namespace Steit.Codec {
         }
 
         public static long ReadSignedVarint(this IReader reader) {
-            long value = (long) reader.ReadUnsignedVarint();
-            return (value >> 1) ^ -(value & 1);
+            ulong value = reader.ReadUnsignedVarint();
+            return (long) (value >> 1) ^ -(long) (value & 1);
         }
 
         public static Byte ReadByte(this IReader reader) { return (Byte) reader.ReadUnsignedVarint(); }
-- 
2.43.0


From 9fe7f1371de36ba8c173d9324a16cd2f5ae9617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 20/25] fix: expect the sized wire type for strings of generic
 C# types

---
 steit-csharp/src/Builtins/Maybe.cs        | 2 +-
 steit-csharp/src/Collections/StateList.cs | 2 +-
 steit-csharp/src/Collections/StateMap.cs  | 2 +-
 steit-csharp/src/State/StateFactory.cs    | 5 +++++
 steit/src/gen/generators/csharp.rs        | 7 +++----
 5 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/steit-csharp/src/Builtins/Maybe.cs b/steit-csharp/src/Builtins/Maybe.cs
index 693a424..c397968 100644
--- a/steit-csharp/src/Builtins/Maybe.cs
+++ b/steit-csharp/src/Builtins/Maybe.cs
@@ -166,7 +166,7 @@ namespace Steit.Builtins {
 
             public WireType? GetWireType(UInt32 tag) {
                 switch (tag) {
-                    case 0: return StateFactory.IsStateType(typeof(T)) ? WireType.Sized : WireType.Varint;
+                    case 0: return StateFactory.GetWireType(typeof(T));
                     default: return null;
                 }
             }
diff --git a/steit-csharp/src/Collections/StateList.cs b/steit-csharp/src/Collections/StateList.cs
index ccef903..55b6c51 100644
--- a/steit-csharp/src/Collections/StateList.cs
+++ b/steit-csharp/src/Collections/StateList.cs
@@ -43,7 +43,7 @@ namespace Steit.Collections {
         }
 
         public WireType? GetWireType(UInt32 tag) {
-            return StateFactory.IsStateType(typeof(T)) ? WireType.Sized : WireType.Varint;
+            return StateFactory.GetWireType(typeof(T));
         }
 
         // public IState? GetNested(UInt32 tag) {
diff --git a/steit-csharp/src/Collections/StateMap.cs b/steit-csharp/src/Collections/StateMap.cs
index c14223a..875bc01 100644
--- a/steit-csharp/src/Collections/StateMap.cs
+++ b/steit-csharp/src/Collections/StateMap.cs
@@ -44,7 +44,7 @@ namespace Steit.Collections {
         }
 
         public WireType? GetWireType(UInt32 tag) {
-            return StateFactory.IsStateType(typeof(T)) ? WireType.Sized : WireType.Varint;
+            return StateFactory.GetWireType(typeof(T));
         }
 
         // public IState? GetNested(UInt32 tag) {
diff --git a/steit-csharp/src/State/StateFactory.cs b/steit-csharp/src/State/StateFactory.cs
index 64ebb8d..1f4f428 100644
--- a/steit-csharp/src/State/StateFactory.cs
+++ b/steit-csharp/src/State/StateFactory.cs
@@ -37,6 +37,11 @@ namespace Steit.State {
             return typeof(IState).IsAssignableFrom(type);
         }
 
+        public static WireType GetWireType(Type type) {
+            // return IsStateType(type) || IsSized[type.FullName!] ? WireType.Sized : WireType.Varint;
+            return IsStateType(type) || IsSized[type.FullName] ? WireType.Sized : WireType.Varint;
+        }
+
         public static void ValidateType(Type type) {
             if (!IsStateType(type) && !IsPrimitiveType(type)) {
                 throw new InvalidOperationException(String.Format("{0} is expected to be a primitive or an IState type.", type.FullName));
diff --git a/steit/src/gen/generators/csharp.rs b/steit/src/gen/generators/csharp.rs
index 38ffd44..4e1321e 100644
--- a/steit/src/gen/generators/csharp.rs
+++ b/steit/src/gen/generators/csharp.rs
@@ -253,10 +253,9 @@ impl Generator for CSharpGenerator {
 
                 FieldTypeMeta::Type(TypeMeta::Ref(_, _)) => "WireType.Sized".to_string(),
 
-                FieldTypeMeta::TypeParam(type_param) => format!(
-                    "StateFactory.IsStateType(typeof({})) ? WireType.Sized : WireType.Varint",
-                    type_param,
-                ),
+                FieldTypeMeta::TypeParam(type_param) => {
+                    format!("StateFactory.GetWireType(typeof({}))", type_param)
+                }
             };
 
             writer.writeln(format!("case {}: return {};", field.meta.tag, wire_type));
-- 
2.43.0


From ad10d3c1e885c19ceab95cde0886c5dc9d7f3c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 21/25] fix: deserialize the C# Option without a path

---
 steit-csharp/src/Builtins/Option.cs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/steit-csharp/src/Builtins/Option.cs b/steit-csharp/src/Builtins/Option.cs
index d3d34e6..210ba52 100644
--- a/steit-csharp/src/Builtins/Option.cs
+++ b/steit-csharp/src/Builtins/Option.cs
@@ -30,6 +30,8 @@ namespace Steit.Builtins {
         }
 
         public static Option<T> Deserialize(IReader reader, Path path = null) {
+            path = path ?? Path.Root;
+
             if (!reader.EndOfStream()) {
                 return Some(path, StateFactory.DeserializeNested<T>(reader, path, 0));
             } else {
-- 
2.43.0


From 5a09402e7d799f675f1683c77da7bea04553a79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 22/25] fix: let the C# state factory construct collections and
 bytes

---
 steit-csharp/src/Builtins/Bytes.cs        | 3 +++
 steit-csharp/src/Collections/StateList.cs | 3 +++
 steit-csharp/src/Collections/StateMap.cs  | 3 +++
 steit-csharp/src/Collections/Vector.cs    | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/steit-csharp/src/Builtins/Bytes.cs b/steit-csharp/src/Builtins/Bytes.cs
index d120867..2342eb4 100644
--- a/steit-csharp/src/Builtins/Bytes.cs
+++ b/steit-csharp/src/Builtins/Bytes.cs
@@ -8,6 +8,9 @@ namespace Steit.Builtins {
     public sealed partial class Bytes : ReadOnlyCollection<Byte>, IState {
         public Path Path { get; }
 
+        // `StateFactory` looks for a constructor which takes exactly a `Path`.
+        public Bytes(Path path) : this(path, null) { }
+
         // public Bytes(Path? path = null, byte[]? bytes = null) : base(bytes ?? new byte[0]) {
         public Bytes(Path path = null, byte[] bytes = null) : base(bytes ?? new byte[0]) {
             this.Path = path ?? Path.Root;
diff --git a/steit-csharp/src/Collections/StateList.cs b/steit-csharp/src/Collections/StateList.cs
index 55b6c51..a0631cb 100644
--- a/steit-csharp/src/Collections/StateList.cs
+++ b/steit-csharp/src/Collections/StateList.cs
@@ -10,6 +10,9 @@ namespace Steit.Collections {
     public sealed partial class StateList<T> : ReadOnlyCollection<T>, IState {
         public Path Path { get; }
 
+        // `StateFactory` looks for a constructor which takes exactly a `Path`.
+        public StateList(Path path) : this(path, null) { }
+
         // public StateList(Path? path = null, IList<T>? items = null) : base(items ?? new List<T>()) {
         public StateList(Path path = null, IList<T> items = null) : base(items ?? new List<T>()) {
             StateFactory.ValidateType(typeof(T));
diff --git a/steit-csharp/src/Collections/StateMap.cs b/steit-csharp/src/Collections/StateMap.cs
index 875bc01..cca6623 100644
--- a/steit-csharp/src/Collections/StateMap.cs
+++ b/steit-csharp/src/Collections/StateMap.cs
@@ -10,6 +10,9 @@ namespace Steit.Collections {
     public sealed partial class StateMap<T> : ReadOnlyDictionary<UInt32, T>, IState {
         public Path Path { get; }
 
+        // `StateFactory` looks for a constructor which takes exactly a `Path`.
+        public StateMap(Path path) : this(path, null) { }
+
         // public StateMap(Path? path = null, IDictionary<UInt32, T>? items = null) : base(items ?? new Dictionary<UInt32, T>()) {
         public StateMap(Path path = null, IDictionary<UInt32, T> items = null) : base(items ?? new Dictionary<UInt32, T>()) {
             StateFactory.ValidateType(typeof(T));
diff --git a/steit-csharp/src/Collections/Vector.cs b/steit-csharp/src/Collections/Vector.cs
index e3dc086..aa3b72d 100644
--- a/steit-csharp/src/Collections/Vector.cs
+++ b/steit-csharp/src/Collections/Vector.cs
@@ -9,6 +9,9 @@ namespace Steit.Collections {
     public sealed partial class Vector<T> : ReadOnlyCollection<T>, IState {
         public Path Path { get; }
 
+        // `StateFactory` looks for a constructor which takes exactly a `Path`.
+        public Vector(Path path) : this(path, null) { }
+
         // public Vector(Path? path = null, IList<T>? items = null) : base(items ?? new List<T>()) {
         public Vector(Path path = null, IList<T> items = null) : base(items ?? new List<T>()) {
             StateFactory.ValidateType(typeof(T));
-- 
2.43.0


From dfeabd3efe59a8a2054ca6a7f4a72c8ce1260c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 23/25] fix: give the local variables of generated C# classes a
 name that is free

---
 steit-csharp/src/Builtins/Maybe.cs | 18 +++++++++---------
 steit-csharp/src/State/LogEntry.cs | 30 +++++++++++++++---------------
 steit/src/gen/generators/csharp.rs | 20 ++++++--------------
 3 files changed, 30 insertions(+), 38 deletions(-)

diff --git a/steit-csharp/src/Builtins/Maybe.cs b/steit-csharp/src/Builtins/Maybe.cs
index c397968..2eef6c4 100644
--- a/steit-csharp/src/Builtins/Maybe.cs
+++ b/steit-csharp/src/Builtins/Maybe.cs
@@ -43,9 +43,9 @@ namespace Steit.Builtins {
         }
 
         public static Maybe<T> Deserialize(IReader reader, Path path = null) {
-            var maybe = new Maybe<T>(path);
-            maybe.Replace(reader, shouldNotify: false);
-            return maybe;
+            var state = new Maybe<T>(path);
+            state.Replace(reader, shouldNotify: false);
+            return state;
         }
 
         public WireType? GetWireType(UInt32 tag) {
@@ -94,9 +94,9 @@ namespace Steit.Builtins {
             public static void ClearUpdateHandlers() { }
 
             internal static None Deserialize(IReader reader, Path path = null) {
-                var none = new None(path);
-                none.Replace(reader, shouldNotify: false);
-                return none;
+                var state = new None(path);
+                state.Replace(reader, shouldNotify: false);
+                return state;
             }
 
             public WireType? GetWireType(UInt32 tag) {
@@ -159,9 +159,9 @@ namespace Steit.Builtins {
             }
 
             internal static Some Deserialize(IReader reader, Path path = null) {
-                var some = new Some(path);
-                some.Replace(reader, shouldNotify: false);
-                return some;
+                var state = new Some(path);
+                state.Replace(reader, shouldNotify: false);
+                return state;
             }
 
             public WireType? GetWireType(UInt32 tag) {
diff --git a/steit-csharp/src/State/LogEntry.cs b/steit-csharp/src/State/LogEntry.cs
index 782278e..7616414 100644
--- a/steit-csharp/src/State/LogEntry.cs
+++ b/steit-csharp/src/State/LogEntry.cs
@@ -50,9 +50,9 @@ namespace Steit.State {
         }
 
         public static LogEntry Deserialize(IReader reader, Path path = null) {
-            var logEntry = new LogEntry(path);
-            logEntry.Replace(reader, shouldNotify: false);
-            return logEntry;
+            var state = new LogEntry(path);
+            state.Replace(reader, shouldNotify: false);
+            return state;
         }
 
         public WireType? GetWireType(UInt32 tag) {
@@ -119,9 +119,9 @@ namespace Steit.State {
             }
 
             internal static Update Deserialize(IReader reader, Path path = null) {
-                var update = new Update(path);
-                update.Replace(reader, shouldNotify: false);
-                return update;
+                var state = new Update(path);
+                state.Replace(reader, shouldNotify: false);
+                return state;
             }
 
             public WireType? GetWireType(UInt32 tag) {
@@ -194,9 +194,9 @@ namespace Steit.State {
             }
 
             internal static ListPush Deserialize(IReader reader, Path path = null) {
-                var listPush = new ListPush(path);
-                listPush.Replace(reader, shouldNotify: false);
-                return listPush;
+                var state = new ListPush(path);
+                state.Replace(reader, shouldNotify: false);
+                return state;
             }
 
             public WireType? GetWireType(UInt32 tag) {
@@ -265,9 +265,9 @@ namespace Steit.State {
             }
 
             internal static ListPop Deserialize(IReader reader, Path path = null) {
-                var listPop = new ListPop(path);
-                listPop.Replace(reader, shouldNotify: false);
-                return listPop;
+                var state = new ListPop(path);
+                state.Replace(reader, shouldNotify: false);
+                return state;
             }
 
             public WireType? GetWireType(UInt32 tag) {
@@ -336,9 +336,9 @@ namespace Steit.State {
             }
 
             internal static MapRemove Deserialize(IReader reader, Path path = null) {
-                var mapRemove = new MapRemove(path);
-                mapRemove.Replace(reader, shouldNotify: false);
-                return mapRemove;
+                var state = new MapRemove(path);
+                state.Replace(reader, shouldNotify: false);
+                return state;
             }
 
             public WireType? GetWireType(UInt32 tag) {
diff --git a/steit/src/gen/generators/csharp.rs b/steit/src/gen/generators/csharp.rs
index 4e1321e..5bd5650 100644
--- a/steit/src/gen/generators/csharp.rs
+++ b/steit/src/gen/generators/csharp.rs
@@ -75,7 +75,6 @@ impl Generator for CSharpGenerator {
         writer: &mut Writer,
     ) {
         let name = r#struct.name.csharp(String::from);
-        let var_name = str_util::uncap_first_char(&name);
 
         let type_name = if !is_variant {
             format!("{}{}", &name, type_params(r#struct.type_params))
@@ -231,12 +230,9 @@ impl Generator for CSharpGenerator {
                 "{} static {} Deserialize(IReader reader, Path path = null) {{",
                 variant_accessibility, type_name,
             ))
-            .indent_writeln(format!("var {} = new {}(path);", var_name, type_name))
-            .writeln(format!(
-                "{}.Replace(reader, shouldNotify: false);",
-                var_name
-            ))
-            .writeln(format!("return {};", var_name))
+            .indent_writeln(format!("var state = new {}(path);", type_name))
+            .writeln("state.Replace(reader, shouldNotify: false);")
+            .writeln("return state;")
             .outdent_writeln("}")
             .newline()
             .writeln("public WireType? GetWireType(UInt32 tag) {")
@@ -372,7 +368,6 @@ impl Generator for CSharpGenerator {
 
     fn gen_enum(&self, r#enum: &EnumMeta, setting: &Self::Setting, writer: &mut Writer) {
         let name = r#enum.name.csharp(String::from);
-        let var_name = str_util::uncap_first_char(&name);
         let type_name = format!("{}{}", &name, type_params(r#enum.type_params));
 
         let variants: Vec<_> = r#enum
@@ -495,12 +490,9 @@ impl Generator for CSharpGenerator {
                 "public static {} Deserialize(IReader reader, Path path = null) {{",
                 type_name,
             ))
-            .indent_writeln(format!("var {} = new {}(path);", var_name, type_name))
-            .writeln(format!(
-                "{}.Replace(reader, shouldNotify: false);",
-                var_name
-            ))
-            .writeln(format!("return {};", var_name))
+            .indent_writeln(format!("var state = new {}(path);", type_name))
+            .writeln("state.Replace(reader, shouldNotify: false);")
+            .writeln("return state;")
             .outdent_writeln("}")
             .newline()
             .writeln("public WireType? GetWireType(UInt32 tag) {")
-- 
2.43.0


From 3c159847f2f4dfa47a8b43728ad0669c1fa8d580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 24/25] fix: let types whose names differ only in case or
 underscores share a module

The macro named a constant after the type, in snake case, so that `AB` and
`A_b` in one module defined the same constant twice and did not compile.
---
 steit-derive/src/derive/derive.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/steit-derive/src/derive/derive.rs b/steit-derive/src/derive/derive.rs
index 7fd61ab..193caee 100644
--- a/steit-derive/src/derive/derive.rs
+++ b/steit-derive/src/derive/derive.rs
@@ -5,7 +5,6 @@ use crate::{
     attr::{Attribute, AttributeParse},
     ctx::Context,
     r#impl::Implementer,
-    str_util,
 };
 
 use super::{r#enum::Enum, r#struct::Struct};
@@ -200,7 +199,7 @@ pub fn derive(args: syn::AttributeArgs, mut input: syn::DeriveInput) -> TokenStr
         }
     };
 
-    let output = wrap_in_const(&setting, &input.ident, output);
+    let output = wrap_in_const(&setting, output);
     let derives = setting.derives;
     let errors = ctx.check().err().map(to_compile_errors);
 
@@ -236,17 +235,12 @@ fn to_compile_errors(errors: Vec<syn::Error>) -> TokenStream {
     quote!(#(#compile_errors)*)
 }
 
-fn wrap_in_const(setting: &DeriveSetting, name: &syn::Ident, tokens: TokenStream) -> TokenStream {
-    let dummy_const = format_ident!(
-        "_IMPL_STEIT_FOR_{}",
-        str_util::to_snake_case(name.to_string()).to_uppercase(),
-    );
-
+fn wrap_in_const(setting: &DeriveSetting, tokens: TokenStream) -> TokenStream {
     let extern_crate = setting.extern_crate();
     let krate = setting.krate();
 
     quote! {
-        const #dummy_const: () = {
+        const _: () = {
             #extern_crate
 
             use std::{
-- 
2.43.0


From 92314050a8386f844fcfc034aa91fb21f066d216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:23 +0000
Subject: [PATCH 25/25] fix: let a state with a field named runtime be part of
 other states

The setter of such a field (allowed by runtime_renamed) is a method named
set_runtime, which hid State::set_runtime in the code derived for types
that contain the state.
---
 steit-derive/src/derive/field.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/steit-derive/src/derive/field.rs b/steit-derive/src/derive/field.rs
index 6e1c440..f53d96c 100644
--- a/steit-derive/src/derive/field.rs
+++ b/steit-derive/src/derive/field.rs
@@ -300,7 +300,7 @@ impl<'a> DeriveField<'a> {
                     pub fn #setter_name(&mut self, mut value: #ty) -> &mut Self {
                         #reset_variant
                         #declare_runtime
-                        value.set_runtime(runtime.nested(#tag));
+                        State::set_runtime(&mut value, runtime.nested(#tag));
                         #log_update
                         #set_value
                         self
@@ -384,7 +384,9 @@ impl<'a> DeriveField<'a> {
         if self.is_state() {
             let tag = self.tag();
             let field = self.field(is_variant);
-            Some(quote! { #field.set_runtime(runtime.nested(#tag)); })
+            // Variant fields are already bound by mutable references
+            let borrow = if is_variant { None } else { Some(quote!(&mut)) };
+            Some(quote! { State::set_runtime(#borrow #field, runtime.nested(#tag)); })
         } else {
             None
         }
-- 
2.43.0

