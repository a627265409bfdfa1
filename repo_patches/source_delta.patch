From 21288b607b7f5fc992fb76ca0bb015c204a96a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:11 +0000
Subject: [PATCH 01/51] fix: read and write scalars through unaligned accesses

read_scalar and emplace_scalar dereferenced a *const T / *mut T made from a byte
slice of any alignment; e.g. read_scalar_at::<u32>(&buf, 1) was undefined
behaviour (and panics in debug builds).
---
 butte/src/endian_scalar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/butte/src/endian_scalar.rs b/butte/src/endian_scalar.rs
index 1264591..5f5f25b 100644
--- a/butte/src/endian_scalar.rs
+++ b/butte/src/endian_scalar.rs
@@ -157,7 +157,7 @@ pub fn emplace_scalar<T: EndianScalar>(s: &mut [u8], x: T) {
     let mut_ptr = (&mut s[..sz]).as_mut_ptr() as *mut T;
     let val = x.to_little_endian();
     unsafe {
-        *mut_ptr = val;
+        mut_ptr.write_unaligned(val);
     }
 }
 
@@ -176,7 +176,7 @@ pub fn read_scalar<T: EndianScalar>(s: &[u8]) -> Result<T, Error> {
     let sz = size_of::<T>();
 
     let p = s.get(..sz).ok_or(Error::OutOfBounds)?.as_ptr() as *const T;
-    let x = unsafe { *p };
+    let x = unsafe { p.read_unaligned() };
 
     Ok(x.from_little_endian())
 }
-- 
2.43.0


From d1e2543f7ad7f56f4edb29fedbc168399bd51e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:11 +0000
Subject: [PATCH 02/51] fix: reject vtable offsets that point before the buffer

BackwardsSOffset::follow computed loc - off in i32 and cast a negative result to
a huge usize: the table of [4,0,0,0,5,0,0,0] panicked (debug) instead of
reporting OutOfBounds, and locations above 2 GiB were truncated.
---
 butte/src/primitives.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/butte/src/primitives.rs b/butte/src/primitives.rs
index 6bfe7fc..0ac11b7 100644
--- a/butte/src/primitives.rs
+++ b/butte/src/primitives.rs
@@ -258,7 +258,11 @@ impl<'a, T: Follow<'a>> Follow<'a> for BackwardsSOffset<T> {
     fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, Error> {
         let slice = buf.get(loc..loc + SIZE_SOFFSET).ok_or(Error::OutOfBounds)?;
         let off = read_scalar::<SOffsetT>(slice)?;
-        T::follow(buf, (loc as SOffsetT - off) as usize)
+        let target = loc as i64 - i64::from(off);
+        if target < 0 {
+            return Err(Error::OutOfBounds);
+        }
+        T::follow(buf, target as usize)
     }
 }
 
-- 
2.43.0


From 61c777a26685833a3d10956b4ee056d748f541ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:11 +0000
Subject: [PATCH 03/51] fix: VTable::num_fields underflow and get_field off by
 one

A vtable length below 4 made num_fields underflow (panic in debug builds), and
get_field(num_fields) read the two bytes after the vtable as a field offset.
---
 butte/src/vtable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/butte/src/vtable.rs b/butte/src/vtable.rs
index cc7df14..493c32f 100644
--- a/butte/src/vtable.rs
+++ b/butte/src/vtable.rs
@@ -36,7 +36,7 @@ impl<'a> VTable<'a> {
         VTable { buf, loc }
     }
     pub fn num_fields(&self) -> Result<usize, Error> {
-        Ok((self.num_bytes()? / SIZE_VOFFSET) - 2)
+        Ok((self.num_bytes()? / SIZE_VOFFSET).saturating_sub(2))
     }
     pub fn num_bytes(&self) -> Result<usize, Error> {
         Ok(read_scalar_at::<VOffsetT>(self.buf, self.loc)? as usize)
@@ -46,7 +46,7 @@ impl<'a> VTable<'a> {
         Ok(n as usize)
     }
     pub fn get_field(&self, idx: usize) -> Result<Option<VOffsetT>, Error> {
-        if idx > self.num_fields()? {
+        if idx >= self.num_fields()? {
             return Ok(None);
         }
         read_scalar_at::<VOffsetT>(
-- 
2.43.0


From 7dc083842b9068807840fa42192444fcaabb8278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:11 +0000
Subject: [PATCH 04/51] fix: reset forgets the fields of an unfinished table

reset() left field_locs filled when called while a table was open; the next
table's vtable then contained the stale entries.
---
 butte/src/builder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/butte/src/builder.rs b/butte/src/builder.rs
index bcf4418..5f14b52 100644
--- a/butte/src/builder.rs
+++ b/butte/src/builder.rs
@@ -111,6 +111,7 @@ impl<'fbb> FlatBufferBuilder<'fbb> {
 
         self.head = self.owned_buf.len();
         self.written_vtable_revpos.clear();
+        self.field_locs.clear();
 
         self.nested = false;
         self.finished = false;
-- 
2.43.0


From cca4dae67e21fa8360bacfffb84e3616fc852c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:11 +0000
Subject: [PATCH 05/51] fix: create_vector checks that nothing is under
 construction

Like every other create_* function; a vector created inside an open table was
silently placed in the middle of the table's inline data.
---
 butte/src/builder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/butte/src/builder.rs b/butte/src/builder.rs
index 5f14b52..b6bafb6 100644
--- a/butte/src/builder.rs
+++ b/butte/src/builder.rs
@@ -318,6 +318,9 @@ impl<'fbb> FlatBufferBuilder<'fbb> {
         &'a mut self,
         items: &'b [T],
     ) -> WIPOffset<Vector<'fbb, T::Output>> {
+        self.assert_not_nested(
+            "create_vector can not be called when a table or vector is under construction",
+        );
         let elem_size = T::size();
         self.align(items.len() * elem_size, T::alignment().max_of(SIZE_UOFFSET));
         for i in (0..items.len()).rev() {
-- 
2.43.0


From 1e7ca83acef92450ed49214c944724e4d6e0cf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:11 +0000
Subject: [PATCH 06/51] fix: enforce the 2 GiB limit on the total size

ensure_capacity compared only the size of the current write with the limit, so
many small writes could grow the data past it and wrap the 32-bit offsets.
---
 butte/src/builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/butte/src/builder.rs b/butte/src/builder.rs
index b6bafb6..488cb6a 100644
--- a/butte/src/builder.rs
+++ b/butte/src/builder.rs
@@ -641,7 +641,8 @@ impl<'fbb> FlatBufferBuilder<'fbb> {
             return want;
         }
         assert!(
-            want <= FLATBUFFERS_MAX_BUFFER_SIZE,
+            want <= FLATBUFFERS_MAX_BUFFER_SIZE
+                && self.used_space() <= FLATBUFFERS_MAX_BUFFER_SIZE - want,
             "cannot grow buffer beyond 2 gigabytes"
         );
 
-- 
2.43.0


From 1654dd341029f65b2394d6e8efa6dee3f1fe6f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:11 +0000
Subject: [PATCH 07/51] fix: reject tables whose inline data exceeds 64 KiB in
 release builds too

vtable entries are 16 bit; without the check the field offsets were silently
truncated and the buffer read back wrong values.
---
 butte/src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butte/src/builder.rs b/butte/src/builder.rs
index 488cb6a..464ea79 100644
--- a/butte/src/builder.rs
+++ b/butte/src/builder.rs
@@ -457,7 +457,7 @@ impl<'fbb> FlatBufferBuilder<'fbb> {
 
         // compute the length of the table (not vtable!) in bytes:
         let table_object_size = object_revloc_to_vtable.value() - table_tail_revloc.value();
-        debug_assert!(table_object_size < 0x10000); // vTable use 16bit offsets.
+        assert!(table_object_size < 0x10000); // vTable use 16bit offsets.
 
         // Write the VTable (we may delete it afterwards, if it is a duplicate):
         let vt_start_pos = self.head;
-- 
2.43.0


From bdf89629eab3ac8932695f5a54562d2181ac198a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:11 +0000
Subject: [PATCH 08/51] fix: VectorIter::nth with a huge argument returns None

The multiplication overflowed (panic in debug builds) although the comment
relies on wrapping: vec.iter().nth(usize::MAX).
---
 butte/src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butte/src/vector.rs b/butte/src/vector.rs
index dfd2c46..0a5ff0c 100644
--- a/butte/src/vector.rs
+++ b/butte/src/vector.rs
@@ -252,7 +252,7 @@ impl<'a, T: Follow<'a> + 'a> Iterator for VectorIter<'a, T> {
 
         // Note that this might overflow, but that is okay because
         // in that case self.remaining will have been set to zero.
-        self.loc = self.loc.wrapping_add(sz * n);
+        self.loc = self.loc.wrapping_add(sz.wrapping_mul(n));
 
         self.next()
     }
-- 
2.43.0


From e0a2a3336e286c9d96f48dfd2958e24619572fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:38 +0000
Subject: [PATCH 09/51] fix: slice views of misaligned vectors are an error

Vector::safe_slice and <&[T]>::follow built a &[T] from any byte position; with
a buffer or vector that is not aligned for T that is undefined behaviour (and an
abort in debug builds).
---
 butte/src/error.rs  | 3 +++
 butte/src/vector.rs | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/butte/src/error.rs b/butte/src/error.rs
index c7a622d..ccf41b5 100644
--- a/butte/src/error.rs
+++ b/butte/src/error.rs
@@ -17,6 +17,8 @@ pub enum Error {
     UnknownUnionVariant,
     /// Returned if a type doesn't have a default value
     NoTypeDefaultValue,
+    /// Returned if a slice view is not aligned for its element type
+    Misaligned,
 }
 
 impl fmt::Display for Error {
@@ -29,6 +31,7 @@ impl fmt::Display for Error {
             Error::UnknownEnumVariant => write!(f, "unknown enum variant"),
             Error::UnknownUnionVariant => write!(f, "unknown union variant"),
             Error::NoTypeDefaultValue => write!(f, "type does not have a default value"),
+            Error::Misaligned => write!(f, "vector is not aligned for its element type"),
         }
     }
 }
diff --git a/butte/src/vector.rs b/butte/src/vector.rs
index 0a5ff0c..59fcfc1 100644
--- a/butte/src/vector.rs
+++ b/butte/src/vector.rs
@@ -18,7 +18,7 @@
 use std::{
     iter::{DoubleEndedIterator, ExactSizeIterator, FusedIterator},
     marker::PhantomData,
-    mem::size_of,
+    mem::{align_of, size_of},
     slice::from_raw_parts,
     str::from_utf8,
 };
@@ -93,6 +93,9 @@ impl<'a, T: SafeSliceAccess + 'a> Vector<'a, T> {
             .get(loc + SIZE_UOFFSET..loc + SIZE_UOFFSET + len * sz)
             .ok_or(Error::OutOfBounds)?;
         let ptr = data_buf.as_ptr() as *const T;
+        if ptr as usize % align_of::<T>() != 0 {
+            return Err(Error::Misaligned);
+        }
         let s: &'a [T] = unsafe { from_raw_parts(ptr, len) };
         Ok(s)
     }
@@ -169,6 +172,9 @@ fn follow_slice_helper<T>(buf: &[u8], loc: usize) -> Result<&[T], Error> {
         .get(loc + SIZE_UOFFSET..loc + SIZE_UOFFSET + len * sz)
         .ok_or(Error::OutOfBounds)?;
     let ptr = data_buf.as_ptr() as *const T;
+    if ptr as usize % align_of::<T>() != 0 {
+        return Err(Error::Misaligned);
+    }
     let s: &[T] = unsafe { from_raw_parts(ptr, len) };
     Ok(s)
 }
-- 
2.43.0


From a09141bfd4f1470dc34332c7550583f4dc0f4e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:54 +0000
Subject: [PATCH 10/51] fix: check the 2 GiB limit even when the buffer has
 room

growing doubles the buffer, which may leave room beyond the limit: later writes
into that room were not checked, so the data could still exceed 2 GiB.
---
 butte/src/builder.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/butte/src/builder.rs b/butte/src/builder.rs
index 464ea79..e140297 100644
--- a/butte/src/builder.rs
+++ b/butte/src/builder.rs
@@ -637,14 +637,14 @@ impl<'fbb> FlatBufferBuilder<'fbb> {
 
     #[inline]
     fn ensure_capacity(&mut self, want: usize) -> usize {
-        if self.unused_ready_space() >= want {
-            return want;
-        }
         assert!(
             want <= FLATBUFFERS_MAX_BUFFER_SIZE
                 && self.used_space() <= FLATBUFFERS_MAX_BUFFER_SIZE - want,
             "cannot grow buffer beyond 2 gigabytes"
         );
+        if self.unused_ready_space() >= want {
+            return want;
+        }
 
         while self.unused_ready_space() < want {
             self.grow_owned_buf();
-- 
2.43.0


From c644fb953c8238ce6a4228288c123762481f4b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:55 +0000
Subject: [PATCH 11/51] fix: reject slots whose vtable length does not fit 16
 bits

a field in slot 65534 makes a vtable of 65536 bytes, whose length was written
as 0: the field could not be read back.
---
 butte/src/builder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/butte/src/builder.rs b/butte/src/builder.rs
index e140297..fbb6289 100644
--- a/butte/src/builder.rs
+++ b/butte/src/builder.rs
@@ -453,6 +453,7 @@ impl<'fbb> FlatBufferBuilder<'fbb> {
 
         // fill the WIP vtable with zeros:
         let vtable_byte_len = get_vtable_byte_len(&self.field_locs);
+        assert!(vtable_byte_len < 0x10000); // its length is a 16bit field.
         self.make_space(vtable_byte_len);
 
         // compute the length of the table (not vtable!) in bytes:
-- 
2.43.0


From 9e1d41219e24bfe7d75b33cc0cd457e907ad6544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:10 +0000
Subject: [PATCH 12/51] fix: report unparsed input of any length without
 panicking

---
 butte-build/src/compile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butte-build/src/compile.rs b/butte-build/src/compile.rs
index 1f22894..f664e1a 100644
--- a/butte-build/src/compile.rs
+++ b/butte-build/src/compile.rs
@@ -28,7 +28,7 @@ pub fn compile_fbs_generic(
     if !rest.is_empty() {
         return Err(anyhow!(
             "Parse was incomplete: not parsed: {}...",
-            &rest[..30]
+            rest.chars().take(30).collect::<String>()
         ));
     }
     let root = Builder::build(schema).map_err(|e| anyhow!("semantic analysis failed, {}", e))?;
-- 
2.43.0


From 926c121871dbc0afbe451ac855dc579ebcd74293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:12 +0000
Subject: [PATCH 13/51] fix: a failing rustfmt is an error, not an empty output

---
 butte-build/src/compile.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/compile.rs b/butte-build/src/compile.rs
index f664e1a..23cd13e 100644
--- a/butte-build/src/compile.rs
+++ b/butte-build/src/compile.rs
@@ -50,7 +50,11 @@ pub fn compile_fbs_generic(
             .as_mut()
             .ok_or_else(|| anyhow!("cannot access stdin"))?
             .write_all(code.as_bytes())?;
-        cmd.wait_with_output()?.stdout
+        let formatted = cmd.wait_with_output()?;
+        if !formatted.status.success() {
+            return Err(anyhow!("rustfmt failed: {}", formatted.status));
+        }
+        formatted.stdout
     } else {
         Vec::from(code)
     };
-- 
2.43.0


From 99d714b1fef7ad1d52954fd6d665a15e6124e810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:14 +0000
Subject: [PATCH 14/51] fix: compile_fbs leaves the output alone when the
 schema does not compile

---
 butte-build/src/compile.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/butte-build/src/compile.rs b/butte-build/src/compile.rs
index 23cd13e..afef8ac 100644
--- a/butte-build/src/compile.rs
+++ b/butte-build/src/compile.rs
@@ -16,9 +16,20 @@ use anyhow::{anyhow, Result};
 pub fn compile_fbs_generic(
     ugly: bool,
     rpc_gen: Option<Box<dyn RpcGenerator>>,
-    mut input: Box<dyn io::Read>,
+    input: Box<dyn io::Read>,
     mut output: Box<dyn io::Write>,
 ) -> Result<()> {
+    let text_output = generate(ugly, rpc_gen, input)?;
+    output.write_all(&text_output[..])?;
+    Ok(())
+}
+
+/// Generate Rust code for a single flatbuffer schema file.
+fn generate(
+    ugly: bool,
+    rpc_gen: Option<Box<dyn RpcGenerator>>,
+    mut input: Box<dyn io::Read>,
+) -> Result<Vec<u8>> {
     let mut schema_text = String::new();
     input.read_to_string(&mut schema_text)?;
 
@@ -58,8 +69,7 @@ pub fn compile_fbs_generic(
     } else {
         Vec::from(code)
     };
-    output.write_all(&text_output[..])?;
-    Ok(())
+    Ok(text_output)
 }
 
 /// Generate Rust code for a single flatbuffer schema file.
@@ -73,11 +83,8 @@ pub fn compile_fbs(path: impl AsRef<Path>) -> Result<()> {
             .ok_or_else(|| anyhow!("path has no file_name: {:?}", path_ref))?,
     );
     let ugly = false;
-    compile_fbs_generic(
-        ugly,
-        None,
-        Box::new(std::fs::File::open(path_ref)?),
-        Box::new(std::fs::File::create(output_path)?),
-    )?;
+    let text_output = generate(ugly, None, Box::new(std::fs::File::open(path_ref)?))?;
+    // only touch the output once there is something to put there
+    std::fs::write(output_path, text_output)?;
     Ok(())
 }
-- 
2.43.0


From 32c513df424047eb3192c1a6422d9935498581c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:16 +0000
Subject: [PATCH 15/51] fix: unsupported declarations are errors instead of
 panics

---
 butte-build/src/ir/transform.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index cfbd41e..7419747 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -74,10 +74,10 @@ impl<'a> Builder<'a> {
             ast::Element::Union(u) => self.new_union(u, pos),
             ast::Element::Rpc(r) => self.new_rpc(r, pos),
             ast::Element::Root(r) => self.new_root(r, pos),
-            ast::Element::FileExtension(..) => unimplemented!(),
-            ast::Element::FileIdentifier(..) => unimplemented!(),
-            ast::Element::Attribute(..) => unimplemented!(),
-            ast::Element::Object(..) => unimplemented!(),
+            ast::Element::FileExtension(..) => Err(anyhow!("file_extension is not supported")),
+            ast::Element::FileIdentifier(..) => Err(anyhow!("file_identifier is not supported")),
+            ast::Element::Attribute(..) => Err(anyhow!("attribute is not supported")),
+            ast::Element::Object(..) => Err(anyhow!("objects are not supported")),
         }
     }
 
-- 
2.43.0


From e6380f026959ca27b565c924ba97c9c254828cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:20 +0000
Subject: [PATCH 16/51] fix: structs are reported as unsupported instead of
 panicking

---
 butte-build/src/codegen.rs | 19 +++++++++++--------
 butte-build/src/compile.rs |  2 +-
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 2a1b532..861c2b3 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -1,5 +1,6 @@
 use crate::{ast::types as ast, ir::types as ir};
 
+use anyhow::{anyhow, Result};
 use butte::VOffsetT;
 use heck::{ShoutySnakeCase, SnakeCase};
 use itertools::Itertools;
@@ -1097,18 +1098,19 @@ pub struct CodeGenerator<'a> {
 }
 
 impl<'a> CodeGenerator<'a> {
-    pub fn build_token_stream(&mut self) -> TokenStream {
+    pub fn build_token_stream(&mut self) -> Result<TokenStream> {
         let mut token_stream = TokenStream::default();
-        self.build_tokens(&mut token_stream);
-        token_stream
+        self.build_tokens(&mut token_stream)?;
+        Ok(token_stream)
     }
 
-    pub fn build_tokens(&mut self, tokens: &mut TokenStream) {
+    pub fn build_tokens(&mut self, tokens: &mut TokenStream) -> Result<()> {
         let mut rpc_gen = self.rpc_gen.take();
 
         for node in &self.root.nodes {
-            self.node_to_tokens(node, &mut rpc_gen, tokens);
+            self.node_to_tokens(node, &mut rpc_gen, tokens)?;
         }
+        Ok(())
     }
 
     fn node_to_tokens(
@@ -1116,7 +1118,7 @@ impl<'a> CodeGenerator<'a> {
         node: &ir::Node<'a>,
         rpc_gen: &mut Option<Box<dyn RpcGenerator>>,
         tokens: &mut TokenStream,
-    ) {
+    ) -> Result<()> {
         // The following constructs are (or should be) handled at the file level:
         // * Namespaces
         // * Root types
@@ -1134,7 +1136,7 @@ impl<'a> CodeGenerator<'a> {
                 let ident = format_ident!("{}", n.ident.simple().as_ref().to_snake_case());
                 let mut nodes_ts = TokenStream::default();
                 for node in &n.nodes {
-                    self.node_to_tokens(node, rpc_gen, &mut nodes_ts);
+                    self.node_to_tokens(node, rpc_gen, &mut nodes_ts)?;
                 }
                 (quote! {
                     pub mod #ident {
@@ -1148,8 +1150,9 @@ impl<'a> CodeGenerator<'a> {
                     gen.generate(rpc, tokens)
                 }
             }
-            element => panic!("{:?}", element),
+            ir::Node::Struct(s) => return Err(anyhow!("structs are not supported: {}", s.ident)),
         }
+        Ok(())
     }
 }
 
diff --git a/butte-build/src/compile.rs b/butte-build/src/compile.rs
index afef8ac..f288703 100644
--- a/butte-build/src/compile.rs
+++ b/butte-build/src/compile.rs
@@ -46,7 +46,7 @@ fn generate(
 
     let mut generator = CodeGenerator { root, rpc_gen };
 
-    let code = format!("{}", generator.build_token_stream());
+    let code = format!("{}", generator.build_token_stream()?);
 
     let text_output = if !ugly {
         let mut cmd = Command::new("rustfmt")
-- 
2.43.0


From fdef5d2bdf5ab65c911c18c9a49a5e94b98ae6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:56 +0000
Subject: [PATCH 17/51] fix: resolve forward references in the namespace of
 their declaration

---
 butte-build/src/ir/transform.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 7419747..74fd008 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -16,7 +16,7 @@ pub struct Builder<'a> {
 }
 
 #[derive(Clone, Debug)]
-struct IndexedElement<'a>(usize, ast::Element<'a>);
+struct IndexedElement<'a>(usize, Option<ast::Namespace<'a>>, ast::Element<'a>);
 
 #[derive(Clone, Debug, PartialEq)]
 enum CustomTypeStatus<'a> {
@@ -64,10 +64,12 @@ impl<'a> NamespaceBuf<'a> {
 impl<'a> Builder<'a> {
     fn new_element(
         &mut self,
-        &IndexedElement(pos, ref element): &IndexedElement<'a>,
+        &IndexedElement(pos, ref namespace, ref element): &IndexedElement<'a>,
     ) -> Result<bool> {
+        // An element belongs to the namespace it was declared in, no matter when it is resolved
+        self.current_namespace = namespace.clone();
         match element {
-            ast::Element::Namespace(n) => self.new_namespace(n),
+            ast::Element::Namespace(_) => Ok(true), // accounted for in `build`
             ast::Element::Table(t) => self.new_table(t, pos),
             ast::Element::Struct(s) => self.new_struct(s, pos),
             ast::Element::Enum(e) => self.new_enum(e, pos),
@@ -81,11 +83,6 @@ impl<'a> Builder<'a> {
         }
     }
 
-    fn new_namespace(&mut self, ns: &ast::Namespace<'a>) -> Result<bool> {
-        self.current_namespace = Some(ns.clone());
-        Ok(true)
-    }
-
     fn new_table(&mut self, t: &ast::Table<'a>, pos: usize) -> Result<bool> {
         // Has this type been referenced before?
         // Let's find out and update the status.
@@ -534,12 +531,19 @@ impl<'a> Builder<'a> {
         let mut context = Builder::default();
 
         // Keep track of the definition order,
-        // mostly to build IR deterministically
+        // mostly to build IR deterministically,
+        // and of the namespace each element is declared in
+        let mut namespace = None;
         let mut input: VecDeque<_> = schema
             .elements
             .into_iter()
             .enumerate()
-            .map(|(i, el)| IndexedElement(i, el))
+            .map(|(i, el)| {
+                if let ast::Element::Namespace(ref ns) = el {
+                    namespace = Some(ns.clone());
+                }
+                IndexedElement(i, namespace.clone(), el)
+            })
             .collect();
 
         // Loop until all types can be defined
@@ -559,7 +563,7 @@ impl<'a> Builder<'a> {
                 if context.nodes.len() == nodes_len {
                     let unsatisfied_elements = unsatisfied
                         .into_iter()
-                        .map(|IndexedElement(_, element)| element)
+                        .map(|IndexedElement(_, _, element)| element)
                         .collect::<Vec<_>>();
                     return Err(anyhow!("Unable to type schema: the following definitions referenced items not found: {:?}", unsatisfied_elements));
                     // TODO proper reporting
-- 
2.43.0


From 5d101ab06541e415aa270857230e45bb0809c3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:58 +0000
Subject: [PATCH 18/51] fix: declaring a table is progress when resolving
 references

---
 butte-build/src/ir/transform.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 74fd008..d7d948e 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -550,7 +550,7 @@ impl<'a> Builder<'a> {
         // or stop if we make no progress
         loop {
             let mut unsatisfied = VecDeque::new();
-            let nodes_len = context.nodes.len();
+            let progress = (context.nodes.len(), context.types.len());
             while let Some(element) = input.pop_front() {
                 if !context.new_element(&element)? {
                     unsatisfied.push_back(element);
@@ -560,7 +560,7 @@ impl<'a> Builder<'a> {
                 break; // everything is satisfied
             } else {
                 // Didn't we progress?
-                if context.nodes.len() == nodes_len {
+                if (context.nodes.len(), context.types.len()) == progress {
                     let unsatisfied_elements = unsatisfied
                         .into_iter()
                         .map(|IndexedElement(_, _, element)| element)
-- 
2.43.0


From 53fc9656f239a2883112bdbeb8d7a5f56a2ae788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:00 +0000
Subject: [PATCH 19/51] fix: nan and inf only match at the current position

---
 butte-build/src/ast/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index b8241fb..ee44fed 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -2180,7 +2180,8 @@ pub fn hex_float_constant(input: &str) -> IResult<&str, FloatingConstant> {
 pub fn nan(input: &str) -> IResult<&str, FloatingConstant> {
     map(
         terminated(opt(plus_or_minus), |input| {
-            nom::re_match!(input, r"\bnan\b")
+            nom::re_match!(input, r"^nan\b")?;
+            tag("nan")(input)
         }),
         |sign| {
             if let Some('-') = sign {
@@ -2228,7 +2229,8 @@ mod nan_tests {
 pub fn inf_or_infinity(input: &str) -> IResult<&str, FloatingConstant> {
     map(
         terminated(opt(plus_or_minus), |input| {
-            nom::re_match!(input, r"\binf(inity)?\b")
+            nom::re_match!(input, r"^inf(inity)?\b")?;
+            alt((tag("infinity"), tag("inf")))(input)
         }),
         |sign| {
             if let Some('-') = sign {
-- 
2.43.0


From a746553cfe93970bff5c2df819df4bbbc532d394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:02 +0000
Subject: [PATCH 20/51] fix: type names that start with the name of a built-in
 type

---
 butte-build/src/ast/parser.rs | 57 ++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index ee44fed..a6f4cdb 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -113,6 +113,11 @@ pub fn right_square_bracket(input: &str) -> IResult<&str, char> {
     char(']')(input)
 }
 
+/// A character that continues an identifier
+fn ident_char(input: &str) -> IResult<&str, &str> {
+    take_while_m_n(1, 1, |c: char| c.is_alphanumeric() || c == '_')(input)
+}
+
 pub fn ident(input: &str) -> IResult<&str, Ident<'_>> {
     map(
         recognize(preceded(
@@ -1274,30 +1279,34 @@ SayHello // foo
 
 pub fn type_(input: &str) -> IResult<&str, Type<'_>> {
     alt((
-        alt((
-            value(Type::Bool, tag("bool")),
-            value(Type::Byte, tag("byte")),
-            value(Type::UByte, tag("ubyte")),
-            value(Type::Short, tag("short")),
-            value(Type::UShort, tag("ushort")),
-            value(Type::Long, tag("long")),
-            value(Type::ULong, tag("ulong")),
-            value(Type::Double, tag("double")),
-            value(Type::Int8, tag("int8")),
-            value(Type::UInt8, tag("uint8")),
-            value(Type::Int16, tag("int16")),
-            value(Type::UInt16, tag("uint16")),
-            value(Type::Int32, tag("int32")),
-            value(Type::UInt32, tag("uint32")),
-            value(Type::Int64, tag("int64")),
-            value(Type::UInt64, tag("uint64")),
-            value(Type::Float32, tag("float32")),
-            value(Type::Float64, tag("float64")),
-            value(Type::Int, tag("int")),
-            value(Type::UInt, tag("uint")),
-            value(Type::Float, tag("float")),
-        )),
-        value(Type::String, tag("string")),
+        // the name of a built-in type is a whole word: `longitude` is not a `long`
+        terminated(
+            alt((
+                value(Type::Bool, tag("bool")),
+                value(Type::Byte, tag("byte")),
+                value(Type::UByte, tag("ubyte")),
+                value(Type::Short, tag("short")),
+                value(Type::UShort, tag("ushort")),
+                value(Type::Long, tag("long")),
+                value(Type::ULong, tag("ulong")),
+                value(Type::Double, tag("double")),
+                value(Type::Int8, tag("int8")),
+                value(Type::UInt8, tag("uint8")),
+                value(Type::Int16, tag("int16")),
+                value(Type::UInt16, tag("uint16")),
+                value(Type::Int32, tag("int32")),
+                value(Type::UInt32, tag("uint32")),
+                value(Type::Int64, tag("int64")),
+                value(Type::UInt64, tag("uint64")),
+                value(Type::Float32, tag("float32")),
+                value(Type::Float64, tag("float64")),
+                value(Type::Int, tag("int")),
+                value(Type::UInt, tag("uint")),
+                value(Type::Float, tag("float")),
+            )),
+            not(ident_char),
+        ),
+        terminated(value(Type::String, tag("string")), not(ident_char)),
         map(
             delimited(left_square_bracket, type_, right_square_bracket),
             |t| Type::from([t]),
-- 
2.43.0


From 05d5c9d1a9b3332a77e5866e5a590d844d3281fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:04 +0000
Subject: [PATCH 21/51] fix: identifiers are ASCII, as in the FlatBuffers
 grammar

---
 butte-build/src/ast/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index a6f4cdb..b171a79 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -115,14 +115,14 @@ pub fn right_square_bracket(input: &str) -> IResult<&str, char> {
 
 /// A character that continues an identifier
 fn ident_char(input: &str) -> IResult<&str, &str> {
-    take_while_m_n(1, 1, |c: char| c.is_alphanumeric() || c == '_')(input)
+    take_while_m_n(1, 1, |c: char| c.is_ascii_alphanumeric() || c == '_')(input)
 }
 
 pub fn ident(input: &str) -> IResult<&str, Ident<'_>> {
     map(
         recognize(preceded(
-            take_while_m_n(1, 1, |c: char| c.is_alphabetic() || c == '_'),
-            take_while(|c: char| c.is_alphanumeric() || c == '_'),
+            take_while_m_n(1, 1, |c: char| c.is_ascii_alphabetic() || c == '_'),
+            take_while(|c: char| c.is_ascii_alphanumeric() || c == '_'),
         )),
         Ident::from,
     )(input)
-- 
2.43.0


From 4583ece65f587bdfada169d5d809a6f4b2b5b40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:06 +0000
Subject: [PATCH 22/51] fix: allow space inside vector types and before enum
 metadata

---
 butte-build/src/ast/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index b171a79..f6d3873 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -705,7 +705,7 @@ pub fn enum_decl(input: &str) -> IResult<&str, Enum<'_>> {
             delimited(comment_or_space1, ident, comment_or_space0),
         ),
         preceded(colon, preceded(comment_or_space0, type_)),
-        metadata,
+        preceded(comment_or_space0, metadata),
         enum_body,
     ));
     map(parser, |(comment, name, base_type, metadata, variants)| {
@@ -1308,7 +1308,11 @@ pub fn type_(input: &str) -> IResult<&str, Type<'_>> {
         ),
         terminated(value(Type::String, tag("string")), not(ident_char)),
         map(
-            delimited(left_square_bracket, type_, right_square_bracket),
+            delimited(
+                terminated(left_square_bracket, comment_or_space0),
+                type_,
+                preceded(comment_or_space0, right_square_bracket),
+            ),
             |t| Type::from([t]),
         ),
         map(qualified_ident, Type::Ident),
-- 
2.43.0


From 9eec1534713dfe69b8c2e2c0df56790ce4a6857f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:56 +0000
Subject: [PATCH 23/51] fix: a schema may consist of comments only

---
 butte-build/src/ast/parser.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index f6d3873..5280b9f 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -263,14 +263,17 @@ pub fn comment_or_space1(input: &str) -> IResult<&str, ()> {
 /// Parse a flatbuffer schema.
 pub fn schema_decl(input: &str) -> IResult<&str, Schema<'_>> {
     map(
-        tuple((
-            many0(delimited(
-                comment_or_space0,
-                include_decl,
-                comment_or_space0,
+        terminated(
+            tuple((
+                many0(delimited(
+                    comment_or_space0,
+                    include_decl,
+                    comment_or_space0,
+                )),
+                many0(delimited(comment_or_space0, element, comment_or_space0)),
             )),
-            many0(delimited(comment_or_space0, element, comment_or_space0)),
-        )),
+            comment_or_space0,
+        ),
         Schema::from,
     )(input)
 }
-- 
2.43.0


From d49399c0093c34dcb391f3c756823b1d6d13ccbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:58 +0000
Subject: [PATCH 24/51] fix: an enum value without a constant follows the
 previous value

---
 butte-build/src/codegen.rs | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 861c2b3..f04a7eb 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -6,7 +6,7 @@ use heck::{ShoutySnakeCase, SnakeCase};
 use itertools::Itertools;
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, ToTokens};
-use std::{convert::TryInto, fmt};
+use std::fmt;
 use syn::spanned::Spanned;
 
 #[cfg(test)]
@@ -911,24 +911,17 @@ impl ToTokens for ir::Enum<'_> {
             .next();
 
         // assign a value to the key if one was given, otherwise give it the
-        // enumerated index's value
-        let variants_and_scalars = variants.iter().enumerate().map(
-            |(
-                index,
-                ir::EnumVariant {
-                    ident: key,
-                    value,
-                    doc,
-                },
-            )| {
+        // value following the previous one
+        let mut next_value: ast::IntegerConstant = 0;
+        let variants_and_scalars = variants.iter().map(
+            move |ir::EnumVariant {
+                      ident: key,
+                      value,
+                      doc,
+                  }| {
                 // format the value with the correct type, i.e., base_type
-                let scalar_value = if let Some(constant) = *value {
-                    constant
-                } else {
-                    index
-                        .try_into()
-                        .expect("invalid conversion to enum base type")
-                };
+                let scalar_value = value.unwrap_or(next_value);
+                next_value = scalar_value.wrapping_add(1);
                 let formatted_value = scalar_value.fmt_lit(base_type.to_token_stream());
                 (quote!(#key), quote!(#formatted_value), doc)
             },
-- 
2.43.0


From b452b0694ca40f48e5c90a9b4e34a63aeee088bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:02 +0000
Subject: [PATCH 25/51] fix: reject enum values that do not fit the base type

---
 butte-build/src/ir/transform.rs |  8 ++++++++
 butte-build/src/ir/types.rs     | 17 +++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index d7d948e..d6b8ef8 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -237,6 +237,14 @@ impl<'a> Builder<'a> {
 
         let base_type = ir::EnumBaseType::try_from(&e.base_type)
             .map_err(|_| anyhow!("enum has bad base type: {}", ident))?;
+        let mut next_value: ast::IntegerConstant = 0;
+        for v in &e.variants {
+            let value = v.value.unwrap_or(next_value);
+            if !base_type.contains(value) {
+                return Err(anyhow!("enum value out of range: {}", ident));
+            }
+            next_value = value + 1;
+        }
         let variants: Vec<_> = e
             .variants
             .iter()
diff --git a/butte-build/src/ir/types.rs b/butte-build/src/ir/types.rs
index 0deb591..b5ecbbc 100644
--- a/butte-build/src/ir/types.rs
+++ b/butte-build/src/ir/types.rs
@@ -312,6 +312,23 @@ pub enum EnumBaseType {
     UInt64,
 }
 
+impl EnumBaseType {
+    /// Can `value` be represented in this type?
+    pub fn contains(self, value: ast::IntegerConstant) -> bool {
+        use std::convert::TryFrom;
+        match self {
+            EnumBaseType::Byte | EnumBaseType::Int8 => i8::try_from(value).is_ok(),
+            EnumBaseType::UByte | EnumBaseType::UInt8 => u8::try_from(value).is_ok(),
+            EnumBaseType::Short | EnumBaseType::Int16 => i16::try_from(value).is_ok(),
+            EnumBaseType::UShort | EnumBaseType::UInt16 => u16::try_from(value).is_ok(),
+            EnumBaseType::Int | EnumBaseType::Int32 => i32::try_from(value).is_ok(),
+            EnumBaseType::UInt | EnumBaseType::UInt32 => u32::try_from(value).is_ok(),
+            EnumBaseType::Long | EnumBaseType::Int64 => i64::try_from(value).is_ok(),
+            EnumBaseType::ULong | EnumBaseType::UInt64 => u64::try_from(value).is_ok(),
+        }
+    }
+}
+
 impl<'a> std::convert::TryFrom<&ast::Type<'a>> for EnumBaseType {
     type Error = ();
     fn try_from(ty: &ast::Type<'a>) -> Result<Self, Self::Error> {
-- 
2.43.0


From 1b4dc163d279afaf9d7ea1d12d76caf6741f02e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:04 +0000
Subject: [PATCH 26/51] fix: reject default values that do not fit the type of
 the field

---
 butte-build/src/ir/transform.rs |  9 ++++++++
 butte-build/src/ir/types.rs     | 39 +++++++++++++++++++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index d6b8ef8..bbc9597 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -126,6 +126,15 @@ impl<'a> Builder<'a> {
                     });
                 }
                 let ident = ir::Ident::from(&f.id);
+                if let Some(default_value) = &f.default_value {
+                    if !ty.accepts_default(default_value) {
+                        return Err(anyhow!(
+                            "bad default value for field {}: {:?}",
+                            ident,
+                            default_value
+                        ));
+                    }
+                }
                 // Use `Some` explicit or implicit default value or `None`
                 let default_value = f.default_value.clone().or_else(|| (&f.ty).try_into().ok());
                 let metadata = ir::FieldMetadata::builder().required(required).build();
diff --git a/butte-build/src/ir/types.rs b/butte-build/src/ir/types.rs
index b5ecbbc..da21db5 100644
--- a/butte-build/src/ir/types.rs
+++ b/butte-build/src/ir/types.rs
@@ -179,6 +179,45 @@ impl<'a> Type<'a> {
         }
     }
 
+    /// Can a field of this type have this default value?
+    pub fn accepts_default(&self, default_value: &ast::DefaultValue<'_>) -> bool {
+        use ast::{DefaultValue, Scalar};
+        let base_type = match self {
+            Type::Bool => return matches!(default_value, DefaultValue::Scalar(Scalar::Boolean(_))),
+            Type::Float | Type::Double | Type::Float32 | Type::Float64 => {
+                return matches!(
+                    default_value,
+                    DefaultValue::Scalar(Scalar::Float(_)) | DefaultValue::Scalar(Scalar::Integer(_))
+                )
+            }
+            Type::Custom(CustomTypeRef {
+                ty: CustomType::Enum { variants, .. },
+                ..
+            }) => {
+                return match default_value {
+                    DefaultValue::Ident(id) => {
+                        let id = Ident::from(id);
+                        variants.iter().any(|v| v.ident == id)
+                    }
+                    _ => false,
+                }
+            }
+            Type::Byte | Type::Int8 => EnumBaseType::Byte,
+            Type::UByte | Type::UInt8 => EnumBaseType::UByte,
+            Type::Short | Type::Int16 => EnumBaseType::Short,
+            Type::UShort | Type::UInt16 => EnumBaseType::UShort,
+            Type::Int | Type::Int32 => EnumBaseType::Int,
+            Type::UInt | Type::UInt32 => EnumBaseType::UInt,
+            Type::Long | Type::Int64 => EnumBaseType::Long,
+            Type::ULong | Type::UInt64 => EnumBaseType::ULong,
+            Type::String | Type::Array(..) | Type::Custom(..) => return false,
+        };
+        match default_value {
+            DefaultValue::Scalar(Scalar::Integer(i)) => base_type.contains(*i),
+            _ => false,
+        }
+    }
+
     pub fn is_union(&self) -> bool {
         matches!(
             self,
-- 
2.43.0


From 641ff9e0a417ceeec73ccf57700189b776df6fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:06 +0000
Subject: [PATCH 27/51] fix: non-finite default values

---
 butte-build/src/codegen.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index f04a7eb..b0acb79 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -189,16 +189,33 @@ impl PrimitiveLiteralToken for ast::IntegerConstant {
 }
 
 impl PrimitiveLiteralToken for ast::FloatingConstant {
-    type TokenType = syn::LitFloat;
+    type TokenType = TokenStream;
 
     fn fmt_lit(&self, ty: impl Spanned + fmt::Display) -> Self::TokenType {
-        Self::TokenType::new(
-            &match ty.to_string().as_str() {
-                float_ty @ "f32" => format!("{}{}", *self as f32, float_ty),
-                float_ty => format!("{}{}", self, float_ty),
+        let float_ty = ty.to_string();
+        let value = match float_ty.as_str() {
+            "f32" => f64::from(*self as f32),
+            _ => *self,
+        };
+        if !value.is_finite() {
+            // there are no literals for these
+            let float_ty = format_ident!("{}", float_ty);
+            return if value.is_nan() {
+                quote!(std::#float_ty::NAN)
+            } else if value > 0.0 {
+                quote!(std::#float_ty::INFINITY)
+            } else {
+                quote!(std::#float_ty::NEG_INFINITY)
+            };
+        }
+        syn::LitFloat::new(
+            &match float_ty.as_str() {
+                "f32" => format!("{}{}", *self as f32, float_ty),
+                _ => format!("{}{}", self, float_ty),
             },
             ty.span(),
         )
+        .to_token_stream()
     }
 }
 
-- 
2.43.0


From 409fbf87fd546f1e6751939882fb6834f13db10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:07 +0000
Subject: [PATCH 28/51] fix: enum defaults named like Rust keywords

---
 butte-build/src/codegen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index b0acb79..745d22e 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -233,7 +233,7 @@ fn to_default_value(
         },
         // Enum field default variant
         ast::DefaultValue::Ident(i) => {
-            let variant = format_ident!("{}", i.raw);
+            let variant = ir::Ident::from(i);
             quote!(<#arg_ty>::#variant).to_token_stream()
         }
     }
@@ -487,7 +487,7 @@ impl ToTokens for ir::Table<'_> {
                         // Handle customized default values
                         if ty.is_enum() {
                             let default_name = if let ast::DefaultValue::Ident(i) = default_value {
-                                format_ident!("{}", i.raw)
+                                ir::Ident::from(i)
                             } else {
                                 panic!("expecting default ident for enum")
                             };
-- 
2.43.0


From 88088f62022e7b8965704cb84b7847cb3ee36e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:09 +0000
Subject: [PATCH 29/51] fix: accessors and modules whose snake case name is a
 keyword

---
 butte-build/src/codegen.rs     |  6 +++---
 butte-build/src/ir/keywords.rs |  1 +
 butte-build/src/ir/types.rs    | 14 ++++++++++++++
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 745d22e..ec0f348 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -595,8 +595,8 @@ impl ToTokens for ir::Table<'_> {
                 ..
             } = field;
             let offset_name = offset_id(field);
-            let snake_name = format_ident!("{}", ident.as_ref().to_snake_case());
-            let snake_name_str = snake_name.to_string();
+            let snake_name = ident.to_snake_case();
+            let snake_name_str = ident.as_ref().to_snake_case();
             let ty_ret = to_type_token(
                 table_ns_ref,
                 ty,
@@ -1143,7 +1143,7 @@ impl<'a> CodeGenerator<'a> {
             ir::Node::Enum(e) => e.to_tokens(tokens),
             ir::Node::Union(u) => u.to_tokens(tokens),
             ir::Node::Namespace(n) => {
-                let ident = format_ident!("{}", n.ident.simple().as_ref().to_snake_case());
+                let ident = n.ident.simple().to_snake_case();
                 let mut nodes_ts = TokenStream::default();
                 for node in &n.nodes {
                     self.node_to_tokens(node, rpc_gen, &mut nodes_ts)?;
diff --git a/butte-build/src/ir/keywords.rs b/butte-build/src/ir/keywords.rs
index 7fa914c..fa3b34e 100644
--- a/butte-build/src/ir/keywords.rs
+++ b/butte-build/src/ir/keywords.rs
@@ -49,6 +49,7 @@ pub fn substitute_keyword(input: &str) -> Option<&'static str> {
         "macro" => "macro_",
         "override" => "override_",
         "priv" => "priv_",
+        "try" => "try_",
         "typeof" => "typeof_",
         "unsized" => "unsized_",
         "virtual" => "virtual_",
diff --git a/butte-build/src/ir/types.rs b/butte-build/src/ir/types.rs
index da21db5..401bca5 100644
--- a/butte-build/src/ir/types.rs
+++ b/butte-build/src/ir/types.rs
@@ -507,6 +507,20 @@ impl<'a> Ident<'a> {
         }
     }
 
+    /// The snake case version of this identifier, again not a keyword
+    pub fn to_snake_case(&self) -> Ident<'static> {
+        use heck::SnakeCase;
+        let snake_case = self.raw.as_ref().to_snake_case();
+        if snake_case.is_empty() {
+            // underscores only
+            Ident {
+                raw: Cow::Owned(self.raw.to_string()),
+            }
+        } else {
+            Ident::from(snake_case)
+        }
+    }
+
     // Purposefully create an ident named after a keyword
     // e.g to use `crate` or `super` for a type path
     fn keyword(keyword: &str) -> Ident<'_> {
-- 
2.43.0


From f1d581dcb6667104b4bf1648a1a496f5b818b07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:11 +0000
Subject: [PATCH 30/51] fix: paths to other namespaces use the names of their
 modules

---
 butte-build/src/codegen.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index ec0f348..b597b8b 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -891,7 +891,16 @@ impl ToTokens for ir::QualifiedIdent<'_> {
     fn to_tokens(&self, tokens: &mut TokenStream) {
         let parts = &self.parts;
         debug_assert!(!self.parts.is_empty());
-        let code = parts.iter().map(|e| e.raw.as_ref()).join("::");
+        // the leading parts are modules, which have snake case names
+        let (name, modules) = parts.split_last().expect("empty path");
+        let code = modules
+            .iter()
+            .map(|e| match e.raw.as_ref() {
+                "super" => e.raw.to_string(),
+                _ => e.to_snake_case().to_string(),
+            })
+            .chain(std::iter::once(name.to_string()))
+            .join("::");
         syn::parse_str::<syn::Path>(&code)
             .expect("Cannot parse path")
             .to_tokens(tokens)
-- 
2.43.0


From 7f27250f104e52ac37c2868f9e0c3f03bec7a564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:13 +0000
Subject: [PATCH 31/51] fix: required scalar fields are written even if equal
 to the default

---
 butte-build/src/codegen.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index b597b8b..8900075 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -532,6 +532,7 @@ impl ToTokens for ir::Table<'_> {
                 ident: field_id,
                 ty,
                 default_value,
+                metadata,
                 ..
             } = field;
             let add_method_name = format_ident!("add_{}", field_id.raw.as_ref());
@@ -557,7 +558,8 @@ impl ToTokens for ir::Table<'_> {
                 quote!(#arg_ty)
             };
 
-            let body = if ty.is_scalar() {
+            // a required field has to be present even if it has the default value
+            let body = if ty.is_scalar() && !metadata.required {
                 if let Some(default_value) = default_value {
                     let default_value = to_default_value(&arg_ty, default_value);
                     quote!(self.fbb.push_slot::<#arg_ty>(#field_offset, #field_id, #default_value))
-- 
2.43.0


From 71db86a3927e544694a1778f595fc000a55248bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:33 +0000
Subject: [PATCH 32/51] fix: hexadecimal floating point constants keep their 0x
 prefix

---
 butte-build/src/ast/parser.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index 5280b9f..37d17f6 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -2163,20 +2163,23 @@ pub fn hex_float_exponent(input: &str) -> IResult<&str, &str> {
 
 pub fn hex_float_constant(input: &str) -> IResult<&str, FloatingConstant> {
     let parser = tuple((
-        terminated(opt(plus_or_minus), terminated(zero, one_of("xX"))),
+        opt(plus_or_minus),
         // parse the number without the sign to avoid having to spell out the
         // return type of a closure to map_res
         map_res(
-            recognize(alt((
-                terminated(
-                    alt((
-                        terminated(terminated(hex_digit1, period), hex_digit0),
-                        preceded(period, hex_digit1),
-                    )),
-                    opt(hex_float_exponent),
-                ),
-                terminated(hex_digit1, hex_float_exponent),
-            ))),
+            recognize(preceded(
+                terminated(zero, one_of("xX")),
+                alt((
+                    terminated(
+                        alt((
+                            terminated(terminated(hex_digit1, period), hex_digit0),
+                            preceded(period, hex_digit1),
+                        )),
+                        opt(hex_float_exponent),
+                    ),
+                    terminated(hex_digit1, hex_float_exponent),
+                )),
+            )),
             |value| parse_hexf64(value, false),
         ),
     ));
-- 
2.43.0


From d5c739fc74600f3b0823b0dc5ba8222ab2bd906f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:02 +0000
Subject: [PATCH 33/51] fix: identifiers starting with true or false are not
 boolean constants

The pattern was searched for in the whole remaining input, so that such an
identifier was taken for the constant if the constant followed later on.
---
 butte-build/src/ast/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index 37d17f6..548f53b 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -1981,14 +1981,14 @@ mod hex_integer_constant_tests {
 
 pub fn true_(input: &str) -> IResult<&str, BooleanConstant> {
     value(true, |input: &str| {
-        nom::re_match!(input, r"\btrue\b")?;
+        nom::re_match!(input, r"^true\b")?;
         tag("true")(input)
     })(input)
 }
 
 pub fn false_(input: &str) -> IResult<&str, BooleanConstant> {
     value(false, |input: &str| {
-        nom::re_match!(input, r"\bfalse\b")?;
+        nom::re_match!(input, r"^false\b")?;
         tag("false")(input)
     })(input)
 }
-- 
2.43.0


From 5999cab8af218f08ac99dd1d17b55dee55d580bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:04 +0000
Subject: [PATCH 34/51] fix: accessors of union fields keep their documentation

---
 butte-build/src/codegen.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 8900075..a5b1e93 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -664,6 +664,7 @@ impl ToTokens for ir::Table<'_> {
                         },
                     );
                     quote! {
+                        #doc
                         #[inline]
                         pub fn #snake_name(&self) -> Result<#ty_ret, butte::Error> {
                             Ok(match self.#type_snake_name()? {
@@ -694,6 +695,7 @@ impl ToTokens for ir::Table<'_> {
                     );
 
                     quote! {
+                        #doc
                         #[inline]
                         pub fn #snake_name(&self) -> Result<Option<#ty_ret>, butte::Error> {
                             Ok(match self.#type_snake_name()? {
-- 
2.43.0


From 5aced497ff8c3cfad2f2f2119e5f4e89fbbf3c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:06 +0000
Subject: [PATCH 35/51] fix: tables with fields of the same name are rejected

The code generated for them does not compile.
---
 butte-build/src/ir/transform.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index bbc9597..72b207b 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -154,6 +154,14 @@ impl<'a> Builder<'a> {
             }
         }
 
+        // Accessors are named after the fields, in snake case
+        let mut names = HashSet::new();
+        for f in &fields {
+            if !names.insert(f.ident.as_ref().to_snake_case()) {
+                return Err(anyhow!("field already defined: {}.{}", ident, f.ident));
+            }
+        }
+
         let ident = ident.clone();
         let root_type = false; // Set as non-root by default
         let doc = t.doc.clone();
-- 
2.43.0


From e1cfbf04fcff6a9fd71cb3935b194846052105a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:08 +0000
Subject: [PATCH 36/51] fix: enums with variants of the same name or value are
 rejected

The code generated for them does not compile.
---
 butte-build/src/ir/transform.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 72b207b..fc83aab 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -255,11 +255,16 @@ impl<'a> Builder<'a> {
         let base_type = ir::EnumBaseType::try_from(&e.base_type)
             .map_err(|_| anyhow!("enum has bad base type: {}", ident))?;
         let mut next_value: ast::IntegerConstant = 0;
+        let mut names = HashSet::new();
+        let mut values = HashSet::new();
         for v in &e.variants {
             let value = v.value.unwrap_or(next_value);
             if !base_type.contains(value) {
                 return Err(anyhow!("enum value out of range: {}", ident));
             }
+            if !names.insert(v.id) || !values.insert(value) {
+                return Err(anyhow!("variant already defined: {}.{}", ident, v.id.raw));
+            }
             next_value = value + 1;
         }
         let variants: Vec<_> = e
-- 
2.43.0


From 063e08c1e282d8d5c21ccdc04ee451d8eb7e91b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:11 +0000
Subject: [PATCH 37/51] fix: unions of anything but up to 255 distinct tables
 are rejected

The code generated for them does not compile.
---
 butte-build/src/ir/transform.rs | 13 +++++++++++++
 butte-build/src/ir/types.rs     | 10 ++++++++++
 2 files changed, 23 insertions(+)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index fc83aab..d6a83ba 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -313,6 +313,9 @@ impl<'a> Builder<'a> {
             let ty = self.try_type(&ast::Type::Ident(ast::QualifiedIdent::from(vec![f.id])));
             if let Some(ty) = ty {
                 let id = &f.id;
+                if !ty.is_table() {
+                    return Err(anyhow!("union variant is not a table: {}.{}", ident, id.raw));
+                }
                 variants.push(ir::UnionVariant {
                     ty,
                     ident: ir::Ident::from(id),
@@ -325,6 +328,16 @@ impl<'a> Builder<'a> {
             }
         }
 
+        let mut names: HashSet<_> = std::iter::once("None").collect();
+        for f in &u.variants {
+            if !names.insert(f.id.raw) {
+                return Err(anyhow!("variant already defined: {}.{}", ident, f.id.raw));
+            }
+        }
+        if !ir::EnumBaseType::UByte.contains(u.variants.len() as ast::IntegerConstant) {
+            return Err(anyhow!("too many variants in union: {}", ident));
+        }
+
         let doc = u.doc.clone();
 
         // We generate an enum for this union which describes the different variants
diff --git a/butte-build/src/ir/types.rs b/butte-build/src/ir/types.rs
index 401bca5..d031294 100644
--- a/butte-build/src/ir/types.rs
+++ b/butte-build/src/ir/types.rs
@@ -228,6 +228,16 @@ impl<'a> Type<'a> {
         )
     }
 
+    pub fn is_table(&self) -> bool {
+        matches!(
+            self,
+            Type::Custom(CustomTypeRef {
+                ty: CustomType::Table,
+                ..
+            })
+        )
+    }
+
     pub fn is_enum(&self) -> bool {
         matches!(
             self,
-- 
2.43.0


From 193113f21dee65d6f3e77ce9662a3ac94a333ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:13 +0000
Subject: [PATCH 38/51] fix: vectors of unions are rejected

The code generated for them does not compile.
---
 butte-build/src/ir/transform.rs | 7 +++++++
 butte-build/src/ir/types.rs     | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index d6a83ba..41d586b 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -103,6 +103,13 @@ impl<'a> Builder<'a> {
         for f in &t.fields {
             let ty = self.try_type(&f.ty);
             if let Some(ty) = ty {
+                if ty.is_array_of_unions() {
+                    return Err(anyhow!(
+                        "vectors of unions are not supported: {}.{}",
+                        ident,
+                        f.id.raw
+                    ));
+                }
                 let required = match &f.metadata {
                     Some(m) => matches!(m.values.get(&ast::Ident::from("required")), Some(None)),
                     None => false,
diff --git a/butte-build/src/ir/types.rs b/butte-build/src/ir/types.rs
index d031294..cf7fd1d 100644
--- a/butte-build/src/ir/types.rs
+++ b/butte-build/src/ir/types.rs
@@ -248,6 +248,13 @@ impl<'a> Type<'a> {
         )
     }
 
+    pub fn is_array_of_unions(&self) -> bool {
+        match self {
+            Type::Array(ty) => ty.is_union() || ty.is_array_of_unions(),
+            _ => false,
+        }
+    }
+
     pub fn is_array(&self) -> bool {
         matches!(self, Type::Array(..))
     }
-- 
2.43.0


From 5ff6ae879539308575b0479a8790ba1b86f919c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:53 +0000
Subject: [PATCH 39/51] fix: union fields named type find the field of their
 kind

The field is renamed to ty, so that its accessor calls ty_type.
---
 butte-build/src/ir/transform.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 41d586b..c1dc13e 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -120,7 +120,8 @@ impl<'a> Builder<'a> {
                     let ty = self
                         .find_custom_type(enum_ty_ident.clone())
                         .expect("Union enum type companion should be defined now");
-                    let ident = ir::Ident::from(format!("{}_type", &f.id.raw.to_snake_case()));
+                    let ident = ir::Ident::from(&f.id);
+                    let ident = ir::Ident::from(format!("{}_type", ident.as_ref().to_snake_case()));
                     let default_value = None;
                     let metadata = ir::FieldMetadata::builder().required(required).build();
                     let doc = f.doc.clone();
-- 
2.43.0


From 63077476d043af56b56bbf134a503041a2ad6477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:55 +0000
Subject: [PATCH 40/51] fix: enums may have a variant named Error

Self::Error is ambiguous then.
---
 butte-build/src/codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index a5b1e93..9f76943 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -1014,7 +1014,7 @@ impl ToTokens for ir::Enum<'_> {
 
             impl std::convert::TryFrom<#base_type> for #enum_id {
                 type Error = butte::Error;
-                fn try_from(value: #base_type) -> Result<Self, Self::Error> {
+                fn try_from(value: #base_type) -> Result<Self, butte::Error> {
                     match value {
                         #(#from_base_to_enum_variants,)*
                         _ => Err(butte::Error::UnknownEnumVariant)
-- 
2.43.0


From 3a21895eacb4ac2eb3425a551636b3fd0f083248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:58 +0000
Subject: [PATCH 41/51] fix: enums may have variants named e and value

The generated code does not compile for them, because of a lint.
---
 butte-build/src/codegen.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 9f76943..d0fdbf9 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -1023,6 +1023,7 @@ impl ToTokens for ir::Enum<'_> {
             }
 
             impl From<#enum_id> for #base_type {
+                #[allow(bindings_with_variant_name)]
                 fn from(value: #enum_id) -> #base_type {
                     match value {
                         #(#from_enum_variant_to_base),*
@@ -1040,6 +1041,7 @@ impl ToTokens for ir::Enum<'_> {
                 }
             }
 
+            #[allow(bindings_with_variant_name)]
             pub fn #enum_id_fn_name(e: #enum_id) -> &'static str {
                 match e {
                     #(#names_to_strings),*
-- 
2.43.0


From 2d53be927ea1375da00dbbbb69de37be6070a31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:00 +0000
Subject: [PATCH 42/51] fix: fields may be named like prelude items such as
 Some and None

The parameters of the builder's methods shadowed them, which does not compile.
---
 butte-build/src/codegen.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index d0fdbf9..45e3e3e 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -536,6 +536,8 @@ impl ToTokens for ir::Table<'_> {
                 ..
             } = field;
             let add_method_name = format_ident!("add_{}", field_id.raw.as_ref());
+            // not the field's own name, which could be the one of a prelude item
+            let arg_name = field_id.to_snake_case();
             let offset = offset_id(field);
             let field_offset = quote!(#struct_id::#offset);
 
@@ -562,18 +564,18 @@ impl ToTokens for ir::Table<'_> {
             let body = if ty.is_scalar() && !metadata.required {
                 if let Some(default_value) = default_value {
                     let default_value = to_default_value(&arg_ty, default_value);
-                    quote!(self.fbb.push_slot::<#arg_ty>(#field_offset, #field_id, #default_value))
+                    quote!(self.fbb.push_slot::<#arg_ty>(#field_offset, #arg_name, #default_value))
                 } else {
-                    quote!(self.fbb.push_slot_always::<#arg_ty>(#field_offset, #field_id))
+                    quote!(self.fbb.push_slot_always::<#arg_ty>(#field_offset, #arg_name))
                 }
             } else {
-                quote!(self.fbb.push_slot_always::<#arg_ty>(#field_offset, #field_id))
+                quote!(self.fbb.push_slot_always::<#arg_ty>(#field_offset, #arg_name))
             };
 
             quote! {
                 #[inline]
                 #allow_type_complexity
-                fn #add_method_name(&mut self, #field_id: #arg_ty) {
+                fn #add_method_name(&mut self, #arg_name: #arg_ty) {
                     #body;
                 }
             }
-- 
2.43.0


From f57eaf1a63a400b2a28fd6bd8268f3cbb8f5b274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:24 +0000
Subject: [PATCH 43/51] fix: types and namespaces may be named like items
 generated code refers to

---
 butte-build/src/codegen.rs | 120 ++++++++++++++++++-------------------
 1 file changed, 60 insertions(+), 60 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 45e3e3e..5028835 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -138,10 +138,10 @@ fn to_type_token(
                 context_namespace,
                 ty,
                 lifetime,
-                &quote!(butte::ForwardsUOffset),
+                &quote!(::butte::ForwardsUOffset),
                 true,
             );
-            let ty = quote!(butte::Vector<#lifetime, #component_token>);
+            let ty = quote!(::butte::Vector<#lifetime, #component_token>);
 
             let wrap_tokens = wrap_refs_types.into_token_stream();
             if wrap_tokens.is_empty() || !wrap_outer {
@@ -201,11 +201,11 @@ impl PrimitiveLiteralToken for ast::FloatingConstant {
             // there are no literals for these
             let float_ty = format_ident!("{}", float_ty);
             return if value.is_nan() {
-                quote!(std::#float_ty::NAN)
+                quote!(::std::#float_ty::NAN)
             } else if value > 0.0 {
-                quote!(std::#float_ty::INFINITY)
+                quote!(::std::#float_ty::INFINITY)
             } else {
-                quote!(std::#float_ty::NEG_INFINITY)
+                quote!(::std::#float_ty::NEG_INFINITY)
             };
         }
         syn::LitFloat::new(
@@ -418,13 +418,13 @@ impl ToTokens for ir::Table<'_> {
                  ..
              }| {
                 let arg_ty = if ty.is_union() {
-                    quote!(butte::WIPOffset<butte::UnionWIPOffset>)
+                    quote!(::butte::WIPOffset<::butte::UnionWIPOffset>)
                 } else {
                     let arg_ty = to_type_token(
                         table_ns_ref,
                         ty,
                         &quote!('a),
-                        &quote!(butte::WIPOffset),
+                        &quote!(::butte::WIPOffset),
                         true,
                     );
                     quote!(#arg_ty)
@@ -433,7 +433,7 @@ impl ToTokens for ir::Table<'_> {
                 let arg_ty = if metadata.required || ty.is_scalar() {
                     arg_ty
                 } else {
-                    quote!(Option<#arg_ty>)
+                    quote!(::std::option::Option<#arg_ty>)
                 };
 
                 let allow_type_complexity = if ty.is_complex() {
@@ -513,7 +513,7 @@ impl ToTokens for ir::Table<'_> {
                 },
             );
             quote! {
-                impl#args_lifetime_a Default for #args#args_lifetime_a {
+                impl#args_lifetime_a ::std::default::Default for #args#args_lifetime_a {
                     fn default() -> Self {
                         Self {
                             #(#args_fields_defaults),*
@@ -548,13 +548,13 @@ impl ToTokens for ir::Table<'_> {
             };
 
             let arg_ty = if ty.is_union() {
-                quote!(butte::WIPOffset<butte::UnionWIPOffset>)
+                quote!(::butte::WIPOffset<::butte::UnionWIPOffset>)
             } else {
                 let arg_ty = to_type_token(
                     table_ns_ref,
                     ty,
                     &quote!('b),
-                    &quote!(butte::WIPOffset),
+                    &quote!(::butte::WIPOffset),
                     true,
                 );
                 quote!(#arg_ty)
@@ -585,7 +585,7 @@ impl ToTokens for ir::Table<'_> {
             let offset_name = offset_id(field);
             let offset_value = butte::field_index_to_field_offset(index as VOffsetT);
             quote! {
-                pub const #offset_name: butte::VOffsetT = #offset_value;
+                pub const #offset_name: ::butte::VOffsetT = #offset_value;
             }
         });
 
@@ -605,14 +605,14 @@ impl ToTokens for ir::Table<'_> {
                 table_ns_ref,
                 ty,
                 &quote!('_),
-                &quote!(butte::ForwardsUOffset),
+                &quote!(::butte::ForwardsUOffset),
                 false,
             );
             let ty_wrapped = to_type_token(
                 table_ns_ref,
                 ty,
                 &quote!('_),
-                &quote!(butte::ForwardsUOffset),
+                &quote!(::butte::ForwardsUOffset),
                 true,
             );
             let default_value = if let Some(default_value) = default_value {
@@ -655,23 +655,23 @@ impl ToTokens for ir::Table<'_> {
                             let variant_ty_wrapped = to_type_token(table_ns_ref,
                                 variant_ty,
                                 &quote!('_),
-                                &quote!(butte::ForwardsUOffset),
+                                &quote!(::butte::ForwardsUOffset),
                                 true,
                             );
                             quote! {
                                 #enum_ident::#variant_ident => #union_ident::#variant_ident(self.table
                                     .get::<#variant_ty_wrapped>(#struct_id::#offset_name, None)?
-                                    .ok_or(butte::Error::RequiredFieldMissing(#snake_name_str))?)
+                                    .ok_or(::butte::Error::RequiredFieldMissing(#snake_name_str))?)
                             }
                         },
                     );
                     quote! {
                         #doc
                         #[inline]
-                        pub fn #snake_name(&self) -> Result<#ty_ret, butte::Error> {
+                        pub fn #snake_name(&self) -> ::std::result::Result<#ty_ret, ::butte::Error> {
                             Ok(match self.#type_snake_name()? {
                               #(#names_to_enum_variant,)*
-                              #enum_ident::None => return Err(butte::Error::RequiredFieldMissing(#snake_name_str))
+                              #enum_ident::None => return Err(::butte::Error::RequiredFieldMissing(#snake_name_str))
                             })
                         }
                     }
@@ -685,7 +685,7 @@ impl ToTokens for ir::Table<'_> {
                             let variant_ty_wrapped = to_type_token(table_ns_ref,
                                 variant_ty,
                                 &quote!('_),
-                                &quote!(butte::ForwardsUOffset),
+                                &quote!(::butte::ForwardsUOffset),
                                 true,
                             );
                             quote! {
@@ -699,7 +699,7 @@ impl ToTokens for ir::Table<'_> {
                     quote! {
                         #doc
                         #[inline]
-                        pub fn #snake_name(&self) -> Result<Option<#ty_ret>, butte::Error> {
+                        pub fn #snake_name(&self) -> ::std::result::Result<::std::option::Option<#ty_ret>, ::butte::Error> {
                             Ok(match self.#type_snake_name()? {
                               #(#names_to_enum_variant,)*
                               None | Some(#enum_ident::None) => None
@@ -712,10 +712,10 @@ impl ToTokens for ir::Table<'_> {
                     #doc
                     #[inline]
                     #allow_type_complexity
-                    pub fn #snake_name(&self) -> Result<#ty_ret, butte::Error> {
+                    pub fn #snake_name(&self) -> ::std::result::Result<#ty_ret, ::butte::Error> {
                         self.table
                             .get::<#ty_wrapped>(#struct_id::#offset_name, #default_value)?
-                            .ok_or(butte::Error::RequiredFieldMissing(#snake_name_str))
+                            .ok_or(::butte::Error::RequiredFieldMissing(#snake_name_str))
                     }
                 }
             } else {
@@ -723,7 +723,7 @@ impl ToTokens for ir::Table<'_> {
                     #doc
                     #[inline]
                     #allow_type_complexity
-                    pub fn #snake_name(&self) -> Result<Option<#ty_ret>, butte::Error> {
+                    pub fn #snake_name(&self) -> ::std::result::Result<::std::option::Option<#ty_ret>, ::butte::Error> {
                         self.table
                             .get::<#ty_wrapped>(#struct_id::#offset_name, #default_value)
                     }
@@ -745,18 +745,18 @@ impl ToTokens for ir::Table<'_> {
         (quote! {
             #[derive(Copy, Clone, Debug, PartialEq)]
             #doc
-            pub struct #struct_id<B> {
-                table: butte::Table<B>,
+            pub struct #struct_id<__B> {
+                table: ::butte::Table<__B>,
             }
 
-            impl<B> From<butte::Table<B>> for #struct_id<B> {
-                fn from(table: butte::Table<B>) -> Self {
+            impl<__B> ::std::convert::From<::butte::Table<__B>> for #struct_id<__B> {
+                fn from(table: ::butte::Table<__B>) -> Self {
                     Self { table }
                 }
             }
 
-            impl<B> From<#struct_id<B>> for butte::Table<B> {
-                fn from(s: #struct_id<B>) -> Self {
+            impl<__B> ::std::convert::From<#struct_id<__B>> for ::butte::Table<__B> {
+                fn from(s: #struct_id<__B>) -> Self {
                     s.table
                 }
             }
@@ -766,9 +766,9 @@ impl ToTokens for ir::Table<'_> {
                 #(#field_offset_constants)*
 
                 pub fn create<'bldr: 'args, 'args: 'mut_bldr, 'mut_bldr>(
-                    fbb: &'mut_bldr mut butte::FlatBufferBuilder<'bldr>,
+                    fbb: &'mut_bldr mut ::butte::FlatBufferBuilder<'bldr>,
                     args: &'args #args#args_lifetime_args
-                ) -> butte::WIPOffset<#struct_id<&'bldr [u8]>> {
+                ) -> ::butte::WIPOffset<#struct_id<&'bldr [u8]>> {
                     let mut builder = #builder_type::new(fbb);
                     #(#builder_add_calls)*
                     builder.finish()
@@ -776,39 +776,39 @@ impl ToTokens for ir::Table<'_> {
             }
 
 
-            impl<B> #struct_id<B>
+            impl<__B> #struct_id<__B>
             where
-                B: std::convert::AsRef<[u8]>
+                __B: ::std::convert::AsRef<[u8]>
             {
                 // fields access
                 #(#field_accessors)*
 
-                pub fn get_root(buf: B) -> Result<Self, butte::Error> {
-                    let table = butte::Table::get_root(buf)?;
+                pub fn get_root(buf: __B) -> ::std::result::Result<Self, ::butte::Error> {
+                    let table = ::butte::Table::get_root(buf)?;
                     Ok(Self { table })
                 }
             }
 
-            impl<'a> butte::Follow<'a> for #struct_id<&'a [u8]> {
+            impl<'a> ::butte::Follow<'a> for #struct_id<&'a [u8]> {
                 type Inner = Self;
 
                 #[inline]
-                fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, butte::Error> {
-                    let table = butte::Table::new(buf, loc);
+                fn follow(buf: &'a [u8], loc: usize) -> ::std::result::Result<Self::Inner, ::butte::Error> {
+                    let table = ::butte::Table::new(buf, loc);
                     Ok(Self { table })
                 }
             }
 
-            impl<B> butte::FollowBuf for #struct_id<B>
+            impl<__B> ::butte::FollowBuf for #struct_id<__B>
             where
-                B: std::convert::AsRef<[u8]>
+                __B: ::std::convert::AsRef<[u8]>
             {
-                type Buf = B;
+                type Buf = __B;
                 type Inner = Self;
 
                 #[inline]
-                fn follow_buf(buf: Self::Buf, loc: usize) -> Result<Self::Inner, butte::Error> {
-                    let table = butte::Table::new(buf, loc);
+                fn follow_buf(buf: Self::Buf, loc: usize) -> ::std::result::Result<Self::Inner, ::butte::Error> {
+                    let table = ::butte::Table::new(buf, loc);
                     Ok(Self { table })
                 }
             }
@@ -822,15 +822,15 @@ impl ToTokens for ir::Table<'_> {
 
             //// builder
             pub struct #builder_type<'a, 'b> {
-                fbb: &'b mut butte::FlatBufferBuilder<'a>,
-                start: butte::WIPOffset<butte::TableUnfinishedWIPOffset>,
+                fbb: &'b mut ::butte::FlatBufferBuilder<'a>,
+                start: ::butte::WIPOffset<::butte::TableUnfinishedWIPOffset>,
             }
 
             impl<'a: 'b, 'b> #builder_type<'a, 'b> {
                 #(#builder_field_methods)*
 
                 #[inline]
-                pub fn new(fbb: &'b mut butte::FlatBufferBuilder<'a>) -> Self {
+                pub fn new(fbb: &'b mut ::butte::FlatBufferBuilder<'a>) -> Self {
                     let start = fbb.start_table();
                     #builder_type {
                         fbb, start
@@ -838,10 +838,10 @@ impl ToTokens for ir::Table<'_> {
                 }
 
                 #[inline]
-                pub fn finish(self) -> butte::WIPOffset<#struct_id<&'a [u8]>> {
+                pub fn finish(self) -> ::butte::WIPOffset<#struct_id<&'a [u8]>> {
                     let o = self.fbb.end_table(self.start);
                     #(#required_fields)*
-                    butte::WIPOffset::new(o.value())
+                    ::butte::WIPOffset::new(o.value())
                 }
             }
         })
@@ -999,32 +999,32 @@ impl ToTokens for ir::Enum<'_> {
                 #(#fields),*
             }
 
-            impl Default for #enum_id {
+            impl ::std::default::Default for #enum_id {
                 fn default() -> Self {
                     #default_value
                 }
             }
 
-            impl<'a> butte::Follow<'a> for #enum_id {
+            impl<'a> ::butte::Follow<'a> for #enum_id {
                 type Inner = Self;
 
-                fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, butte::Error> {
-                    let scalar = butte::read_scalar_at::<#base_type>(buf, loc)?;
-                    <Self as std::convert::TryFrom<#base_type>>::try_from(scalar)
+                fn follow(buf: &'a [u8], loc: usize) -> ::std::result::Result<Self::Inner, ::butte::Error> {
+                    let scalar = ::butte::read_scalar_at::<#base_type>(buf, loc)?;
+                    <Self as ::std::convert::TryFrom<#base_type>>::try_from(scalar)
                 }
             }
 
-            impl std::convert::TryFrom<#base_type> for #enum_id {
-                type Error = butte::Error;
-                fn try_from(value: #base_type) -> Result<Self, butte::Error> {
+            impl ::std::convert::TryFrom<#base_type> for #enum_id {
+                type Error = ::butte::Error;
+                fn try_from(value: #base_type) -> ::std::result::Result<Self, ::butte::Error> {
                     match value {
                         #(#from_base_to_enum_variants,)*
-                        _ => Err(butte::Error::UnknownEnumVariant)
+                        _ => Err(::butte::Error::UnknownEnumVariant)
                     }
                 }
             }
 
-            impl From<#enum_id> for #base_type {
+            impl ::std::convert::From<#enum_id> for #base_type {
                 #[allow(bindings_with_variant_name)]
                 fn from(value: #enum_id) -> #base_type {
                     match value {
@@ -1033,13 +1033,13 @@ impl ToTokens for ir::Enum<'_> {
                 }
             }
 
-            impl butte::Push for #enum_id {
+            impl ::butte::Push for #enum_id {
                 type Output = Self;
 
                 #[inline]
                 fn push(&self, dst: &mut [u8], _rest: &[u8]) {
                     let scalar = <#base_type>::from(*self);
-                    butte::emplace_scalar::<#base_type>(dst, scalar);
+                    ::butte::emplace_scalar::<#base_type>(dst, scalar);
                 }
             }
 
-- 
2.43.0


From 00d87d27a22c1d631a9716f17c81105b6e61fe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:06 +0000
Subject: [PATCH 44/51] fix: fields may be named create and get_root

---
 butte-build/src/codegen.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 5028835..46e3ba1 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -599,7 +599,11 @@ impl ToTokens for ir::Table<'_> {
                 ..
             } = field;
             let offset_name = offset_id(field);
-            let snake_name = ident.to_snake_case();
+            let mut snake_name = ident.to_snake_case();
+            if ["create", "get_root"].iter().any(|name| snake_name.as_ref() == *name) {
+                // these are functions of every table
+                snake_name = ir::Ident::from(format!("{}_", snake_name));
+            }
             let snake_name_str = ident.as_ref().to_snake_case();
             let ty_ret = to_type_token(
                 table_ns_ref,
-- 
2.43.0


From 071363664b835bf189528be538183d6d9c466bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:53 +0000
Subject: [PATCH 45/51] fix: enums may have a variant named Inner

---
 butte-build/src/codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 46e3ba1..9d6e42f 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -1012,7 +1012,7 @@ impl ToTokens for ir::Enum<'_> {
             impl<'a> ::butte::Follow<'a> for #enum_id {
                 type Inner = Self;
 
-                fn follow(buf: &'a [u8], loc: usize) -> ::std::result::Result<Self::Inner, ::butte::Error> {
+                fn follow(buf: &'a [u8], loc: usize) -> ::std::result::Result<Self, ::butte::Error> {
                     let scalar = ::butte::read_scalar_at::<#base_type>(buf, loc)?;
                     <Self as ::std::convert::TryFrom<#base_type>>::try_from(scalar)
                 }
-- 
2.43.0


From 0cde3636289977d0a95ba38ba461cad660f5d13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:30 +0000
Subject: [PATCH 46/51] fix: union members keep their declared values

---
 butte-build/src/ir/transform.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index c1dc13e..e933986 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -337,13 +337,17 @@ impl<'a> Builder<'a> {
         }
 
         let mut names: HashSet<_> = std::iter::once("None").collect();
+        let mut values: HashSet<ast::IntegerConstant> = std::iter::once(0).collect();
+        let mut next_value = 1;
         for f in &u.variants {
-            if !names.insert(f.id.raw) {
+            let value = f.value.unwrap_or(next_value);
+            if !ir::EnumBaseType::UByte.contains(value) {
+                return Err(anyhow!("union value out of range: {}", ident));
+            }
+            if !names.insert(f.id.raw) || !values.insert(value) {
                 return Err(anyhow!("variant already defined: {}.{}", ident, f.id.raw));
             }
-        }
-        if !ir::EnumBaseType::UByte.contains(u.variants.len() as ast::IntegerConstant) {
-            return Err(anyhow!("too many variants in union: {}", ident));
+            next_value = value + 1;
         }
 
         let doc = u.doc.clone();
@@ -392,7 +396,7 @@ impl<'a> Builder<'a> {
         })
         .chain(u.variants.iter().map(|v| ir::EnumVariant {
             ident: v.id.into(),
-            value: None,
+            value: v.value,
             doc: v.doc.clone(),
         }))
         .collect();
-- 
2.43.0


From ae94ab2288e712ea7eea63ce51cd8dbad9fbf861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:14 +0000
Subject: [PATCH 47/51] fix: flush the generated code so that a failed write is
 reported

---
 butte-build/src/compile.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/butte-build/src/compile.rs b/butte-build/src/compile.rs
index f288703..2cac670 100644
--- a/butte-build/src/compile.rs
+++ b/butte-build/src/compile.rs
@@ -21,6 +21,8 @@ pub fn compile_fbs_generic(
 ) -> Result<()> {
     let text_output = generate(ugly, rpc_gen, input)?;
     output.write_all(&text_output[..])?;
+    // a buffered output only reports a failed write when it is flushed
+    output.flush()?;
     Ok(())
 }
 
-- 
2.43.0


From c30bd442e95d30d211bb409fb2739f7604b3c2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:09 +0000
Subject: [PATCH 48/51] fix: hexadecimal floats without a period or an exponent
 are parsed

---
 butte-build/src/ast/parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index 548f53b..591606e 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -2180,7 +2180,14 @@ pub fn hex_float_constant(input: &str) -> IResult<&str, FloatingConstant> {
                     terminated(hex_digit1, hex_float_exponent),
                 )),
             )),
-            |value| parse_hexf64(value, false),
+            |value: &str| {
+                // hexf wants both the period and the exponent
+                let exponent = value.find(|c| c == 'p' || c == 'P');
+                let (mantissa, exponent) = value.split_at(exponent.unwrap_or(value.len()));
+                let period = if mantissa.contains('.') { "" } else { "." };
+                let exponent = if exponent.is_empty() { "p0" } else { exponent };
+                parse_hexf64(&format!("{}{}{}", mantissa, period, exponent), false)
+            },
         ),
     ));
     map(
-- 
2.43.0


From fc4d8cb8d2406a62cce90fa3bbd14563efedce75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:15 +0000
Subject: [PATCH 49/51] fix: the nesting of vectors, values and namespaces is
 limited

---
 butte-build/src/ast/parser.rs   | 36 ++++++++++++++++++++++++++++-----
 butte-build/src/ir/transform.rs | 10 +++++++--
 2 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index 591606e..dcb881f 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -202,6 +202,16 @@ mod string_constant_tests {
     }
 }
 
+/// How deeply types and values may be nested, the limit of `flatc`
+pub const MAX_NESTING: usize = 64;
+
+/// The depth left inside of a nested type or value
+fn nested(input: &str, depth: usize) -> Result<usize, nom::Err<(&str, nom::error::ErrorKind)>> {
+    depth
+        .checked_sub(1)
+        .ok_or(nom::Err::Error((input, nom::error::ErrorKind::TooLarge)))
+}
+
 pub fn element(input: &str) -> IResult<&str, Element<'_>> {
     alt((
         map(namespace_decl, Element::from),
@@ -1281,6 +1291,10 @@ SayHello // foo
 }
 
 pub fn type_(input: &str) -> IResult<&str, Type<'_>> {
+    type_within(input, MAX_NESTING)
+}
+
+fn type_within(input: &str, depth: usize) -> IResult<&str, Type<'_>> {
     alt((
         // the name of a built-in type is a whole word: `longitude` is not a `long`
         terminated(
@@ -1313,7 +1327,7 @@ pub fn type_(input: &str) -> IResult<&str, Type<'_>> {
         map(
             delimited(
                 terminated(left_square_bracket, comment_or_space0),
-                type_,
+                |input| type_within(input, nested(input, depth)?),
                 preceded(comment_or_space0, right_square_bracket),
             ),
             |t| Type::from([t]),
@@ -1451,6 +1465,10 @@ pub fn scalar(input: &str) -> IResult<&str, Scalar> {
 
 /// Parse JSON object-like data.
 pub fn object(input: &str) -> IResult<&str, Object<'_>> {
+    object_within(input, MAX_NESTING)
+}
+
+fn object_within(input: &str, depth: usize) -> IResult<&str, Object<'_>> {
     map(
         tuple((
             doc_comment,
@@ -1461,7 +1479,7 @@ pub fn object(input: &str) -> IResult<&str, Object<'_>> {
                     separated_pair(
                         ident,
                         delimited(comment_or_space0, colon, comment_or_space0),
-                        value_,
+                        |input| value_within(input, nested(input, depth)?),
                     ),
                 ),
                 preceded(comment_or_space0, right_brace),
@@ -1547,11 +1565,15 @@ pub fn single(input: &str) -> IResult<&str, Single<'_>> {
 
 /// A value list is a comma-separated list of `Value`s.
 pub fn value_list(input: &str) -> IResult<&str, Vec<Value<'_>>> {
+    value_list_within(input, MAX_NESTING)
+}
+
+fn value_list_within(input: &str, depth: usize) -> IResult<&str, Vec<Value<'_>>> {
     delimited(
         terminated(left_square_bracket, comment_or_space0),
         separated_list(
             delimited(comment_or_space0, comma, comment_or_space0),
-            value_,
+            |input| value_within(input, nested(input, depth)?),
         ),
         preceded(comment_or_space0, right_square_bracket),
     )(input)
@@ -1589,10 +1611,14 @@ mod value_list_tests {
 
 /// `Value`s are `Single`s or `Object`s.
 pub fn value_(input: &str) -> IResult<&str, Value<'_>> {
+    value_within(input, MAX_NESTING)
+}
+
+fn value_within(input: &str, depth: usize) -> IResult<&str, Value<'_>> {
     alt((
         map(single, Value::from),
-        map(object, Value::from),
-        map(value_list, Value::from),
+        map(|input| object_within(input, depth), Value::from),
+        map(|input| value_list_within(input, depth), Value::from),
     ))(input)
 }
 
diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index e933986..544374f 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -1,4 +1,4 @@
-use crate::{ast::types as ast, ir::types as ir};
+use crate::{ast::types as ast, ir::types as ir, parser::MAX_NESTING};
 use anyhow::{anyhow, Result};
 use heck::SnakeCase;
 use itertools::Itertools;
@@ -69,7 +69,13 @@ impl<'a> Builder<'a> {
         // An element belongs to the namespace it was declared in, no matter when it is resolved
         self.current_namespace = namespace.clone();
         match element {
-            ast::Element::Namespace(_) => Ok(true), // accounted for in `build`
+            ast::Element::Namespace(ns) => {
+                // otherwise accounted for in `build`
+                if ns.ident.parts.len() > MAX_NESTING {
+                    return Err(anyhow!("namespaces are nested too deeply"));
+                }
+                Ok(true)
+            }
             ast::Element::Table(t) => self.new_table(t, pos),
             ast::Element::Struct(s) => self.new_struct(s, pos),
             ast::Element::Enum(e) => self.new_enum(e, pos),
-- 
2.43.0


From 0abb7d708767db1b976260b4cf83a597f1fafcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:15 +0000
Subject: [PATCH 50/51] fix: structs are rejected before they are resolved

---
 butte-build/src/compile.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/butte-build/src/compile.rs b/butte-build/src/compile.rs
index 2cac670..efadfe2 100644
--- a/butte-build/src/compile.rs
+++ b/butte-build/src/compile.rs
@@ -1,4 +1,5 @@
 use crate::{
+    ast::types as ast,
     codegen::{CodeGenerator, RpcGenerator},
     ir::Builder,
 };
@@ -44,6 +45,13 @@ fn generate(
             rest.chars().take(30).collect::<String>()
         ));
     }
+    // not left to the generator: resolved types hold the fields of their structs,
+    // which can be exponentially many
+    for element in &schema.elements {
+        if let ast::Element::Struct(s) = element {
+            return Err(anyhow!("structs are not supported: {}", s.id.raw));
+        }
+    }
     let root = Builder::build(schema).map_err(|e| anyhow!("semantic analysis failed, {}", e))?;
 
     let mut generator = CodeGenerator { root, rpc_gen };
-- 
2.43.0


From f1eefd46d775bf611a87bb6008ff189c1eb122bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:15 +0000
Subject: [PATCH 51/51] fix: tables with more fields than fit in a vtable are
 rejected

---
 butte-build/src/ir/transform.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 544374f..4c283aa 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -7,6 +7,9 @@ use std::{
     convert::{TryFrom, TryInto},
 };
 
+/// How many fields fit in a vtable, whose size in bytes is an `u16`
+const MAX_FIELDS: usize = 32765;
+
 #[derive(Default, Clone, Debug)]
 pub struct Builder<'a> {
     current_namespace: Option<ast::Namespace<'a>>,
@@ -168,6 +171,10 @@ impl<'a> Builder<'a> {
             }
         }
 
+        if fields.len() > MAX_FIELDS {
+            return Err(anyhow!("table has too many fields: {}", ident));
+        }
+
         // Accessors are named after the fields, in snake case
         let mut names = HashSet::new();
         for f in &fields {
-- 
2.43.0

