From 25a59e79f5422f3ae9cf5d739d84cb4175210d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 1/5] fix: check the borrow comparison's second operand before
 fusing sub/sltu/sub/sltu/or

---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 4776392..00a4849 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -445,7 +445,7 @@ impl Decoder {
                         if next_inst.rd() == head_inst.rs1()
                             || next_inst.rd() == head_inst.rs2()
                             || next_inst.rs1() != head_inst.rs1()
-                            || next_inst.rs2() != next_inst.rs2()
+                            || next_inst.rs2() != head_inst.rs2()
                         {
                             return Ok(None);
                         }
-- 
2.43.0


From e60463b84c29ff29608d97dc6290f8053c1b8d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:06 +0000
Subject: [PATCH 2/5] fix: do not fuse a version 2 lui/jalr pair whose target
 overflows 32 bits

---
 src/decoder.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 00a4849..accc18a 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -587,10 +587,14 @@ impl Decoder {
                         } else {
                             next_inst.rs1() == head_inst.rd() && next_inst.rd() == RA
                         };
+                        let (head_imm, next_imm) =
+                            (head_inst.immediate_s(), next_inst.immediate_s());
+                        // A target that does not fit in 32 bits cannot be fused.
+                        if self.version >= VERSION2 && head_imm.checked_add(next_imm).is_none() {
+                            return Ok(head_instruction);
+                        }
                         if test_condition {
-                            let fuze_imm = head_inst
-                                .immediate_s()
-                                .wrapping_add(next_inst.immediate_s());
+                            let fuze_imm = head_imm.wrapping_add(next_imm);
                             let fuze_inst = Utype::new_s(insts::OP_FAR_JUMP_ABS, RA, fuze_imm);
                             let next_size = instruction_length(next_instruction);
                             let fuze_size = head_size + next_size;
-- 
2.43.0


From 80e402b25b422ce5c924a0406202b837dbc17ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:51 +0000
Subject: [PATCH 3/5] hook: smaller instruction cache under cfg(kani)

---
 src/decoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index accc18a..7a4b2e9 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -11,7 +11,11 @@ use crate::memory::Memory;
 use crate::{Error, ISA_A, ISA_B, ISA_MOP, RISCV_PAGESIZE};
 
 const RISCV_PAGESIZE_MASK: u64 = RISCV_PAGESIZE as u64 - 1;
+#[cfg(not(kani))]
 const INSTRUCTION_CACHE_SIZE: usize = 4096;
+// Verification builds only: a smaller cache keeps proof obligations tractable.
+#[cfg(kani)]
+const INSTRUCTION_CACHE_SIZE: usize = 16;
 
 pub trait InstDecoder {
     fn decode<M: Memory>(&mut self, memory: &mut M, pc: u64) -> Result<Instruction, Error>;
-- 
2.43.0


From 30a4009675eefc8cbfb04d6422b8ac36a4c03971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 4/5] fix: number the pages of a sparse memory with 32 bits

With 65536 or more touched pages the 16-bit page index collided with the
invalid index, or wrapped, so that stores were lost or hit other pages.
---
 src/memory/sparse.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/memory/sparse.rs b/src/memory/sparse.rs
index 09cf917..8c2c739 100644
--- a/src/memory/sparse.rs
+++ b/src/memory/sparse.rs
@@ -7,16 +7,17 @@ use bytes::Bytes;
 use std::cmp::min;
 use std::marker::PhantomData;
 
-const INVALID_PAGE_INDEX: u16 = 0xFFFF;
+const INVALID_PAGE_INDEX: u32 = 0xFFFF_FFFF;
 
 /// A sparse flat memory implementation, it allocates pages only when requested,
 /// but besides that, it does not permission checking.
 pub struct SparseMemory<R> {
     // Stores the indices of each page in pages data structure, if a page hasn't
     // been initialized, the corresponding position will be filled with
-    // INVALID_PAGE_INDEX. Considering u16 takes 2 bytes, this add an additional
-    // of 64KB extra storage cost assuming we have 128MB memory.
-    indices: Vec<u16>,
+    // INVALID_PAGE_INDEX. Considering u32 takes 4 bytes, this add an additional
+    // of 128KB extra storage cost assuming we have 128MB memory. A u16 would not
+    // do: it cannot number the pages of memories of 256MB and more.
+    indices: Vec<u32>,
     pages: Vec<Page>,
     flags: Vec<u8>,
     memory_size: usize,
@@ -34,7 +35,7 @@ impl<R: Register> SparseMemory<R> {
         let mut index = self.indices[page as usize];
         if index == INVALID_PAGE_INDEX {
             self.pages.push([0; RISCV_PAGESIZE]);
-            index = (self.pages.len() - 1) as u16;
+            index = (self.pages.len() - 1) as u32;
             self.indices[page as usize] = index;
         }
         Ok(&mut self.pages[index as usize])
-- 
2.43.0


From 10f3288892ac39f677028f1a4ceb1731b0697774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 5/5] hook: any sparse memory state under cfg(kani)

---
 src/memory/sparse.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/memory/sparse.rs b/src/memory/sparse.rs
index 8c2c739..2fb0588 100644
--- a/src/memory/sparse.rs
+++ b/src/memory/sparse.rs
@@ -292,3 +292,20 @@ impl<R: Register> Memory for SparseMemory<R> {
         self.load_reservation_address = value.clone();
     }
 }
+
+#[cfg(kani)]
+impl<R: Register> SparseMemory<R> {
+    /// Any representation state, for verification builds only.
+    pub fn from_parts(indices: Vec<u32>, pages: Vec<Page>, flags: Vec<u8>, lr: R) -> Self {
+        let riscv_pages = indices.len();
+        Self {
+            indices,
+            pages,
+            flags,
+            memory_size: riscv_pages * RISCV_PAGESIZE,
+            riscv_pages,
+            load_reservation_address: lr,
+            _inner: PhantomData,
+        }
+    }
+}
-- 
2.43.0

