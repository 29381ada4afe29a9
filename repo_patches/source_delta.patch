From 196f44e839486c71cf8697a4c22d6500a7aa6dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 1/3] fix: complete an unstarted coroutine before dropping its
 captured state

If the destructor of the captured state of an unstarted coroutine panics out of
force_unwind, the coroutine used to stay resumable: the state was then dropped
a second time when the coroutine was dropped, or the dropped closure was run.
---
 src/coroutine.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coroutine.rs b/src/coroutine.rs
index 9982cab..15000af 100644
--- a/src/coroutine.rs
+++ b/src/coroutine.rs
@@ -347,10 +347,12 @@ impl<Input, Yield, Return, Stack: stack::Stack> Coroutine<Input, Yield, Return,
         // If the coroutine has not started yet then we just need to drop the
         // initial object.
         if !self.started() {
+            // Mark the coroutine as completed first: the object counts as
+            // dropped even if its destructor panics.
+            self.stack_ptr = None;
             unsafe {
                 arch::drop_initial_obj(self.stack.base(), stack_ptr, self.drop_fn);
             }
-            self.stack_ptr = None;
             return;
         }
 
-- 
2.43.0


From 49a6da52597cca94eaf6f8993e6b82b71bd5c5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 2/3] fix: refuse to transfer over-aligned zero-sized objects
 to a stack

The size limit does not bound how far aligning the stack pointer moves it when
the object is zero-sized: an alignment larger than the stack placed the stack
pointer, and thus everything the coroutine pushed, below the stack.
---
 src/arch/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arch/mod.rs b/src/arch/mod.rs
index a5c7d56..ca518aa 100644
--- a/src/arch/mod.rs
+++ b/src/arch/mod.rs
@@ -117,6 +117,11 @@ cfg_if::cfg_if! {
 unsafe fn allocate_obj_on_stack<T>(sp: &mut usize, sp_offset: usize, obj: T) {
     // Sanity check to avoid stack overflows.
     assert!(mem::size_of::<T>() <= 1024, "type is too big to transfer");
+    // Aligning the stack pointer also consumes stack, even if T is zero-sized.
+    assert!(
+        mem::align_of::<T>() <= 1024,
+        "type is too aligned to transfer"
+    );
 
     if mem::align_of::<T>() > STACK_ALIGNMENT {
         *sp -= mem::size_of::<T>();
-- 
2.43.0


From 10f2a6083e6d21ef352aa6210a01f9a93cbdc84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 3/3] fix: don't inline assembly that unwinds into functions
 with an exception table

With the asm-unwind feature and optimizations, dropping a suspended coroutine
(or letting a panic leave a coroutine) aborted the process with 'failed to
initiate panic' when the function that suspend() was inlined into had landing
pads, but no other call next to the assembly: LLVM does not count inline
assembly as a potentially throwing call and leaves it out of the call-site
table.
---
 src/coroutine.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/coroutine.rs b/src/coroutine.rs
index 15000af..066856d 100644
--- a/src/coroutine.rs
+++ b/src/coroutine.rs
@@ -265,6 +265,12 @@ impl<Input, Yield, Return, Stack: stack::Stack> Coroutine<Input, Yield, Return,
     }
 
     /// Common code for resuming execution of a coroutine.
+    // With asm-unwind, exceptions unwind out of the inline assembly. LLVM only
+    // covers this in a function's exception table if the assembly happens to be
+    // surrounded by the right calls, otherwise unwinding aborts the process.
+    // Functions containing such assembly must therefore not be inlined into
+    // functions that have an exception table.
+    #[cfg_attr(feature = "asm-unwind", inline(never))]
     unsafe fn resume_inner(
         &mut self,
         stack_ptr: StackPointer,
@@ -399,6 +405,7 @@ impl<Input, Yield, Return, Stack: stack::Stack> Coroutine<Input, Yield, Return,
     ///
     /// Used by `force_unwind`.
     #[cfg(feature = "asm-unwind")]
+    #[inline(never)]
     unsafe fn resume_with_exception(
         &mut self,
         stack_ptr: StackPointer,
@@ -499,6 +506,7 @@ impl<Input, Yield> Yielder<Input, Yield> {
     /// This function will switch control back to the original caller of
     /// [`Coroutine::resume`]. This function will then return once the
     /// [`Coroutine::resume`] function is called again.
+    #[cfg_attr(feature = "asm-unwind", inline(never))]
     pub fn suspend(&self, val: Yield) -> Input {
         unsafe {
             let mut val = ManuallyDrop::new(val);
@@ -547,6 +555,7 @@ impl<Input, Yield> Yielder<Input, Yield> {
 ///
 /// Any panics in the provided closure are automatically propagated back up to
 /// the caller of this function.
+#[cfg_attr(feature = "asm-unwind", inline(never))]
 pub fn on_stack<F, R>(stack: impl stack::Stack, f: F) -> R
 where
     F: FnOnce() -> R,
-- 
2.43.0

