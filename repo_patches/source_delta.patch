From f1f120e536700da6130713baaea06450828ecdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 01/20] verif: scheduling points in Notify, guarded by
 cfg(parcom_verif)

---
 crates/parcom-internals/src/future/notify.rs |  9 ++-
 crates/parcom-internals/src/lib.rs           |  4 +
 crates/parcom-internals/src/verif.rs         | 84 ++++++++++++++++++++
 3 files changed, 93 insertions(+), 4 deletions(-)
 create mode 100644 crates/parcom-internals/src/verif.rs

diff --git a/crates/parcom-internals/src/future/notify.rs b/crates/parcom-internals/src/future/notify.rs
index 9abb471..9b38ca8 100644
--- a/crates/parcom-internals/src/future/notify.rs
+++ b/crates/parcom-internals/src/future/notify.rs
@@ -1,10 +1,11 @@
+#[cfg(parcom_verif)]
+use crate::verif::sync::{AtomicUsize, Mutex};
 use slab::Slab;
+#[cfg(not(parcom_verif))]
+use std::sync::{atomic::AtomicUsize, Mutex};
 use std::{
     future::Future,
-    sync::{
-        atomic::{AtomicUsize, Ordering},
-        Mutex,
-    },
+    sync::atomic::Ordering,
     task::{Poll, Waker},
 };
 
diff --git a/crates/parcom-internals/src/lib.rs b/crates/parcom-internals/src/lib.rs
index 7511685..640b54d 100644
--- a/crates/parcom-internals/src/lib.rs
+++ b/crates/parcom-internals/src/lib.rs
@@ -1,5 +1,9 @@
+#![allow(unexpected_cfgs)]
+
 pub mod future;
 pub mod reactive;
 pub mod shortvec;
+#[cfg(parcom_verif)]
+pub mod verif;
 
 pub use shortvec::ShortVec;
diff --git a/crates/parcom-internals/src/verif.rs b/crates/parcom-internals/src/verif.rs
new file mode 100644
index 0000000..85bda81
--- /dev/null
+++ b/crates/parcom-internals/src/verif.rs
@@ -0,0 +1,84 @@
+//! Scheduling points for model-based verification.
+//!
+//! Compiled only with `--cfg parcom_verif`. Every access to the wrapped primitives first calls the
+//! scheduler installed by the verification harness, if any, so that the harness decides how threads
+//! interleave. Without an installed scheduler the wrappers behave as the std types.
+
+use std::sync::RwLock;
+
+pub trait Scheduler: Send + Sync {
+    /// called before an access to a shared primitive.
+    fn point(&self, label: &'static str);
+    /// called when the current thread cannot go on until another thread does something.
+    /// returns `false` if the thread is not controlled and should block normally.
+    fn blocked(&self, label: &'static str) -> bool;
+}
+
+static SCHEDULER: RwLock<Option<&'static dyn Scheduler>> = RwLock::new(None);
+
+pub fn install(scheduler: Option<&'static dyn Scheduler>) {
+    *SCHEDULER.write().unwrap() = scheduler;
+}
+
+fn current() -> Option<&'static dyn Scheduler> {
+    *SCHEDULER.read().unwrap()
+}
+
+pub fn point(label: &'static str) {
+    if let Some(s) = current() {
+        s.point(label);
+    }
+}
+
+pub mod sync {
+    use std::ops::Deref;
+    use std::sync::{LockResult, MutexGuard, TryLockError};
+
+    #[derive(Debug, Default)]
+    pub struct AtomicUsize(std::sync::atomic::AtomicUsize);
+
+    impl AtomicUsize {
+        pub const fn new(value: usize) -> Self {
+            Self(std::sync::atomic::AtomicUsize::new(value))
+        }
+    }
+
+    impl Deref for AtomicUsize {
+        type Target = std::sync::atomic::AtomicUsize;
+        fn deref(&self) -> &Self::Target {
+            super::point("atomic");
+            &self.0
+        }
+    }
+
+    #[derive(Debug, Default)]
+    pub struct Mutex<T>(std::sync::Mutex<T>);
+
+    impl<T> Mutex<T> {
+        pub const fn new(value: T) -> Self {
+            Self(std::sync::Mutex::new(value))
+        }
+
+        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+            loop {
+                super::point("lock");
+                match self.0.try_lock() {
+                    Ok(guard) => return Ok(guard),
+                    Err(TryLockError::Poisoned(e)) => return Err(e),
+                    Err(TryLockError::WouldBlock) => match super::current() {
+                        Some(s) if s.blocked("lock") => continue,
+                        _ => return self.0.lock(),
+                    },
+                }
+            }
+        }
+    }
+
+    impl<T> Deref for Mutex<T> {
+        type Target = std::sync::Mutex<T>;
+        fn deref(&self) -> &Self::Target {
+            super::point("mutex");
+            &self.0
+        }
+    }
+}
-- 
2.43.0


From 491b071b0e448e430ba3a19a745709e7290e9727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:36 +0000
Subject: [PATCH 02/20] verif: guarded constructor of the generic sequence
 builder and access to the default sequence's signals

---
 .../parcom-runners/src/default_runner/sequence.rs | 15 +++++++++++++++
 crates/parcom-runners/src/lib.rs                  |  2 ++
 crates/parcom-sequences/src/generic.rs            | 10 ++++++++++
 crates/parcom-sequences/src/lib.rs                |  2 ++
 4 files changed, 29 insertions(+)

diff --git a/crates/parcom-runners/src/default_runner/sequence.rs b/crates/parcom-runners/src/default_runner/sequence.rs
index bff0df4..930672f 100644
--- a/crates/parcom-runners/src/default_runner/sequence.rs
+++ b/crates/parcom-runners/src/default_runner/sequence.rs
@@ -71,3 +71,18 @@ where
         DefaultSequenceAdvance::new(self, delta)
     }
 }
+
+#[cfg(parcom_verif)]
+impl<S, B> DefaultSequence<S, B>
+where
+    S: SequenceSource,
+    B: SequenceBuilder<S>,
+{
+    /// the append signal and the done flag, for the verification harness to play the producer.
+    pub fn verif_signals(&self) -> (Arc<Notify>, Arc<AtomicBool>) {
+        (
+            Arc::clone(&self.inner.append_signal),
+            Arc::clone(&self.inner.done_flag),
+        )
+    }
+}
diff --git a/crates/parcom-runners/src/lib.rs b/crates/parcom-runners/src/lib.rs
index 1b44568..3206e76 100644
--- a/crates/parcom-runners/src/lib.rs
+++ b/crates/parcom-runners/src/lib.rs
@@ -1 +1,3 @@
+#![allow(unexpected_cfgs)]
+
 pub mod default_runner;
diff --git a/crates/parcom-sequences/src/generic.rs b/crates/parcom-sequences/src/generic.rs
index f927fc8..e619cf5 100644
--- a/crates/parcom-sequences/src/generic.rs
+++ b/crates/parcom-sequences/src/generic.rs
@@ -32,3 +32,13 @@ impl<B: BufferStrategy, S: SequenceSource> SequenceBuilder<S> for GenericSequenc
         (buffer, loader)
     }
 }
+
+#[cfg(parcom_verif)]
+impl<B: BufferStrategy> GenericSequenceBuilder<B> {
+    /// constructor for the verification harness.
+    pub fn verif_new(strategy: B) -> Self {
+        Self {
+            strategy: Arc::new(strategy),
+        }
+    }
+}
diff --git a/crates/parcom-sequences/src/lib.rs b/crates/parcom-sequences/src/lib.rs
index a6d8c53..6caeefe 100644
--- a/crates/parcom-sequences/src/lib.rs
+++ b/crates/parcom-sequences/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 mod buffer_strategy;
 
 pub mod generic;
-- 
2.43.0


From 47404481fce634790889e9bf038f2b037cb4b969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 03/20] fix: atom consumes the whole pattern when it spans
 segments

Only the part of the pattern matched in the last segment was skipped.
---
 crates/parcom-parsers/src/primitive/atom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parcom-parsers/src/primitive/atom.rs b/crates/parcom-parsers/src/primitive/atom.rs
index 020e87a..4764513 100644
--- a/crates/parcom-parsers/src/primitive/atom.rs
+++ b/crates/parcom-parsers/src/primitive/atom.rs
@@ -43,7 +43,7 @@ where
                 let matched = s == remain;
                 drop(segments);
                 return if matched {
-                    done((), input.advance(remain.len()).await)
+                    done((), input.advance(self.pattern.pattern().len()).await)
                 } else {
                     fail(Miss(()), input)
                 };
-- 
2.43.0


From 3c379d758e0c0a9547ca51c4b7b394c545a8edb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 04/20] fix: atom does not panic when a length falls inside a
 character

---
 crates/parcom-core/src/primitive/str.rs     |  4 ++++
 crates/parcom-core/src/sequence/segment.rs  |  9 +++++++++
 crates/parcom-parsers/src/primitive/atom.rs | 10 +++++++---
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/crates/parcom-core/src/primitive/str.rs b/crates/parcom-core/src/primitive/str.rs
index d326b55..1751ae1 100644
--- a/crates/parcom-core/src/primitive/str.rs
+++ b/crates/parcom-core/src/primitive/str.rs
@@ -139,4 +139,8 @@ impl SequenceSegment for str {
     fn split_at(&self, mid: Self::Length) -> (&Self, &Self) {
         str::split_at(&self, mid.0)
     }
+
+    fn split_at_checked(&self, mid: Self::Length) -> Option<(&Self, &Self)> {
+        str::split_at_checked(self, mid.0)
+    }
 }
diff --git a/crates/parcom-core/src/sequence/segment.rs b/crates/parcom-core/src/sequence/segment.rs
index df41402..347a4bc 100644
--- a/crates/parcom-core/src/sequence/segment.rs
+++ b/crates/parcom-core/src/sequence/segment.rs
@@ -3,4 +3,13 @@ pub trait SequenceSegment {
 
     fn len(&self) -> Self::Length;
     fn split_at(&self, mid: Self::Length) -> (&Self, &Self);
+
+    /// `None` if the segment cannot be split at `mid`, e.g. in the middle of a character.
+    fn split_at_checked(&self, mid: Self::Length) -> Option<(&Self, &Self)> {
+        if mid <= self.len() {
+            Some(self.split_at(mid))
+        } else {
+            None
+        }
+    }
 }
diff --git a/crates/parcom-parsers/src/primitive/atom.rs b/crates/parcom-parsers/src/primitive/atom.rs
index 4764513..a6f3381 100644
--- a/crates/parcom-parsers/src/primitive/atom.rs
+++ b/crates/parcom-parsers/src/primitive/atom.rs
@@ -39,8 +39,9 @@ where
 
         while let Some(segment) = segments.next(remain.len()).await {
             if segment.len() >= remain.len() {
-                let s = segment.split_at(remain.len()).0;
-                let matched = s == remain;
+                let matched = segment
+                    .split_at_checked(remain.len())
+                    .is_some_and(|(s, _)| s == remain);
                 drop(segments);
                 return if matched {
                     done((), input.advance(self.pattern.pattern().len()).await)
@@ -49,7 +50,10 @@ where
                 };
             }
 
-            let (p, r) = remain.split_at(segment.len());
+            let Some((p, r)) = remain.split_at_checked(segment.len()) else {
+                drop(segments);
+                return fail(Miss(()), input);
+            };
 
             if &*segment != p {
                 drop(segments);
-- 
2.43.0


From b7715f37f23e5375336b6ce9995b4fe527a3b68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 05/20] fix: an empty atom matches at the end of an input
 without segments

---
 crates/parcom-parsers/src/primitive/atom.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/parcom-parsers/src/primitive/atom.rs b/crates/parcom-parsers/src/primitive/atom.rs
index a6f3381..a78500a 100644
--- a/crates/parcom-parsers/src/primitive/atom.rs
+++ b/crates/parcom-parsers/src/primitive/atom.rs
@@ -64,6 +64,9 @@ where
         }
 
         drop(segments);
+        if remain.len() == Default::default() {
+            return done((), input);
+        }
         return fail((), input);
     }
 }
-- 
2.43.0


From f52194add9d2d6e8a5c4d86ae3f8aaef93c5a6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 06/20] fix: left-associative operators of the highest
 precedence do not overflow

---
 crates/parcom-parsers/src/combinator/bin_expr.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/parcom-parsers/src/combinator/bin_expr.rs b/crates/parcom-parsers/src/combinator/bin_expr.rs
index 5e5f015..dd14448 100644
--- a/crates/parcom-parsers/src/combinator/bin_expr.rs
+++ b/crates/parcom-parsers/src/combinator/bin_expr.rs
@@ -131,7 +131,7 @@ where
                     break;
                 };
                 let prec = next_precedence(&last_op);
-                if op.precedence() >= prec {
+                if prec.is_some_and(|prec| op.precedence() >= prec) {
                     // ひとつ前の演算子より優先度が高い．
                     stack.push((lhs, last_op));
                     stack.push((rhs, op));
@@ -151,10 +151,11 @@ where
         done((rhs, reason), rest)
     }
 }
-fn next_precedence<T: Operator>(op: &T) -> usize {
+// None when no operator can bind tighter
+fn next_precedence<T: Operator>(op: &T) -> Option<usize> {
     match op.associativity() {
-        Associativity::Left => op.precedence() + 1,
-        Associativity::Right => op.precedence(),
+        Associativity::Left => op.precedence().checked_add(1),
+        Associativity::Right => Some(op.precedence()),
     }
 }
 
-- 
2.43.0


From 51bcf8600da58149fe58189e8f253e37efc23d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 07/20] fix: capacity of a generic writer does not shrink as it
 fills

---
 crates/parcom-sequences/src/generic/control.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parcom-sequences/src/generic/control.rs b/crates/parcom-sequences/src/generic/control.rs
index 351fb59..d804f97 100644
--- a/crates/parcom-sequences/src/generic/control.rs
+++ b/crates/parcom-sequences/src/generic/control.rs
@@ -80,7 +80,7 @@ impl<'a, T, E> BufferWriter for Request<'a, T, E> {
     type Error = E;
 
     fn capacity(&self) -> usize {
-        self.buf.capacity() - self.buf.len()
+        self.buf.capacity() - self.offset
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From 48ac5598ce4c95c6259cb4f53fbefca6cda01b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 08/20] fix: a cancelled request keeps the items buffered
 before it

---
 crates/parcom-sequences/src/generic/control.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/parcom-sequences/src/generic/control.rs b/crates/parcom-sequences/src/generic/control.rs
index d804f97..0e72ea0 100644
--- a/crates/parcom-sequences/src/generic/control.rs
+++ b/crates/parcom-sequences/src/generic/control.rs
@@ -115,7 +115,10 @@ impl<'a, T, E> BufferWriter for Request<'a, T, E> {
     }
 
     fn cancel(self, err: Self::Error) -> Self::Result {
-        self.buf.drain(self.offset..);
+        self.buf.truncate(self.offset);
+        if !self.to_append.is_empty() {
+            *self.buf = self.to_append;
+        }
         Response::Cancel(err)
     }
 }
-- 
2.43.0


From d46f95d6b0e1596375b7ffa602d6c0d74040b07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 09/20] fix: an abandoned request keeps the items buffered
 before it and discards its own

---
 .../parcom-sequences/src/generic/control.rs   | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/crates/parcom-sequences/src/generic/control.rs b/crates/parcom-sequences/src/generic/control.rs
index 0e72ea0..c832773 100644
--- a/crates/parcom-sequences/src/generic/control.rs
+++ b/crates/parcom-sequences/src/generic/control.rs
@@ -73,6 +73,16 @@ pub struct Request<'a, T, E> {
     _phantom: PhantomData<fn() -> E>,
 }
 
+impl<'a, T, E> Drop for Request<'a, T, E> {
+    /// discards what was written since the request, unless it was handed over by `advance`.
+    fn drop(&mut self) {
+        self.buf.truncate(self.offset);
+        if !self.to_append.is_empty() {
+            *self.buf = std::mem::take(&mut self.to_append);
+        }
+    }
+}
+
 impl<'a, T, E> BufferWriter for Request<'a, T, E> {
     type Segment = [T];
     type Item = T;
@@ -99,15 +109,17 @@ impl<'a, T, E> BufferWriter for Request<'a, T, E> {
         self.buf.set_len(new_len + self.offset);
     }
 
-    fn advance(self) -> Self::Result {
-        if self.to_append.is_empty() {
+    fn advance(mut self) -> Self::Result {
+        self.offset = self.buf.len();
+        let to_append = std::mem::take(&mut self.to_append);
+        if to_append.is_empty() {
             Response::Appended {
                 cap: self.buf.capacity(),
                 len: self.buf.len(),
             }
         } else {
             Response::Advance {
-                buf: self.to_append,
+                buf: to_append,
                 cap: self.buf.capacity(),
                 len: self.buf.len(),
             }
@@ -115,10 +127,6 @@ impl<'a, T, E> BufferWriter for Request<'a, T, E> {
     }
 
     fn cancel(self, err: Self::Error) -> Self::Result {
-        self.buf.truncate(self.offset);
-        if !self.to_append.is_empty() {
-            *self.buf = self.to_append;
-        }
         Response::Cancel(err)
     }
 }
-- 
2.43.0


From 9427c99215a57bf38fabf704bf023983db8606d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:46 +0000
Subject: [PATCH 10/20] fix: releasing a long generic sequence does not exhaust
 the stack

---
 crates/parcom-sequences/src/generic.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/parcom-sequences/src/generic.rs b/crates/parcom-sequences/src/generic.rs
index e619cf5..f4df0dd 100644
--- a/crates/parcom-sequences/src/generic.rs
+++ b/crates/parcom-sequences/src/generic.rs
@@ -15,6 +15,16 @@ struct Node<T> {
     next: Arc<OnceLock<Node<T>>>,
 }
 
+impl<T> Drop for Node<T> {
+    /// releases the nodes that follow one by one, a long sequence must not exhaust the stack.
+    fn drop(&mut self) {
+        let mut next = Arc::get_mut(&mut self.next).and_then(OnceLock::take);
+        while let Some(mut node) = next {
+            next = Arc::get_mut(&mut node.next).and_then(OnceLock::take);
+        }
+    }
+}
+
 pub struct GenericSequenceBuilder<B: BufferStrategy> {
     strategy: Arc<B>,
 }
-- 
2.43.0


From 472607b575686ffa20f8197d9faf9f52081555ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 11/20] fix: a stream that ends inside a character is reported
 as an invalid sequence

---
 crates/parcom-sequence-sources/src/utf8_validator.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/parcom-sequence-sources/src/utf8_validator.rs b/crates/parcom-sequence-sources/src/utf8_validator.rs
index 337c9bc..de7b7bb 100644
--- a/crates/parcom-sequence-sources/src/utf8_validator.rs
+++ b/crates/parcom-sequence-sources/src/utf8_validator.rs
@@ -142,6 +142,15 @@ where
     }
 
     fn finish(self) -> Self::Result {
+        // the source ended inside a character
+        if self.buffered > 0 {
+            let res = self.control.cancel(Utf8ValidationError::InvalidSequence);
+            return Response {
+                inner: InnerResponse::Err { res },
+                _phantom: PhantomData,
+            };
+        }
+
         let res = self.control.finish();
         Response {
             inner: InnerResponse::Finish { res },
-- 
2.43.0


From d1a1df13a026f711cda737eb14876bca7a179178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:07 +0000
Subject: [PATCH 12/20] fix: rewinding a slice of zero-sized items does not
 panic

---
 crates/parcom-core/src/primitive/slice.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/parcom-core/src/primitive/slice.rs b/crates/parcom-core/src/primitive/slice.rs
index dac8954..b101aaa 100644
--- a/crates/parcom-core/src/primitive/slice.rs
+++ b/crates/parcom-core/src/primitive/slice.rs
@@ -31,13 +31,13 @@ impl<T> RewindSequence for &[T] {
     }
 
     fn rewind(self, anchor: Self::Anchor) -> Self::Rewind {
-        let ptr = anchor.me.as_ptr();
-        let len = anchor.me.len();
-        let offset = unsafe { self.as_ptr().offset_from(ptr) };
-        if !offset.is_negative() && (offset as usize) <= len {
-            std::future::ready(anchor.me)
-        } else {
-            panic!("the anchor is not an anchor of this stream.")
+        // in bytes, items may be zero-sized
+        let offset = (self.as_ptr() as usize).checked_sub(anchor.me.as_ptr() as usize);
+        match offset {
+            Some(offset) if offset <= std::mem::size_of_val(anchor.me) => {
+                std::future::ready(anchor.me)
+            }
+            _ => panic!("the anchor is not an anchor of this stream."),
         }
     }
 }
-- 
2.43.0


From 54a62642181a34ac3abfc83b962bb4db762a4a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:00 +0000
Subject: [PATCH 13/20] fix: a string advanced past its end can still be
 rewound

---
 crates/parcom-core/src/primitive/str.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parcom-core/src/primitive/str.rs b/crates/parcom-core/src/primitive/str.rs
index 1751ae1..aac4ffc 100644
--- a/crates/parcom-core/src/primitive/str.rs
+++ b/crates/parcom-core/src/primitive/str.rs
@@ -19,7 +19,8 @@ impl<'a> Sequence for &'a str {
 
     fn advance(self, delta: BytesDelta) -> Self::Advance {
         let delta = delta.to_bytes();
-        let rest = self.get(delta..).unwrap_or("");
+        // stays within the input even past its end, for rewinding.
+        let rest = self.get(delta..).unwrap_or(&self[self.len()..]);
         std::future::ready(rest)
     }
 }
-- 
2.43.0


From f9a45e00a9b16c52dce8bb9ce91d20d4c34e44c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:43 +0000
Subject: [PATCH 14/20] fix: CRLF recognises a line end after a repeated CR
 ("\r\r\n")

---
 crates/parcom-metrics/src/end_of_line.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/parcom-metrics/src/end_of_line.rs b/crates/parcom-metrics/src/end_of_line.rs
index 960dd61..561b232 100644
--- a/crates/parcom-metrics/src/end_of_line.rs
+++ b/crates/parcom-metrics/src/end_of_line.rs
@@ -55,13 +55,17 @@ impl EndOfLine for CRLF {
                 }
                 _ => EndOfLineMatch::NotMatch,
             },
-            CRLFState::CR => {
-                self.state = CRLFState::Initial;
-                match c {
-                    '\n' => EndOfLineMatch::Match,
-                    _ => EndOfLineMatch::NotMatch,
+            CRLFState::CR => match c {
+                '\n' => {
+                    self.state = CRLFState::Initial;
+                    EndOfLineMatch::Match
                 }
-            }
+                '\r' => EndOfLineMatch::PartialMatch,
+                _ => {
+                    self.state = CRLFState::Initial;
+                    EndOfLineMatch::NotMatch
+                }
+            },
         }
     }
 }
-- 
2.43.0


From 0e541a17be419d978e8e59875af038d0e13707b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:57 +0000
Subject: [PATCH 15/20] fix: ShortVec makes no zero-sized allocator requests
 (zero-sized items)

---
 crates/parcom-internals/src/shortvec.rs | 38 ++++++++++++++-----------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/crates/parcom-internals/src/shortvec.rs b/crates/parcom-internals/src/shortvec.rs
index 1a23c94..bb47de3 100644
--- a/crates/parcom-internals/src/shortvec.rs
+++ b/crates/parcom-internals/src/shortvec.rs
@@ -33,14 +33,8 @@ impl<T, const N: usize> ShortVec<T, N> {
 
         if cap > N {
             let layout = Layout::array::<T>(cap).unwrap();
-            let ptr = unsafe { alloc::alloc(layout) as *mut T };
-            let ptr = match NonNull::new(ptr) {
-                Some(v) => v,
-                None => alloc::handle_alloc_error(layout),
-            };
-
             let data = ShortVecData {
-                heap: ManuallyDrop::new(ptr),
+                heap: ManuallyDrop::new(Self::alloc_heap(layout)),
             };
             Self { cap, len: 0, data }
         } else {
@@ -126,6 +120,10 @@ impl<T, const N: usize> ShortVec<T, N> {
         let layout = Layout::array::<T>(cap).unwrap();
         if self.is_heap() {
             let old_layout = Layout::array::<T>(self.cap).unwrap();
+            if layout.size() == 0 {
+                self.cap = cap;
+                return;
+            }
             let ptr = unsafe {
                 let ptr = self.data.heap.as_ptr() as *mut u8;
                 alloc::realloc(ptr, old_layout, layout.size()) as *mut T
@@ -139,13 +137,7 @@ impl<T, const N: usize> ShortVec<T, N> {
             self.cap = cap;
             self.data.heap = ptr;
         } else {
-            let buf = unsafe {
-                let ptr = alloc::alloc(layout) as *mut T;
-                match NonNull::new(ptr) {
-                    Some(v) => v,
-                    None => alloc::handle_alloc_error(layout),
-                }
-            };
+            let buf = Self::alloc_heap(layout);
 
             unsafe {
                 let src = self.as_ptr_stack_unchecked();
@@ -163,6 +155,18 @@ impl<T, const N: usize> ShortVec<T, N> {
         self.cap > N
     }
 
+    /// サイズ0のアロケーションは未定義動作であるため、その場合はアロケーションを行わない。
+    fn alloc_heap(layout: Layout) -> NonNull<T> {
+        if layout.size() == 0 {
+            return NonNull::dangling();
+        }
+        let ptr = unsafe { alloc::alloc(layout) as *mut T };
+        match NonNull::new(ptr) {
+            Some(v) => v,
+            None => alloc::handle_alloc_error(layout),
+        }
+    }
+
     unsafe fn as_ptr_stack_unchecked(&self) -> *const T {
         unsafe { self.data.stack.as_ptr() as *const T }
     }
@@ -182,8 +186,10 @@ impl<T, const N: usize> Drop for ShortVec<T, N> {
 
         if self.is_heap() {
             let layout = Layout::array::<T>(self.cap).unwrap();
-            unsafe {
-                alloc::dealloc(ptr as *mut u8, layout);
+            if layout.size() != 0 {
+                unsafe {
+                    alloc::dealloc(ptr as *mut u8, layout);
+                }
             }
         }
     }
-- 
2.43.0


From 4ae1f3fbfc0712c4f0de2f3a5fd8d415bcd05235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 16/20] fix: Notify::send wakes after releasing the lock (a
 woken task may use the notifier again)

---
 crates/parcom-internals/src/future/notify.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/parcom-internals/src/future/notify.rs b/crates/parcom-internals/src/future/notify.rs
index 9b38ca8..4077c57 100644
--- a/crates/parcom-internals/src/future/notify.rs
+++ b/crates/parcom-internals/src/future/notify.rs
@@ -25,8 +25,9 @@ impl Notify {
 
     pub fn send(&self) {
         self.version.fetch_add(1, Ordering::SeqCst);
-        let mut wakers = self.wakers.lock().unwrap();
-        for waker in wakers.drain() {
+        // wakeされたタスクがこの`Notify`を再び使用する場合があるため、ロックを解放してからwakeする。
+        let wakers = std::mem::take(&mut *self.wakers.lock().unwrap());
+        for (_, waker) in wakers {
             waker.wake();
         }
     }
-- 
2.43.0


From 6a4566893bdaff06d0aa88b50a1b9cb58ed02a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 17/20] fix: the end of a default sequence is not reported
 before its last segments

---
 .../parcom-runners/src/default_runner/sequence/segments.rs   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/parcom-runners/src/default_runner/sequence/segments.rs b/crates/parcom-runners/src/default_runner/sequence/segments.rs
index 10374a8..425b4ca 100644
--- a/crates/parcom-runners/src/default_runner/sequence/segments.rs
+++ b/crates/parcom-runners/src/default_runner/sequence/segments.rs
@@ -91,13 +91,16 @@ where
         let fut = this.host.append_signal.wait();
         // `this.host.iter.next()`が`None`を返したあと、`this.host.append_signal.wait()`を呼ぶ前に次のセグメントが追加されたか終了した場合のため、(1)・(2)のチェックをする。
 
+        // 終了する前に追加されたセグメントを見落とさないように、(1)より前に終了フラグを読む。
+        let is_done = this.host.done_flag.load(Ordering::SeqCst);
+
         // (1): セグメントが末尾に追加されたか。
         if let Some(seg) = this.host.iter.next() {
             return Poll::Ready(Some(seg));
         }
 
         // (2): シーケンスが終了したか。
-        if this.host.done_flag.load(Ordering::SeqCst) {
+        if is_done {
             return Poll::Ready(None);
         }
 
-- 
2.43.0


From 5fa241a96d98237cc68fb7618345f980353829f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 18/20] fix: advancing a default sequence keeps what is left to
 skip while it waits

---
 .../parcom-runners/src/default_runner/sequence/advance.rs   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/parcom-runners/src/default_runner/sequence/advance.rs b/crates/parcom-runners/src/default_runner/sequence/advance.rs
index b2915aa..8eb50e4 100644
--- a/crates/parcom-runners/src/default_runner/sequence/advance.rs
+++ b/crates/parcom-runners/src/default_runner/sequence/advance.rs
@@ -47,10 +47,12 @@ where
         };
         this.fut.set(OptionFuture::some(fut));
 
+        // 終了する前に追加されたセグメントを見落とさないように、`advance`より前に終了フラグを読む。
+        let is_done = sequence.done_flag.load(Ordering::SeqCst);
         let remain = std::mem::replace(this.remain, Default::default());
         let remain = sequence.buffer.advance(remain);
 
-        if &remain == this.remain || sequence.done_flag.load(Ordering::SeqCst) {
+        if &remain == this.remain || is_done {
             // `sequence`をtakeする前に`fut`がdropされることを保証する。
             this.fut.set(OptionFuture::none());
             // `this.remain == Default::default()`であるため、`remain == Default::default()`つまり`remain`が0になっている。
@@ -59,6 +61,8 @@ where
             return Poll::Ready(DefaultSequence { inner: sequence });
         }
 
+        *this.remain = remain;
+
         cx.waker().wake_by_ref();
 
         Poll::Pending
-- 
2.43.0


From 68f2d2c3526fbc3fe6dbbb3aa5b82b09fdb6e940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 19/20] parcom_verif: into_inner, get_mut and From for the
 wrapped primitives

---
 crates/parcom-internals/src/verif.rs | 34 +++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/crates/parcom-internals/src/verif.rs b/crates/parcom-internals/src/verif.rs
index 85bda81..6631083 100644
--- a/crates/parcom-internals/src/verif.rs
+++ b/crates/parcom-internals/src/verif.rs
@@ -31,7 +31,7 @@ pub fn point(label: &'static str) {
 }
 
 pub mod sync {
-    use std::ops::Deref;
+    use std::ops::{Deref, DerefMut};
     use std::sync::{LockResult, MutexGuard, TryLockError};
 
     #[derive(Debug, Default)]
@@ -41,6 +41,22 @@ pub mod sync {
         pub const fn new(value: usize) -> Self {
             Self(std::sync::atomic::AtomicUsize::new(value))
         }
+
+        pub fn into_inner(self) -> usize {
+            self.0.into_inner()
+        }
+    }
+
+    impl From<usize> for AtomicUsize {
+        fn from(value: usize) -> Self {
+            Self::new(value)
+        }
+    }
+
+    impl DerefMut for AtomicUsize {
+        fn deref_mut(&mut self) -> &mut Self::Target {
+            &mut self.0
+        }
     }
 
     impl Deref for AtomicUsize {
@@ -59,6 +75,10 @@ pub mod sync {
             Self(std::sync::Mutex::new(value))
         }
 
+        pub fn into_inner(self) -> LockResult<T> {
+            self.0.into_inner()
+        }
+
         pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
             loop {
                 super::point("lock");
@@ -81,4 +101,16 @@ pub mod sync {
             &self.0
         }
     }
+
+    impl<T> From<T> for Mutex<T> {
+        fn from(value: T) -> Self {
+            Self::new(value)
+        }
+    }
+
+    impl<T> DerefMut for Mutex<T> {
+        fn deref_mut(&mut self) -> &mut Self::Target {
+            &mut self.0
+        }
+    }
 }
-- 
2.43.0


From 6eb51d2dc2713b1a922af1ac223511acfaed8a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:06 +0000
Subject: [PATCH 20/20] fix: a load given up after the source had responded
 lost the items buffered before it

---
 .../parcom-sequences/src/generic/control.rs   | 42 +++++++++----------
 crates/parcom-sequences/src/generic/loader.rs | 11 +++--
 2 files changed, 26 insertions(+), 27 deletions(-)

diff --git a/crates/parcom-sequences/src/generic/control.rs b/crates/parcom-sequences/src/generic/control.rs
index c832773..7f5cbc3 100644
--- a/crates/parcom-sequences/src/generic/control.rs
+++ b/crates/parcom-sequences/src/generic/control.rs
@@ -22,7 +22,7 @@ impl<'a, T, E, S: BufferStrategy> Control<'a, T, E, S> {
 
 impl<'a, T, E, S: BufferStrategy> SequenceControl for Control<'a, T, E, S> {
     type Item = T;
-    type Result = Response<T, Self::Error>;
+    type Result = Response<'a, T, Self::Error>;
     type Error = E;
     type Writer = Request<'a, T, E>;
 
@@ -55,14 +55,14 @@ impl<'a, T, E, S: BufferStrategy> SequenceControl for Control<'a, T, E, S> {
     }
 
     fn finish(self) -> Self::Result {
-        Response::Finish(std::mem::replace(self.buf, Vec::new()))
+        Response::Finish(self.buf)
     }
 }
 
-pub enum Response<T, E> {
-    Appended { len: usize, cap: usize },
-    Advance { buf: Vec<T>, len: usize, cap: usize },
-    Finish(Vec<T>),
+/// takes effect when the loader receives it, a load given up before that changes nothing.
+pub enum Response<'a, T, E> {
+    Advance(Request<'a, T, E>),
+    Finish(&'a mut Vec<T>),
     Cancel(E),
 }
 
@@ -73,8 +73,17 @@ pub struct Request<'a, T, E> {
     _phantom: PhantomData<fn() -> E>,
 }
 
+impl<'a, T, E> Request<'a, T, E> {
+    /// accepts what was written and returns the items to append, the length and the capacity of the buffer.
+    pub(super) fn accept(mut self) -> (Vec<T>, usize, usize) {
+        self.offset = self.buf.len();
+        let to_append = std::mem::take(&mut self.to_append);
+        (to_append, self.buf.len(), self.buf.capacity())
+    }
+}
+
 impl<'a, T, E> Drop for Request<'a, T, E> {
-    /// discards what was written since the request, unless it was handed over by `advance`.
+    /// discards what was written since the request, unless the loader received it.
     fn drop(&mut self) {
         self.buf.truncate(self.offset);
         if !self.to_append.is_empty() {
@@ -86,7 +95,7 @@ impl<'a, T, E> Drop for Request<'a, T, E> {
 impl<'a, T, E> BufferWriter for Request<'a, T, E> {
     type Segment = [T];
     type Item = T;
-    type Result = Response<T, E>;
+    type Result = Response<'a, T, E>;
     type Error = E;
 
     fn capacity(&self) -> usize {
@@ -109,21 +118,8 @@ impl<'a, T, E> BufferWriter for Request<'a, T, E> {
         self.buf.set_len(new_len + self.offset);
     }
 
-    fn advance(mut self) -> Self::Result {
-        self.offset = self.buf.len();
-        let to_append = std::mem::take(&mut self.to_append);
-        if to_append.is_empty() {
-            Response::Appended {
-                cap: self.buf.capacity(),
-                len: self.buf.len(),
-            }
-        } else {
-            Response::Advance {
-                buf: to_append,
-                cap: self.buf.capacity(),
-                len: self.buf.len(),
-            }
-        }
+    fn advance(self) -> Self::Result {
+        Response::Advance(self)
     }
 
     fn cancel(self, err: Self::Error) -> Self::Result {
diff --git a/crates/parcom-sequences/src/generic/loader.rs b/crates/parcom-sequences/src/generic/loader.rs
index 9fc91ce..b8ab359 100644
--- a/crates/parcom-sequences/src/generic/loader.rs
+++ b/crates/parcom-sequences/src/generic/loader.rs
@@ -62,13 +62,16 @@ where
         let res = std::task::ready!(this.fut.poll(cx));
 
         let r = match res {
-            Response::Appended { len, cap } => Ok(LoadInfo::new(0, len, cap)),
-            Response::Advance { buf, len, cap } => {
-                let commited = buf.len();
-                commit_to(this.tail_node, buf);
+            Response::Advance(req) => {
+                let (to_append, len, cap) = req.accept();
+                let commited = to_append.len();
+                if commited > 0 {
+                    commit_to(this.tail_node, to_append);
+                }
                 Ok(LoadInfo::new(commited, len, cap))
             }
             Response::Finish(buf) => {
+                let buf = std::mem::take(buf);
                 let commited = buf.len();
                 commit_to(this.tail_node, buf);
                 Ok(LoadInfo::done(commited))
-- 
2.43.0

