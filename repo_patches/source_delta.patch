From 6eca3339690d2e8e95c72a9b7fbcff2863e6d055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:50 +0000
Subject: [PATCH 1/8] fix: produce a single entry for nested sval values when
 extracting sequences

Extracting a sequence from an sval value pushed an empty entry each time a
nested sequence was opened, at any depth. A nested value that itself contains
sequences, maps or records produced more than one entry. Only the element at
the top level should produce an entry.
---
 src/internal/sval/v2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/sval/v2.rs b/src/internal/sval/v2.rs
index 5c9a100..60efffc 100644
--- a/src/internal/sval/v2.rs
+++ b/src/internal/sval/v2.rs
@@ -583,7 +583,7 @@ pub(crate) mod seq {
             // Treat nested complex values as null
             // This ensures an upstream visitor sees them, but won't
             // be able to convert them into anything meaningful
-            if self.depth > 1 {
+            if self.depth == 2 {
                 if let Some(ref mut seq) = self.seq {
                     seq.extend_borrowed(ValueBag::from(()).inner);
                 }
-- 
2.43.0


From d621dd616f17de0aedc9ec337167f3aa50adac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:50 +0000
Subject: [PATCH 2/8] fix: don't extract sequences from sval maps and records

The default implementation of maps on an sval stream treats them as sequences
of pairs. Extracting a sequence from a map or record returned a sequence of
empty entries, instead of nothing as documented.
---
 src/internal/sval/v2.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/internal/sval/v2.rs b/src/internal/sval/v2.rs
index 60efffc..9b0d368 100644
--- a/src/internal/sval/v2.rs
+++ b/src/internal/sval/v2.rs
@@ -573,6 +573,15 @@ pub(crate) mod seq {
             }
         }
 
+        fn map_begin(&mut self, num_entries: Option<usize>) -> value_bag_sval2::lib::Result {
+            // A map isn't a sequence, but it may be an element of one
+            if self.depth == 0 {
+                return value_bag_sval2::lib::error();
+            }
+
+            self.seq_begin(num_entries)
+        }
+
         fn seq_begin(&mut self, _: Option<usize>) -> value_bag_sval2::lib::Result {
             if self.seq.is_none() {
                 self.seq = Some(S::default());
-- 
2.43.0


From 74b7e7fab71f90700ee2a62e47ce6701cbbd25e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:23 +0000
Subject: [PATCH 3/8] fix: return the visitor's own error when visiting sval
 and serde primitives

When a visitor failed on a primitive that was captured through sval or serde,
its error was dropped and the value was visited a second time through
visit_any. Visiting now returns the visitor's error, as it does for primitives
captured directly.
---
 src/visit.rs | 57 +++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 12 deletions(-)

diff --git a/src/visit.rs b/src/visit.rs
index 346550d..fb9ff3b 100644
--- a/src/visit.rs
+++ b/src/visit.rs
@@ -234,7 +234,18 @@ impl<'v> ValueBag<'v> {
     /// It's useful for simple cases where a full framework like `serde` or `sval`
     /// isn't necessary.
     pub fn visit(&self, visitor: impl Visit<'v>) -> Result<(), Error> {
-        struct Visitor<V>(V);
+        struct Visitor<V>(V, Option<Error>);
+
+        impl<V> Visitor<V> {
+            // Errors from the visitor are lost when visiting a primitive
+            // through `sval` or `serde`, so we need to keep track of them
+            fn track(&mut self, r: Result<(), Error>) -> Result<(), Error> {
+                r.map_err(|err| {
+                    self.1 = Some(err);
+                    Error::msg("failed to visit value")
+                })
+            }
+        }
 
         impl<'v, V> InternalVisitor<'v> for Visitor<V>
         where
@@ -253,43 +264,53 @@ impl<'v> ValueBag<'v> {
             }
 
             fn u64(&mut self, v: u64) -> Result<(), Error> {
-                self.0.visit_u64(v)
+                let r = self.0.visit_u64(v);
+                self.track(r)
             }
 
             fn i64(&mut self, v: i64) -> Result<(), Error> {
-                self.0.visit_i64(v)
+                let r = self.0.visit_i64(v);
+                self.track(r)
             }
 
             fn u128(&mut self, v: &u128) -> Result<(), Error> {
-                self.0.visit_u128(*v)
+                let r = self.0.visit_u128(*v);
+                self.track(r)
             }
 
             fn i128(&mut self, v: &i128) -> Result<(), Error> {
-                self.0.visit_i128(*v)
+                let r = self.0.visit_i128(*v);
+                self.track(r)
             }
 
             fn f64(&mut self, v: f64) -> Result<(), Error> {
-                self.0.visit_f64(v)
+                let r = self.0.visit_f64(v);
+                self.track(r)
             }
 
             fn bool(&mut self, v: bool) -> Result<(), Error> {
-                self.0.visit_bool(v)
+                let r = self.0.visit_bool(v);
+                self.track(r)
             }
 
             fn char(&mut self, v: char) -> Result<(), Error> {
-                self.0.visit_char(v)
+                let r = self.0.visit_char(v);
+                self.track(r)
             }
 
             fn str(&mut self, v: &str) -> Result<(), Error> {
-                self.0.visit_str(v)
+                let r = self.0.visit_str(v);
+                self.track(r)
             }
 
             fn borrowed_str(&mut self, v: &'v str) -> Result<(), Error> {
-                self.0.visit_borrowed_str(v)
+                let r = self.0.visit_borrowed_str(v);
+                self.track(r)
             }
 
             fn none(&mut self) -> Result<(), Error> {
-                self.0.visit_empty()
+                let r = self.0.visit_empty();
+                self.track(r)
             }
 
             #[cfg(feature = "error")]
@@ -309,6 +330,9 @@ impl<'v> ValueBag<'v> {
             fn sval2(&mut self, v: &dyn internal::sval::v2::Value) -> Result<(), Error> {
                 if internal::sval::v2::internal_visit(v, self) {
                     Ok(())
+                } else if self.1.is_some() {
+                    // The visitor itself failed; there's no need to try again
+                    Err(Error::msg("failed to visit value"))
                 } else {
                     self.0.visit_any(ValueBag::from_dyn_sval2(v))
                 }
@@ -321,6 +345,9 @@ impl<'v> ValueBag<'v> {
             ) -> Result<(), Error> {
                 if internal::sval::v2::borrowed_internal_visit(v, self) {
                     Ok(())
+                } else if self.1.is_some() {
+                    // The visitor itself failed; there's no need to try again
+                    Err(Error::msg("failed to visit value"))
                 } else {
                     self.0.visit_any(ValueBag::from_dyn_sval2(v))
                 }
@@ -330,6 +357,9 @@ impl<'v> ValueBag<'v> {
             fn serde1(&mut self, v: &dyn internal::serde::v1::Serialize) -> Result<(), Error> {
                 if internal::serde::v1::internal_visit(v, self) {
                     Ok(())
+                } else if self.1.is_some() {
+                    // The visitor itself failed; there's no need to try again
+                    Err(Error::msg("failed to visit value"))
                 } else {
                     self.0.visit_any(ValueBag::from_dyn_serde1(v))
                 }
@@ -345,7 +375,10 @@ impl<'v> ValueBag<'v> {
             }
         }
 
-        self.internal_visit(&mut Visitor(visitor))
+        let mut visitor = Visitor(visitor, None);
+
+        self.internal_visit(&mut visitor)
+            .map_err(|err| visitor.1.take().unwrap_or(err))
     }
 }
 
-- 
2.43.0


From 7d431b42f684cae48114103bec5b2972fefd8abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:37 +0000
Subject: [PATCH 4/8] fix: fall back to visit_error from visit_borrowed_error

A visitor that only overrides visit_error didn't see errors borrowed by the
bag, because visit_borrowed_error fell back to visit_any. It now falls back the
same way visit_borrowed_str falls back to visit_str.
---
 src/visit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/visit.rs b/src/visit.rs
index fb9ff3b..46e6cb7 100644
--- a/src/visit.rs
+++ b/src/visit.rs
@@ -148,7 +148,7 @@ pub trait Visit<'v> {
         &mut self,
         err: &'v (dyn crate::std::error::Error + 'static),
     ) -> Result<(), Error> {
-        self.visit_any(ValueBag::from_dyn_error(err))
+        self.visit_error(err)
     }
 }
 
-- 
2.43.0


From 698f4344221cfa9b08e32360ef5a35f8ab634dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:53 +0000
Subject: [PATCH 5/8] fix: don't panic when buffering values that fail to
 format

Buffering a value whose Debug or Display implementation returns an error
panicked, unless it was formatted through the inline-str feature. Errors always
panicked. Use the same placeholder text in all cases.
---
 src/internal/error.rs |  4 ++--
 src/internal/fmt.rs   | 17 ++++++++++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/internal/error.rs b/src/internal/error.rs
index 75ee76c..a18155a 100644
--- a/src/internal/error.rs
+++ b/src/internal/error.rs
@@ -74,7 +74,7 @@ pub use self::error::Error;
 
 #[cfg(feature = "owned")]
 pub(crate) mod owned {
-    use crate::std::{boxed::Box, error, fmt, string::ToString};
+    use crate::std::{boxed::Box, error, fmt};
 
     #[derive(Clone, Debug)]
     pub(crate) struct OwnedError {
@@ -100,7 +100,7 @@ pub(crate) mod owned {
 
     pub(crate) fn buffer(err: &(dyn error::Error + 'static)) -> OwnedError {
         OwnedError {
-            display: err.to_string().into(),
+            display: crate::internal::fmt::owned::buffer(err),
             source: err.source().map(buffer).map(Box::new),
         }
     }
diff --git a/src/internal/fmt.rs b/src/internal/fmt.rs
index ba88e11..943a946 100644
--- a/src/internal/fmt.rs
+++ b/src/internal/fmt.rs
@@ -420,7 +420,7 @@ pub(crate) mod owned {
         }
         #[cfg(not(feature = "inline-str"))]
         {
-            Err(OwnedFmt(format!("{v:?}").into()))
+            Err(OwnedFmt(buffer(format_args!("{v:?}"))))
         }
     }
 
@@ -431,9 +431,20 @@ pub(crate) mod owned {
         }
         #[cfg(not(feature = "inline-str"))]
         {
-            use crate::std::string::ToString as _;
+            Err(OwnedFmt(buffer(v)))
+        }
+    }
+
+    #[cfg(any(feature = "error", not(feature = "inline-str")))]
+    pub(crate) fn buffer(v: impl fmt::Display) -> Box<str> {
+        use crate::std::{fmt::Write as _, string::String};
+
+        let mut buf = String::new();
 
-            Err(OwnedFmt(v.to_string().into()))
+        // Formatting may fail, in which case we don't want to panic
+        match write!(&mut buf, "{v}") {
+            Ok(()) => buf.into_boxed_str(),
+            Err(err) => format!("<{err}>").into_boxed_str(),
         }
     }
 
-- 
2.43.0


From 63dde18a403c6285969cd0bd99abae51df3f89e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:53 +0000
Subject: [PATCH 6/8] fix: poison the owned value when a fill fails to produce
 one

Buffering a value whose fill callback returned an error produced an empty
value. Treat it like any other value that fails to buffer, so the failure isn't
mistaken for an absent value.
---
 src/internal/owned.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/internal/owned.rs b/src/internal/owned.rs
index dda0638..8bb9b5b 100644
--- a/src/internal/owned.rs
+++ b/src/internal/owned.rs
@@ -379,9 +379,10 @@ impl<'v> Internal<'v> {
 
         let mut visitor = OwnedVisitor(OwnedInternal::None);
 
-        let _ = self.internal_visit(&mut visitor);
-
-        visitor.0
+        match self.internal_visit(&mut visitor) {
+            Ok(()) => visitor.0,
+            Err(_) => OwnedInternal::Poisoned("failed to buffer the value"),
+        }
     }
 }
 
-- 
2.43.0


From 1a30a6f09a9e7de8230351bd935cf6889bd82720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:06 +0000
Subject: [PATCH 7/8] fix: return the serializer's own error when serializing a
 bag

Errors from the target serializer were formatted into a new error.
Formatting panics for serializers from erased-serde, so casting a bag that
wraps another bag holding a sequence or map through serde would panic.
---
 src/error.rs             | 13 -------------
 src/internal/serde/v1.rs | 18 +++++++-----------
 2 files changed, 7 insertions(+), 24 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 76da461..4948041 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -21,19 +21,6 @@ impl Error {
             inner: Inner::Msg(msg),
         }
     }
-
-    #[cfg(feature = "serde1")]
-    pub(crate) fn try_boxed(msg: &'static str, e: impl fmt::Display) -> Self {
-        #[cfg(feature = "std")]
-        {
-            Error::boxed(format!("{msg}: {e}"))
-        }
-        #[cfg(not(feature = "std"))]
-        {
-            let _ = e;
-            Error::msg(msg)
-        }
-    }
 }
 
 impl fmt::Display for Error {
diff --git a/src/internal/serde/v1.rs b/src/internal/serde/v1.rs
index 8ee44f8..77e8293 100644
--- a/src/internal/serde/v1.rs
+++ b/src/internal/serde/v1.rs
@@ -136,7 +136,9 @@ impl<'v> value_bag_serde1::lib::Serialize for ValueBag<'v> {
             fn result(&self) -> Result<(), Error> {
                 match self.result {
                     Some(Ok(_)) => Ok(()),
-                    Some(Err(ref e)) => Err(Error::serde(e)),
+                    // NOTE: The error itself is returned by `into_result`
+                    // We can't assume it can be formatted; errors in `erased-serde` panic
+                    Some(Err(_)) => Err(Error::msg("`serde` serialization failed")),
                     None => Err(Error::msg("`serde` serialization didn't produce a result")),
                 }
             }
@@ -264,10 +266,10 @@ impl<'v> value_bag_serde1::lib::Serialize for ValueBag<'v> {
             result: None,
         };
 
-        self.internal_visit(&mut visitor)
-            .map_err(S::Error::custom)?;
-
-        visitor.into_result()
+        match self.internal_visit(&mut visitor) {
+            Err(e) if !matches!(visitor.result, Some(Err(_))) => Err(S::Error::custom(e)),
+            _ => visitor.into_result(),
+        }
     }
 }
 
@@ -513,12 +515,6 @@ pub(crate) fn internal_visit(v: &dyn Serialize, visitor: &mut dyn InternalVisito
     value_bag_serde1::erased::serialize(v, VisitorSerializer(visitor)).is_ok()
 }
 
-impl Error {
-    fn serde(e: impl fmt::Display) -> Self {
-        Error::try_boxed("`serde` serialization failed", e)
-    }
-}
-
 #[derive(Debug)]
 struct Unsupported;
 
-- 
2.43.0


From 7d7581b6aea6269f7f60be7e9a7573930940269b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:26 +0000
Subject: [PATCH 8/8] fix: don't panic when text collected by serde fails to
 format

Casting, visiting or extracting from a value captured through serde panicked
if the value collected text from a Display implementation that returned an
error. Report these values as unsupported instead.
---
 src/internal/serde/v1.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/internal/serde/v1.rs b/src/internal/serde/v1.rs
index 77e8293..eb6b8db 100644
--- a/src/internal/serde/v1.rs
+++ b/src/internal/serde/v1.rs
@@ -6,7 +6,7 @@
 use crate::{
     fill::Slot,
     internal::{Internal, InternalVisitor},
-    std::{any::Any, fmt},
+    std::{any::Any, fmt, string::String},
     Error, ValueBag,
 };
 
@@ -420,6 +420,17 @@ pub(crate) fn internal_visit(v: &dyn Serialize, visitor: &mut dyn InternalVisito
             self.0.str(s).map_err(|_| Unsupported)
         }
 
+        fn collect_str<T>(self, v: &T) -> Result<Self::Ok, Self::Error>
+        where
+            T: fmt::Display + ?Sized,
+        {
+            // The default implementation panics if formatting fails
+            let mut s = String::new();
+            fmt::write(&mut s, format_args!("{}", v)).map_err(|_| Unsupported)?;
+
+            self.serialize_str(&s)
+        }
+
         fn serialize_unit_struct(self, _: &'static str) -> Result<Self::Ok, Self::Error> {
             Err(Unsupported)
         }
@@ -620,6 +631,13 @@ pub(crate) mod seq {
                 Err(Unsupported)
             }
 
+            fn collect_str<T>(self, _: &T) -> Result<Self::Ok, Self::Error>
+            where
+                T: fmt::Display + ?Sized,
+            {
+                Err(Unsupported)
+            }
+
             fn serialize_bytes(self, _: &[u8]) -> Result<Self::Ok, Self::Error> {
                 Err(Unsupported)
             }
-- 
2.43.0

