From 3b2d6dab571cf0b2da375d017e794d42f28ca321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:12 +0000
Subject: [PATCH 01/39] fix: union iterator drops the remaining intervals of
 its first operand

---
 src/iter/union.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iter/union.rs b/src/iter/union.rs
index b57d3b1..023950f 100644
--- a/src/iter/union.rs
+++ b/src/iter/union.rs
@@ -186,8 +186,8 @@ impl<I,J> Iterator for IterUnion<I,J>
                 UnionState::WaitJ => {
                     match self.j.next() {
                         None => {
-                            /* end of the iterator over i...*/
-                            self.state = UnionState::OnlyJ;
+                            /* end of the iterator over j...*/
+                            self.state = UnionState::OnlyI;
                             return Some(self.tmp);
                         },
                         Some(j) if j.upper < self.tmp.lower.just_before() => {
-- 
2.43.0


From 93f714d99e05032a6c0eba7b58dbb68dd4fa0104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:13 +0000
Subject: [PATCH 02/39] fix: intersection iterator yields inverted intervals
 for adjacent operands

---
 src/iter/intersect.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/iter/intersect.rs b/src/iter/intersect.rs
index 8aba6c9..92426b5 100644
--- a/src/iter/intersect.rs
+++ b/src/iter/intersect.rs
@@ -112,7 +112,7 @@ impl<I,J> Iterator for IterIntersection<I,J>
                     match (self.i.next(), self.j.next()) {
                         (None,_)|(_,None) => { self.state = InterState::End; return None; }
 
-                        (Some(i), Some(j)) if i.upper < j.lower.just_before() => {
+                        (Some(i), Some(j)) if i.upper < j.lower => {
                             // i:       [------------------]
                             // j:                                  [--------]
                             //=>tmp:                               [--------]
@@ -120,7 +120,7 @@ impl<I,J> Iterator for IterIntersection<I,J>
                             self.tmp=j;
                         },
 
-                        (Some(i), Some(j)) if j.upper < i.lower.just_before()  => {
+                        (Some(i), Some(j)) if j.upper < i.lower  => {
                             // i:                          [------------------]
                             // j:          [--------]
                             self.state = InterState::WaitJ;
@@ -149,11 +149,11 @@ impl<I,J> Iterator for IterIntersection<I,J>
                             self.state = InterState::End;
                             return None;
                         },
-                        Some(i) if i.upper < self.tmp.lower.just_before() => {
+                        Some(i) if i.upper < self.tmp.lower => {
                             // i:       [------------------]
                             // tmp:                                [--------]
                         },
-                        Some(i) if self.tmp.upper < i.lower.just_before()  => {
+                        Some(i) if self.tmp.upper < i.lower  => {
                             // i:                          [------------------]
                             // tmp:        [--------]
                             self.state = InterState::WaitJ;
@@ -182,11 +182,11 @@ impl<I,J> Iterator for IterIntersection<I,J>
                             self.state = InterState::End;
                             return None;
                         },
-                        Some(j) if j.upper < self.tmp.lower.just_before() => {
+                        Some(j) if j.upper < self.tmp.lower => {
                             // tmp:                                [--------]
                             // j:       [------------------]
                         },
-                        Some(j) if self.tmp.upper < j.lower.just_before()  => {
+                        Some(j) if self.tmp.upper < j.lower  => {
                             // tmp:        [--------]
                             // j:                          [------------------]
                             self.state = InterState::WaitI;
-- 
2.43.0


From 309fecea9b87a2d347f1c32d73f22df8549d5513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:14 +0000
Subject: [PATCH 03/39] fix: intersection of disjoint intervals is not the
 empty interval

---
 src/ops/intersect.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ops/intersect.rs b/src/ops/intersect.rs
index 46415da..cf6ad10 100644
--- a/src/ops/intersect.rs
+++ b/src/ops/intersect.rs
@@ -28,6 +28,7 @@ impl<T:TimePoint,TW> BitAndAssign<TW> for TimeInterval<T>
     fn bitand_assign(&mut self, tw: TW) {
         if self.lower < tw.lower_bound() { self.lower = tw.lower_bound(); }
         if self.upper > tw.upper_bound() { self.upper = tw.upper_bound(); }
+        if self.lower > self.upper { *self = Self::empty(); }
     }
 }
 
@@ -48,10 +49,7 @@ impl<T:TimePoint,TW> BitAnd<TW> for &TimeInterval<T>
     #[inline]
     fn bitand(self, tw: TW) -> Self::Output {
         let i = tw.into();
-        TimeInterval {
-            lower: self.lower.max(i.lower),
-            upper: self.upper.min(i.upper)
-        }
+        TimeInterval::new(self.lower.max(i.lower), self.upper.min(i.upper))
     }
 }
 
-- 
2.43.0


From 0af33838c1223335fcf98bcecefb76134844f8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:15 +0000
Subject: [PATCH 04/39] fix: the set built from an infinite singleton contains
 an empty interval

---
 src/wins/timeset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wins/timeset.rs b/src/wins/timeset.rs
index 7890ae3..4a0a02e 100644
--- a/src/wins/timeset.rs
+++ b/src/wins/timeset.rs
@@ -43,7 +43,7 @@ impl<T:TimePoint> TimeSet<T>
     /// Retuns a timeset composed of the convex interval `[t,t]`
     #[inline]
     pub fn singleton(t: T) -> Self {
-        Self(vec![TimeInterval::singleton(t)])
+        TimeInterval::singleton(t).into()
     }
 
     /// The empty set
-- 
2.43.0


From 68bbec877c1b8ff88e5475dff0c7038eb48e28c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:16 +0000
Subject: [PATCH 05/39] fix: collecting empty intervals makes an ill-formed
 time set

---
 src/wins/timeset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wins/timeset.rs b/src/wins/timeset.rs
index 4a0a02e..53d48c6 100644
--- a/src/wins/timeset.rs
+++ b/src/wins/timeset.rs
@@ -124,7 +124,7 @@ impl<T:TimePoint> FromIterator<TimeInterval<T>> for TimeSet<T>
 {
     fn from_iter<I: IntoIterator<Item=TimeInterval<T>>>(iter: I) -> Self
     {
-        let mut iter = iter.into_iter();
+        let mut iter = iter.into_iter().filter(|i| !i.is_empty());
         match iter.next() {
             None => Self::empty(),
             Some(first) => iter.fold(first.into(), |mut r, i| {
-- 
2.43.0


From ea48b759d9c3bd725e9fc234342eafffa59b070b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:18 +0000
Subject: [PATCH 06/39] fix: an empty time window is reported as bounded or as
 covering all the time

---
 src/wins/format.rs       | 5 ++++-
 src/wins/mod.rs          | 2 +-
 src/wins/timeinterval.rs | 4 ++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/wins/format.rs b/src/wins/format.rs
index e97c111..9e84515 100644
--- a/src/wins/format.rs
+++ b/src/wins/format.rs
@@ -199,7 +199,10 @@ impl<T:TimePoint+fmt::Debug> fmt::Debug for TimeInterval<T>
     #[allow(clippy::collapsible_else_if)]
     fn fmt(&self, formatter: &mut fmt::Formatter) -> fmt::Result
     {
-        if self.is_low_bounded() {
+        if self.is_empty() {
+            write!(formatter, "{{}}")
+
+        } else if self.is_low_bounded() {
             if self.is_up_bounded() {
                 if self.lower == self.upper {
                     write!(formatter, "{{{:?}}}", self.lower)
diff --git a/src/wins/mod.rs b/src/wins/mod.rs
index 8acaf6d..73a72d7 100644
--- a/src/wins/mod.rs
+++ b/src/wins/mod.rs
@@ -74,7 +74,7 @@ pub trait TimeWindow : TimeBounds {
 
     #[inline]
     fn is_all(&self) -> bool {
-        self.is_convex() && !self.is_low_bounded() && !self.is_up_bounded()
+        !self.is_empty() && self.is_convex() && !self.is_low_bounded() && !self.is_up_bounded()
     }
 
     /// Checks if this time window is an interval
diff --git a/src/wins/timeinterval.rs b/src/wins/timeinterval.rs
index 9c21513..9f60e92 100644
--- a/src/wins/timeinterval.rs
+++ b/src/wins/timeinterval.rs
@@ -184,8 +184,8 @@ impl<T:TimePoint> TimeBounds for TimeInterval<T>
     #[inline] fn is_empty(&self) -> bool { self.lower.is_future_infinite() }
     #[inline] fn is_singleton(&self) -> bool { self.lower == self.upper }
     #[inline] fn is_bounded(&self) -> bool { self.is_low_bounded() && self.is_up_bounded() }
-    #[inline] fn is_low_bounded(&self) -> bool { !self.lower.is_past_infinite() }
-    #[inline] fn is_up_bounded(&self) -> bool { !self.upper.is_future_infinite() }
+    #[inline] fn is_low_bounded(&self) -> bool { !self.is_empty() && !self.lower.is_past_infinite() }
+    #[inline] fn is_up_bounded(&self) -> bool { !self.is_empty() && !self.upper.is_future_infinite() }
     #[inline] fn lower_bound(&self) -> Self::TimePoint { self.lower }
     #[inline] fn upper_bound(&self) -> Self::TimePoint { self.upper }
 }
-- 
2.43.0


From c127a5259871ebc3832b6ef778df20d98a9f8c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:19 +0000
Subject: [PATCH 07/39] fix: too negative durations wrap around instead of
 being set to -oo

---
 src/wins/timevalue.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index dcc0c20..a77545d 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -56,6 +56,8 @@ impl TimeValue {
     {
         if sec > MAX_SEC {
             TimeValue::INFINITE
+        } else if sec < -MAX_SEC {
+            -TimeValue::INFINITE
         } else {
             Self(sec << SUBSEC_BITLEN)
         }
@@ -67,6 +69,8 @@ impl TimeValue {
         let frac = t - sec*unit;
         if sec > MAX_SEC {
             TimeValue::INFINITE
+        } else if sec < -MAX_SEC {
+            -TimeValue::INFINITE
         } else {
             // we should separate in order to deal with overflow
             Self((sec<<SUBSEC_BITLEN) + (frac << SUBSEC_BITLEN)/unit)
-- 
2.43.0


From aab9eadc6ada57e5c1af94f0990c3fb5f99eb295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:20 +0000
Subject: [PATCH 08/39] fix: floor and ceil of negative, infinite or extreme
 time values

---
 src/wins/timevalue.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index a77545d..0199893 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -196,11 +196,12 @@ impl TimeValue {
     #[inline]
     pub fn floor(self, period:TimeValue) -> Self
     {
-        Self(
+        if !self.is_finite() { return self; }
+        Self::from_ticks(
             if self.0 >= 0 {
                 (self.0/period.0)*period.0
             } else {
-                ((self.0+1)/period.0-1)*period.0
+                ((self.0+1)/period.0-1).saturating_mul(period.0)
             }
         )
     }
@@ -208,11 +209,12 @@ impl TimeValue {
     #[inline]
     pub fn ceil(self, period:TimeValue) -> Self
     {
-        Self(
+        if !self.is_finite() { return self; }
+        Self::from_ticks(
             if self.0 > 0 {
-                ((self.0-1)/period.0+1)*period.0
+                ((self.0-1)/period.0+1).saturating_mul(period.0)
             } else {
-                ((self.0-1)/period.0)*period.0
+                (self.0/period.0)*period.0
             }
         )
     }
-- 
2.43.0


From 46f562e635453b3f49283a9e9f1340775be2290e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:54 +0000
Subject: [PATCH 09/39] fix: conversion of long or negative durations to time
 values

---
 src/wins/timevalue.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index 0199893..7680d56 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -269,6 +269,7 @@ impl From<chrono::Duration> for TimeValue
     fn from(t: chrono::Duration) -> Self
     {
         match t.num_nanoseconds() {
+            None if t < chrono::Duration::zero() => -TimeValue::INFINITE,
             None => TimeValue::INFINITE,
             Some(nanos) => TimeValue::from_nanos(nanos)
         }
@@ -289,7 +290,7 @@ impl From<time::Duration> for TimeValue
     fn from(t: time::Duration) -> Self
     {
         let sec = t.as_secs();
-        if sec > i32::MAX as u64 {
+        if sec > MAX_SEC as u64 {
             TimeValue::INFINITE
         } else {
             let ns = t.subsec_nanos() as i64;
-- 
2.43.0


From 64e70baf5df36b4edc491a43529d9e113e41d61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:56 +0000
Subject: [PATCH 10/39] fix: truncation of a time value to months and of a
 negative one to seconds

---
 src/wins/convert.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/wins/convert.rs b/src/wins/convert.rs
index 1fbe240..6da1637 100644
--- a/src/wins/convert.rs
+++ b/src/wins/convert.rs
@@ -1,4 +1,4 @@
-use crate::{SUBSEC_BITMASK, TimeValue};
+use crate::TimeValue;
 
 pub trait IntoTimeValue
 {
@@ -21,7 +21,7 @@ impl IntoTimeValue for TimeValue
         if self.is_strictly_negative() { self.ceil(1.years()) } else { self.floor(1.years())}
     }
     #[inline] fn months(self) -> TimeValue {
-        if self.is_strictly_negative() { self.ceil(1.years()) } else { self.floor(1.years())}
+        if self.is_strictly_negative() { self.ceil(1.months()) } else { self.floor(1.months())}
     }
     #[inline] fn weeks(self) -> TimeValue {
         if self.is_strictly_negative() { self.ceil(1.weeks()) } else { self.floor(1.weeks())}
@@ -35,8 +35,9 @@ impl IntoTimeValue for TimeValue
     #[inline] fn mins(self) -> TimeValue {
         if self.is_strictly_negative() { self.ceil(1.mins()) } else { self.floor(1.mins())}
     }
-    #[inline] fn secs(mut self) -> TimeValue { self.0 &= !SUBSEC_BITMASK; self }
-
+    #[inline] fn secs(self) -> TimeValue {
+        if self.is_strictly_negative() { self.ceil(1.secs()) } else { self.floor(1.secs())}
+    }
     #[inline] fn millis(self) -> TimeValue {
         if self.is_strictly_negative() { self.ceil(1.millis()) } else { self.floor(1.millis())}
     }
-- 
2.43.0


From af075522e125b0be23d94f9a98259678297e6103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:57 +0000
Subject: [PATCH 11/39] fix: truncation at an infinite bound leaves ill-formed
 time windows

---
 src/wins/timeinterval.rs | 12 ++----------
 src/wins/timeset.rs      | 12 ++++++++++++
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/wins/timeinterval.rs b/src/wins/timeinterval.rs
index 9f60e92..32f1c34 100644
--- a/src/wins/timeinterval.rs
+++ b/src/wins/timeinterval.rs
@@ -127,11 +127,7 @@ impl<T:TimePoint> TimeTruncation for TimeInterval<T>
         if lower <= self.lower {
             false
         } else {
-            if self.upper < lower {
-                *self = Self::empty();
-            } else {
-                self.lower = lower;
-            }
+            *self = Self::new(lower, self.upper);
             true
         }
     }
@@ -142,11 +138,7 @@ impl<T:TimePoint> TimeTruncation for TimeInterval<T>
         if self.upper <= upper {
             false
         } else {
-            if upper < self.lower {
-                *self = Self::empty();
-            } else {
-                self.upper = upper;
-            }
+            *self = Self::new(self.lower, upper);
             true
         }
     }
diff --git a/src/wins/timeset.rs b/src/wins/timeset.rs
index 53d48c6..b5e8394 100644
--- a/src/wins/timeset.rs
+++ b/src/wins/timeset.rs
@@ -176,6 +176,12 @@ impl<T:TimePoint> TimeTruncation for TimeSet<T>
     {
         match self.0.iter().position(|i| i.upper_bound() >= lower)
         {
+            _ if lower.is_future_infinite() => {
+                // no time point remains
+                let changed = !self.is_empty();
+                self.0.clear();
+                changed
+            }
             Some(0) => {
                 // only the first element could change
                 unsafe { self.0.get_unchecked_mut(0) }.truncate_before(lower)
@@ -196,6 +202,12 @@ impl<T:TimePoint> TimeTruncation for TimeSet<T>
     {
         match self.0.iter().rposition(|i| i.lower_bound() <= upper)
         {
+            _ if upper.is_past_infinite() => {
+                // no time point remains
+                let changed = !self.is_empty();
+                self.0.clear();
+                changed
+            }
             Some(pos) if pos+1 == self.0.len() => {
                 // only the last element could change
                 unsafe { self.0.get_unchecked_mut(pos) }.truncate_after(upper)
-- 
2.43.0


From 8d70047186ca2136770a59e48ea3d21e8bf1d26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:58 +0000
Subject: [PATCH 12/39] fix: an empty time window is both before and after any
 other one

---
 src/relns/ordering.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/relns/ordering.rs b/src/relns/ordering.rs
index 41c523d..55ee286 100644
--- a/src/relns/ordering.rs
+++ b/src/relns/ordering.rs
@@ -46,7 +46,7 @@ macro_rules! timepartialcmp {
 
             #[inline]
             fn lt(&self, other: &TW) -> bool {
-                self.upper_bound() < other.lower_bound()
+                !self.is_empty() && !other.is_empty() && self.upper_bound() < other.lower_bound()
             }
 
             #[inline]
@@ -56,7 +56,7 @@ macro_rules! timepartialcmp {
 
             #[inline]
             fn gt(&self, other: &TW) -> bool {
-                self.lower_bound() > other.upper_bound()
+                !self.is_empty() && !other.is_empty() && self.lower_bound() > other.upper_bound()
             }
 
             #[inline]
-- 
2.43.0


From d3d9d457188f1da3281b89a93378522f1163446b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:59 +0000
Subject: [PATCH 13/39] fix: containment and overlapping of empty time windows

---
 src/relns/contain.rs | 2 +-
 src/relns/overlap.rs | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/relns/contain.rs b/src/relns/contain.rs
index 16a9f72..5cdf087 100644
--- a/src/relns/contain.rs
+++ b/src/relns/contain.rs
@@ -22,7 +22,7 @@ impl<T:TimePoint,TW> TimeContaining<TW> for TimeSet<T>
     #[inline]
     fn contains(&self, rhs: &TW) -> bool
     {
-        self.0.iter()
+        rhs.is_empty() || self.0.iter()
             .find(|ts| ts.upper_bound() >= rhs.lower_bound())
             .map(|ts| ts.contains(rhs))
             .unwrap_or(false)
diff --git a/src/relns/overlap.rs b/src/relns/overlap.rs
index 5f37e78..4ff4b4c 100644
--- a/src/relns/overlap.rs
+++ b/src/relns/overlap.rs
@@ -14,7 +14,8 @@ impl<TW1:TimeConvex,TW2:TimeConvex> TimeOverlapping<TW2> for TW1
 {
     #[inline]
     fn overlaps(&self, rhs: &TW2) -> bool {
-        self.lower_bound() <= rhs.upper_bound() && rhs.lower_bound() <= self.upper_bound()
+        !self.is_empty() && !rhs.is_empty()
+            && self.lower_bound() <= rhs.upper_bound() && rhs.lower_bound() <= self.upper_bound()
     }
 }
 
@@ -33,7 +34,7 @@ impl<T:TimePoint, TW> TimeOverlapping<TW> for TimeSet<T>
     #[inline]
     fn overlaps(&self, rhs: &TW) -> bool
     {
-        self.0.iter()
+        !rhs.is_empty() && self.0.iter()
             .find(|ts| ts.upper_bound() >= rhs.lower_bound())
             .map(|ts| ts.lower_bound() <= rhs.upper_bound())
             .unwrap_or(false)
-- 
2.43.0


From 7290175a7c4fd4cbb5625b64f24b64a35aa7aad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:00 +0000
Subject: [PATCH 14/39] fix: shrinking an interval out of the finite range
 makes an ill-formed one

---
 src/wins/timeinterval.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wins/timeinterval.rs b/src/wins/timeinterval.rs
index 32f1c34..6b45648 100644
--- a/src/wins/timeinterval.rs
+++ b/src/wins/timeinterval.rs
@@ -164,7 +164,8 @@ impl<T:TimePoint> TimeInterval<T>
         let lower = self.lower - delta;
         let upper = self.upper + delta;
         // if delta is negative, we could be surprised...
-        (lower <= upper).then_some(Self { lower, upper } )
+        let tw = Self::new(lower, upper);
+        (!tw.is_empty()).then_some(tw)
     }
 
 }
-- 
2.43.0


From 52ac0db725b0395539ad03c77eaa5885205afa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 15/39] fix: in-place translation of singletons panics

---
 src/ops/transl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ops/transl.rs b/src/ops/transl.rs
index e2a84ca..291239a 100644
--- a/src/ops/transl.rs
+++ b/src/ops/transl.rs
@@ -33,7 +33,7 @@ impl<T> AddAssign<TimeValue> for TimeInterval<T>
     fn add_assign(&mut self, other: TimeValue) {
         self.lower += other;
         self.upper += other;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        assert!( (self.lower != self.upper) || self.lower.is_finite() );
     }
 }
 
@@ -44,7 +44,7 @@ impl<T> SubAssign<TimeValue> for TimeInterval<T>
     fn sub_assign(&mut self, other: TimeValue) {
         self.lower -= other;
         self.upper -= other;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        assert!( (self.lower != self.upper) || self.lower.is_finite() );
     }
 }
 
@@ -91,7 +91,7 @@ impl<T> AddAssign<TimeSpan> for TimeInterval<T>
     fn add_assign(&mut self, other: TimeSpan) {
         self.lower += other.lower;
         self.upper += other.upper;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        assert!( (self.lower != self.upper) || self.lower.is_finite() );
     }
 }
 
@@ -102,7 +102,7 @@ impl<T> SubAssign<TimeSpan> for TimeInterval<T>
     fn sub_assign(&mut self, other: TimeSpan) {
         self.lower -= other.upper;
         self.upper -= other.lower;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        assert!( (self.lower != self.upper) || self.lower.is_finite() );
     }
 }
 
-- 
2.43.0


From 37fc6257299e183bab6c3f5d03f42c793052c00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:08 +0000
Subject: [PATCH 16/39] fix: translation of or by an empty interval panics or
 makes it non-empty

---
 src/ops/transl.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ops/transl.rs b/src/ops/transl.rs
index 291239a..7a9ab78 100644
--- a/src/ops/transl.rs
+++ b/src/ops/transl.rs
@@ -9,6 +9,7 @@ impl<T> Add<TimeValue> for TimeInterval<T>
 {
     type Output = Self;
     #[inline] fn add(self, other: TimeValue) -> Self::Output {
+        if self.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self.lower + other, self.upper + other);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -20,6 +21,7 @@ impl<T> Sub<TimeValue> for TimeInterval<T>
 {
     type Output = Self;
     #[inline] fn sub(self, other: TimeValue) -> Self::Output {
+        if self.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self.lower - other, self.upper - other);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -31,6 +33,7 @@ impl<T> AddAssign<TimeValue> for TimeInterval<T>
 {
     #[inline]
     fn add_assign(&mut self, other: TimeValue) {
+        if self.is_empty() { *self = Self::empty(); return; }
         self.lower += other;
         self.upper += other;
         assert!( (self.lower != self.upper) || self.lower.is_finite() );
@@ -42,6 +45,7 @@ impl<T> SubAssign<TimeValue> for TimeInterval<T>
 {
     #[inline]
     fn sub_assign(&mut self, other: TimeValue) {
+        if self.is_empty() { *self = Self::empty(); return; }
         self.lower -= other;
         self.upper -= other;
         assert!( (self.lower != self.upper) || self.lower.is_finite() );
@@ -67,6 +71,7 @@ impl<T> Add<TimeSpan> for TimeInterval<T>
 {
     type Output = Self;
     #[inline] fn add(self, other: TimeSpan) -> Self::Output {
+        if self.is_empty() || other.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self.lower + other.lower, self.upper + other.upper);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -78,6 +83,7 @@ impl<T> Sub<TimeSpan> for TimeInterval<T>
 {
     type Output = Self;
     #[inline] fn sub(self, other: TimeSpan) -> Self::Output {
+        if self.is_empty() || other.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self.lower - other.upper, self.upper - other.lower);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -89,6 +95,7 @@ impl<T> AddAssign<TimeSpan> for TimeInterval<T>
 {
     #[inline]
     fn add_assign(&mut self, other: TimeSpan) {
+        if self.is_empty() || other.is_empty() { *self = Self::empty(); return; }
         self.lower += other.lower;
         self.upper += other.upper;
         assert!( (self.lower != self.upper) || self.lower.is_finite() );
@@ -100,6 +107,7 @@ impl<T> SubAssign<TimeSpan> for TimeInterval<T>
 {
     #[inline]
     fn sub_assign(&mut self, other: TimeSpan) {
+        if self.is_empty() || other.is_empty() { *self = Self::empty(); return; }
         self.lower -= other.upper;
         self.upper -= other.lower;
         assert!( (self.lower != self.upper) || self.lower.is_finite() );
@@ -110,6 +118,7 @@ impl Add<TimeSpan> for Timestamp {
     type Output = TimeSlot;
     #[inline]
     fn add(self, other: TimeSpan) -> Self::Output {
+        if other.is_empty() { return TimeInterval::empty(); }
         let tw = TimeSlot::new(self + other.lower, self + other.upper);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -120,6 +129,7 @@ impl Sub<TimeSpan> for Timestamp {
     type Output = TimeSlot;
     #[inline]
     fn sub(self, other: TimeSpan) -> Self::Output {
+        if other.is_empty() { return TimeInterval::empty(); }
         let tw = TimeSlot::new(self - other.upper, self - other.lower);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -142,6 +152,7 @@ impl Sub for TimeSlot {
     type Output = TimeSpan;
     #[inline]
     fn sub(self, other: Self) -> Self::Output {
+        if self.is_empty() || other.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self.lower - other.upper,self.upper - other.lower);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -152,6 +163,7 @@ impl Sub<Timestamp> for TimeSlot {
     type Output = TimeSpan;
     #[inline]
     fn sub(self, other: Timestamp) -> Self::Output {
+        if self.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self.lower - other,self.upper - other);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -162,6 +174,7 @@ impl Sub<TimeSlot> for Timestamp {
     type Output = TimeSpan;
     #[inline]
     fn sub(self, other: TimeSlot) -> Self::Output {
+        if other.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self - other.upper,self - other.lower);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
-- 
2.43.0


From 1fc7db7f82ebe495f4a98820059c4bb67bd9b84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 17/39] fix: dividing an infinite time value makes it finite

---
 src/ops/scaling.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 611abde..7e4db71 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -14,7 +14,11 @@ macro_rules! timevalscalingsmall {
         }
         impl Div<$scale> for TimeValue {
             type Output = Self;
-            #[inline] fn div(self, n: $scale) -> Self::Output {
+            #[inline]
+            #[allow(unused_comparisons)]
+            fn div(self, n: $scale) -> Self::Output {
+                assert_ne!(n, 0, "div. by zero");
+                if !self.is_finite() { return if n < 0 { -self } else { self }; }
                 TimeValue::from_ticks(self.0.saturating_div(n as i64))
             }
         }
@@ -47,6 +51,8 @@ macro_rules! timevalscalingbig {
         impl Div<$time> for TimeValue {
             type Output = Self;
             #[inline] fn div(self, n: $time) -> Self::Output {
+                assert_ne!(n, 0, "div. by zero");
+                if !self.is_finite() { return if n < 0 { -self } else { self }; }
                 if n > INFINITE_TIME_VALUE as $time || n < -INFINITE_TIME_VALUE as $time {
                     TimeValue::default() // zero
                 } else {
@@ -77,6 +83,8 @@ macro_rules! timevalscalingubig {
         impl Div<$time> for TimeValue {
             type Output = Self;
             #[inline] fn div(self, n: $time) -> Self::Output {
+                assert_ne!(n, 0, "div. by zero");
+                if !self.is_finite() { return self; }
                 if n > INFINITE_TIME_VALUE as $time {
                     TimeValue::default() // zero
                 } else {
-- 
2.43.0


From 7bb3b3ac08039f6b0e073389895139b6795ea64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:54 +0000
Subject: [PATCH 18/39] fix: multiplication by a big factor loses the sign or
 the nullity of the time value

---
 src/ops/scaling.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 7e4db71..7580904 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -40,9 +40,9 @@ macro_rules! timevalscalingbig {
             type Output = Self;
             #[inline] fn mul(self, n: $time) -> Self::Output {
                 if n > INFINITE_TIME_VALUE as $time {
-                    TimeValue::INFINITE
+                    TimeValue::from_ticks(self.0.saturating_mul(INFINITE_TIME_VALUE))
                 } else if n < -INFINITE_TIME_VALUE as $time {
-                    -TimeValue::INFINITE
+                    TimeValue::from_ticks(self.0.saturating_mul(-INFINITE_TIME_VALUE))
                 } else {
                     TimeValue::from_ticks(self.0.saturating_mul(n as i64))
                 }
@@ -74,7 +74,7 @@ macro_rules! timevalscalingubig {
             type Output = Self;
             #[inline] fn mul(self, n: $time) -> Self::Output {
                 if n > INFINITE_TIME_VALUE as $time {
-                    TimeValue::INFINITE
+                    TimeValue::from_ticks(self.0.saturating_mul(INFINITE_TIME_VALUE))
                 } else {
                     TimeValue::from_ticks(self.0.saturating_mul(n as i64))
                 }
-- 
2.43.0


From f75c531e0777183c9c8e10c36fb2027a18785260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:55 +0000
Subject: [PATCH 19/39] fix: scaling of an empty interval or by zero

---
 src/ops/scaling.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 7580904..81a8a46 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -164,6 +164,7 @@ macro_rules! timespanscalingint {
             #[inline]
             #[allow(unused_comparisons)]
             fn mul(self, n: $scale) -> Self::Output {
+                if self.is_empty() { return self; }
                 let (lower, upper) = if n < 0 {
                     // negative factor -> reverse interval
                     (self.upper * n, self.lower * n)
@@ -270,7 +271,7 @@ macro_rules! timespansscaleint {
                     if self.is_empty() {
                         TimeSpans::empty()
                     } else {
-                        Self(vec![ TimeSpan::default() ])
+                        Self(vec![ TimeSpan::singleton(TimeValue::default()) ])
                     }
                 } else {
                     // since factor is non null integer, the scale increases distances between
@@ -297,7 +298,7 @@ macro_rules! timespansscaleint {
                 if n == 0 {
                     if !self.is_empty() {
                         self.0.clear();
-                        self.0.push(TimeSpan::default());
+                        self.0.push(TimeSpan::singleton(TimeValue::default()));
                     }
                 } else {
                     self.0.iter_mut().for_each(|tw| *tw *= n);
-- 
2.43.0


From 1174e855cc864c912939de56b77ff37dd83d4e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:56 +0000
Subject: [PATCH 20/39] fix: joined intervals are not merged when a time set is
 scaled down by a float

---
 src/ops/scaling.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 81a8a46..9134fdd 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -343,7 +343,7 @@ macro_rules! timespansscalefloat {
                     .map(|tw| *tw * f)
                     .collect::<Vec<_>>();
                 if f < 0. { inners.reverse() }
-                if f.abs() > 1. { check_joined_inners(&mut inners); }
+                if f.abs() < 1. { check_joined_inners(&mut inners); }
                 Self(inners)
             }
         }
-- 
2.43.0


From 5f98d57e5d544eba98fa197b09694b3fcabaf597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:38 +0000
Subject: [PATCH 21/39] fix: a constraint with a new instant is not propagated
 to the other ones

---
 src/graph/propagation.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index 02ef878..cbb8d3f 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -50,15 +50,14 @@ impl TimeGraph
             Err(TimeInconsistencyError::Recovered)
         } else {
             let max = k.from().max(k.to());
-            if self.size() <= max {
-                // si i ou j n'était pas dans le graphe, on n'aura rien à propager
+            let size = self.size();
+            if size <= max {
+                // si i ou j n'était pas dans le graphe, on l'y ajoute avant de propager
                 self.resize(max + 1);
-                unsafe {
-                    // SAFETY: we have just resize the graph for that
-                    *self.lower_mut(k.from(), k.to()) = k.lower_bound();
-                    *self.lower_mut(k.to(), k.from()) = -k.upper_bound();
+                match self.propagate(k) {
+                    Ok(_) => Ok(TimePropagation::Propagated),
+                    Err(error) => { self.resize(size); Err(error) }
                 }
-                Ok(TimePropagation::Propagated)
             } else {
                 unsafe {
                     // SAFETY: we check the size of the graph just before entering here
-- 
2.43.0


From cc9e41ce76547ece080688ac2d146feb9b4518c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:39 +0000
Subject: [PATCH 22/39] fix: a fatal inconsistency leaves corrupted constraints
 in the emptied graph

---
 src/graph/propagation.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index cbb8d3f..77f0bd5 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -165,6 +165,7 @@ impl TimeGraph
                 }
                 if unsafe { self.lower(i,i) }.is_strictly_positive() {
                     self.size = 0;
+                    self.data.clear();
                     return Err(TimeInconsistencyError::Fatal)
                 }
             }
-- 
2.43.0


From 47302d46d78820f53a3fa9212e65a713e1ba191f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:40 +0000
Subject: [PATCH 23/39] fix: adding an empty constraint in a bulk panics

---
 src/graph/propagation.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index 77f0bd5..a19d482 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -194,7 +194,9 @@ impl TimeGraph
                 }
             }
             _ => {
+                let mut consistent = true;
                 iter.for_each(|k| {
+                        if k.is_empty() { consistent = false; return; }
                         let max = k.from().max(k.to());
                         if max >= self.size() { self.resize(max+1) }
 
@@ -208,7 +210,12 @@ impl TimeGraph
                             *upper = -k.upper_bound();
                         }
                     });
-                self.global_propagation()
+                if consistent {
+                    self.global_propagation()
+                } else {
+                    self.resize(0);
+                    Err(TimeInconsistencyError::Fatal)
+                }
             }
         }
     }
-- 
2.43.0


From 284d9024eb5a6dc8f090ed96c6c8cfde8574e416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 24/39] fix: index overflows of big graphs lead to out of
 bounds accesses

---
 src/graph/propagation.rs |  4 ++--
 src/graph/storage.rs     | 23 +++++++++++++----------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index a19d482..b639bae 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -53,7 +53,7 @@ impl TimeGraph
             let size = self.size();
             if size <= max {
                 // si i ou j n'était pas dans le graphe, on l'y ajoute avant de propager
-                self.resize(max + 1);
+                self.resize(max.checked_add(1).expect("too many instants"));
                 match self.propagate(k) {
                     Ok(_) => Ok(TimePropagation::Propagated),
                     Err(error) => { self.resize(size); Err(error) }
@@ -198,7 +198,7 @@ impl TimeGraph
                 iter.for_each(|k| {
                         if k.is_empty() { consistent = false; return; }
                         let max = k.from().max(k.to());
-                        if max >= self.size() { self.resize(max+1) }
+                        if max >= self.size() { self.resize(max.checked_add(1).expect("too many instants")) }
 
                         let lower = unsafe { self.lower_mut(k.from(), k.to()) };
                         if *lower < k.lower_bound() {
diff --git a/src/graph/storage.rs b/src/graph/storage.rs
index 0ed5877..fc58e53 100644
--- a/src/graph/storage.rs
+++ b/src/graph/storage.rs
@@ -36,7 +36,7 @@ impl TimeGraph {
     /// buth the impact of their propagation remains.
     pub fn resize(&mut self, n: Instant)
     {
-        self.data.resize((n * n) as usize, -TimeValue::INFINITE);
+        self.data.resize(n as usize * n as usize, -TimeValue::INFINITE);
         (self.size..n).for_each(|i| unsafe {
             // setting all constraint (i,i) to 0 (constraint from i to itseltf)
             *self.lower_mut(i,i) = TimeValue::default();
@@ -55,8 +55,9 @@ impl TimeGraph {
     {
        self.size = (0..self.size).rev()
             .find(|&i|
-                (i*i..=i*i+2*i).filter(|&x| x != i*i+i)
-                    .any(|x| unsafe { !self.data.get_unchecked(x as usize).is_past_infinite()})
+                (0..i).any(|j| unsafe {
+                    !self.lower(i,j).is_past_infinite() || !self.lower(j,i).is_past_infinite()
+                })
             ).map(|i| i+1)
             .unwrap_or(0);
         self.data.shrink_to_fit()
@@ -68,20 +69,22 @@ impl TimeGraph {
     ///
     /// If the current capacity is less than the lower limit, this is a no-op.
     #[inline]
-    pub fn shrink_to(&mut self, n: Instant) { self.data.shrink_to((n * n) as usize) }
+    pub fn shrink_to(&mut self, n: Instant) { self.data.shrink_to(n as usize * n as usize) }
 
     #[inline]
     pub(super)
     unsafe fn lower(&self, i:Instant, j:Instant) -> TimeValue {
+        let (i,j) = (i as usize, j as usize);
         let ij = if i >= j { i*i + j } else { j*(j+2) - i };
-        *self.data.get_unchecked(ij as usize)
+        *self.data.get_unchecked(ij)
     }
 
     #[inline]
     pub(super)
     unsafe fn lower_mut(&mut self, i:Instant, j:Instant) -> &mut TimeValue {
+        let (i,j) = (i as usize, j as usize);
         let ij = if i >= j { i*i + j } else { j*(j+2) - i };
-        self.data.get_unchecked_mut(ij as usize)
+        self.data.get_unchecked_mut(ij)
     }
 
     #[inline]
@@ -93,8 +96,8 @@ impl TimeGraph {
                 TimeInterval::all()
             } else {
                 TimeInterval {
-                    lower: unsafe { *self.data.get_unchecked((i*i + j) as usize)},
-                    upper: - unsafe { *self.data.get_unchecked((i*(i+2) - j) as usize) },
+                    lower: unsafe { self.lower(i,j) },
+                    upper: - unsafe { self.lower(j,i) },
                 }
             }
         } else {
@@ -102,8 +105,8 @@ impl TimeGraph {
                 TimeInterval::all()
             } else {
                 TimeInterval {
-                    lower: unsafe { *self.data.get_unchecked((j*(j+2) - i) as usize) },
-                    upper: - unsafe { *self.data.get_unchecked( (j*j + i) as usize) },
+                    lower: unsafe { self.lower(i,j) },
+                    upper: - unsafe { self.lower(j,i) },
                 }
             }
         }
-- 
2.43.0


From 42617d5cc1d192581ebb5b67c4b629717fcaa841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:43 +0000
Subject: [PATCH 25/39] fix: shrinking a graph doesn't release the removed
 instants

---
 src/graph/storage.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph/storage.rs b/src/graph/storage.rs
index fc58e53..f0530f2 100644
--- a/src/graph/storage.rs
+++ b/src/graph/storage.rs
@@ -60,6 +60,7 @@ impl TimeGraph {
                 })
             ).map(|i| i+1)
             .unwrap_or(0);
+        self.data.truncate(self.size as usize * self.size as usize);
         self.data.shrink_to_fit()
     }
 
-- 
2.43.0


From 9b1b5d4e8adbe212e21d5d6662273eb3ea7c038f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:44 +0000
Subject: [PATCH 26/39] fix: the constraints of an instant always include the
 one with the first instant

---
 src/graph/constraints.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/graph/constraints.rs b/src/graph/constraints.rs
index 229584b..c3fdff0 100644
--- a/src/graph/constraints.rs
+++ b/src/graph/constraints.rs
@@ -207,25 +207,24 @@ impl<'a> Iterator for TimeConstraintFromIter<'a> {
             // this iterator is a FusedIterator
             None
         } else {
-            let current = TimeGraphConstraint {
-                from: self.i,
-                to: self.j,
-                graph: self.graph
-            };
             loop { // search the next current
-                self.j += 1;
-
                 if self.j == self.graph.size() {
                     self.i = self.graph.size();
-                    break;
+                    return None;
+                }
+                let to = self.j;
+                self.j += 1;
 
-                } else if self.i != self.j &&
-                    (unsafe { !self.graph.lower(self.i,self.j).is_past_infinite() }
-                        || unsafe { !self.graph.lower(self.j,self.i).is_past_infinite() }) {
-                    break;
+                if self.i != to &&
+                    (unsafe { !self.graph.lower(self.i,to).is_past_infinite() }
+                        || unsafe { !self.graph.lower(to,self.i).is_past_infinite() }) {
+                    return Some(TimeGraphConstraint {
+                        from: self.i,
+                        to,
+                        graph: self.graph
+                    });
                 }
             }
-            Some(current)
         }
     }
 
-- 
2.43.0


From 36651631916be07f897bba57824b3612f42da6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:45 +0000
Subject: [PATCH 27/39] fix: the size hints of the constraint iterators panic

---
 src/graph/constraints.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/graph/constraints.rs b/src/graph/constraints.rs
index c3fdff0..e394a1e 100644
--- a/src/graph/constraints.rs
+++ b/src/graph/constraints.rs
@@ -176,10 +176,12 @@ impl<'a> Iterator for TimeConstraintIter<'a> {
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>)
     {
-        let all_constraints = (self.graph.size() * self.graph.size() - self.graph.size())/2;
-        let previous_constraints =  (self.i * self.i - self.i)/2;
-        let max = all_constraints - previous_constraints + 1 - self.j;
-        (0, Some(max as usize))
+        if self.i == self.graph.size() { return (0, Some(0)); }
+        let (n, i, j) = (self.graph.size() as usize, self.i as usize, self.j as usize);
+        let all_constraints = (n * n - n)/2;
+        let previous_constraints =  (i * i - i)/2;
+        let max = all_constraints - previous_constraints + 1 - j;
+        (0, Some(max))
     }
 }
 
@@ -231,10 +233,8 @@ impl<'a> Iterator for TimeConstraintFromIter<'a> {
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>)
     {
-        let all_constraints = (self.graph.size() * self.graph.size() - self.graph.size())/2;
-        let previous_constraints =  (self.i * self.i - self.i)/2;
-        let max = all_constraints - previous_constraints + 1 - self.j;
-        (0, Some(max as usize))
+        if self.i >= self.graph.size() { return (0, Some(0)); }
+        (0, Some((self.graph.size() - self.j) as usize))
     }
 }
 
-- 
2.43.0


From 93bb5a62f8bb270edec87fdba01037b8ba004d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:46 +0000
Subject: [PATCH 28/39] fix: wrong upper size hints of the union and
 complementary iterators

---
 src/iter/compl.rs | 6 +++---
 src/iter/union.rs | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/iter/compl.rs b/src/iter/compl.rs
index 84205a9..385224a 100644
--- a/src/iter/compl.rs
+++ b/src/iter/compl.rs
@@ -91,10 +91,10 @@ impl<I:TimeConvexIterator> Iterator for IterComplementary<I>
     fn size_hint(&self) -> (usize, Option<usize>)
     {
         let (min,max) = self.iter.size_hint();
-        if self.lower.is_finite() {
-            (min.saturating_sub(1), max)
+        if self.lower.is_future_infinite() {
+            (0, Some(0))
         } else {
-            (min.saturating_sub(1), max.map(|i| i + 1))
+            (min.saturating_sub(1), max.and_then(|i| i.checked_add(1)))
         }
     }
 }
diff --git a/src/iter/union.rs b/src/iter/union.rs
index 023950f..7080a28 100644
--- a/src/iter/union.rs
+++ b/src/iter/union.rs
@@ -236,7 +236,8 @@ impl<I,J> Iterator for IterUnion<I,J>
             _ => {
                 if let (_,Some(imax)) = self.i.size_hint() {
                     if let (_,Some(jmax)) = self.j.size_hint() {
-                        return (0, Some(imax.saturating_add(jmax)));
+                        // take also into account the temporary interval
+                        return (0, imax.checked_add(jmax).and_then(|max| max.checked_add(1)));
                     }
                 }
                 (0, None)
-- 
2.43.0


From 0f2adad203097204601e4bd4ddef2568d0a8acbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:33 +0000
Subject: [PATCH 29/39] fix: a backward sequence skips its first two timestamps

---
 src/seq/backward.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seq/backward.rs b/src/seq/backward.rs
index d624bd1..7232f90 100644
--- a/src/seq/backward.rs
+++ b/src/seq/backward.rs
@@ -13,7 +13,7 @@ impl TimeSequence for TimeSeqBackward
     fn new<T:Timestamped>(t: T, delta: TimeValue) -> Self
     {
         assert!( delta.is_strictly_positive(), "sequence interval should be strictly positive" );
-        let t = t.timestamp() - delta; // so we will start at t
+        let t = t.timestamp() + delta; // so we will start at t
         assert!( t.is_finite(), "infinite start value");
         Self { t, step: delta }
     }
-- 
2.43.0


From 2d8e723161d2e8f4f4abed3c909bc72a4c444a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 30/39] fix: wrong number of timestamps in a sequence

---
 src/seq/backward.rs | 7 ++++---
 src/seq/forward.rs  | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/seq/backward.rs b/src/seq/backward.rs
index 7232f90..a328af6 100644
--- a/src/seq/backward.rs
+++ b/src/seq/backward.rs
@@ -31,10 +31,11 @@ impl TimeSequence for TimeSeqBackward
 
     fn len(&self) -> usize
     {
-        if self.t.0.is_strictly_negative() {
-            (self.t.0.as_ticks() - i64::MIN) as usize / self.step.as_ticks() as usize
+        if self.t.is_finite() {
+            // -oo is not a part of the sequence
+            (1 - i64::MAX).abs_diff(self.t.0.as_ticks()) as usize / self.step.as_ticks() as usize
         } else {
-            self.t.0.as_ticks() as usize + i64::MAX as usize + 1 / self.step.as_ticks() as usize
+            0
         }
     }
 }
diff --git a/src/seq/forward.rs b/src/seq/forward.rs
index d1469c0..17a85a1 100644
--- a/src/seq/forward.rs
+++ b/src/seq/forward.rs
@@ -32,10 +32,11 @@ impl TimeSequence for TimeSeqForward
 
     fn len(&self) -> usize
     {
-        if self.t.0.is_positive() {
-            (i64::MAX - self.t.0.as_ticks()) as usize / self.step.as_ticks() as usize
+        if self.t.is_finite() {
+            // +oo is not a part of the sequence
+            (i64::MAX - 1).abs_diff(self.t.0.as_ticks()) as usize / self.step.as_ticks() as usize
         } else {
-            (i64::MAX as usize) + (-self.t.0.as_ticks() as usize) / self.step.as_ticks() as usize
+            0
         }
     }
 }
-- 
2.43.0


From 5dfa99b0926dd0dc6a5938d86fad296628c8da42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:36 +0000
Subject: [PATCH 31/39] fix: nth element of a sequence is the previous one

---
 src/seq/backward.rs | 11 +++++++----
 src/seq/forward.rs  | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/seq/backward.rs b/src/seq/backward.rs
index a328af6..2324261 100644
--- a/src/seq/backward.rs
+++ b/src/seq/backward.rs
@@ -69,18 +69,21 @@ impl Iterator for TimeSeqBackward {
     fn last(self) -> Option<Self::Item>
     {
         let n = self.len();
-        (n > 0).then_some(self.t - n*self.step)
+        // as n could be greater than i64::MAX, the whole distance is covered in two times
+        (n > 0).then_some(self.t - (n/2)*self.step - (n-n/2)*self.step)
     }
 
 
     fn nth(&mut self, n: usize) -> Option<Self::Item>
     {
-        if self.len() < n {
+        if self.len() <= n {
             self.t = -Timestamp::INFINITE;
             None
         } else {
-            self.t -= self.step * n;
-            Some(self.t)
+            // as n could be greater than i64::MAX, the whole distance is covered in two times
+            self.t -= self.step * (n/2);
+            self.t -= self.step * (n-n/2);
+            self.next()
         }
     }
 }
\ No newline at end of file
diff --git a/src/seq/forward.rs b/src/seq/forward.rs
index 17a85a1..1174d42 100644
--- a/src/seq/forward.rs
+++ b/src/seq/forward.rs
@@ -70,18 +70,21 @@ impl Iterator for TimeSeqForward {
     fn last(self) -> Option<Self::Item>
     {
         let n = self.len();
-        (n > 0).then_some(self.t + n*self.step)
+        // as n could be greater than i64::MAX, the whole distance is covered in two times
+        (n > 0).then_some(self.t + (n/2)*self.step + (n-n/2)*self.step)
     }
 
 
     fn nth(&mut self, n: usize) -> Option<Self::Item>
     {
-        if self.len() < n {
+        if self.len() <= n {
             self.t = Timestamp::INFINITE;
             None
         } else {
-            self.t += self.step * n;
-            Some(self.t)
+            // as n could be greater than i64::MAX, the whole distance is covered in two times
+            self.t += self.step * (n/2);
+            self.t += self.step * (n-n/2);
+            self.next()
         }
     }
 }
\ No newline at end of file
-- 
2.43.0


From 34fdcd64deb67903abc94172c8d2476df9bae319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:37 +0000
Subject: [PATCH 32/39] fix: a scheduler accepts a constraint which leaves an
 instant without any date

---
 src/graph/scheduler.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/graph/scheduler.rs b/src/graph/scheduler.rs
index 077e6ca..dd55aa5 100644
--- a/src/graph/scheduler.rs
+++ b/src/graph/scheduler.rs
@@ -107,9 +107,16 @@ impl TimeScheduler<'_> {
             } else if !tw.overlaps(self.schedule.get_unchecked(i as usize)) {
                 Err(TimeInconsistencyError::Recovered)
             } else {
+                let previous = self.schedule.clone();
                 *self.schedule.get_unchecked_mut(i as usize) &= tw;
                 self.propagate_scheduling(i);
-                Ok(TimePropagation::Propagated)
+                if self.schedule.iter().any(|slots| slots.is_empty()) {
+                    // no more possible date for some instant
+                    self.schedule = previous;
+                    Err(TimeInconsistencyError::Recovered)
+                } else {
+                    Ok(TimePropagation::Propagated)
+                }
             }
         }
     }
-- 
2.43.0


From 6419233e7d318b8628ee64dcf78b99fe6f8de82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:39 +0000
Subject: [PATCH 33/39] fix: setting a deadline or a startline panics when some
 slots are not convex

---
 src/graph/scheduler.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/graph/scheduler.rs b/src/graph/scheduler.rs
index dd55aa5..eb5f286 100644
--- a/src/graph/scheduler.rs
+++ b/src/graph/scheduler.rs
@@ -59,14 +59,17 @@ impl TimeScheduler<'_> {
         if self.schedule.iter().any(|tw| tw.lower_bound() > deadline) {
             Err(TimeInconsistencyError::Recovered)
         } else {
-            // we know that the propagation will succeed
-            Ok((0..self.schedule.len() as u32)
-                .fold(TimePropagation::Unchanged,
+            // the propagation could still fail if some slots are not convex
+            let previous = self.schedule.clone();
+            let result = (0..self.schedule.len() as u32)
+                .try_fold(TimePropagation::Unchanged,
                       |result, i|
-                          match self.retain(i, ..=deadline).unwrap() {
-                              TimePropagation::Unchanged => { result }
-                              TimePropagation::Propagated => { TimePropagation::Propagated }
-                          }))
+                          match self.retain(i, ..=deadline)? {
+                              TimePropagation::Unchanged => { Ok(result) }
+                              TimePropagation::Propagated => { Ok(TimePropagation::Propagated) }
+                          });
+            if result.is_err() { self.schedule = previous; }
+            result
         }
     }
 
@@ -78,14 +81,17 @@ impl TimeScheduler<'_> {
         if self.schedule.iter().any(|tw| tw.upper_bound() < startline) {
             Err(TimeInconsistencyError::Recovered)
         } else {
-            // we know that the propagation will succeed
-            Ok((0..self.schedule.len() as u32)
-                .fold(TimePropagation::Unchanged,
+            // the propagation could still fail if some slots are not convex
+            let previous = self.schedule.clone();
+            let result = (0..self.schedule.len() as u32)
+                .try_fold(TimePropagation::Unchanged,
                       |result, i|
-                          match self.retain(i, startline..).unwrap() {
-                              TimePropagation::Unchanged => { result }
-                              TimePropagation::Propagated => { TimePropagation::Propagated }
-                          }))
+                          match self.retain(i, startline..)? {
+                              TimePropagation::Unchanged => { Ok(result) }
+                              TimePropagation::Propagated => { Ok(TimePropagation::Propagated) }
+                          });
+            if result.is_err() { self.schedule = previous; }
+            result
         }
     }
 
-- 
2.43.0


From dad249c7131acb98f854c096d44fc80d93a6923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:27 +0000
Subject: [PATCH 34/39] fix: overflow when reaching a very far timestamp of a
 sequence

---
 src/seq/backward.rs | 13 +++++++------
 src/seq/forward.rs  | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/seq/backward.rs b/src/seq/backward.rs
index 2324261..d1b5a7e 100644
--- a/src/seq/backward.rs
+++ b/src/seq/backward.rs
@@ -69,8 +69,9 @@ impl Iterator for TimeSeqBackward {
     fn last(self) -> Option<Self::Item>
     {
         let n = self.len();
-        // as n could be greater than i64::MAX, the whole distance is covered in two times
-        (n > 0).then_some(self.t - (n/2)*self.step - (n-n/2)*self.step)
+        // the distance between the first and the last timestamps could exceed i64::MAX
+        let last = self.t.0.as_ticks() as i128 - n as i128 * self.step.as_ticks() as i128;
+        (n > 0).then_some(Timestamp::from_origin(TimeValue::from_ticks(last as i64)))
     }
 
 
@@ -80,10 +81,10 @@ impl Iterator for TimeSeqBackward {
             self.t = -Timestamp::INFINITE;
             None
         } else {
-            // as n could be greater than i64::MAX, the whole distance is covered in two times
-            self.t -= self.step * (n/2);
-            self.t -= self.step * (n-n/2);
-            self.next()
+            // the distance between the first and the nth timestamps could exceed i64::MAX
+            let nth = self.t.0.as_ticks() as i128 - (n as i128 + 1) * self.step.as_ticks() as i128;
+            self.t = Timestamp::from_origin(TimeValue::from_ticks(nth as i64));
+            Some(self.t)
         }
     }
 }
\ No newline at end of file
diff --git a/src/seq/forward.rs b/src/seq/forward.rs
index 1174d42..6c5eddc 100644
--- a/src/seq/forward.rs
+++ b/src/seq/forward.rs
@@ -70,8 +70,9 @@ impl Iterator for TimeSeqForward {
     fn last(self) -> Option<Self::Item>
     {
         let n = self.len();
-        // as n could be greater than i64::MAX, the whole distance is covered in two times
-        (n > 0).then_some(self.t + (n/2)*self.step + (n-n/2)*self.step)
+        // the distance between the first and the last timestamps could exceed i64::MAX
+        let last = self.t.0.as_ticks() as i128 + n as i128 * self.step.as_ticks() as i128;
+        (n > 0).then_some(Timestamp::from_origin(TimeValue::from_ticks(last as i64)))
     }
 
 
@@ -81,10 +82,10 @@ impl Iterator for TimeSeqForward {
             self.t = Timestamp::INFINITE;
             None
         } else {
-            // as n could be greater than i64::MAX, the whole distance is covered in two times
-            self.t += self.step * (n/2);
-            self.t += self.step * (n-n/2);
-            self.next()
+            // the distance between the first and the nth timestamps could exceed i64::MAX
+            let nth = self.t.0.as_ticks() as i128 + (n as i128 + 1) * self.step.as_ticks() as i128;
+            self.t = Timestamp::from_origin(TimeValue::from_ticks(nth as i64));
+            Some(self.t)
         }
     }
 }
\ No newline at end of file
-- 
2.43.0


From 52330f46fb599cc2915849ccd6087bd94c37032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:56 +0000
Subject: [PATCH 35/39] fix: ranges without any finite point make ill-formed
 intervals

---
 src/ops/range.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/ops/range.rs b/src/ops/range.rs
index 6acb40f..e3cf1d5 100644
--- a/src/ops/range.rs
+++ b/src/ops/range.rs
@@ -7,55 +7,55 @@ use crate::iter::*;
 impl<T:TimePoint> TimeBounds for Range<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { Range::is_empty(self) }
-    #[inline] fn is_bounded(&self) -> bool { !self.is_empty() && self.lower_bound().is_finite() && self.upper_bound().is_finite() }
-    #[inline] fn is_low_bounded(&self) -> bool { !self.is_empty() && self.lower_bound().is_finite() }
-    #[inline] fn is_up_bounded(&self) -> bool { !self.is_empty() && self.upper_bound().is_finite()  }
-    #[inline] fn lower_bound(&self) -> Self::TimePoint { if self.is_empty() { T::INFINITE } else { self.start } }
-    #[inline] fn upper_bound(&self) -> Self::TimePoint { if self.is_empty() { -T::INFINITE} else { self.end.just_before() } }// not inclusive
+    #[inline] fn is_empty(&self) -> bool { Range::is_empty(self) || self.end.just_before().is_past_infinite() }
+    #[inline] fn is_bounded(&self) -> bool { !TimeBounds::is_empty(self) && self.lower_bound().is_finite() && self.upper_bound().is_finite() }
+    #[inline] fn is_low_bounded(&self) -> bool { !TimeBounds::is_empty(self) && self.lower_bound().is_finite() }
+    #[inline] fn is_up_bounded(&self) -> bool { !TimeBounds::is_empty(self) && self.upper_bound().is_finite()  }
+    #[inline] fn lower_bound(&self) -> Self::TimePoint { if TimeBounds::is_empty(self) { T::INFINITE } else { self.start } }
+    #[inline] fn upper_bound(&self) -> Self::TimePoint { if TimeBounds::is_empty(self) { -T::INFINITE} else { self.end.just_before() } }// not inclusive
 }
 
 impl<T:TimePoint> TimeBounds for RangeFrom<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { false }
+    #[inline] fn is_empty(&self) -> bool { self.start.is_future_infinite() }
     #[inline] fn is_bounded(&self) -> bool { false }
     #[inline] fn is_low_bounded(&self) -> bool { self.lower_bound().is_finite() }
     #[inline] fn is_up_bounded(&self) -> bool { false }
     #[inline] fn lower_bound(&self) -> Self::TimePoint { self.start }
-    #[inline] fn upper_bound(&self) -> Self::TimePoint { Self::TimePoint::INFINITE }
+    #[inline] fn upper_bound(&self) -> Self::TimePoint { if self.is_empty() { -T::INFINITE } else { T::INFINITE } }
 }
 
 impl<T:TimePoint> TimeBounds for RangeInclusive<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { RangeInclusive::is_empty(self) }
-    #[inline] fn is_bounded(&self) -> bool { !self.is_empty() && self.lower_bound().is_finite() && self.upper_bound().is_finite() }
-    #[inline] fn is_low_bounded(&self) -> bool { !self.is_empty() && self.lower_bound().is_finite() }
-    #[inline] fn is_up_bounded(&self) -> bool { !self.is_empty() && self.upper_bound().is_finite()  }
-    #[inline] fn lower_bound(&self) -> Self::TimePoint { if self.is_empty() { T::INFINITE} else { *self.start() } }
-    #[inline] fn upper_bound(&self) -> Self::TimePoint { if self.is_empty() { -T::INFINITE } else { *self.end() } } // inclusive
+    #[inline] fn is_empty(&self) -> bool { RangeInclusive::is_empty(self) || self.start().is_future_infinite() || self.end().is_past_infinite() }
+    #[inline] fn is_bounded(&self) -> bool { !TimeBounds::is_empty(self) && self.lower_bound().is_finite() && self.upper_bound().is_finite() }
+    #[inline] fn is_low_bounded(&self) -> bool { !TimeBounds::is_empty(self) && self.lower_bound().is_finite() }
+    #[inline] fn is_up_bounded(&self) -> bool { !TimeBounds::is_empty(self) && self.upper_bound().is_finite()  }
+    #[inline] fn lower_bound(&self) -> Self::TimePoint { if TimeBounds::is_empty(self) { T::INFINITE} else { *self.start() } }
+    #[inline] fn upper_bound(&self) -> Self::TimePoint { if TimeBounds::is_empty(self) { -T::INFINITE } else { *self.end() } } // inclusive
 }
 
 impl<T:TimePoint> TimeBounds for RangeTo<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { false }
+    #[inline] fn is_empty(&self) -> bool { self.upper_bound().is_past_infinite() }
     #[inline] fn is_bounded(&self) -> bool { false }
     #[inline] fn is_low_bounded(&self) -> bool { false }
     #[inline] fn is_up_bounded(&self) -> bool { self.upper_bound().is_finite()  }
-    #[inline] fn lower_bound(&self) -> Self::TimePoint { - Self::TimePoint::INFINITE }
+    #[inline] fn lower_bound(&self) -> Self::TimePoint { if self.is_empty() { T::INFINITE } else { -T::INFINITE } }
     #[inline] fn upper_bound(&self) -> Self::TimePoint { self.end.just_before() } // not inclusive
 }
 
 impl<T:TimePoint> TimeBounds for RangeToInclusive<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { false }
+    #[inline] fn is_empty(&self) -> bool { self.end.is_past_infinite() }
     #[inline] fn is_bounded(&self) -> bool { false }
     #[inline] fn is_low_bounded(&self) -> bool { false }
     #[inline] fn is_up_bounded(&self) -> bool { self.upper_bound().is_finite()  }
-    #[inline] fn lower_bound(&self) -> Self::TimePoint { - Self::TimePoint::INFINITE }
+    #[inline] fn lower_bound(&self) -> Self::TimePoint { if self.is_empty() { T::INFINITE } else { -T::INFINITE } }
     #[inline] fn upper_bound(&self) -> Self::TimePoint { self.end } // inclusive
 }
 
-- 
2.43.0


From a49d5199e3dbaf77caf0ff9b7710c1929f58cb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:47 +0000
Subject: [PATCH 36/39] fix: scaling iterator by a negative or null factor
 isn't sorted anymore

---
 src/iter/scaling.rs | 32 ++++----------------------------
 1 file changed, 4 insertions(+), 28 deletions(-)

diff --git a/src/iter/scaling.rs b/src/iter/scaling.rs
index b80fe6e..ce332f0 100644
--- a/src/iter/scaling.rs
+++ b/src/iter/scaling.rs
@@ -15,35 +15,11 @@ impl<I:TimeConvexIterator,S:Copy> TimeScaling<S> for I
     where
         I::Item: Mul<S,Output=I::Item>
 {
-    type Output = TimeValueScaleIter<I,S>;
+    type Output = crate::iter::intoiter::IntoConvexIter<I::TimePoint,std::vec::IntoIter<TimeInterval<I::TimePoint>>>;
 
     fn scaling(self, scale: S) -> Self::Output {
-        TimeValueScaleIter { scale, iter: self }
+        // a negative scale reverses the intervals and a small one could join them
+        let tw = self.map(|tw| tw*scale).collect::<TimeSet<I::TimePoint>>();
+        tw.into_iter()
     }
 }
-
-pub struct TimeValueScaleIter<I:TimeConvexIterator,S:Copy> {
-    scale: S,
-    iter: I
-}
-
-impl<I:TimeConvexIterator,S:Copy> Iterator for TimeValueScaleIter<I,S>
-    where
-        I::Item: Mul<S,Output=I::Item>
-{
-    type Item = I::Item;
-
-    fn next(&mut self) -> Option<Self::Item> {
-        self.iter.next().map(|tw| tw*self.scale)
-            .and_then(|tw| if tw.is_empty() { None } else { Some(tw) })
-    }
-}
-
-
-impl<I:TimeConvexIterator,S:Copy> TimeConvexIterator for TimeValueScaleIter<I,S>
-    where
-        I::Item: Mul<S,Output=I::Item>
-{
-    type TimePoint = I::TimePoint;
-}
-
-- 
2.43.0


From 3d790cd363f7161dce680da8c6c06562fcc953eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:13 +0000
Subject: [PATCH 37/39] fix: scaling an infinite time value by a float makes it
 finite

---
 src/ops/scaling.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 9134fdd..620651e 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -107,6 +107,10 @@ macro_rules! timevalscalingfloat {
             type Output = Self;
             #[inline]
             fn mul(self, n: $time) -> Self::Output {
+                if !self.is_finite() {
+                    // an infinite value remains infinite (except by zero)
+                    return if n > 0. { self } else if n < 0. { -self } else { TimeValue::default() };
+                }
                 let t = self.0 as $time * n;
                 if t > INFINITE_TIME_VALUE as $time {
                     TimeValue::INFINITE
-- 
2.43.0


From 9baa03a599fe36ae3adafd47b8dc85ffb462c54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:13 +0000
Subject: [PATCH 38/39] fix: scaling an empty interval by a float panics

---
 src/ops/scaling.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 620651e..58aef4c 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -217,6 +217,7 @@ macro_rules! timespanscalingfloat {
             type Output = TimeSpan;
             #[inline]
             fn mul(self, f: $scale) -> Self::Output {
+                if self.is_empty() { return self; }
                 let (lower, upper) = if f < 0. {
                     // negative factor -> reverse interval
                     (self.upper * f, self.lower * f)
@@ -232,6 +233,7 @@ macro_rules! timespanscalingfloat {
             type Output = TimeSpan;
             #[inline]
             fn div(self, f: $scale) -> Self::Output {
+                if self.is_empty() { return self; }
                 let (lower, upper) = if f < 0. {
                     // negative factor -> reverse interval
                     (self.upper / f, self.lower / f)
-- 
2.43.0


From 6e0e18afe8e672fe11e693d96275e5ca34834802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:14 +0000
Subject: [PATCH 39/39] fix: intervals joined by rounding are not merged when a
 time set is scaled up by a float

---
 src/ops/scaling.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 58aef4c..3e930f7 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -349,7 +349,8 @@ macro_rules! timespansscalefloat {
                     .map(|tw| *tw * f)
                     .collect::<Vec<_>>();
                 if f < 0. { inners.reverse() }
-                if f.abs() < 1. { check_joined_inners(&mut inners); }
+                // NOTE: rounding could join intervals whatever the factor
+                check_joined_inners(&mut inners);
                 Self(inners)
             }
         }
@@ -362,7 +363,7 @@ macro_rules! timespansscalefloat {
             fn mul_assign(&mut self, f: $scale) {
                 self.0.iter_mut().for_each(|tw| *tw *= f);
                 if f < 0. { self.0.reverse() }
-                if f.abs() < 1. { check_joined_inners(&mut self.0) }
+                check_joined_inners(&mut self.0)
             }
         }
         impl DivAssign<$scale> for TimeSpans {
-- 
2.43.0

