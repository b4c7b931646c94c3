From ff8e2225d83067b31f1574c75d3640b01f0ed541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:32 +0000
Subject: [PATCH 01/14] fix: merge coinciding tines exactly in minus and
 intersect

Subtracting from a tine that excludes its point, or subtracting a point
from an excluded end, produced the wrong boundary.
---
 src/tine.rs      | 10 ++++++++--
 src/tine_tree.rs |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/tine.rs b/src/tine.rs
index a4db9d1..f8d522e 100644
--- a/src/tine.rs
+++ b/src/tine.rs
@@ -182,6 +182,7 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Lower(lb),         &Lower(_))          => Some(Lower(lb)),
 
             (Lower(Include(l)), &Point(Include(_))) => Some(Point(Include(l))),
+            (Lower(Include(l)), &Point(Exclude(_))) => Some(Lower(Exclude(l))),
             (Lower(Exclude(l)), &Point(Exclude(_))) => Some(Lower(Exclude(l))),
             (Lower(_),          &Point(_))          => None,
 
@@ -202,6 +203,7 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Upper(_),          &Lower(_))          => None,
 
             (Upper(Include(l)), &Point(Include(_))) => Some(Point(Include(l))),
+            (Upper(Include(l)), &Point(Exclude(_))) => Some(Upper(Exclude(l))),
             (Upper(Exclude(l)), &Point(Exclude(_))) => Some(Upper(Exclude(l))),
             (Upper(_),          &Point(_))          => None,
 
@@ -226,6 +228,8 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Lower(_),          &Lower(_))          => None,
 
             (Lower(Include(l)), &Point(Include(_))) => Some(Lower(Exclude(l))),
+            (Lower(Include(l)), &Point(Exclude(_))) => Some(Point(Include(l))),
+            (Lower(Exclude(l)), &Point(Include(_))) => Some(Lower(Exclude(l))),
             (Lower(_),          &Point(_))          => None,
 
             (Lower(Include(l)), &Upper(Include(_))) => Some(Lower(Exclude(l))),
@@ -238,10 +242,10 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Point(Include(_)), &Upper(Include(_))) => None,
             (Point(Include(l)), _)                  => Some(Point(Include(l))),
 
-            (Point(Exclude(l)), &Lower(_))          => Some(Lower(Exclude(l))),
+            (Point(Exclude(l)), &Lower(_))          => Some(Upper(Exclude(l))),
             (Point(Exclude(l)), &Point(Include(_))) => Some(Point(Exclude(l))),
             (Point(Exclude(_)), &Point(Exclude(_))) => None,
-            (Point(Exclude(l)), &Upper(_))          => Some(Upper(Exclude(l))),
+            (Point(Exclude(l)), &Upper(_))          => Some(Lower(Exclude(l))),
 
             (Upper(Include(l)), &Lower(Include(_))) => Some(Upper(Exclude(l))),
             (Upper(Include(l)), &Lower(Exclude(_))) => Some(Upper(Include(l))),
@@ -249,6 +253,8 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Upper(Exclude(l)), &Lower(Exclude(_))) => Some(Upper(Exclude(l))),
 
             (Upper(Include(l)), &Point(Include(_))) => Some(Upper(Exclude(l))),
+            (Upper(Include(l)), &Point(Exclude(_))) => Some(Point(Include(l))),
+            (Upper(Exclude(l)), &Point(Include(_))) => Some(Upper(Exclude(l))),
             (Upper(_),          &Point(_))          => None,
 
             (Upper(Include(l)), &Upper(Exclude(_))) => Some(Point(Include(l))),
diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index adc129b..32cc132 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -664,7 +664,7 @@ impl<T> TineTree<T> where T: Ord + Clone {
             (true,  true)  => {
                 // (   )
                 //   |
-                self.0.insert(p.invert());
+                self.0.insert(if p.is_point_exclude() {p} else {p.invert()});
             },
             (true,  false) => {
                 // ( )   ( )
-- 
2.43.0


From 37ee0a9fb6df3a1055863d699b56d0db6afa417a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:31 +0000
Subject: [PATCH 02/14] fix: share an excluded point between both ends of tree
 iteration

Taking a piece from the back saved the shared tine for the front, and a
tine taken over from the other end was saved again.
---
 src/tine_tree.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index 32cc132..e28803d 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -1033,11 +1033,14 @@ impl<T> Iterator for IntoIter<T> where T: Ord + Clone {
                     // Next tine must be a lower bound of an interval.
                     debug_assert!(lower.is_lower_bound());
 
-                    let upper = self.inner.next()
+                    let stored = self.inner.next();
+                    let unshared = stored.is_some();
+                    let upper = stored
                         .or_else(|| self.saved_upper.take())
                         .expect("interval is not partial");
 
-                    if upper.is_point_exclude() {
+                    // A tine saved by the other end is not shared any further.
+                    if unshared && upper.is_point_exclude() {
                         self.saved_lower = Some(upper.clone());
                     }
 
@@ -1069,12 +1072,15 @@ impl<T> DoubleEndedIterator for IntoIter<T>
                     // Next tine must be an upper bound of an interval.
                     debug_assert!(upper.is_upper_bound());
 
-                    let lower = self.inner.next_back()
+                    let stored = self.inner.next_back();
+                    let unshared = stored.is_some();
+                    let lower = stored
                         .or_else(|| self.saved_lower.take())
                         .expect("interval is not partial");
 
-                    if lower.is_point_exclude() {
-                        self.saved_lower = Some(lower.clone());
+                    // A tine saved by the other end is not shared any further.
+                    if unshared && lower.is_point_exclude() {
+                        self.saved_upper = Some(lower.clone());
                     }
 
                     // ... and the next tine after must be a lower bound.
@@ -1122,11 +1128,14 @@ impl<'t, T> Iterator for Iter<'t, T>
                     // Next tine must be a lower bound of an interval.
                     debug_assert!(lower.is_lower_bound());
 
-                    let upper = self.tine_iter.next().cloned()
+                    let stored = self.tine_iter.next().cloned();
+                    let unshared = stored.is_some();
+                    let upper = stored
                         .or_else(|| self.saved_upper.take())
                         .expect("interval is not partial");
 
-                    if upper.is_point_exclude() {
+                    // A tine saved by the other end is not shared any further.
+                    if unshared && upper.is_point_exclude() {
                         self.saved_lower = Some(upper.clone());
                     }
 
@@ -1159,12 +1168,15 @@ impl<'t, T> DoubleEndedIterator for Iter<'t, T>
                     // Next tine must be an upper bound of an interval.
                     debug_assert!(upper.is_upper_bound());
 
-                    let lower = self.tine_iter.next_back().cloned()
+                    let stored = self.tine_iter.next_back().cloned();
+                    let unshared = stored.is_some();
+                    let lower = stored
                         .or_else(|| self.saved_lower.take())
                         .expect("interval is not partial");
 
-                    if lower.is_point_exclude() {
-                        self.saved_lower = Some(lower.clone());
+                    // A tine saved by the other end is not shared any further.
+                    if unshared && lower.is_point_exclude() {
+                        self.saved_upper = Some(lower.clone());
                     }
 
                     // ... and the next tine after must be a lower bound.
-- 
2.43.0


From 75a9a115a631863af5bec56cc6c7bdc7a4a4b56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:16 +0000
Subject: [PATCH 03/14] fix: keep every overlap when intersecting trees

Each interval of the other tree was matched against one interval only, so
later overlaps were lost.
---
 src/tine_tree.rs | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index e28803d..8b6b32e 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -181,23 +181,22 @@ impl<T> TineTree<T> where T: Ord + Clone {
     #[must_use]
     pub fn intersect(&self, other: &Self) -> Self {
         let mut intersection = Self::new();
-        let self_intervals = self.interval_iter();
+        let mut self_intervals = self.interval_iter();
         let mut other_intervals = other.interval_iter();
+        let mut self_next = self_intervals.next();
+        let mut other_next = other_intervals.next();
 
-        for self_interval in self_intervals {
-            'segment: loop {
-                if let Some(other_interval) = other_intervals.next() {
-                    let i = self_interval.intersect(&other_interval);
-                    if i.is_empty() {
-                        // Nothing else overlaps in this segment.
-                        break 'segment;
-                    }
-
-                    intersection.union_in_place(&i);
-                } else {
-                    // Nothing else overlaps anywhere.
-                    return intersection;
-                }
+        while let (Some(self_interval), Some(other_interval))
+            = (&self_next, &other_next)
+        {
+            let i = self_interval.intersect(other_interval);
+            intersection.union_in_place(&i);
+
+            // Keep the interval that reaches further; it may overlap again.
+            match (self_interval.upper_bound(), other_interval.upper_bound()) {
+                (Some(s), Some(o)) if s.least_intersect(&o) == o
+                    => other_next = other_intervals.next(),
+                _   => self_next = self_intervals.next(),
             }
         }
         intersection
-- 
2.43.0


From a6b6981296cf8abad9dc091829e27a28e7baec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:49 +0000
Subject: [PATCH 04/14] fix: restrict trees to an interval without panicking or
 keeping its ends

---
 src/tine_tree.rs | 98 +++++++++---------------------------------------
 1 file changed, 17 insertions(+), 81 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index 8b6b32e..84ae7b2 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -322,91 +322,27 @@ impl<T> TineTree<T> where T: Ord + Clone {
     fn intersect_proper_interval(&mut self, l: Tine<T>, u: Tine<T>) {
         let mut ts = self.interior_split_for_proper_interval(&l, &u);
 
-        // Merge tines if overlap or use given ones. We should only have `None`
-        // in the case of a intersection annhiliation.
-        let merged_l = if ts[2].is_some() {
-            ts[2].take().and_then(|lower| lower.intersect(&l))
-        } else {
-            Some(l)
+        // Merge tines if overlap, or use given ones if they are inside one of
+        // the tree's intervals. To detect this, we look at the tines before and
+        // after the interval.
+        let merged_l = match ts[2].take() {
+            Some(lower) => lower.intersect(&l),
+            None        => ts[0]
+                .take()
+                .filter(Tine::is_lower_bound)
+                .map(|_| l),
         };
 
-        let merged_u = if ts[3].is_some() {
-            ts[3].take().and_then(|upper| upper.intersect(&u))
-        } else {
-            Some(u)
+        let merged_u = match ts[3].take() {
+            Some(upper) => upper.intersect(&u),
+            None        => ts[5]
+                .take()
+                .filter(Tine::is_upper_bound)
+                .map(|_| u),
         };
-        
-        // Ensure inner tines have the correct bounds.
-        debug_assert!(merged_l
-            .as_ref()
-            .map_or(true, Tine::is_lower_bound));
-        debug_assert!(merged_u
-            .as_ref()
-            .map_or(true, Tine::is_upper_bound));
-
-        
-        // We need to detect whether the point is inside or outside an interval.
-        // To do this, we look at the tines inside and outside the interval.
-        let open_before = ts[0]
-            .as_ref()
-            .is_some_and(Tine::is_lower_bound);
-        let closed_after = ts[5]
-            .as_ref()
-            .is_some_and(Tine::is_upper_bound);
-
-        let in_l = ts[1]
-            .as_ref()
-            .is_some_and(Tine::is_upper_bound);
-        let in_r = ts[4]
-            .as_ref()
-            .is_some_and(Tine::is_lower_bound);
-
 
-        // Insert tines into the tree, ignoring them if the are not wrapped by a
-        // surrounding interval, or not wrapping a surrounding interval.
-        match (open_before, merged_l, in_l, in_r, merged_u, closed_after) {
-            (_,     Some(l), true,  true,  Some(u), _   )  |
-            (_,     Some(l), false, false, Some(u), _   )  => {
-                // (   ) (   )
-                //   (     )
-                //     O R
-                // (     )
-                //   ( )
-                //     O R
-                // (     )
-                // (  )
-                //     O R
-                // (     )
-                //    (  )
-                self.0.insert(l);
-                self.0.insert(u);
-            },
-            (true, Some(l),  true,  false, _,       false) => {
-                // (   )
-                //   (   )
-                //     O R
-                // (   ) ( )
-                //   (   )
-                self.0.insert(l);
-            },
-            (false, _,       false, true,  Some(u), true)  => {
-                //   (   )
-                // (   )
-                //     O R
-                // ( ) (   )
-                //   (   )
-                self.0.insert(u);
-            },
-            (false, _,       false, false, _,       false) => {
-                // )     (
-                // (     )
-                //     O R
-                //   ( )
-                // (     )
-                /* Do nothing. */
-            },
-            _ => unreachable!("invalid bounds for intersection interval"),
-        }
+        self.0.extend(merged_l);
+        self.0.extend(merged_u);
     }
 
     /// Unions the given interval with the contents of the tree.
-- 
2.43.0


From 96d2073a73ffad207b883c01699c014a6d53ba9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:09 +0000
Subject: [PATCH 05/14] fix: start the enclosure of a sequence from the empty
 interval

---
 src/raw_interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raw_interval.rs b/src/raw_interval.rs
index f0d71c1..768a693 100644
--- a/src/raw_interval.rs
+++ b/src/raw_interval.rs
@@ -392,7 +392,7 @@ impl<T> RawInterval<T> where T: Ord + Clone {
     pub fn enclose_all<I>(intervals: I) -> Self
         where I: Iterator<Item=Self>
     {
-        intervals.fold(Self::Full, |acc, i| acc.enclose(&i))
+        intervals.fold(Self::Empty, |acc, i| acc.enclose(&i))
     }
 
     /// Returns the intersection of all of the given intervals.
-- 
2.43.0


From 29513cc65e0b36456205a36742f4dc766b4260a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:26 +0000
Subject: [PATCH 06/14] fix: normalize intervals with one or no point to their
 unique form

---
 src/normalize.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index dd0cdaf..7a43368 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -77,24 +77,24 @@ pub trait Normalize {
 // }
 
 /// Specialization for [`Finite`] intervals.
-impl<T> Normalize for RawInterval<T> where T: Finite {
+impl<T> Normalize for RawInterval<T> where T: Finite + Ord {
     fn normalize(&mut self) {
         use RawInterval::*;
         *self = match std::mem::replace(self, Empty) {
             Empty           => Empty,
             Point(p)        => Point(p),
             Open(l, r)      => match (l.succ(), r.pred()) {
-                (Some(l), Some(r)) => Closed(l, r),
+                (Some(l), Some(r)) => Self::closed(l, r),
                 _                  => Empty,
             },
-            LeftOpen(l, r)  => l.succ().map_or(Empty, |l| Closed(l, r)),
-            RightOpen(l, r) => r.pred().map_or(Empty, |r| Closed(l, r)),
-            Closed(l, r)    => Closed(l, r),
-            UpTo(r)         => r.pred().map_or(Empty, |r| Closed(T::MINIMUM, r)),
-            UpFrom(l)       => l.succ().map_or(Empty, |l| Closed(l, T::MAXIMUM)),
-            To(p)           => Closed(T::MINIMUM, p),
-            From(p)         => Closed(p, T::MAXIMUM),
-            Full            => Closed(T::MINIMUM, T::MAXIMUM),
+            LeftOpen(l, r)  => l.succ().map_or(Empty, |l| Self::closed(l, r)),
+            RightOpen(l, r) => r.pred().map_or(Empty, |r| Self::closed(l, r)),
+            Closed(l, r)    => Self::closed(l, r),
+            UpTo(r)         => r.pred().map_or(Empty, |r| Self::closed(T::MINIMUM, r)),
+            UpFrom(l)       => l.succ().map_or(Empty, |l| Self::closed(l, T::MAXIMUM)),
+            To(p)           => Self::closed(T::MINIMUM, p),
+            From(p)         => Self::closed(p, T::MAXIMUM),
+            Full            => Self::closed(T::MINIMUM, T::MAXIMUM),
         }
     }
 
-- 
2.43.0


From baba6af1a2d30838b6d5ccfb41372c476837476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:31 +0000
Subject: [PATCH 07/14] fix: widen unbounded intervals outwards when
 denormalizing

---
 src/normalize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index 7a43368..db5bfa7 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -125,8 +125,8 @@ impl<T> Normalize for RawInterval<T> where T: Finite + Ord {
             },
             UpTo(r)         => UpTo(r),
             UpFrom(l)       => UpFrom(l),
-            To(p)           => p.pred().map_or(Empty, |r| UpTo(r)),
-            From(p)         => p.succ().map_or(Empty, |l| UpFrom(l)),
+            To(p)           => p.succ().map_or(Full, |r| UpTo(r)),
+            From(p)         => p.pred().map_or(Full, |l| UpFrom(l)),
             Full            => Full,
         }
     }
-- 
2.43.0


From 897a46320f9a7efd362061291fcebfa33a288b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:04 +0000
Subject: [PATCH 08/14] fix: convert ranges with equal ends to the empty
 interval

---
 src/interval.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/interval.rs b/src/interval.rs
index dc00dbc..710df52 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -1726,7 +1726,12 @@ impl<T> From<Range<T>> for Interval<T>
         RawInterval<T>: Normalize,
 {
     fn from(r: Range<T>) -> Self {
-        Self(RawInterval::right_open(r.start, r.end).normalized())
+        // A range with equal ends has no points.
+        if r.start < r.end {
+            Self(RawInterval::right_open(r.start, r.end).normalized())
+        } else {
+            Self::empty()
+        }
     }
 }
 
-- 
2.43.0


From c0044a072304eec622726faf98213adffd3ad884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:14 +0000
Subject: [PATCH 09/14] fix: merge adjacent pieces after removing points from a
 selection

---
 src/selection.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/selection.rs b/src/selection.rs
index 9368290..8d34cbb 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -111,6 +111,12 @@ impl<T> Selection<T>
         Interval::full().into()
     }
 
+    // Constructs a `Selection` from the result of a tree operation, which may
+    // have inclusive bounds or pieces with nothing between them.
+    fn from_tree(tree: TineTree<T>) -> Self {
+        tree.into_iter().map(Interval::from).collect()
+    }
+
     // Bound accessors
     ////////////////////////////////////////////////////////////////////////////
 
@@ -552,7 +558,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn complement(&self) -> Self {
-        Self(self.0.complement())
+        Self::from_tree(self.0.complement())
     }
 
     /// Returns the `Selection` containing all points in both the given
@@ -595,7 +601,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn intersect(&self, other: &Self) -> Self {
-        Self(self.0.intersect(&other.0))
+        Self::from_tree(self.0.intersect(&other.0))
     }
 
     /// Returns the `Selection` containing all points in either of the given
@@ -662,7 +668,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn minus(&self, other: &Self) -> Self {
-        Self(self.0.minus(&other.0))
+        Self::from_tree(self.0.minus(&other.0))
     }
 
     /// Returns the smallest `Interval` containing all of the points in the 
@@ -760,6 +766,7 @@ impl<T> Selection<T>
     /// ```
     pub fn intersect_in_place(&mut self, interval: Interval<T>) {
         self.0.intersect_in_place(&interval.0.denormalized());
+        *self = Self::from_tree(std::mem::take(&mut self.0));
     }
 
     /// Adds all of the points in the given `Interval` to the `Selection`.
@@ -846,6 +853,7 @@ impl<T> Selection<T>
     /// ```
     pub fn minus_in_place(&mut self, interval: Interval<T>) {
         self.0.minus_in_place(&interval.0.denormalized());
+        *self = Self::from_tree(std::mem::take(&mut self.0));
     }
 
     ////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From a7bb3916ffe43292e6f22da1f1f07b660660a588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:14 +0000
Subject: [PATCH 10/14] fix: ignore pieces without points when testing
 selections for a shared point

---
 src/selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/selection.rs b/src/selection.rs
index 8d34cbb..452acb9 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -506,7 +506,7 @@ impl<T> Selection<T>
     #[must_use]
     pub fn intersects(&self, other: &Self) -> bool {
         // TODO: Make generic?
-        !self.0.intersect(&other.0).is_empty()
+        !self.intersect(other).is_empty()
     }
 
     // Symmetric set operations
-- 
2.43.0


From 54b461d96edc48e2e3aa10cb2fd8d3e51c7c9e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:14 +0000
Subject: [PATCH 11/14] fix: close a selection over its own points only

---
 src/selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/selection.rs b/src/selection.rs
index 452acb9..930d1c3 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -718,7 +718,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn closure(&self) -> Interval<T> {
-        Interval(self.0.closure().normalized())
+        Interval(self.0.enclose().normalized().closure())
     }
 
     // In-place operations
-- 
2.43.0


From 1f011f98d3daaeec8a7f0719bb21ccce3bfe7f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:14 +0000
Subject: [PATCH 12/14] fix: report a selection bounded when it is bounded on
 both sides

---
 src/selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/selection.rs b/src/selection.rs
index 930d1c3..1169185 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -374,7 +374,7 @@ impl<T> Selection<T>
     #[inline]
     #[must_use]
     pub fn is_bounded(&self) -> bool {
-        self.lower_bound().is_some() || self.upper_bound().is_some()
+        self.is_left_bounded() && self.is_right_bounded()
     }
 
     /// Returns `true` if the the `Selection` is left-bounded.
-- 
2.43.0


From 696515d2f95ffe0a280a7cf6f8c59e80329be58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:37 +0000
Subject: [PATCH 13/14] fix: iterate the points of a selection from both ends
 independently

---
 src/selection.rs | 53 +++++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/src/selection.rs b/src/selection.rs
index 1169185..b23ef81 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -881,7 +881,8 @@ impl<T> Selection<T>
     pub fn iter(&self) -> Iter<'_, T> {
         Iter {
             intervals: self.0.interval_iter(),
-            current: Interval::empty().iter(),
+            front: Interval::empty().iter(),
+            back: Interval::empty().iter(),
         }
     }
 }
@@ -895,7 +896,8 @@ impl<T> IntoIterator for Selection<T>
     fn into_iter(self) -> Self::IntoIter {
         IntoIter {
             intervals: self.0.into_iter(),
-            current: Interval::empty().iter(),
+            front: Interval::empty().iter(),
+            back: Interval::empty().iter(),
         }
     }
 }
@@ -909,7 +911,8 @@ impl<'a, T> IntoIterator for &'a Selection<T>
     fn into_iter(self) -> Self::IntoIter {
         Iter {
             intervals: self.0.interval_iter(),
-            current: Interval::empty().iter(),
+            front: Interval::empty().iter(),
+            back: Interval::empty().iter(),
         }
     }
 }
@@ -1064,8 +1067,10 @@ pub struct IntoIter<T>
 {
     /// The interval iterator of the `TineTree`.
     intervals: crate::tine_tree::IntoIter<T>,
-    /// The current interval.
-    current: crate::interval::Iter<T>,
+    /// The interval whose points are taken from the front.
+    front: crate::interval::Iter<T>,
+    /// The interval whose points are taken from the back.
+    back: crate::interval::Iter<T>,
 }
 
 impl<T> Iterator for IntoIter<T>
@@ -1074,20 +1079,20 @@ impl<T> Iterator for IntoIter<T>
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(next) = self.current.next() {
+        if let Some(next) = self.front.next() {
             return Some(next);
         }
 
-        self.current = match self.intervals
+        self.front = match self.intervals
             .next()
             .map(Normalize::normalized)
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            None           => return self.back.next(),
         };
 
-        self.current.next()
+        self.front.next()
     }
 }
 
@@ -1095,20 +1100,20 @@ impl<T> DoubleEndedIterator for IntoIter<T>
     where T: Ord + Clone + Finite,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if let Some(next_back) = self.current.next_back() {
+        if let Some(next_back) = self.back.next_back() {
             return Some(next_back);
         }
 
-        self.current = match self.intervals
+        self.back = match self.intervals
             .next_back()
             .map(Normalize::normalized)
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            None           => return self.front.next_back(),
         };
 
-        self.current.next_back()
+        self.back.next_back()
     }
 }
 
@@ -1126,8 +1131,10 @@ pub struct Iter<'t, T>
 {
     /// The interval iterator of the `TineTree`.
     intervals: crate::tine_tree::Iter<'t, T>,
-    /// The current interval.
-    current: crate::interval::Iter<T>,
+    /// The interval whose points are taken from the front.
+    front: crate::interval::Iter<T>,
+    /// The interval whose points are taken from the back.
+    back: crate::interval::Iter<T>,
 }
 
 impl<'t, T> Iterator for Iter<'t, T>
@@ -1136,20 +1143,20 @@ impl<'t, T> Iterator for Iter<'t, T>
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(next) = self.current.next() {
+        if let Some(next) = self.front.next() {
             return Some(next);
         }
 
-        self.current = match self.intervals
+        self.front = match self.intervals
             .next()
             .map(Normalize::normalized)
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            None           => return self.back.next(),
         };
 
-        self.current.next()
+        self.front.next()
     }
 }
 
@@ -1157,20 +1164,20 @@ impl<'t, T> DoubleEndedIterator for Iter<'t, T>
     where T: Ord + Clone + Finite,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if let Some(next_back) = self.current.next_back() {
+        if let Some(next_back) = self.back.next_back() {
             return Some(next_back);
         }
 
-        self.current = match self.intervals
+        self.back = match self.intervals
             .next_back()
             .map(Normalize::normalized)
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            None           => return self.front.next_back(),
         };
 
-        self.current.next_back()
+        self.back.next_back()
     }
 }
 
-- 
2.43.0


From 6924d9c82276bbe4b26693dcdabfb88895dcd793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 14/14] fix: deserialized intervals and selections are
 normalized

Deserialization filled in the fields as they came: an interval could hold open
bounds, and a tree any set of tines, so that equal values compared unequal and
set operations panicked.
---
 src/interval.rs  | 16 +++++++++++++++-
 src/selection.rs | 19 +++++++++++++++++--
 src/tine_tree.rs | 41 +++++++++++++++++++++++++++++++++++++++--
 3 files changed, 71 insertions(+), 5 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index 710df52..4885644 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -19,6 +19,7 @@ use crate::raw_interval::RawInterval;
 
 // External library imports.
 #[cfg(feature="serde")] use serde::Deserialize;
+#[cfg(feature="serde")] use serde::Deserializer;
 #[cfg(feature="serde")] use serde::Serialize;
 
 // Standard library imports.
@@ -45,10 +46,23 @@ use std::ops::Sub;
 /// [`Finite`]: ../normalize/trait.Finite.html
 #[repr(transparent)]
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
-#[cfg_attr(feature="serde", derive(Deserialize, Serialize))]
+#[cfg_attr(feature="serde", derive(Serialize))]
 #[cfg_attr(feature="serde", serde(transparent))]
 pub struct Interval<T>(pub (crate) RawInterval<T>);
 
+#[cfg(feature="serde")]
+impl<'de, T> Deserialize<'de> for Interval<T>
+    where
+        T: Ord + Clone + Deserialize<'de>,
+        RawInterval<T>: Normalize,
+{
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+        where D: Deserializer<'de>
+    {
+        RawInterval::deserialize(deserializer).map(Self::from)
+    }
+}
+
 impl<T> Default for Interval<T>
     where
         T: Ord + Clone,
diff --git a/src/selection.rs b/src/selection.rs
index b23ef81..d0ef9c8 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -21,6 +21,7 @@ use crate::tine_tree::TineTree;
 
 // External library imports.
 #[cfg(feature="serde")] use serde::Deserialize;
+#[cfg(feature="serde")] use serde::Deserializer;
 #[cfg(feature="serde")] use serde::Serialize;
 
 // Standard library imports.
@@ -35,12 +36,26 @@ use std::iter::FusedIterator;
 /// A possibly noncontiguous collection of `Interval`s of the type `T`.
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
 #[repr(transparent)]
-#[cfg_attr(feature="serde", derive(Deserialize, Serialize))]
+#[cfg_attr(feature="serde", derive(Serialize))]
 #[cfg_attr(feature="serde", serde(transparent))]
 #[cfg_attr(feature="serde", 
-    serde(bound="for<'a> T: Ord + Serialize + Deserialize<'a> + Clone + 'a"))]
+    serde(bound="T: Ord + Serialize + Clone"))]
 pub struct Selection<T>(TineTree<T>);
 
+#[cfg(feature="serde")]
+impl<'de, T> Deserialize<'de> for Selection<T>
+    where
+        T: Ord + Clone + Deserialize<'de>,
+        RawInterval<T>: Normalize,
+{
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+        where D: Deserializer<'de>
+    {
+        let tree = TineTree::deserialize(deserializer)?;
+        Ok(tree.into_iter().map(Interval::from).collect())
+    }
+}
+
 impl<T> Default for Selection<T> 
     where
         T: Ord + Clone,
diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index 84ae7b2..ce32456 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -19,6 +19,8 @@ use crate::tine::Tine;
 
 // External library imports.
 #[cfg(feature="serde")] use serde::Deserialize;
+#[cfg(feature="serde")] use serde::Deserializer;
+#[cfg(feature="serde")] use serde::de::Error;
 #[cfg(feature="serde")] use serde::Serialize;
 use few::Few;
 
@@ -45,12 +47,47 @@ use std::iter::FromIterator;
 ///
 #[repr(transparent)]
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
-#[cfg_attr(feature="serde", derive(Deserialize, Serialize))]
+#[cfg_attr(feature="serde", derive(Serialize))]
 #[cfg_attr(feature="serde", serde(transparent))]
 #[cfg_attr(feature="serde", 
-    serde(bound="for<'a> T: Ord + Serialize + Deserialize<'a> + Clone + 'a"))]
+    serde(bound="T: Ord + Serialize + Clone"))]
 pub struct TineTree<T>(BTreeSet<Tine<T>>);
 
+#[cfg(feature="serde")]
+impl<'de, T> Deserialize<'de> for TineTree<T>
+    where T: Ord + Clone + Deserialize<'de>
+{
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+        where D: Deserializer<'de>
+    {
+        // Tines that do not come from a tree have no particular order and need
+        // not enclose anything, so the tree is rebuilt from the intervals
+        // between them.
+        let mut tree = Self::new();
+        let mut lower: Option<Bound<T>> = None;
+        for tine in Vec::<Tine<T>>::deserialize(deserializer)? {
+            match (lower.take(), tine) {
+                (None, Tine::Lower(l)) => lower = Some(l),
+                (None, Tine::Point(Bound::Include(p))) => {
+                    tree.union_in_place(&RawInterval::Point(p));
+                },
+                (Some(l), Tine::Point(Bound::Exclude(p))) => {
+                    tree.union_in_place(&RawInterval::new(l, Bound::Exclude(p.clone())));
+                    lower = Some(Bound::Exclude(p));
+                },
+                (Some(l), Tine::Upper(u)) => {
+                    tree.union_in_place(&RawInterval::new(l, u));
+                },
+                _ => return Err(D::Error::custom("unexpected tine")),
+            }
+        }
+        match lower {
+            None    => Ok(tree),
+            Some(_) => Err(D::Error::custom("unclosed tine")),
+        }
+    }
+}
+
 impl<T> TineTree<T> where T: Ord + Clone {
     ////////////////////////////////////////////////////////////////////////////
     // Constructors
-- 
2.43.0

