From fd9d1e243052193ae1984f1ce0d0723d5e712bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:18 +0000
Subject: [PATCH 01/16] fix: normalize single values to Point and empty ranges
 to Empty

---
 src/normalize.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index dd0cdaf..d7cd7ab 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -77,24 +77,26 @@ pub trait Normalize {
 // }
 
 /// Specialization for [`Finite`] intervals.
-impl<T> Normalize for RawInterval<T> where T: Finite {
+impl<T> Normalize for RawInterval<T> where T: Finite + Ord {
     fn normalize(&mut self) {
         use RawInterval::*;
+        // NOTE: The `closed` constructor provides the `Point` and `Empty` forms
+        // for any single points and out of order bounds.
         *self = match std::mem::replace(self, Empty) {
             Empty           => Empty,
             Point(p)        => Point(p),
             Open(l, r)      => match (l.succ(), r.pred()) {
-                (Some(l), Some(r)) => Closed(l, r),
+                (Some(l), Some(r)) => Self::closed(l, r),
                 _                  => Empty,
             },
-            LeftOpen(l, r)  => l.succ().map_or(Empty, |l| Closed(l, r)),
-            RightOpen(l, r) => r.pred().map_or(Empty, |r| Closed(l, r)),
-            Closed(l, r)    => Closed(l, r),
-            UpTo(r)         => r.pred().map_or(Empty, |r| Closed(T::MINIMUM, r)),
-            UpFrom(l)       => l.succ().map_or(Empty, |l| Closed(l, T::MAXIMUM)),
-            To(p)           => Closed(T::MINIMUM, p),
-            From(p)         => Closed(p, T::MAXIMUM),
-            Full            => Closed(T::MINIMUM, T::MAXIMUM),
+            LeftOpen(l, r)  => l.succ().map_or(Empty, |l| Self::closed(l, r)),
+            RightOpen(l, r) => r.pred().map_or(Empty, |r| Self::closed(l, r)),
+            Closed(l, r)    => Self::closed(l, r),
+            UpTo(r)         => r.pred().map_or(Empty, |r| Self::closed(T::MINIMUM, r)),
+            UpFrom(l)       => l.succ().map_or(Empty, |l| Self::closed(l, T::MAXIMUM)),
+            To(p)           => Self::closed(T::MINIMUM, p),
+            From(p)         => Self::closed(p, T::MAXIMUM),
+            Full            => Self::closed(T::MINIMUM, T::MAXIMUM),
         }
     }
 
-- 
2.43.0


From aaccc01c0bf6af2b1998a9a2f2e4a7a6c66a5ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:18 +0000
Subject: [PATCH 02/16] fix: denormalize half-unbounded intervals outward

---
 src/normalize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index d7cd7ab..290100f 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -127,8 +127,8 @@ impl<T> Normalize for RawInterval<T> where T: Finite + Ord {
             },
             UpTo(r)         => UpTo(r),
             UpFrom(l)       => UpFrom(l),
-            To(p)           => p.pred().map_or(Empty, |r| UpTo(r)),
-            From(p)         => p.succ().map_or(Empty, |l| UpFrom(l)),
+            To(p)           => p.succ().map_or(Full, |r| UpTo(r)),
+            From(p)         => p.pred().map_or(Full, |l| UpFrom(l)),
             Full            => Full,
         }
     }
-- 
2.43.0


From 052b6c4ce0d51916cf44af7b8cb77307b662c328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:18 +0000
Subject: [PATCH 03/16] fix: enclose_all encloses only the given intervals

---
 src/raw_interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raw_interval.rs b/src/raw_interval.rs
index f0d71c1..768a693 100644
--- a/src/raw_interval.rs
+++ b/src/raw_interval.rs
@@ -392,7 +392,7 @@ impl<T> RawInterval<T> where T: Ord + Clone {
     pub fn enclose_all<I>(intervals: I) -> Self
         where I: Iterator<Item=Self>
     {
-        intervals.fold(Self::Full, |acc, i| acc.enclose(&i))
+        intervals.fold(Self::Empty, |acc, i| acc.enclose(&i))
     }
 
     /// Returns the intersection of all of the given intervals.
-- 
2.43.0


From 1dc5ecef108b1e2820a194126aea0a52582f528e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:18 +0000
Subject: [PATCH 04/16] fix: reject text around empty and infinite interval
 notation

---
 src/raw_interval.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/raw_interval.rs b/src/raw_interval.rs
index 768a693..3273850 100644
--- a/src/raw_interval.rs
+++ b/src/raw_interval.rs
@@ -462,14 +462,14 @@ impl<T> FromStr for RawInterval<T> where T: Ord + FromStr {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         use RawInterval::*;
         // Parse empty interval.
-        if s.starts_with("Ø") { return Ok(Empty); }
+        if s == "Ø" { return Ok(Empty); }
         // Parse point interval.
         if let Ok(p) = T::from_str(s) { return Ok(Point(p)); }
 
         let (x, y) = s.split_once(',')
             .ok_or(IntervalParseError::InvalidInterval)?;
 
-        let lb = if x.starts_with("(-∞") { 
+        let lb = if x == "(-∞" { 
             Bound::Infinite
         } else if let Some(res) = x.strip_prefix('(') {
             Bound::Exclude(T::from_str(res)
@@ -481,7 +481,7 @@ impl<T> FromStr for RawInterval<T> where T: Ord + FromStr {
             return Err(IntervalParseError::InvalidInterval);
         };
 
-        let ub = if y.ends_with("∞)") { 
+        let ub = if y == "∞)" { 
             Bound::Infinite
         } else if y.ends_with(')') {
             let end = y.len() - 1;
-- 
2.43.0


From ab6a62d01c370d67852f7118030864543f68ec7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 05/16] fix: convert an empty Range to an empty Interval

---
 src/interval.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/interval.rs b/src/interval.rs
index dc00dbc..1f4bf51 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -1726,7 +1726,9 @@ impl<T> From<Range<T>> for Interval<T>
         RawInterval<T>: Normalize,
 {
     fn from(r: Range<T>) -> Self {
-        Self(RawInterval::right_open(r.start, r.end).normalized())
+        // NOTE: The `right_open` constructor gives a point if the ends are equal,
+        // but such a `Range` is empty.
+        Self(RawInterval::RightOpen(r.start, r.end).normalized())
     }
 }
 
-- 
2.43.0


From 086897cdbcf84da5053d2085aa59e478e34f7cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 06/16] fix: intersect an included bound Tine with an excluded
 point

---
 src/tine.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tine.rs b/src/tine.rs
index a4db9d1..c1faee5 100644
--- a/src/tine.rs
+++ b/src/tine.rs
@@ -182,6 +182,7 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Lower(lb),         &Lower(_))          => Some(Lower(lb)),
 
             (Lower(Include(l)), &Point(Include(_))) => Some(Point(Include(l))),
+            (Lower(Include(l)), &Point(Exclude(_))) => Some(Lower(Exclude(l))),
             (Lower(Exclude(l)), &Point(Exclude(_))) => Some(Lower(Exclude(l))),
             (Lower(_),          &Point(_))          => None,
 
@@ -202,6 +203,7 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Upper(_),          &Lower(_))          => None,
 
             (Upper(Include(l)), &Point(Include(_))) => Some(Point(Include(l))),
+            (Upper(Include(l)), &Point(Exclude(_))) => Some(Upper(Exclude(l))),
             (Upper(Exclude(l)), &Point(Exclude(_))) => Some(Upper(Exclude(l))),
             (Upper(_),          &Point(_))          => None,
 
-- 
2.43.0


From 74cdf5b5df1333e7e0753b8ad8d946cd1e6df28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 07/16] fix: subtract point and bound Tines exactly

---
 src/tine.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tine.rs b/src/tine.rs
index c1faee5..f8d522e 100644
--- a/src/tine.rs
+++ b/src/tine.rs
@@ -228,6 +228,8 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Lower(_),          &Lower(_))          => None,
 
             (Lower(Include(l)), &Point(Include(_))) => Some(Lower(Exclude(l))),
+            (Lower(Include(l)), &Point(Exclude(_))) => Some(Point(Include(l))),
+            (Lower(Exclude(l)), &Point(Include(_))) => Some(Lower(Exclude(l))),
             (Lower(_),          &Point(_))          => None,
 
             (Lower(Include(l)), &Upper(Include(_))) => Some(Lower(Exclude(l))),
@@ -240,10 +242,10 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Point(Include(_)), &Upper(Include(_))) => None,
             (Point(Include(l)), _)                  => Some(Point(Include(l))),
 
-            (Point(Exclude(l)), &Lower(_))          => Some(Lower(Exclude(l))),
+            (Point(Exclude(l)), &Lower(_))          => Some(Upper(Exclude(l))),
             (Point(Exclude(l)), &Point(Include(_))) => Some(Point(Exclude(l))),
             (Point(Exclude(_)), &Point(Exclude(_))) => None,
-            (Point(Exclude(l)), &Upper(_))          => Some(Upper(Exclude(l))),
+            (Point(Exclude(l)), &Upper(_))          => Some(Lower(Exclude(l))),
 
             (Upper(Include(l)), &Lower(Include(_))) => Some(Upper(Exclude(l))),
             (Upper(Include(l)), &Lower(Exclude(_))) => Some(Upper(Include(l))),
@@ -251,6 +253,8 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Upper(Exclude(l)), &Lower(Exclude(_))) => Some(Upper(Exclude(l))),
 
             (Upper(Include(l)), &Point(Include(_))) => Some(Upper(Exclude(l))),
+            (Upper(Include(l)), &Point(Exclude(_))) => Some(Point(Include(l))),
+            (Upper(Exclude(l)), &Point(Include(_))) => Some(Upper(Exclude(l))),
             (Upper(_),          &Point(_))          => None,
 
             (Upper(Include(l)), &Upper(Exclude(_))) => Some(Point(Include(l))),
-- 
2.43.0


From 8af4515173df16ee723239eef05b1761540078ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:16 +0000
Subject: [PATCH 08/16] fix: intersect interval trees with partially
 overlapping intervals

---
 src/tine_tree.rs | 88 +++++++-----------------------------------------
 1 file changed, 13 insertions(+), 75 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index adc129b..03eec65 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -323,31 +323,8 @@ impl<T> TineTree<T> where T: Ord + Clone {
     fn intersect_proper_interval(&mut self, l: Tine<T>, u: Tine<T>) {
         let mut ts = self.interior_split_for_proper_interval(&l, &u);
 
-        // Merge tines if overlap or use given ones. We should only have `None`
-        // in the case of a intersection annhiliation.
-        let merged_l = if ts[2].is_some() {
-            ts[2].take().and_then(|lower| lower.intersect(&l))
-        } else {
-            Some(l)
-        };
-
-        let merged_u = if ts[3].is_some() {
-            ts[3].take().and_then(|upper| upper.intersect(&u))
-        } else {
-            Some(u)
-        };
-        
-        // Ensure inner tines have the correct bounds.
-        debug_assert!(merged_l
-            .as_ref()
-            .map_or(true, Tine::is_lower_bound));
-        debug_assert!(merged_u
-            .as_ref()
-            .map_or(true, Tine::is_upper_bound));
-
-        
         // We need to detect whether the point is inside or outside an interval.
-        // To do this, we look at the tines inside and outside the interval.
+        // To do this, we look at the tines outside the interval.
         let open_before = ts[0]
             .as_ref()
             .is_some_and(Tine::is_lower_bound);
@@ -355,59 +332,20 @@ impl<T> TineTree<T> where T: Ord + Clone {
             .as_ref()
             .is_some_and(Tine::is_upper_bound);
 
-        let in_l = ts[1]
-            .as_ref()
-            .is_some_and(Tine::is_upper_bound);
-        let in_r = ts[4]
-            .as_ref()
-            .is_some_and(Tine::is_lower_bound);
+        // Merge tines if overlap or use given ones if they are wrapped by a
+        // surrounding interval. The tines in the center remain unchanged.
+        let merged_l = match ts[2].take() {
+            Some(lower) => lower.intersect(&l),
+            None        => open_before.then_some(l),
+        };
 
+        let merged_u = match ts[3].take() {
+            Some(upper) => upper.intersect(&u),
+            None        => closed_after.then_some(u),
+        };
 
-        // Insert tines into the tree, ignoring them if the are not wrapped by a
-        // surrounding interval, or not wrapping a surrounding interval.
-        match (open_before, merged_l, in_l, in_r, merged_u, closed_after) {
-            (_,     Some(l), true,  true,  Some(u), _   )  |
-            (_,     Some(l), false, false, Some(u), _   )  => {
-                // (   ) (   )
-                //   (     )
-                //     O R
-                // (     )
-                //   ( )
-                //     O R
-                // (     )
-                // (  )
-                //     O R
-                // (     )
-                //    (  )
-                self.0.insert(l);
-                self.0.insert(u);
-            },
-            (true, Some(l),  true,  false, _,       false) => {
-                // (   )
-                //   (   )
-                //     O R
-                // (   ) ( )
-                //   (   )
-                self.0.insert(l);
-            },
-            (false, _,       false, true,  Some(u), true)  => {
-                //   (   )
-                // (   )
-                //     O R
-                // ( ) (   )
-                //   (   )
-                self.0.insert(u);
-            },
-            (false, _,       false, false, _,       false) => {
-                // )     (
-                // (     )
-                //     O R
-                //   ( )
-                // (     )
-                /* Do nothing. */
-            },
-            _ => unreachable!("invalid bounds for intersection interval"),
-        }
+        if let Some(l) = merged_l { self.0.insert(l); }
+        if let Some(u) = merged_u { self.0.insert(u); }
     }
 
     /// Unions the given interval with the contents of the tree.
-- 
2.43.0


From 7547a62bae2ad7e714576c8971341841476496a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:04 +0000
Subject: [PATCH 09/16] fix: intersect every pair of intervals of two trees

---
 src/tine_tree.rs | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index 03eec65..6de2a19 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -181,23 +181,10 @@ impl<T> TineTree<T> where T: Ord + Clone {
     #[must_use]
     pub fn intersect(&self, other: &Self) -> Self {
         let mut intersection = Self::new();
-        let self_intervals = self.interval_iter();
-        let mut other_intervals = other.interval_iter();
-
-        for self_interval in self_intervals {
-            'segment: loop {
-                if let Some(other_interval) = other_intervals.next() {
-                    let i = self_interval.intersect(&other_interval);
-                    if i.is_empty() {
-                        // Nothing else overlaps in this segment.
-                        break 'segment;
-                    }
-
-                    intersection.union_in_place(&i);
-                } else {
-                    // Nothing else overlaps anywhere.
-                    return intersection;
-                }
+        for self_interval in self.interval_iter() {
+            for other_interval in other.interval_iter() {
+                let i = self_interval.intersect(&other_interval);
+                intersection.union_in_place(&i);
             }
         }
         intersection
-- 
2.43.0


From b880cdf037ae876f440d78b50b0d4a8733460d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:47 +0000
Subject: [PATCH 10/16] fix: share an excluded point between both ends of the
 tree iterators

---
 src/tine_tree.rs | 64 +++++++++++++++++++++++++++---------------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index 6de2a19..535241b 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -958,13 +958,15 @@ impl<T> Iterator for IntoIter<T> where T: Ord + Clone {
                     // Next tine must be a lower bound of an interval.
                     debug_assert!(lower.is_lower_bound());
 
-                    let upper = self.inner.next()
-                        .or_else(|| self.saved_upper.take())
-                        .expect("interval is not partial");
-
-                    if upper.is_point_exclude() {
-                        self.saved_lower = Some(upper.clone());
-                    }
+                    // A tine saved by the other end is not shared again.
+                    let upper = if let Some(upper) = self.inner.next() {
+                        if upper.is_point_exclude() {
+                            self.saved_lower = Some(upper.clone());
+                        }
+                        upper
+                    } else {
+                        self.saved_upper.take().expect("interval is not partial")
+                    };
 
                     // ... and the next tine after must be an upper bound.
                     debug_assert!(upper.is_upper_bound());
@@ -994,13 +996,15 @@ impl<T> DoubleEndedIterator for IntoIter<T>
                     // Next tine must be an upper bound of an interval.
                     debug_assert!(upper.is_upper_bound());
 
-                    let lower = self.inner.next_back()
-                        .or_else(|| self.saved_lower.take())
-                        .expect("interval is not partial");
-
-                    if lower.is_point_exclude() {
-                        self.saved_lower = Some(lower.clone());
-                    }
+                    // A tine saved by the other end is not shared again.
+                    let lower = if let Some(lower) = self.inner.next_back() {
+                        if lower.is_point_exclude() {
+                            self.saved_upper = Some(lower.clone());
+                        }
+                        lower
+                    } else {
+                        self.saved_lower.take().expect("interval is not partial")
+                    };
 
                     // ... and the next tine after must be a lower bound.
                     debug_assert!(lower.is_lower_bound());
@@ -1047,13 +1051,15 @@ impl<'t, T> Iterator for Iter<'t, T>
                     // Next tine must be a lower bound of an interval.
                     debug_assert!(lower.is_lower_bound());
 
-                    let upper = self.tine_iter.next().cloned()
-                        .or_else(|| self.saved_upper.take())
-                        .expect("interval is not partial");
-
-                    if upper.is_point_exclude() {
-                        self.saved_lower = Some(upper.clone());
-                    }
+                    // A tine saved by the other end is not shared again.
+                    let upper = if let Some(upper) = self.tine_iter.next().cloned() {
+                        if upper.is_point_exclude() {
+                            self.saved_lower = Some(upper.clone());
+                        }
+                        upper
+                    } else {
+                        self.saved_upper.take().expect("interval is not partial")
+                    };
 
                     // ... and the next tine after must be an upper bound.
                     debug_assert!(upper.is_upper_bound());
@@ -1084,13 +1090,15 @@ impl<'t, T> DoubleEndedIterator for Iter<'t, T>
                     // Next tine must be an upper bound of an interval.
                     debug_assert!(upper.is_upper_bound());
 
-                    let lower = self.tine_iter.next_back().cloned()
-                        .or_else(|| self.saved_lower.take())
-                        .expect("interval is not partial");
-
-                    if lower.is_point_exclude() {
-                        self.saved_lower = Some(lower.clone());
-                    }
+                    // A tine saved by the other end is not shared again.
+                    let lower = if let Some(lower) = self.tine_iter.next_back().cloned() {
+                        if lower.is_point_exclude() {
+                            self.saved_upper = Some(lower.clone());
+                        }
+                        lower
+                    } else {
+                        self.saved_lower.take().expect("interval is not partial")
+                    };
 
                     // ... and the next tine after must be a lower bound.
                     debug_assert!(lower.is_lower_bound());
-- 
2.43.0


From 9ab1b2f719a81447b0a7b2164fb1baaaf8ff8a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:56 +0000
Subject: [PATCH 11/16] fix: leave an already excluded point alone when it is
 subtracted

---
 src/tine_tree.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index 535241b..90f65e8 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -583,13 +583,14 @@ impl<T> TineTree<T> where T: Ord + Clone {
 
         // Insert tine into the tree, ignoring it if it is wrapped by a
         // surrounding interval.
-        // NOTE: We cannot have a Point(Exclude) here, because those will never
-        // result from an interval-tine conversion.
         match (open_before, closed_after) {
             (true,  true)  => {
                 // (   )
                 //   |
-                self.0.insert(p.invert());
+                //     O R
+                // ( ) ( )
+                //    |
+                self.0.insert(if p.is_point_exclude() {p} else {p.invert()});
             },
             (true,  false) => {
                 // ( )   ( )
-- 
2.43.0


From 9318015759d6a4377fc0a35ada34aeb329705045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:13 +0000
Subject: [PATCH 12/16] fix: keep the intervals of a Selection denormalized and
 nonempty

---
 src/selection.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/selection.rs b/src/selection.rs
index 9368290..11a120d 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -111,6 +111,14 @@ impl<T> Selection<T>
         Interval::full().into()
     }
 
+    /// Constructs a `Selection` from the result of a `TineTree` operation,
+    /// which may have intervals that are not denormalized or have no points.
+    fn from_tree(tree: TineTree<T>) -> Self {
+        tree.into_iter()
+            .map(Interval::from)
+            .collect()
+    }
+
     // Bound accessors
     ////////////////////////////////////////////////////////////////////////////
 
@@ -500,7 +508,7 @@ impl<T> Selection<T>
     #[must_use]
     pub fn intersects(&self, other: &Self) -> bool {
         // TODO: Make generic?
-        !self.0.intersect(&other.0).is_empty()
+        !self.intersect(other).is_empty()
     }
 
     // Symmetric set operations
@@ -552,7 +560,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn complement(&self) -> Self {
-        Self(self.0.complement())
+        Self::from_tree(self.0.complement())
     }
 
     /// Returns the `Selection` containing all points in both the given
@@ -595,7 +603,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn intersect(&self, other: &Self) -> Self {
-        Self(self.0.intersect(&other.0))
+        Self::from_tree(self.0.intersect(&other.0))
     }
 
     /// Returns the `Selection` containing all points in either of the given
@@ -662,7 +670,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn minus(&self, other: &Self) -> Self {
-        Self(self.0.minus(&other.0))
+        Self::from_tree(self.0.minus(&other.0))
     }
 
     /// Returns the smallest `Interval` containing all of the points in the 
@@ -760,6 +768,7 @@ impl<T> Selection<T>
     /// ```
     pub fn intersect_in_place(&mut self, interval: Interval<T>) {
         self.0.intersect_in_place(&interval.0.denormalized());
+        *self = Self::from_tree(std::mem::take(&mut self.0));
     }
 
     /// Adds all of the points in the given `Interval` to the `Selection`.
@@ -846,6 +855,7 @@ impl<T> Selection<T>
     /// ```
     pub fn minus_in_place(&mut self, interval: Interval<T>) {
         self.0.minus_in_place(&interval.0.denormalized());
+        *self = Self::from_tree(std::mem::take(&mut self.0));
     }
 
     ////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From fe67ab1c23501e2aa30b4cf6f23cd90929d390ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:13 +0000
Subject: [PATCH 13/16] fix: close a Selection over the points it contains

---
 src/selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/selection.rs b/src/selection.rs
index 11a120d..8dc5076 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -720,7 +720,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn closure(&self) -> Interval<T> {
-        Interval(self.0.closure().normalized())
+        self.enclose().closure()
     }
 
     // In-place operations
-- 
2.43.0


From abbd9ccc576b8a2f5ce230ddcb8ff99ef42ddc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:13 +0000
Subject: [PATCH 14/16] fix: report an empty Selection as bounded

---
 src/selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/selection.rs b/src/selection.rs
index 8dc5076..3fe07d3 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -376,7 +376,7 @@ impl<T> Selection<T>
     #[inline]
     #[must_use]
     pub fn is_bounded(&self) -> bool {
-        self.lower_bound().is_some() || self.upper_bound().is_some()
+        self.is_left_bounded() && self.is_right_bounded()
     }
 
     /// Returns `true` if the the `Selection` is left-bounded.
-- 
2.43.0


From 9da1101e5524fc38e6ddf88678f4340802a3554d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:14 +0000
Subject: [PATCH 15/16] fix: iterate over the values of a Selection from both
 ends independently

---
 src/selection.rs | 53 +++++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/src/selection.rs b/src/selection.rs
index 3fe07d3..4da6f11 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -883,7 +883,8 @@ impl<T> Selection<T>
     pub fn iter(&self) -> Iter<'_, T> {
         Iter {
             intervals: self.0.interval_iter(),
-            current: Interval::empty().iter(),
+            front: Interval::empty().iter(),
+            back: Interval::empty().iter(),
         }
     }
 }
@@ -897,7 +898,8 @@ impl<T> IntoIterator for Selection<T>
     fn into_iter(self) -> Self::IntoIter {
         IntoIter {
             intervals: self.0.into_iter(),
-            current: Interval::empty().iter(),
+            front: Interval::empty().iter(),
+            back: Interval::empty().iter(),
         }
     }
 }
@@ -911,7 +913,8 @@ impl<'a, T> IntoIterator for &'a Selection<T>
     fn into_iter(self) -> Self::IntoIter {
         Iter {
             intervals: self.0.interval_iter(),
-            current: Interval::empty().iter(),
+            front: Interval::empty().iter(),
+            back: Interval::empty().iter(),
         }
     }
 }
@@ -1066,8 +1069,10 @@ pub struct IntoIter<T>
 {
     /// The interval iterator of the `TineTree`.
     intervals: crate::tine_tree::IntoIter<T>,
-    /// The current interval.
-    current: crate::interval::Iter<T>,
+    /// The current interval of the front end.
+    front: crate::interval::Iter<T>,
+    /// The current interval of the back end.
+    back: crate::interval::Iter<T>,
 }
 
 impl<T> Iterator for IntoIter<T>
@@ -1076,20 +1081,20 @@ impl<T> Iterator for IntoIter<T>
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(next) = self.current.next() {
+        if let Some(next) = self.front.next() {
             return Some(next);
         }
 
-        self.current = match self.intervals
+        self.front = match self.intervals
             .next()
             .map(Normalize::normalized)
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            None           => return self.back.next(),
         };
 
-        self.current.next()
+        self.front.next()
     }
 }
 
@@ -1097,20 +1102,20 @@ impl<T> DoubleEndedIterator for IntoIter<T>
     where T: Ord + Clone + Finite,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if let Some(next_back) = self.current.next_back() {
+        if let Some(next_back) = self.back.next_back() {
             return Some(next_back);
         }
 
-        self.current = match self.intervals
+        self.back = match self.intervals
             .next_back()
             .map(Normalize::normalized)
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            None           => return self.front.next_back(),
         };
 
-        self.current.next_back()
+        self.back.next_back()
     }
 }
 
@@ -1128,8 +1133,10 @@ pub struct Iter<'t, T>
 {
     /// The interval iterator of the `TineTree`.
     intervals: crate::tine_tree::Iter<'t, T>,
-    /// The current interval.
-    current: crate::interval::Iter<T>,
+    /// The current interval of the front end.
+    front: crate::interval::Iter<T>,
+    /// The current interval of the back end.
+    back: crate::interval::Iter<T>,
 }
 
 impl<'t, T> Iterator for Iter<'t, T>
@@ -1138,20 +1145,20 @@ impl<'t, T> Iterator for Iter<'t, T>
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(next) = self.current.next() {
+        if let Some(next) = self.front.next() {
             return Some(next);
         }
 
-        self.current = match self.intervals
+        self.front = match self.intervals
             .next()
             .map(Normalize::normalized)
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            None           => return self.back.next(),
         };
 
-        self.current.next()
+        self.front.next()
     }
 }
 
@@ -1159,20 +1166,20 @@ impl<'t, T> DoubleEndedIterator for Iter<'t, T>
     where T: Ord + Clone + Finite,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if let Some(next_back) = self.current.next_back() {
+        if let Some(next_back) = self.back.next_back() {
             return Some(next_back);
         }
 
-        self.current = match self.intervals
+        self.back = match self.intervals
             .next_back()
             .map(Normalize::normalized)
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            None           => return self.front.next_back(),
         };
 
-        self.current.next_back()
+        self.back.next_back()
     }
 }
 
-- 
2.43.0


From 34ccd327c8671b0f1700764bd64277e22b139661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:16 +0000
Subject: [PATCH 16/16] fix: normalize Intervals read with serde

---
 src/interval.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/interval.rs b/src/interval.rs
index 1f4bf51..e0a0318 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -45,7 +45,7 @@ use std::ops::Sub;
 /// [`Finite`]: ../normalize/trait.Finite.html
 #[repr(transparent)]
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
-#[cfg_attr(feature="serde", derive(Deserialize, Serialize))]
+#[cfg_attr(feature="serde", derive(Serialize))]
 #[cfg_attr(feature="serde", serde(transparent))]
 pub struct Interval<T>(pub (crate) RawInterval<T>);
 
@@ -59,6 +59,19 @@ impl<T> Default for Interval<T>
     }
 }
 
+#[cfg(feature="serde")]
+impl<'de, T> Deserialize<'de> for Interval<T>
+    where
+        T: Ord + Clone + Deserialize<'de>,
+        RawInterval<T>: Normalize,
+{
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+        where D: serde::Deserializer<'de>
+    {
+        RawInterval::deserialize(deserializer).map(Self::from)
+    }
+}
+
 // All mutable operations and constructors on `Interval` must ensure that the
 // interval is normalized before returning.
 impl<T> Interval<T> 
-- 
2.43.0

