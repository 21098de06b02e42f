From 7341d377ec2c41273d7aceaeb4a0dc9f73bfd0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:21 +0000
Subject: [PATCH 01/14] fix: multicubic interpn reports mismatched dimension
 counts as an error

The regular and rectilinear cubic interpn functions converted starts, steps and
obs to fixed-size arrays without checking their lengths first, so a mismatched
call panicked instead of returning Err like the multilinear ones.
---
 src/multicubic/rectilinear.rs | 3 +++
 src/multicubic/regular.rs     | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/multicubic/rectilinear.rs b/src/multicubic/rectilinear.rs
index 3350e56..2faeaa7 100644
--- a/src/multicubic/rectilinear.rs
+++ b/src/multicubic/rectilinear.rs
@@ -62,6 +62,9 @@ pub fn interpn<T: Float>(
     // gives a substantial speedup for lower dimensionalities
     // (4-5x speedup for 1-dim compared to using N=8)
     let ndims = grids.len();
+    if obs.len() != ndims {
+        return Err("Dimension mismatch");
+    }
     match ndims {
         1 => MulticubicRectilinear::<'_, T, 1>::new(
             grids.try_into().unwrap(),
diff --git a/src/multicubic/regular.rs b/src/multicubic/regular.rs
index b4807fb..1aac2f0 100644
--- a/src/multicubic/regular.rs
+++ b/src/multicubic/regular.rs
@@ -62,6 +62,10 @@ pub fn interpn<T: Float>(
     // gives a substantial speedup for lower dimensionalities
     // (4-5x speedup for 1-dim compared to using N=8)
     let ndims = dims.len();
+    if starts.len() != ndims || steps.len() != ndims || obs.len() != ndims {
+        return Err("Dimension mismatch");
+    }
+
     match ndims {
         1 => MulticubicRegular::<'_, T, 1>::new(
             dims.try_into().unwrap(),
-- 
2.43.0


From beb30274117b71f8aa237553f364625bdbccdd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:21 +0000
Subject: [PATCH 02/14] fix: cubic regular cell index no longer overflows at
 the lowest representable cell

A coordinate whose cell number is exactly isize::MIN is representable, but
subtracting one from it overflowed (a panic, since overflow checks are on).
---
 src/multicubic/regular.rs           | 4 +++-
 src/multicubic/regular_recursive.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/multicubic/regular.rs b/src/multicubic/regular.rs
index 1aac2f0..d9d6cee 100644
--- a/src/multicubic/regular.rs
+++ b/src/multicubic/regular.rs
@@ -439,7 +439,9 @@ impl<'a, T: Float, const N: usize> MulticubicRegular<'a, T, N> {
         let floc = ((v - self.starts[dim]) / self.steps[dim]).floor(); // float loc
         // Signed integer loc, with the bottom of the cell aligned to place the normalized
         // coordinate t=0 at cell index 1
-        let iloc = <isize as NumCast>::from(floc).ok_or("Unrepresentable coordinate value")? - 1;
+        let iloc = <isize as NumCast>::from(floc)
+            .ok_or("Unrepresentable coordinate value")?
+            .saturating_sub(1);
 
         let n = self.dims[dim] as isize; // Number of grid points on this dimension
         let dimmax = n.saturating_sub(4).max(0); // maximum index for lower corner
diff --git a/src/multicubic/regular_recursive.rs b/src/multicubic/regular_recursive.rs
index 332ffdb..018eccd 100644
--- a/src/multicubic/regular_recursive.rs
+++ b/src/multicubic/regular_recursive.rs
@@ -389,7 +389,9 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRegularRecursive<'a, T, MAXDI
         let floc = ((v - self.starts[dim]) / self.steps[dim]).floor(); // float loc
         // Signed integer loc, with the bottom of the cell aligned to place the normalized
         // coordinate t=0 at cell index 1
-        let iloc = <isize as NumCast>::from(floc).ok_or("Unrepresentable coordinate value")? - 1;
+        let iloc = <isize as NumCast>::from(floc)
+            .ok_or("Unrepresentable coordinate value")?
+            .saturating_sub(1);
 
         let n = self.dims[dim] as isize; // Number of grid points on this dimension
         let dimmax = n.saturating_sub(4).max(0); // maximum index for lower corner
-- 
2.43.0


From 6c1ff27e5c1f92dd90884faa83f3b6da6b79fc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:21 +0000
Subject: [PATCH 03/14] fix: RegularGrid1D::new rejects grids with fewer than
 two values

With no values the constructor itself underflowed, and with one value every
evaluation did; the rectilinear grid already rejects both.
---
 src/one_dim/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/one_dim/mod.rs b/src/one_dim/mod.rs
index 9a35f94..1249d77 100644
--- a/src/one_dim/mod.rs
+++ b/src/one_dim/mod.rs
@@ -84,6 +84,9 @@ pub struct RegularGrid1D<'a, T: Float> {
 
 impl<'a, T: Float> RegularGrid1D<'a, T> {
     pub fn new(start: T, step: T, vals: &'a [T]) -> Result<Self, &'static str> {
+        if vals.len() < 2 {
+            return Err("Regular grid must have at least 2 values");
+        }
         let stop =
             start + step * <T as NumCast>::from(vals.len() - 1).ok_or("Unrepresentable number")?;
         Ok(Self {
-- 
2.43.0


From 9008fc8dc794cbe4727ff6c074de8ab0be4f646f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:21 +0000
Subject: [PATCH 04/14] fix: interpn_alloc reports an empty observation list as
 an error

Indexing the first coordinate slice panicked when there was none.
---
 src/multicubic/rectilinear.rs            | 2 +-
 src/multicubic/rectilinear_recursive.rs  | 2 +-
 src/multicubic/regular.rs                | 2 +-
 src/multicubic/regular_recursive.rs      | 2 +-
 src/multilinear/rectilinear.rs           | 2 +-
 src/multilinear/rectilinear_recursive.rs | 2 +-
 src/multilinear/regular.rs               | 2 +-
 src/multilinear/regular_recursive.rs     | 2 +-
 src/nearest/rectilinear.rs               | 2 +-
 src/nearest/regular.rs                   | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/multicubic/rectilinear.rs b/src/multicubic/rectilinear.rs
index 2faeaa7..5453a87 100644
--- a/src/multicubic/rectilinear.rs
+++ b/src/multicubic/rectilinear.rs
@@ -117,7 +117,7 @@ pub fn interpn_alloc<T: Float>(
     linearize_extrapolation: bool,
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(grids, vals, linearize_extrapolation, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multicubic/rectilinear_recursive.rs b/src/multicubic/rectilinear_recursive.rs
index 79ac128..33bcd23 100644
--- a/src/multicubic/rectilinear_recursive.rs
+++ b/src/multicubic/rectilinear_recursive.rs
@@ -90,7 +90,7 @@ pub fn interpn_alloc<T: Float>(
     linearize_extrapolation: bool,
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(grids, vals, linearize_extrapolation, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multicubic/regular.rs b/src/multicubic/regular.rs
index d9d6cee..a5febb5 100644
--- a/src/multicubic/regular.rs
+++ b/src/multicubic/regular.rs
@@ -152,7 +152,7 @@ pub fn interpn_alloc<T: Float>(
     linearize_extrapolation: bool,
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(
         dims,
         starts,
diff --git a/src/multicubic/regular_recursive.rs b/src/multicubic/regular_recursive.rs
index 018eccd..a36bacd 100644
--- a/src/multicubic/regular_recursive.rs
+++ b/src/multicubic/regular_recursive.rs
@@ -143,7 +143,7 @@ pub fn interpn_alloc<T: Float>(
     linearize_extrapolation: bool,
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(
         dims,
         starts,
diff --git a/src/multilinear/rectilinear.rs b/src/multilinear/rectilinear.rs
index 00c2a84..a6db548 100644
--- a/src/multilinear/rectilinear.rs
+++ b/src/multilinear/rectilinear.rs
@@ -92,7 +92,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(grids, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multilinear/rectilinear_recursive.rs b/src/multilinear/rectilinear_recursive.rs
index a2f7a8e..6eb7594 100644
--- a/src/multilinear/rectilinear_recursive.rs
+++ b/src/multilinear/rectilinear_recursive.rs
@@ -77,7 +77,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(grids, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multilinear/regular.rs b/src/multilinear/regular.rs
index c83b1af..dc00a58 100644
--- a/src/multilinear/regular.rs
+++ b/src/multilinear/regular.rs
@@ -128,7 +128,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(dims, starts, steps, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multilinear/regular_recursive.rs b/src/multilinear/regular_recursive.rs
index 05890bf..e8afb48 100644
--- a/src/multilinear/regular_recursive.rs
+++ b/src/multilinear/regular_recursive.rs
@@ -91,7 +91,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(dims, starts, steps, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/nearest/rectilinear.rs b/src/nearest/rectilinear.rs
index c3e2fc1..5f61edd 100644
--- a/src/nearest/rectilinear.rs
+++ b/src/nearest/rectilinear.rs
@@ -75,7 +75,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(grids, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/nearest/regular.rs b/src/nearest/regular.rs
index a8fdc21..9176752 100644
--- a/src/nearest/regular.rs
+++ b/src/nearest/regular.rs
@@ -112,7 +112,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(dims, starts, steps, vals, obs, &mut out)?;
     Ok(out)
 }
-- 
2.43.0


From 01e664d3e2181d6cd4da326b9331e1a7b525e909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:00 +0000
Subject: [PATCH 05/14] fix: regular-grid check_bounds reports malformed grids
 as an error

Too short starts or steps panicked on indexing and an empty dimension underflowed;
the rectilinear check already returns Err for an empty grid.
---
 src/multilinear/regular.rs           | 5 ++++-
 src/multilinear/regular_recursive.rs | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/multilinear/regular.rs b/src/multilinear/regular.rs
index dc00a58..644b047 100644
--- a/src/multilinear/regular.rs
+++ b/src/multilinear/regular.rs
@@ -151,9 +151,12 @@ pub fn check_bounds<T: Float>(
     out: &mut [bool],
 ) -> Result<(), &'static str> {
     let n = dims.len();
-    if !(obs.len() == n && out.len() == n) {
+    if !(starts.len() == n && steps.len() == n && obs.len() == n && out.len() == n) {
         return Err("Dimension mismatch");
     }
+    if dims.contains(&0) {
+        return Err("Grids must have at least one entry");
+    }
 
     for i in 0..n {
         let first = starts[i];
diff --git a/src/multilinear/regular_recursive.rs b/src/multilinear/regular_recursive.rs
index e8afb48..b6bd6e7 100644
--- a/src/multilinear/regular_recursive.rs
+++ b/src/multilinear/regular_recursive.rs
@@ -114,9 +114,13 @@ pub fn check_bounds<T: Float>(
     out: &mut [bool],
 ) -> Result<(), &'static str> {
     let ndims = dims.len();
-    if !(obs.len() == ndims && out.len() == ndims) {
+    if !(starts.len() == ndims && steps.len() == ndims && obs.len() == ndims && out.len() == ndims)
+    {
         return Err("Dimension mismatch");
     }
+    if dims.contains(&0) {
+        return Err("Grids must have at least one entry");
+    }
 
     for i in 0..ndims {
         let first = starts[i];
-- 
2.43.0


From f4aeb9f41d3e81f483298fd2c1566218b9e6ebaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:00 +0000
Subject: [PATCH 06/14] fix: recursive interpolators report more than MAXDIMS
 dimensions as an error

new() copied the grid into MAXDIMS-sized arrays before (rectilinear) or without
(regular) checking that it fits, and panicked.
---
 src/multicubic/rectilinear_recursive.rs  | 3 +++
 src/multicubic/regular_recursive.rs      | 7 ++++++-
 src/multilinear/rectilinear_recursive.rs | 3 +++
 src/multilinear/regular_recursive.rs     | 7 ++++++-
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/multicubic/rectilinear_recursive.rs b/src/multicubic/rectilinear_recursive.rs
index 33bcd23..dce57c4 100644
--- a/src/multicubic/rectilinear_recursive.rs
+++ b/src/multicubic/rectilinear_recursive.rs
@@ -173,6 +173,9 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRectilinearRecursive<'a, T, M
     ) -> Result<Self, &'static str> {
         // Check dimensions
         let ndims = grids.len();
+        if ndims > MAXDIMS {
+            return Err("Dimension mismatch");
+        }
         let mut dims = [1_usize; MAXDIMS];
         (0..ndims).for_each(|i| dims[i] = grids[i].len());
         let nvals: usize = dims[..ndims].iter().product();
diff --git a/src/multicubic/regular_recursive.rs b/src/multicubic/regular_recursive.rs
index a36bacd..6d6bd1d 100644
--- a/src/multicubic/regular_recursive.rs
+++ b/src/multicubic/regular_recursive.rs
@@ -243,7 +243,12 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRegularRecursive<'a, T, MAXDI
         // Check dimensions
         let ndims = dims.len();
         let nvals: usize = dims.iter().product();
-        if !(starts.len() == ndims && steps.len() == ndims && vals.len() == nvals && ndims > 0) {
+        if !(starts.len() == ndims
+            && steps.len() == ndims
+            && vals.len() == nvals
+            && ndims > 0
+            && ndims <= MAXDIMS)
+        {
             return Err("Dimension mismatch");
         }
 
diff --git a/src/multilinear/rectilinear_recursive.rs b/src/multilinear/rectilinear_recursive.rs
index 6eb7594..d9c50d5 100644
--- a/src/multilinear/rectilinear_recursive.rs
+++ b/src/multilinear/rectilinear_recursive.rs
@@ -160,6 +160,9 @@ impl<'a, T: Float, const MAXDIMS: usize> MultilinearRectilinearRecursive<'a, T,
     pub fn new(grids: &'a [&'a [T]], vals: &'a [T]) -> Result<Self, &'static str> {
         // Check dimensions
         let ndims = grids.len();
+        if ndims > MAXDIMS {
+            return Err("Dimension mismatch");
+        }
         let mut dims = [1_usize; MAXDIMS];
         (0..ndims).for_each(|i| dims[i] = grids[i].len());
         let nvals: usize = dims[..ndims].iter().product();
diff --git a/src/multilinear/regular_recursive.rs b/src/multilinear/regular_recursive.rs
index b6bd6e7..948c372 100644
--- a/src/multilinear/regular_recursive.rs
+++ b/src/multilinear/regular_recursive.rs
@@ -201,7 +201,12 @@ impl<'a, T: Float, const MAXDIMS: usize> MultilinearRegularRecursive<'a, T, MAXD
         // Check dimensions
         let ndims = dims.len();
         let nvals: usize = dims.iter().product();
-        if !(starts.len() == ndims && steps.len() == ndims && vals.len() == nvals && ndims > 0) {
+        if !(starts.len() == ndims
+            && steps.len() == ndims
+            && vals.len() == nvals
+            && ndims > 0
+            && ndims <= MAXDIMS)
+        {
             return Err("Dimension mismatch");
         }
         // Make sure all dimensions have at least four entries
-- 
2.43.0


From 065ea0b927ae789e7b0ae6e7f8bdeb82bf84d6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:00 +0000
Subject: [PATCH 07/14] fix: oversized grid dimensions are an error instead of
 an overflow panic

The number of values a grid calls for was computed with an unchecked product.
---
 src/multicubic/rectilinear.rs            | 5 ++++-
 src/multicubic/rectilinear_recursive.rs  | 5 ++++-
 src/multicubic/regular.rs                | 5 ++++-
 src/multicubic/regular_recursive.rs      | 5 ++++-
 src/multilinear/rectilinear.rs           | 5 ++++-
 src/multilinear/rectilinear_recursive.rs | 5 ++++-
 src/multilinear/regular.rs               | 5 ++++-
 src/multilinear/regular_recursive.rs     | 5 ++++-
 src/nearest/rectilinear.rs               | 5 ++++-
 src/nearest/regular.rs                   | 5 ++++-
 10 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/multicubic/rectilinear.rs b/src/multicubic/rectilinear.rs
index 5453a87..2d0db6e 100644
--- a/src/multicubic/rectilinear.rs
+++ b/src/multicubic/rectilinear.rs
@@ -207,7 +207,10 @@ impl<'a, T: Float, const N: usize> MulticubicRectilinear<'a, T, N> {
         }
         let mut dims = [1_usize; N];
         (0..N).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |n, &d| n.checked_mul(d))
+            .ok_or("Dimension mismatch")?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         };
diff --git a/src/multicubic/rectilinear_recursive.rs b/src/multicubic/rectilinear_recursive.rs
index dce57c4..8e6abfe 100644
--- a/src/multicubic/rectilinear_recursive.rs
+++ b/src/multicubic/rectilinear_recursive.rs
@@ -178,7 +178,10 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRectilinearRecursive<'a, T, M
         }
         let mut dims = [1_usize; MAXDIMS];
         (0..ndims).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims[..ndims].iter().product();
+        let nvals = dims[..ndims]
+            .iter()
+            .try_fold(1_usize, |n, &d| n.checked_mul(d))
+            .ok_or("Dimension mismatch")?;
         if !(vals.len() == nvals && ndims > 0 && ndims <= MAXDIMS) {
             return Err("Dimension mismatch");
         };
diff --git a/src/multicubic/regular.rs b/src/multicubic/regular.rs
index a5febb5..170eefb 100644
--- a/src/multicubic/regular.rs
+++ b/src/multicubic/regular.rs
@@ -254,7 +254,10 @@ impl<'a, T: Float, const N: usize> MulticubicRegular<'a, T, N> {
                 "Flattened method defined for 1-5 dimensions. For higher dimensions, use recursive method."
             );
         }
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |n, &d| n.checked_mul(d))
+            .ok_or("Dimension mismatch")?;
         if !(starts.len() == N && steps.len() == N && vals.len() == nvals && N > 0) {
             return Err("Dimension mismatch");
         }
diff --git a/src/multicubic/regular_recursive.rs b/src/multicubic/regular_recursive.rs
index 6d6bd1d..97887d4 100644
--- a/src/multicubic/regular_recursive.rs
+++ b/src/multicubic/regular_recursive.rs
@@ -242,7 +242,10 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRegularRecursive<'a, T, MAXDI
     ) -> Result<Self, &'static str> {
         // Check dimensions
         let ndims = dims.len();
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |n, &d| n.checked_mul(d))
+            .ok_or("Dimension mismatch")?;
         if !(starts.len() == ndims
             && steps.len() == ndims
             && vals.len() == nvals
diff --git a/src/multilinear/rectilinear.rs b/src/multilinear/rectilinear.rs
index a6db548..90837b7 100644
--- a/src/multilinear/rectilinear.rs
+++ b/src/multilinear/rectilinear.rs
@@ -182,7 +182,10 @@ impl<'a, T: Float, const N: usize> MultilinearRectilinear<'a, T, N> {
         }
         let mut dims = [1_usize; N];
         (0..N).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims[..N].iter().product();
+        let nvals = dims[..N]
+            .iter()
+            .try_fold(1_usize, |n, &d| n.checked_mul(d))
+            .ok_or("Dimension mismatch")?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         };
diff --git a/src/multilinear/rectilinear_recursive.rs b/src/multilinear/rectilinear_recursive.rs
index d9c50d5..2cc945f 100644
--- a/src/multilinear/rectilinear_recursive.rs
+++ b/src/multilinear/rectilinear_recursive.rs
@@ -165,7 +165,10 @@ impl<'a, T: Float, const MAXDIMS: usize> MultilinearRectilinearRecursive<'a, T,
         }
         let mut dims = [1_usize; MAXDIMS];
         (0..ndims).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims[..ndims].iter().product();
+        let nvals = dims[..ndims]
+            .iter()
+            .try_fold(1_usize, |n, &d| n.checked_mul(d))
+            .ok_or("Dimension mismatch")?;
         if !(vals.len() == nvals && ndims > 0 && ndims <= MAXDIMS) {
             return Err("Dimension mismatch");
         };
diff --git a/src/multilinear/regular.rs b/src/multilinear/regular.rs
index 644b047..d4fb1cd 100644
--- a/src/multilinear/regular.rs
+++ b/src/multilinear/regular.rs
@@ -238,7 +238,10 @@ impl<'a, T: Float, const N: usize> MultilinearRegular<'a, T, N> {
                 "Flattened method defined for 1-6 dimensions. For higher dimensions, use recursive method."
             );
         }
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |n, &d| n.checked_mul(d))
+            .ok_or("Dimension mismatch")?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         }
diff --git a/src/multilinear/regular_recursive.rs b/src/multilinear/regular_recursive.rs
index 948c372..5fffbd9 100644
--- a/src/multilinear/regular_recursive.rs
+++ b/src/multilinear/regular_recursive.rs
@@ -200,7 +200,10 @@ impl<'a, T: Float, const MAXDIMS: usize> MultilinearRegularRecursive<'a, T, MAXD
     ) -> Result<Self, &'static str> {
         // Check dimensions
         let ndims = dims.len();
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |n, &d| n.checked_mul(d))
+            .ok_or("Dimension mismatch")?;
         if !(starts.len() == ndims
             && steps.len() == ndims
             && vals.len() == nvals
diff --git a/src/nearest/rectilinear.rs b/src/nearest/rectilinear.rs
index 5f61edd..35486d9 100644
--- a/src/nearest/rectilinear.rs
+++ b/src/nearest/rectilinear.rs
@@ -131,7 +131,10 @@ impl<'a, T: Float, const N: usize> NearestRectilinear<'a, T, N> {
         }
         let mut dims = [1_usize; N];
         (0..N).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims[..N].iter().product();
+        let nvals = dims[..N]
+            .iter()
+            .try_fold(1_usize, |n, &d| n.checked_mul(d))
+            .ok_or("Dimension mismatch")?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         };
diff --git a/src/nearest/regular.rs b/src/nearest/regular.rs
index 9176752..5b908af 100644
--- a/src/nearest/regular.rs
+++ b/src/nearest/regular.rs
@@ -173,7 +173,10 @@ impl<'a, T: Float, const N: usize> NearestRegular<'a, T, N> {
                 "Flattened method defined for 1-6 dimensions. For higher dimensions, use recursive method."
             );
         }
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |n, &d| n.checked_mul(d))
+            .ok_or("Dimension mismatch")?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         }
-- 
2.43.0


From 2443672549e0fa3431496901cd439693bcc86b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:04 +0000
Subject: [PATCH 08/14] fix: python bindings report too many dimensions as an
 AssertionError

---
 src/python.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python.rs b/src/python.rs
index 165d684..617c9ec 100644
--- a/src/python.rs
+++ b/src/python.rs
@@ -45,6 +45,11 @@ macro_rules! unpack_vec_of_arr {
         let dummy = [0.0; 0];
         let mut _arr: [&[$T]; MAXDIMS] = [&dummy[..]; MAXDIMS];
         let n = $inname.len();
+        if n > MAXDIMS {
+            return Err(exceptions::PyAssertionError::new_err(
+                "Number of dimensions exceeds maximum",
+            ));
+        }
         for i in 0..n {
             _arr[i] = $inname[i].as_slice()?;
         }
-- 
2.43.0


From 4533b282f42d3dac7b7d60080b055c48c17929e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:04 +0000
Subject: [PATCH 09/14] fix: python bindings report a read-only or overlapping
 output as an ordinary exception

---
 src/python.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/python.rs b/src/python.rs
index 617c9ec..7da6bab 100644
--- a/src/python.rs
+++ b/src/python.rs
@@ -1,4 +1,5 @@
-use numpy::borrow::{PyReadonlyArray1, PyReadwriteArray1};
+use numpy::borrow::PyReadonlyArray1;
+use numpy::{PyArray1, PyArrayMethods};
 use pyo3::exceptions;
 use pyo3::prelude::*;
 
@@ -66,9 +67,10 @@ macro_rules! interpn_linear_regular_impl {
             steps: PyReadonlyArray1<$T>,
             vals: PyReadonlyArray1<$T>,
             obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            out: Bound<'_, PyArray1<$T>>,
         ) -> PyResult<()> {
             unpack_vec_of_arr!(obs, obs, $T);
+            let mut out = out.try_readwrite()?;
 
             // Evaluate
             match multilinear::regular::interpn(
@@ -98,9 +100,10 @@ macro_rules! check_bounds_regular_impl {
             steps: PyReadonlyArray1<$T>,
             obs: Vec<PyReadonlyArray1<$T>>,
             atol: $T,
-            mut out: PyReadwriteArray1<bool>,
+            out: Bound<'_, PyArray1<bool>>,
         ) -> PyResult<()> {
             unpack_vec_of_arr!(obs, obs, $T);
+            let mut out = out.try_readwrite()?;
 
             // Evaluate
             match multilinear::regular::check_bounds(
@@ -128,11 +131,12 @@ macro_rules! interpn_linear_rectilinear_impl {
             grids: Vec<PyReadonlyArray1<$T>>,
             vals: PyReadonlyArray1<$T>,
             obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            out: Bound<'_, PyArray1<$T>>,
         ) -> PyResult<()> {
             // Unpack inputs
             unpack_vec_of_arr!(grids, grids, $T);
             unpack_vec_of_arr!(obs, obs, $T);
+            let mut out = out.try_readwrite()?;
 
             // Evaluate
             match multilinear::rectilinear::interpn(
@@ -160,9 +164,10 @@ macro_rules! interpn_nearest_regular_impl {
             steps: PyReadonlyArray1<$T>,
             vals: PyReadonlyArray1<$T>,
             obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            out: Bound<'_, PyArray1<$T>>,
         ) -> PyResult<()> {
             unpack_vec_of_arr!(obs, obs, $T);
+            let mut out = out.try_readwrite()?;
 
             match nearest::regular::interpn(
                 &dims,
@@ -189,10 +194,11 @@ macro_rules! interpn_nearest_rectilinear_impl {
             grids: Vec<PyReadonlyArray1<$T>>,
             vals: PyReadonlyArray1<$T>,
             obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            out: Bound<'_, PyArray1<$T>>,
         ) -> PyResult<()> {
             unpack_vec_of_arr!(grids, grids, $T);
             unpack_vec_of_arr!(obs, obs, $T);
+            let mut out = out.try_readwrite()?;
 
             match nearest::rectilinear::interpn(grids, vals.as_slice()?, obs, out.as_slice_mut()?) {
                 Ok(()) => Ok(()),
@@ -212,11 +218,12 @@ macro_rules! check_bounds_rectilinear_impl {
             grids: Vec<PyReadonlyArray1<$T>>,
             obs: Vec<PyReadonlyArray1<$T>>,
             atol: $T,
-            mut out: PyReadwriteArray1<bool>,
+            out: Bound<'_, PyArray1<bool>>,
         ) -> PyResult<()> {
             // Unpack inputs
             unpack_vec_of_arr!(grids, grids, $T);
             unpack_vec_of_arr!(obs, obs, $T);
+            let mut out = out.try_readwrite()?;
 
             // Evaluate
             match multilinear::rectilinear::check_bounds(&grids, obs, atol, out.as_slice_mut()?) {
@@ -240,9 +247,10 @@ macro_rules! interpn_cubic_regular_impl {
             vals: PyReadonlyArray1<$T>,
             linearize_extrapolation: bool,
             obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            out: Bound<'_, PyArray1<$T>>,
         ) -> PyResult<()> {
             unpack_vec_of_arr!(obs, obs, $T);
+            let mut out = out.try_readwrite()?;
 
             // Evaluate
             match multicubic::regular::interpn(
@@ -272,11 +280,12 @@ macro_rules! interpn_cubic_rectilinear_impl {
             vals: PyReadonlyArray1<$T>,
             linearize_extrapolation: bool,
             obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            out: Bound<'_, PyArray1<$T>>,
         ) -> PyResult<()> {
             // Unpack inputs
             unpack_vec_of_arr!(grids, grids, $T);
             unpack_vec_of_arr!(obs, obs, $T);
+            let mut out = out.try_readwrite()?;
 
             // Evaluate
             match multicubic::rectilinear::interpn(
-- 
2.43.0


From 991eb3b4142c567c66b4bcd7769a160e803599c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:04 +0000
Subject: [PATCH 10/14] fix: interpn accepts a caller-supplied output array

---
 src/interpn/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpn/__init__.py b/src/interpn/__init__.py
index cefa6c4..7d21211 100644
--- a/src/interpn/__init__.py
+++ b/src/interpn/__init__.py
@@ -83,7 +83,7 @@ def interpn(
         Interpolated values
     """
     # Allocate for the output if it is not supplied
-    out = out or np.zeros_like(obs[0])
+    out = np.zeros_like(obs[0]) if out is None else out
     outshape = out.shape
     out = out.ravel()  # Flat view without reallocating
 
-- 
2.43.0


From 7a90b6c4be7c24eebf51aada59b6a8002f2b48fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:04 +0000
Subject: [PATCH 11/14] fix: interpn bounds-check buffer has one entry per
 dimension

---
 src/interpn/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpn/__init__.py b/src/interpn/__init__.py
index 7d21211..2afd287 100644
--- a/src/interpn/__init__.py
+++ b/src/interpn/__init__.py
@@ -113,7 +113,7 @@ def interpn(
 
     # Check bounds
     if check_bounds:
-        outb = np.zeros_like(out.shape, dtype=bool)
+        outb = np.zeros(len(grids), dtype=bool)
         match (dtype, is_regular):
             case (np.float32, True):
                 raw.check_bounds_regular_f32(
-- 
2.43.0


From 42f58c84cd49066fe159a94fcde27f01333a25d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:04 +0000
Subject: [PATCH 12/14] fix: interpn fills a non-contiguous output array

---
 src/interpn/__init__.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/interpn/__init__.py b/src/interpn/__init__.py
index 2afd287..a1a9182 100644
--- a/src/interpn/__init__.py
+++ b/src/interpn/__init__.py
@@ -83,9 +83,9 @@ def interpn(
         Interpolated values
     """
     # Allocate for the output if it is not supplied
-    out = np.zeros_like(obs[0]) if out is None else out
-    outshape = out.shape
-    out = out.ravel()  # Flat view without reallocating
+    caller_out = np.zeros_like(obs[0]) if out is None else out
+    outshape = caller_out.shape
+    out = caller_out.ravel()  # Flat view, reallocating only if not contiguous
 
     # Ensure contiguous and flat, reallocating only if necessary
     obs = [np.ascontiguousarray(x.ravel()) for x in obs]
@@ -191,7 +191,11 @@ def interpn(
                 f" {dtype}, {is_regular}, {method}"
             )
 
-    return out.reshape(outshape)
+    # A flat copy was evaluated if the output array is not contiguous
+    if not caller_out.flags.c_contiguous:
+        caller_out[...] = out.reshape(outshape)
+
+    return caller_out
 
 
 def _check_regular(grids: Sequence[NDArray]) -> bool:
-- 
2.43.0


From 862a44b60e9e2583388e9ae9e5ad28e01217f523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:04 +0000
Subject: [PATCH 13/14] fix: regular-grid classes check the data type of starts

---
 src/interpn/multicubic_regular.py  | 5 ++++-
 src/interpn/multilinear_regular.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/interpn/multicubic_regular.py b/src/interpn/multicubic_regular.py
index 3e4ed67..3262f11 100644
--- a/src/interpn/multicubic_regular.py
+++ b/src/interpn/multicubic_regular.py
@@ -107,7 +107,10 @@ class MulticubicRegular(BaseModel):
             "All grid steps must be positive and nonzero"
         )
         assert all(
-            [x.data.dtype == self.vals.data.dtype for x in [self.steps, self.vals]]
+            [
+                x.data.dtype == self.vals.data.dtype
+                for x in [self.starts, self.steps, self.vals]
+            ]
         ), "All grid inputs must be of the same data type (np.float32 or np.float64)"
         assert all(
             [x.data.data.contiguous for x in [self.starts, self.steps, self.vals]]
diff --git a/src/interpn/multilinear_regular.py b/src/interpn/multilinear_regular.py
index 9fecf4a..266044e 100644
--- a/src/interpn/multilinear_regular.py
+++ b/src/interpn/multilinear_regular.py
@@ -87,7 +87,10 @@ class MultilinearRegular(BaseModel):
             "All grid steps must be positive and nonzero"
         )
         assert all(
-            [x.data.dtype == self.vals.data.dtype for x in [self.steps, self.vals]]
+            [
+                x.data.dtype == self.vals.data.dtype
+                for x in [self.starts, self.steps, self.vals]
+            ]
         ), "All grid inputs must be of the same data type (np.float32 or np.float64)"
         assert all(
             [x.data.data.contiguous for x in [self.starts, self.steps, self.vals]]
-- 
2.43.0


From dbd56ff2b0c1258be6ffa70c31b9eb4f8211d895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:04 +0000
Subject: [PATCH 14/14] fix: multicubic classes require at least four points
 per dimension

---
 src/interpn/multicubic_rectilinear.py | 3 +++
 src/interpn/multicubic_regular.py     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/interpn/multicubic_rectilinear.py b/src/interpn/multicubic_rectilinear.py
index b43f319..204dd34 100644
--- a/src/interpn/multicubic_rectilinear.py
+++ b/src/interpn/multicubic_rectilinear.py
@@ -89,6 +89,9 @@ class MulticubicRectilinear(BaseModel):
         assert ndims <= 8 and ndims >= 1, (
             "Number of dimensions must be at least 1 and no more than 8"
         )
+        assert all([x >= 4 for x in dims]), (
+            "All grid dimensions must have size at least 4"
+        )
         assert self.vals.data.size == reduce(lambda acc, x: acc * x, dims), (
             "Size of value array does not match grid dims"
         )
diff --git a/src/interpn/multicubic_regular.py b/src/interpn/multicubic_regular.py
index 3262f11..f1f1959 100644
--- a/src/interpn/multicubic_regular.py
+++ b/src/interpn/multicubic_regular.py
@@ -98,6 +98,9 @@ class MulticubicRegular(BaseModel):
         assert ndims <= 8 and ndims >= 1, (
             "Number of dimensions must be at least 1 and no more than 8"
         )
+        assert all([x >= 4 for x in self.dims]), (
+            "All grid dimensions must have size at least 4"
+        )
         assert self.starts.data.size == ndims, "Grid dimension mismatch"
         assert self.steps.data.size == ndims, "Grid dimension mismatch"
         assert self.vals.data.size == reduce(lambda acc, x: acc * x, self.dims), (
-- 
2.43.0

