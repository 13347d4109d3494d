From 8d777ec462f16f16572a830ec083c24eef92485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:50 +0000
Subject: [PATCH 01/11] fix: count children in 64 bits so resolution gaps of 12
 and more do not overflow

---
 src/h3_index.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/h3_index.rs b/src/h3_index.rs
index 8e03200..cb19f69 100644
--- a/src/h3_index.rs
+++ b/src/h3_index.rs
@@ -287,9 +287,9 @@ pub fn cellToChildrenSize(h: H3Index, childRes: i32) -> Result<i64, Error> {
     let n = (childRes - H3_GET_RESOLUTION(h)) as u32;
 
     if isPentagon(h) {
-        return Ok((1 + 5 * ((7i32.pow(n) - 1) / 6)) as i64);
+        return Ok(1 + 5 * ((7i64.pow(n) - 1) / 6));
     } else {
-        return Ok(7i32.pow(n) as i64);
+        return Ok(7i64.pow(n));
     }
 }
 
-- 
2.43.0


From 060acf9e985032111ccdef745e6249640cc72d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:50 +0000
Subject: [PATCH 02/11] fix: child iterator must not overflow on an all-ones
 index

---
 src/iterators.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iterators.rs b/src/iterators.rs
index 7c3ca42..8bf4ced 100644
--- a/src/iterators.rs
+++ b/src/iterators.rs
@@ -57,7 +57,8 @@ impl IterCellsChildren {
     pub fn _incrementResDigit(&mut self, res: i32) {
         let mut val: H3Index = 1;
         val <<= H3_PER_DIGIT_OFFSET * (MAX_H3_RES - res);
-        self.h += val;
+        // wraps, as unsigned arithmetic does, when the index is all ones
+        self.h = self.h.wrapping_add(val);
     }
 }
 
-- 
2.43.0


From 620500c266bf2b0be9484262d062e49bf7e4a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:50 +0000
Subject: [PATCH 03/11] fix: maxGridDiskSize must not overflow for very large k

---
 src/algos.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/algos.rs b/src/algos.rs
index 6dc9efe..c5bb3b3 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -327,6 +327,12 @@ const NEW_ADJUSTMENT_III: [[Direction; 7]; 7] = [
     ],
 ];
 
+/** smallest k for which 3k(k+1)+1 reaches the number of resolution 15 cells */
+const K_ALL_CELLS_AT_RES_15: u32 = 13780510;
+
+/** number of resolution 15 cells: 2 + 120 * 7^15 */
+const NUM_CELLS_AT_RES_15: usize = 569707381193162;
+
 /**
  * Maximum number of cells that result from the gridDisk algorithm with the
  * given k. Formula source and proof: https://oeis.org/A003215
@@ -335,6 +341,11 @@ const NEW_ADJUSTMENT_III: [[Direction; 7]; 7] = [
  * @param out   size in indexes
  */
 pub fn maxGridDiskSize(k: u32) -> usize {
+    // the smallest k whose disk covers every resolution 15 cell; from here on
+    // the size is the number of those cells (and 3k(k+1)+1 would overflow)
+    if k >= K_ALL_CELLS_AT_RES_15 {
+        return NUM_CELLS_AT_RES_15;
+    }
     return (3 * k as i64 * (k as i64 + 1) + 1) as usize;
 }
 
-- 
2.43.0


From 65f933cdef91ddd7962918864968c25f9feb48da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:50 +0000
Subject: [PATCH 04/11] fix: constrainLat and constrainLng must return for
 every input, within bounds

---
 src/lat_lng.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lat_lng.rs b/src/lat_lng.rs
index 89b4701..9e4d003 100644
--- a/src/lat_lng.rs
+++ b/src/lat_lng.rs
@@ -91,9 +91,15 @@ pub fn _setGeoRads(p: &mut LatLng, lat_rads: f64, lng_rads: f64) {
  * @return The corrected lat value
  */
 pub fn constrainLat(mut lat: f64) -> f64 {
+    // whole turns first: subtracting them one by one never ends once PI is
+    // below the precision of lat
+    lat %= PI;
     while lat > FRAC_PI_2 {
         lat = lat - PI;
     }
+    while lat < -FRAC_PI_2 {
+        lat = lat + PI;
+    }
     return lat;
 }
 
@@ -104,6 +110,9 @@ pub fn constrainLat(mut lat: f64) -> f64 {
  * @return The corrected lng value
  */
 pub fn constrainLng(mut lng: f64) -> f64 {
+    // whole turns first: subtracting them one by one never ends once 2 PI is
+    // below the precision of lng
+    lng %= 2.0 * PI;
     while lng > PI {
         lng = lng - (2.0 * PI);
     }
-- 
2.43.0


From 70b86a3b8daaa1944c81ae4cf3be1cf82b2d1bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:50 +0000
Subject: [PATCH 05/11] fix: h3NeighborRotations must accept any rotation count
 without overflow

---
 src/algos.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/algos.rs b/src/algos.rs
index c5bb3b3..0f2f994 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -473,6 +473,8 @@ pub fn h3NeighborRotations(
     if dir < Direction::CenterDigit || dir >= Direction::InvalidDigit {
         return Err(Error::Failed);
     }
+    // reduce before adding to it below, so that it cannot overflow
+    *rotations = *rotations % 6;
     for _i in 0..*rotations {
         dir = _rotate60ccw(dir);
     }
-- 
2.43.0


From 917e53b29ee3f90b65c2e4ccdb2c49cc08a87cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 06/11] fix: report the Pentagon error for rings around six
 pentagons

Around six pentagons the rotations collected on the way cancel out, so that
the walk closes on its start although it is distorted, and gridRingUnsafe
returned cells that are repeated or not at distance k. A disk of more than a
fifth of all cells always holds pentagons; report them.
---
 src/algos.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/algos.rs b/src/algos.rs
index 0f2f994..6091782 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -819,6 +819,14 @@ pub fn gridRingUnsafe(mut origin: H3Index, k: u32) -> Result<Vec<H3Index>, Error
         }
     }
 
+    // A disk of more than a fifth of all cells holds pentagons wherever it is.
+    // The check below misses them when there are six or more: the rotations
+    // collected around six pentagons cancel out.
+    let numCells = 2 + 120 * 7u64.pow(H3_GET_RESOLUTION(origin) as u32);
+    if maxGridDiskSize(k) as u64 > numCells / 5 {
+        return Err(Error::Pentagon);
+    }
+
     // Check that this matches the expected lastIndex, if it doesn't,
     // it indicates pentagonal distortion occurred and we should report
     // failure.
-- 
2.43.0


From d1ff1d5d1f11df61fab1f6bc5e8ba4f11ca4ec54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:24 +0000
Subject: [PATCH 07/11] fix: gridDiskDistances must answer for any k

A table for the disk was allocated whatever its size: the whole globe of
resolution 0 with k = 50000 took 120 GB, and larger k aborted. Search no
farther than the largest distance between two cells of the resolution.
---
 src/algos.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/algos.rs b/src/algos.rs
index 6091782..429300d 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -373,6 +373,12 @@ pub fn gridDiskDistances(origin: H3Index, k: u32) -> Result<Vec<(H3Index, u32)>,
         Err(e) => e,
     };
 
+    // No two cells are farther apart than the opposite pentagons 4 and 117. A
+    // larger k finds no more cells, and its table need not fit in memory.
+    let res = H3_GET_RESOLUTION(origin);
+    let maxDistance = if isResolutionClassIII(res) { 26 } else { 10 } * 7u32.pow(res as u32 / 2);
+    let k = k.min(maxDistance);
+
     let maxIdx = maxGridDiskSize(k);
 
     // Fast algo failed, fall back to slower, correct algo
-- 
2.43.0


From 240b36b95f154e5da712adc5dd3d6d5a49fec017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:24 +0000
Subject: [PATCH 08/11] fix: gridRingUnsafe must not reserve memory for a ring
 it refuses

A ring of k = 4000000000 cells a side aborted for want of 200 GB, where the
answer is the Pentagon error. Refuse rings around pentagons first.
---
 src/algos.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index 429300d..4b7d4a4 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -779,7 +779,6 @@ pub fn gridDiskDistancesUnsafe(
  */
 pub fn gridRingUnsafe(mut origin: H3Index, k: u32) -> Result<Vec<H3Index>, Error> {
     let mut out = Vec::<H3Index>::new();
-    out.reserve_exact(6 * k as usize);
 
     // Short-circuit on 'identity' ring
     if k == 0 {
@@ -796,14 +795,21 @@ pub fn gridRingUnsafe(mut origin: H3Index, k: u32) -> Result<Vec<H3Index>, Error
         return Err(Error::Pentagon);
     }
 
+    // A disk of more than a fifth of all cells holds pentagons wherever it is.
+    // The check at the end misses them when there are six or more: the
+    // rotations collected around six pentagons cancel out.
+    let numCells = 2 + 120 * 7u64.pow(H3_GET_RESOLUTION(origin) as u32);
+    let holdsPentagons = maxGridDiskSize(k) as u64 > numCells / 5;
+
     for ring in 0..k {
         origin = h3NeighborRotations(origin, NEXT_RING_DIRECTION, &mut rotations)?;
 
-        if isPentagon(origin) {
+        if holdsPentagons || isPentagon(origin) {
             return Err(Error::Pentagon);
         }
     }
 
+    out.reserve_exact(6 * k as usize);
     let lastIndex = origin;
 
     out.push(origin);
@@ -825,14 +831,6 @@ pub fn gridRingUnsafe(mut origin: H3Index, k: u32) -> Result<Vec<H3Index>, Error
         }
     }
 
-    // A disk of more than a fifth of all cells holds pentagons wherever it is.
-    // The check below misses them when there are six or more: the rotations
-    // collected around six pentagons cancel out.
-    let numCells = 2 + 120 * 7u64.pow(H3_GET_RESOLUTION(origin) as u32);
-    if maxGridDiskSize(k) as u64 > numCells / 5 {
-        return Err(Error::Pentagon);
-    }
-
     // Check that this matches the expected lastIndex, if it doesn't,
     // it indicates pentagonal distortion occurred and we should report
     // failure.
-- 
2.43.0


From 90347948b5abc247d7beffc1c382029982afd53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 09/11] fix: gridDiskDistances must refuse what is no cell
 before allocating

An index without a base cell and k = 86514 aborted for want of 360 GB, where
the answer is CellInvalid. Only pentagons need the slower algorithm.
---
 src/algos.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 4b7d4a4..079177e 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -370,7 +370,9 @@ pub fn gridDiskDistances(origin: H3Index, k: u32) -> Result<Vec<(H3Index, u32)>,
     // Optimistically try the faster gridDiskUnsafe algorithm first
     match gridDiskDistancesUnsafe(origin, k) {
         Ok(out) => return Ok(out),
-        Err(e) => e,
+        Err(Error::Pentagon) => {}
+        // not a cell: no need for a table that may not fit in memory
+        Err(e) => return Err(e),
     };
 
     // No two cells are farther apart than the opposite pentagons 4 and 117. A
-- 
2.43.0


From c6606748ed68b55d597e860197abdee2dce22a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 10/11] fix: _baseCellIsCwOffset must answer for numbers that
 are no base cell

---
 src/base_cells.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/base_cells.rs b/src/base_cells.rs
index 79f6aad..9b996c8 100644
--- a/src/base_cells.rs
+++ b/src/base_cells.rs
@@ -4101,6 +4101,10 @@ pub fn _faceIjkToBaseCellCCWrot60(h: &FaceIJK) -> i32 {
 /** @brief Return whether or not the tested face is a cw offset face.
  */
 pub fn _baseCellIsCwOffset(baseCell: i32, testFace: i32) -> bool {
+    if baseCell < 0 || baseCell >= NUM_BASE_CELLS {
+        // Base cells less than zero can not be represented in an index
+        return false;
+    }
     return baseCellData[baseCell as usize].cwOffsetPent[0] == testFace
         || baseCellData[baseCell as usize].cwOffsetPent[1] == testFace;
 }
-- 
2.43.0


From a64560e5662509d365ec5e0f83b0533ec3c74c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:37 +0000
Subject: [PATCH 11/11] fix: maxGridDiskSize must not be cut to 32 bits, and
 must compile there

Where usize has 32 bits the size of a disk was cut to 32 bits (k = 37837
gave 61923), and the constant for the cap did not compile.
---
 src/algos.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index 079177e..7b9f415 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -331,7 +331,7 @@ const NEW_ADJUSTMENT_III: [[Direction; 7]; 7] = [
 const K_ALL_CELLS_AT_RES_15: u32 = 13780510;
 
 /** number of resolution 15 cells: 2 + 120 * 7^15 */
-const NUM_CELLS_AT_RES_15: usize = 569707381193162;
+const NUM_CELLS_AT_RES_15: u64 = 569707381193162;
 
 /**
  * Maximum number of cells that result from the gridDisk algorithm with the
@@ -344,7 +344,11 @@ pub fn maxGridDiskSize(k: u32) -> usize {
     // the smallest k whose disk covers every resolution 15 cell; from here on
     // the size is the number of those cells (and 3k(k+1)+1 would overflow)
     if k >= K_ALL_CELLS_AT_RES_15 {
-        return NUM_CELLS_AT_RES_15;
+        return usize::try_from(NUM_CELLS_AT_RES_15).unwrap_or(usize::MAX);
+    }
+    // where usize has 32 bits, sizes from here on are given as its largest value
+    if usize::BITS == 32 && k > 37836 {
+        return usize::MAX;
     }
     return (3 * k as i64 * (k as i64 + 1) + 1) as usize;
 }
@@ -801,7 +805,8 @@ pub fn gridRingUnsafe(mut origin: H3Index, k: u32) -> Result<Vec<H3Index>, Error
     // The check at the end misses them when there are six or more: the
     // rotations collected around six pentagons cancel out.
     let numCells = 2 + 120 * 7u64.pow(H3_GET_RESOLUTION(origin) as u32);
-    let holdsPentagons = maxGridDiskSize(k) as u64 > numCells / 5;
+    let reach = k.min(K_ALL_CELLS_AT_RES_15) as u64;
+    let holdsPentagons = 3 * reach * (reach + 1) > numCells / 5;
 
     for ring in 0..k {
         origin = h3NeighborRotations(origin, NEXT_RING_DIRECTION, &mut rotations)?;
-- 
2.43.0

