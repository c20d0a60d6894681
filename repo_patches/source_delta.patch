From 716869206e04d147e16019d1a8411c0721ad68fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:03 +0000
Subject: [PATCH 1/2] fix: count children in 64 bits so that 12 or more levels
 do not overflow

---
 src/h3_index.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/h3_index.rs b/src/h3_index.rs
index 8e03200..cb19f69 100644
--- a/src/h3_index.rs
+++ b/src/h3_index.rs
@@ -287,9 +287,9 @@ pub fn cellToChildrenSize(h: H3Index, childRes: i32) -> Result<i64, Error> {
     let n = (childRes - H3_GET_RESOLUTION(h)) as u32;
 
     if isPentagon(h) {
-        return Ok((1 + 5 * ((7i32.pow(n) - 1) / 6)) as i64);
+        return Ok(1 + 5 * ((7i64.pow(n) - 1) / 6));
     } else {
-        return Ok(7i32.pow(n) as i64);
+        return Ok(7i64.pow(n));
     }
 }
 
-- 
2.43.0


From 39c7988b2ece805d8d6eb3dddd0336fb1af1f795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 2/2] fix: cap the maximum disk size so that a large k does not
 overflow

---
 src/algos.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/algos.rs b/src/algos.rs
index 6dc9efe..62eb0cf 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -327,14 +327,26 @@ const NEW_ADJUSTMENT_III: [[Direction; 7]; 7] = [
     ],
 ];
 
+/** The smallest k for which a disk covers all cells at the finest resolution */
+const K_ALL_CELLS_AT_RES_15: u32 = 13780510;
+
+/** The number of cells at the finest resolution: 2 + 120 * 7^15 */
+const NUM_CELLS_MAX_RES: usize = 569707381193162;
+
 /**
  * Maximum number of cells that result from the gridDisk algorithm with the
  * given k. Formula source and proof: https://oeis.org/A003215
  *
+ * A disk never has more cells than the whole grid at the finest resolution, so
+ * the size is capped there (the formula does not fit in 64 bits for large k).
+ *
  * @param   k   k value, k >= 0.
  * @param out   size in indexes
  */
 pub fn maxGridDiskSize(k: u32) -> usize {
+    if k >= K_ALL_CELLS_AT_RES_15 {
+        return NUM_CELLS_MAX_RES;
+    }
     return (3 * k as i64 * (k as i64 + 1) + 1) as usize;
 }
 
-- 
2.43.0

