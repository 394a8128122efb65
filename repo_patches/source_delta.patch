From aae5f3ac898e1c1861e4f9003aaaffa64f16f7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 01/50] fix: include the lower-left diagonal in a bin's
 partition neighbourhood

The (i-1, j-1) neighbour was entered as index - width, a duplicate of the bin
below, so the neighbourhood was not symmetric and partitions were cut along
that diagonal.
---
 src/tools/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/analysis.rs b/src/tools/analysis.rs
index 41325d3..4504c00 100644
--- a/src/tools/analysis.rs
+++ b/src/tools/analysis.rs
@@ -165,7 +165,7 @@ pub fn nearest_neighbors(width: usize, height: usize, index: usize) -> Vec<usize
 
     // Point at the bottom, left(5)
     if i != 0 && j != 0 {
-        neighbors.push(index - width);
+        neighbors.push(index - width - 1);
     }
 
     // Point at the bottom, left with wrap.
-- 
2.43.0


From 221c97886b9bc0999b5d901979470958db56f9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 02/50] fix: let boundary bins join the basin of their first
 neighbour

The index of the chosen neighbour is zero based here (one based in the Fortran
original), so a bin whose closest neighbour was the first one stayed unassigned
and its energy belonged to no partition.
---
 src/tools/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/analysis.rs b/src/tools/analysis.rs
index 4504c00..57a923e 100644
--- a/src/tools/analysis.rs
+++ b/src/tools/analysis.rs
@@ -392,7 +392,7 @@ pub fn watershed(
                     }
                 }
 
-                if ipt > 0 {
+                if ipt >= 0 {
                     imd[jl] = imo[neigh[jl][ipt as usize]];
                 }
             }
-- 
2.43.0


From f5432a1c4592dcb0f54eac6516a9a052c2d94b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 03/50] fix: assign every boundary bin to a partition, however
 wide the boundary

Five passes left the inside of wide boundaries unassigned, so that part of the
spectrum belonged to no swell component.
---
 src/tools/analysis.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tools/analysis.rs b/src/tools/analysis.rs
index 57a923e..f2ec59a 100644
--- a/src/tools/analysis.rs
+++ b/src/tools/analysis.rs
@@ -376,7 +376,8 @@ pub fn watershed(
     // Find nearest neighbor of 0 watershed points and replace
     // use original input to check which group to affiliate with 0
     // Soring changes first in IMD to assure symetry in adjustment.
-    for _ in 0..5 {
+    // Repeat until every point is assigned, or nothing more can be.
+    loop {
         imd = imo.clone();
 
         for jl in 0..count {
@@ -398,9 +399,10 @@ pub fn watershed(
             }
         }
 
+        let stalled = imo == imd;
         imo = imd.clone();
         let min_imo = imo.iter().min().unwrap_or(&-1);
-        if *min_imo > 0 {
+        if *min_imo > 0 || stalled {
             break;
         }
     }
-- 
2.43.0


From 600dc7c09304792a165e216d2fe8e4b4b99c35a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 04/50] fix: use each bin's own bandwidth in the spectral means

---
 src/tools/waves.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index ee5fbc5..941da31 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -421,7 +421,8 @@ pub fn pt_mean(
     let mut dsii = vec![0.0; frequency.len()];
     dsii[0] = 0.5 * sig[1] * ((frequency[1] / frequency[0]) - 1.0);
     for ik in 1..dsii.len() - 1 {
-        dsii[ik] = dsip[ik];
+        // dsip, like sig, has one leading entry below the first frequency
+        dsii[ik] = dsip[ik + 1];
     }
     dsii[frequency.len() - 1] = 0.5
         * sig[frequency.len()]
@@ -567,7 +568,7 @@ pub fn pt_mean(
             }
         }
 
-        let fteii = fte / (dth[dth.len() - 1] * sig[frequency.len() + 1]);
+        let fteii = fte / (dth[dth.len() - 1] * sig[frequency.len()]);
         sume[ip] += sumf[frequency.len() - 1][ip] * fteii;
         sume1[ip] += sumf[frequency.len() - 1][ip] * sig[frequency.len()] * fteii * (0.3333 / 0.25);
         sume2[ip] +=
-- 
2.43.0


From 0b640bb902dc90a0cb24328de367861658c54167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 05/50] fix: give newly tracked partitions ids that no earlier
 partition has

---
 src/tools/waves.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 941da31..10604b7 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -271,10 +271,14 @@ pub fn track_partitions(
         return inputs.iter().map(|x| x.1.to_vec()).collect();
     }
 
-    // Since all of the partitions are candidates for tracking in the first time step,
-    // we can start the partition counter at the length of the consecutive_partitions
-    // asumming that the first time steps
-    let mut partition_count = inputs.first().as_ref().unwrap().1.len();
+    // Since all of the partitions are candidates for tracking in the first time step
+    // and keep their ids, the ids of new partitions start after the largest of them
+    let mut partition_count = inputs[0]
+        .1
+        .iter()
+        .map(|s| s.partition.unwrap_or(999) + 1)
+        .max()
+        .unwrap_or(0);
 
     // Create a new partition map. There is definitely a better way to do this, but lets just get the
     // logic working first without modifying the input data
-- 
2.43.0


From 08e3352cb250acc16c4c070b6871ffdc748ec852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 06/50] fix: take the smaller angle between partitions tracked
 across north

---
 src/tools/waves.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 10604b7..2f9b88e 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -311,8 +311,8 @@ pub fn track_partitions(
                     .enumerate()
                     .map(|(ipp, prev_p)| {
                         let prev_partition_dir = prev_p.direction.get_value().degrees;
-                        let dir_delta =
-                            ((((partition_dir - prev_partition_dir) + 180) % 360) - 180).abs();
+                        let dir_delta = (partition_dir - prev_partition_dir).rem_euclid(360);
+                        let dir_delta = dir_delta.min(360 - dir_delta);
                         //println!("Dir delta: {} partition dir: {}, prev partition dir: {}", dir_delta, partition_dir, prev_partition_dir);
                         let period_delta = (partition_period - prev_p.period.get_value()).abs();
 
-- 
2.43.0


From 16f6b00e4d8b8fe51b8c686577c73ccb4c337eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 07/50] fix: track partitions after a time step without any

---
 src/tools/waves.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 2f9b88e..26ebd43 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -323,31 +323,28 @@ pub fn track_partitions(
                                 + (period_delta / dfp_swell).abs()
                         }
                         .abs();
-                        (icp, ipp, score)
+                        (icp, Some(ipp), score)
                     })
-                    .min_by(|(_i, __i, a), (_ii, __ii, b)| a.partial_cmp(b).unwrap())
-            })
-            .sorted_by(|a, b| {
-                a.as_ref()
-                    .unwrap()
-                    .2
-                    .partial_cmp(&b.as_ref().unwrap().2)
-                    .unwrap()
+                    .min_by(|(_i, __i, a), (_ii, __ii, b)| a.total_cmp(b))
+                    // With no previous partitions there is nothing to match
+                    .unwrap_or((icp, None, 999.99))
             })
+            .sorted_by(|a, b| a.2.total_cmp(&b.2))
             .collect::<Vec<_>>();
 
         let mut hit: HashSet<usize> = HashSet::new();
-        for m in matches {
-            if let Some((icp, ipp, score)) = m {
-                let (ipp, _) = partition_map[i - 1][ipp];
-                if hit.contains(&ipp) || score > 999.0 {
-                    partition_map[i][icp] = (partition_count, 0.0);
-                    partition_count += 1;
-                } else {
+        for (icp, ipp, score) in matches {
+            let ipp = ipp.map(|ipp| partition_map[i - 1][ipp].0);
+            match ipp {
+                Some(ipp) if score <= 999.0 && !hit.contains(&ipp) => {
                     //println!("Hit: {} score {}", ipp, score);
                     partition_map[i][icp] = (ipp, score);
                     hit.insert(ipp);
                 }
+                _ => {
+                    partition_map[i][icp] = (partition_count, 0.0);
+                    partition_count += 1;
+                }
             }
         }
     }
-- 
2.43.0


From a6f45c2a8a1bdc06b57d8c027a8099a6de77d36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 08/50] fix: return the bin itself for a whole frequency or
 direction index

---
 src/spectra.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/spectra.rs b/src/spectra.rs
index d14eae2..509aa31 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -157,6 +157,10 @@ impl Spectra {
 
         let v_lower = self.frequency[i_lower as usize];
         let v_upper = self.frequency[i_upper as usize];
+        if i_lower == i_upper {
+            return v_lower;
+        }
+
         lerp(&v_lower, &v_upper, &f_index, &i_lower, &i_upper)
     }
 
@@ -176,6 +180,10 @@ impl Spectra {
 
         let v_lower = self.direction[i_lower as usize];
         let v_upper = self.direction[i_upper as usize];
+        if i_lower == i_upper {
+            return v_lower;
+        }
+
         lerp(&v_lower, &v_upper, &d_index, &i_lower, &i_upper)
     }
 
-- 
2.43.0


From 847abd7af4cc82ef9cc17169a59aa2c2c8c08698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 09/50] fix: look up the bins on either side of a frequency or
 direction

---
 src/spectra.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index 509aa31..71032e2 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -1,3 +1,5 @@
+use std::f64::consts::PI;
+
 use geojson::{FeatureCollection, GeoJson};
 use kdtree::{distance::squared_euclidean, KdTree};
 use serde::{Deserialize, Serialize};
@@ -189,25 +191,22 @@ impl Spectra {
 
     /// Interpolated frequency index bounds for a given frequency
     pub fn closest_k(&self, freq: f64) -> (usize, usize) {
-        let lower = self
-            .frequency
-            .iter()
-            .position(|f| f.le(&freq))
-            .unwrap_or(self.frequency.len() - 1);
-
-        if lower == self.frequency.len() - 1 {
-            (lower, lower)
-        } else {
-            (lower, lower + 1)
+        match self.frequency.iter().rposition(|f| f.le(&freq)) {
+            Some(lower) if lower < self.frequency.len() - 1 => (lower, lower + 1),
+            Some(lower) => (lower, lower),
+            // Below the first bin
+            None => (0, 0),
         }
     }
 
     /// Interpolated direection index bounds for a given direction
     pub fn closest_th(&self, dir: f64) -> (usize, usize) {
-        let lower = self.direction.iter().position(|d| d.le(&dir)).unwrap_or(0);
+        // Direction wraps around cuz its a circle
+        let first = self.direction[0];
+        let dir = first + (dir - first).rem_euclid(2.0 * PI);
+        let lower = self.direction.iter().rposition(|d| d.le(&dir)).unwrap_or(0);
 
         if lower == self.direction.len() - 1 {
-            // Direction wraps around cuz its a circle
             (lower, 0)
         } else {
             (lower, lower + 1)
-- 
2.43.0


From 878fb9fae97119cc6e97e1dcdb565f7ae3792e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 10/50] fix: interpolate energy across the direction wrap and
 beyond the outer bins

---
 src/spectra.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index 71032e2..e721ff0 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -241,12 +241,25 @@ impl Spectra {
         let d1 = self.direction[y1];
         let d2 = self.direction[y2];
 
+        // Position between the bins: the energy beyond the outer frequencies is that of
+        // the outer bin, directions wrap around
+        let x = if x1 == x2 {
+            0.0
+        } else {
+            (freq - f1) / (f2 - f1)
+        };
+        let y = if y1 == y2 {
+            0.0
+        } else {
+            (dir - d1).rem_euclid(2.0 * PI) / (d2 - d1).rem_euclid(2.0 * PI)
+        };
+
         let a = self.energy_at(x1, y1);
         let b = self.energy_at(x2, y1);
         let c = self.energy_at(x1, y2);
         let d = self.energy_at(x2, y2);
 
-        bilerp(&a, &b, &c, &d, &freq, &f1, &f2, &dir, &d1, &d2)
+        bilerp(&a, &b, &c, &d, &x, &0.0, &1.0, &y, &0.0, &1.0)
     }
 
     /// One dimensional representation of the energy across the given axis
-- 
2.43.0


From d79a7a46b2ee7fb206d7b6d8b54835d5640d4a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 11/50] fix: keep the lowest source frequency when regridding

---
 src/spectra.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index e721ff0..7cb12a9 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -621,8 +621,7 @@ impl Spectra {
 
             // Interpolate to target frequencies
             for (ik_tgt, &log_f) in log_tgt_freq.iter().enumerate() {
-                let f = log_f.exp();
-                let value = if f < src_freq_min {
+                let value = if target_freq[ik_tgt] < src_freq_min {
                     // Below source range - zero fill
                     0.0
                 } else {
-- 
2.43.0


From 71acf6ad0a7c2af05b870f1bc3d4a3babd71fb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 12/50] fix: draw spectral contours around the bins they
 enclose

---
 src/spectra.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index 7cb12a9..a06b20d 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -534,10 +534,11 @@ impl Spectra {
             self.nth(),
             &t,
             Some(|point: &Vec<f64>| {
-                let x = 1.0 / self.ik(point[0]);
+                // The contour grid has each bin at the center of its unit cell
+                let x = 1.0 / self.ik(point[0] - 0.5);
                 let y = self
                     .dir_convention
-                    .normalize(self.ith(point[1]).to_degrees());
+                    .normalize(self.ith(point[1] - 0.5).to_degrees());
                 vec![x, y]
             }),
             None::<Box<dyn Fn(&usize, &f64) -> String>>,
-- 
2.43.0


From fa9dcb0b1cb7f25028c384ea4aa3c18d24140d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 13/50] fix: close the seam of global contour grids of any
 resolution

---
 src/tools/contour.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/tools/contour.rs b/src/tools/contour.rs
index 04cdb81..0e8fe2a 100644
--- a/src/tools/contour.rs
+++ b/src/tools/contour.rs
@@ -3,8 +3,6 @@ use geojson::{Feature, Value};
 use itertools::Either;
 use serde::{Deserialize, Serialize};
 
-use crate::location::normalize_longitude;
-
 use super::{linspace::linspace, vector::min_max_fill};
 
 #[derive(Clone, Debug, Serialize, Deserialize)]
@@ -89,14 +87,15 @@ pub fn compute_latlng_gridded_contours<F: Fn(&usize, &f64) -> String>(
     threshold_count: Option<usize>,
     label_format: Option<F>,
 ) -> Result<Vec<Feature>, ContourError> {
-    let lng_step = (lng_end - lng_start) / lng_count as f64;
-    let diff = normalize_longitude(lng_end) - normalize_longitude(lng_start);
+    // The ends are the first and last grid points
+    let lng_step = (lng_end - lng_start) / (lng_count as f64 - 1.0);
+    let wraps = (lng_end + lng_step - lng_start - 360.0).abs() < 0.001;
 
     let mut data_count = lat_count * lng_count;
     let mut lng_end = lng_end;
     let mut lng_count = lng_count;
 
-    let mut data = if diff.abs() - lng_step.abs() < 0.001 {
+    let mut data = if wraps {
         let data = data
             .iter()
             .enumerate()
@@ -110,7 +109,7 @@ pub fn compute_latlng_gridded_contours<F: Fn(&usize, &f64) -> String>(
                 }
             })
             .collect();
-        lng_end = (lng_end + lng_step).ceil();
+        lng_end = lng_start + 360.0;
         lng_count += 1;
         data_count = lat_count * lng_count;
         data
-- 
2.43.0


From e98a65495503e1eabd04296833df7dbc7841d1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 14/50] fix: place gridded contours at the grid points they
 enclose

---
 src/tools/contour.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tools/contour.rs b/src/tools/contour.rs
index 0e8fe2a..c72c2b9 100644
--- a/src/tools/contour.rs
+++ b/src/tools/contour.rs
@@ -131,8 +131,13 @@ pub fn compute_latlng_gridded_contours<F: Fn(&usize, &f64) -> String>(
         lat_count,
         &thresholds,
         Some(|point: &Vec<f64>| {
-            let x = lng_start + (lng_end - lng_start) * (point[0] / (lng_count as f64));
-            let y = lat_start + (lat_end - lat_start) * (point[1] / (lat_count as f64));
+            // The contour grid has each grid point at the center of its unit cell
+            let place = |v: f64, count: usize, start: f64, end: f64| {
+                let i = (v - 0.5).clamp(0.0, count as f64 - 1.0);
+                start + (end - start) * (i / (count as f64 - 1.0))
+            };
+            let x = place(point[0], lng_count, lng_start, lng_end);
+            let y = place(point[1], lat_count, lat_start, lat_end);
             vec![x, y]
         }),
         label_format,
-- 
2.43.0


From bbc01fc2258c744bd1b849252519bd38b39981fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 15/50] fix: subtract the freezing point before scaling
 Fahrenheit to Celsius

---
 src/units/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/units/mod.rs b/src/units/mod.rs
index b14053c..a3c5363 100644
--- a/src/units/mod.rs
+++ b/src/units/mod.rs
@@ -170,7 +170,7 @@ impl Unit {
                 _ => value,
             },
             Unit::Fahrenheit => match target {
-                Unit::Celsius => value - 32.0 * (5.0 / 9.0),
+                Unit::Celsius => (value - 32.0) * (5.0 / 9.0),
                 Unit::Kelvin => (value + 459.67) * (5.0 / 9.0),
                 _ => value,
             },
-- 
2.43.0


From afce0d52a77b7433777d30ff264cd3b7c351a2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 16/50] fix: offset Kelvin from Celsius by 273.15 degrees

---
 src/units/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/units/mod.rs b/src/units/mod.rs
index a3c5363..a1a54df 100644
--- a/src/units/mod.rs
+++ b/src/units/mod.rs
@@ -142,7 +142,7 @@ impl Unit {
             },
             Unit::Celsius => match target {
                 Unit::Fahrenheit => value * (9.0 / 5.0) + 32.0,
-                Unit::Kelvin => value + 273.0,
+                Unit::Kelvin => value + 273.15,
                 _ => value,
             },
             Unit::Pascal => match target {
@@ -184,7 +184,7 @@ impl Unit {
                 _ => value,
             },
             Unit::Kelvin => match target {
-                Unit::Celsius => value - 273.0,
+                Unit::Celsius => value - 273.15,
                 Unit::Fahrenheit => value * (9.0 / 5.0) - 459.67,
                 _ => value,
             },
-- 
2.43.0


From 201643b7eaca5dbc18067c68e7b37642004b4877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 17/50] fix: read the steepness AVERAGE as it is written

---
 src/units/steepness.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/units/steepness.rs b/src/units/steepness.rs
index 07d7ef8..2a5a1c6 100644
--- a/src/units/steepness.rs
+++ b/src/units/steepness.rs
@@ -32,7 +32,7 @@ impl FromStr for Steepness {
         match s {
             "VERY_STEEP" => Ok(Steepness::VerySteep),
             "STEEP" => Ok(Steepness::Steep),
-            "Average" => Ok(Steepness::Average),
+            "AVERAGE" | "Average" => Ok(Steepness::Average),
             "SWELL" => Ok(Steepness::Swell),
             "NA" => Ok(Steepness::NA),
             _ => Err(DataParseError::InvalidString),
-- 
2.43.0


From 00a97b6585baac05085b9eb09a0f89f0812a60ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 18/50] fix: read the average period and mean direction from
 their own columns

---
 src/data/wave_data_record.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/wave_data_record.rs b/src/data/wave_data_record.rs
index 7296ed6..d408035 100644
--- a/src/data/wave_data_record.rs
+++ b/src/data/wave_data_record.rs
@@ -77,12 +77,12 @@ impl ParseableDataRecord for WaveDataRecord {
             ),
             steepness: Steepness::from_str(row[12]).unwrap_or(Steepness::NA),
             average_wave_period: DimensionalData::from_raw_data(
-                row[10],
+                row[13],
                 "average wave period".into(),
                 Unit::Seconds,
             ),
             mean_wave_direction: DimensionalData::from_raw_data(
-                row[11],
+                row[14],
                 "mean wave direction".into(),
                 Unit::Degrees,
             ),
-- 
2.43.0


From aa0f3a0841c9e5e0e188a4157a1e865c8548912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 19/50] fix: reject wave data rows with missing columns or
 invalid dates

---
 src/data/wave_data_record.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/data/wave_data_record.rs b/src/data/wave_data_record.rs
index d408035..f7fb7c7 100644
--- a/src/data/wave_data_record.rs
+++ b/src/data/wave_data_record.rs
@@ -31,16 +31,23 @@ impl ParseableDataRecord for WaveDataRecord {
         _: Option<&Self::Metadata>,
         row: &Vec<&str>,
     ) -> Result<WaveDataRecord, DataRecordParsingError> {
+        if row.len() < 15 {
+            return Err(DataRecordParsingError::ParseFailure(
+                "Invalid wave data record: not enough columns parsed".to_string(),
+            ));
+        }
+
         let date = Utc
             .with_ymd_and_hms(
-                row[0].parse().unwrap(),
-                row[1].parse().unwrap(),
-                row[2].parse().unwrap(),
-                row[3].parse().unwrap(),
-                row[4].parse().unwrap(),
+                row[0].parse()?,
+                row[1].parse()?,
+                row[2].parse()?,
+                row[3].parse()?,
+                row[4].parse()?,
                 0,
             )
-            .unwrap();
+            .single()
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         Ok(WaveDataRecord {
             date,
-- 
2.43.0


From 9782ed8537310b9f55a7dd9d1378ea099817a8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 20/50] fix: reject spectral wave rows with invalid dates

---
 src/data/spectral_wave_data_record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/spectral_wave_data_record.rs b/src/data/spectral_wave_data_record.rs
index e32e8fc..9b2acd8 100644
--- a/src/data/spectral_wave_data_record.rs
+++ b/src/data/spectral_wave_data_record.rs
@@ -60,7 +60,7 @@ impl ParseableDataRecord for SpectralWaveDataRecord {
         let date = Utc
             .with_ymd_and_hms(year, month, day, hour, minute, 0)
             .single()
-            .unwrap();
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         Ok(SpectralWaveDataRecord {
             date,
-- 
2.43.0


From 4b59416d91881ec82a0fb3d21a1e9619335abb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 21/50] fix: reject grib index rows with missing fields

---
 src/data/grib_index_record.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/grib_index_record.rs b/src/data/grib_index_record.rs
index ea6e914..265ee43 100644
--- a/src/data/grib_index_record.rs
+++ b/src/data/grib_index_record.rs
@@ -25,6 +25,10 @@ impl ParseableDataRecord for GribIndexRecord {
     where
         Self: Sized,
     {
+        if row.len() < 6 {
+            return Err(DataRecordParsingError::InvalidData);
+        }
+
         let index: usize = row[0].parse().map_err(DataRecordParsingError::from)?;
         let offset: usize = row[1].parse().map_err(DataRecordParsingError::from)?;
         // HACK: Postfix with 00s to add minute stamp to allow NaiveDateTime to parse it
-- 
2.43.0


From 80e8a09d8b96c92b0e02a6431e2c6033fe1c3d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 22/50] fix: read the unit of NWS wind speeds given as a range
 or without a unit

---
 src/data/nws_weather_forecast_data_record.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/data/nws_weather_forecast_data_record.rs b/src/data/nws_weather_forecast_data_record.rs
index cd26643..7d758f1 100644
--- a/src/data/nws_weather_forecast_data_record.rs
+++ b/src/data/nws_weather_forecast_data_record.rs
@@ -72,7 +72,8 @@ pub struct NwsWeatherForecastDataRecord {
 
 impl From<&NwsWeatherForecastPeriodData> for NwsWeatherForecastDataRecord {
     fn from(data: &NwsWeatherForecastPeriodData) -> Self {
-        let wind_speed_parts = data.wind_speed.split(" ").collect::<Vec<&str>>();
+        // Either "10 mph" or, for a range, "10 to 15 mph"
+        let wind_speed_parts = data.wind_speed.split_whitespace().collect::<Vec<&str>>();
 
         Self {
             start_time: data.start_time,
@@ -94,9 +95,9 @@ impl From<&NwsWeatherForecastPeriodData> for NwsWeatherForecastDataRecord {
                 unit: Unit::from(data.relative_humidity.unit_code.as_str()),
             },
             wind_speed: DimensionalData::from_raw_data(
-                wind_speed_parts[0],
+                wind_speed_parts.first().unwrap_or(&""),
                 "wind speed".into(),
-                Unit::from(wind_speed_parts[1]),
+                Unit::from(*wind_speed_parts.last().unwrap_or(&"")),
             ),
             wind_direction: DimensionalData::from_raw_data(
                 &data.wind_direction,
-- 
2.43.0


From e42878726ae99333269b29c71495300a89dad3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 23/50] fix: date bulletin rows after a December model run to
 January

---
 src/data/forecast_cbulletin_wave_data_record.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index 2f44008..6d52715 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -152,14 +152,17 @@ impl ParseableDataRecord for ForecastCBulletinWaveRecord {
             None => Err(DataRecordParsingError::InvalidData),
         }?;
 
-        let month = if model_date.day() > day {
-            model_date.month() + 1
+        // Days before the model run belong to the next month, and from December to the next year
+        let (year, month) = if model_date.day() <= day {
+            (model_date.year(), model_date.month())
+        } else if model_date.month() == 12 {
+            (model_date.year() + 1, 1)
         } else {
-            model_date.month()
+            (model_date.year(), model_date.month() + 1)
         };
 
         let date = Utc
-            .with_ymd_and_hms(model_date.year(), month, day, hour, 0, 0)
+            .with_ymd_and_hms(year, month, day, hour, 0, 0)
             .unwrap();
 
         let significant_wave_height =
-- 
2.43.0


From cab0c8964b43276f042f73ed096d8b1d73c05e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 24/50] fix: compute bulletin swell energy from the height in
 meters

---
 src/data/forecast_cbulletin_wave_data_record.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index 6d52715..c122cf0 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -187,7 +187,10 @@ impl ParseableDataRecord for ForecastCBulletinWaveRecord {
                 period,
                 Direction::from_degrees(degrees),
                 None,
-                Some(wave_energy(wave_height, period)),
+                Some(wave_energy(
+                    Unit::Feet.convert(wave_height, &Unit::Meters),
+                    period,
+                )),
                 None,
             ));
         }
-- 
2.43.0


From 04d4315372f05fb85889e47da639aca74128d32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 25/50] fix: reject bulletin rows with missing fields or
 invalid dates

---
 .../forecast_cbulletin_wave_data_record.rs    | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index c122cf0..a59c4ed 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -107,7 +107,8 @@ impl FromStr for ForecastCBulletinWaveRecordMetadata {
 
                 let d = Utc
                     .with_ymd_and_hms(year, month, day, hour, minute, 0)
-                    .unwrap();
+                    .single()
+                    .ok_or(DataRecordParsingError::InvalidData)?;
                 Ok(d)
             }
             None => Err(DataRecordParsingError::ParseFailure(
@@ -139,11 +140,18 @@ impl ParseableDataRecord for ForecastCBulletinWaveRecord {
     where
         Self: Sized,
     {
-        let timestep = row[0];
-        let day = timestep[0..2].parse::<u32>().map_err(|_| {
+        // The timestep and total wave height, then height, period and direction for every swell
+        if row.len() < 2 || (row.len() - 2) % 3 != 0 {
+            return Err(DataRecordParsingError::InvalidData);
+        }
+
+        let (day, hour) = row[0]
+            .split_at_checked(2)
+            .ok_or(DataRecordParsingError::InvalidData)?;
+        let day = day.parse::<u32>().map_err(|_| {
             DataRecordParsingError::ParseFailure("Failed to parse day from timestep".into())
         })?;
-        let hour = timestep[2..].parse::<u32>().map_err(|_| {
+        let hour = hour.parse::<u32>().map_err(|_| {
             DataRecordParsingError::ParseFailure("Failed to parse hour from timestep".into())
         })?;
 
@@ -163,7 +171,8 @@ impl ParseableDataRecord for ForecastCBulletinWaveRecord {
 
         let date = Utc
             .with_ymd_and_hms(year, month, day, hour, 0, 0)
-            .unwrap();
+            .single()
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         let significant_wave_height =
             DimensionalData::from_raw_data(row[1], "significant wave height".into(), Unit::Feet);
-- 
2.43.0


From cb534e5f6e0716e7da9fc2971365769a865db434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 26/50] fix: report bulletins without swell components as
 insufficient data

---
 src/data/forecast_cbulletin_wave_data_record.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index a59c4ed..3175a8e 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -7,7 +7,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::dimensional_data::DimensionalData;
 use crate::location::Location;
-use crate::swell::{Swell, SwellProvider, SwellSummary};
+use crate::swell::{Swell, SwellProvider, SwellProviderError, SwellSummary};
 use crate::tools::waves::wave_energy;
 use crate::units::{Direction, Unit, UnitConvertible, UnitSystem};
 
@@ -225,7 +225,9 @@ impl UnitConvertible for ForecastCBulletinWaveRecord {
 
 impl SwellProvider for ForecastCBulletinWaveRecord {
     fn swell_data(&self) -> Result<SwellSummary, crate::swell::SwellProviderError> {
-        let dominant = self.swell_components[0].clone();
+        let dominant = self.swell_components.first().cloned().ok_or(
+            SwellProviderError::InsufficientData("bulletin lists no swell components".into()),
+        )?;
         Ok(SwellSummary {
             summary: Swell {
                 wave_height: self.significant_wave_height.clone(),
-- 
2.43.0


From a7139f9faeb947fc17ecb1548ea683d084d90138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 27/50] fix: reject spectral forecast records with malformed
 dates

---
 .../forecast_spectral_wave_data_record.rs     | 38 +++++++++----------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/src/data/forecast_spectral_wave_data_record.rs b/src/data/forecast_spectral_wave_data_record.rs
index 8e59130..620e07f 100644
--- a/src/data/forecast_spectral_wave_data_record.rs
+++ b/src/data/forecast_spectral_wave_data_record.rs
@@ -257,29 +257,25 @@ impl<'a> ForecastSpectralWaveRecordIterator<'a> {
         let line = self.lines.next().ok_or(DataRecordParsingError::EOF)?;
 
         // First line is the date
-        let year = line[0..4].parse::<i32>().map_err(|e| {
-            DataRecordParsingError::ParseFailure(format!("Failed to parse year: {}", e))
-        })?;
-
-        let month = line[4..6].parse::<u32>().map_err(|e| {
-            DataRecordParsingError::ParseFailure(format!("Failed to parse month: {}", e))
-        })?;
-
-        let day = line[6..8].parse::<u32>().map_err(|e| {
-            DataRecordParsingError::ParseFailure(format!("Failed to parse day: {}", e))
-        })?;
-
-        let hour = line[9..11].parse::<u32>().map_err(|e| {
-            DataRecordParsingError::ParseFailure(format!("Failed to parse hour: {}", e))
-        })?;
-
-        let minute = line[11..13].parse::<u32>().map_err(|e| {
-            DataRecordParsingError::ParseFailure(format!("Failed to parse minute: {}", e))
-        })?;
+        let field = |range: std::ops::Range<usize>, name: &str| {
+            line.get(range)
+                .ok_or(DataRecordParsingError::InvalidData)?
+                .parse::<u32>()
+                .map_err(|e| {
+                    DataRecordParsingError::ParseFailure(format!("Failed to parse {name}: {e}"))
+                })
+        };
+
+        let year = field(0..4, "year")?;
+        let month = field(4..6, "month")?;
+        let day = field(6..8, "day")?;
+        let hour = field(9..11, "hour")?;
+        let minute = field(11..13, "minute")?;
 
         let date = Utc
-            .with_ymd_and_hms(year, month, day, hour, minute, 0)
-            .unwrap();
+            .with_ymd_and_hms(year as i32, month, day, hour, minute, 0)
+            .single()
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         if self.reference_date.is_none() {
             self.reference_date = Some(date);
-- 
2.43.0


From b712e32df6c822ac1a6b7099b546167f74f8351d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 28/50] fix: reject spectral forecast records with the wrong
 number of energy values

---
 src/data/forecast_spectral_wave_data_record.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/data/forecast_spectral_wave_data_record.rs b/src/data/forecast_spectral_wave_data_record.rs
index 620e07f..579dbd6 100644
--- a/src/data/forecast_spectral_wave_data_record.rs
+++ b/src/data/forecast_spectral_wave_data_record.rs
@@ -370,11 +370,13 @@ impl<'a> ForecastSpectralWaveRecordIterator<'a> {
         while raw_energy.len() < energy_count {
             let line = self.lines.next().ok_or(DataRecordParsingError::EOF)?;
 
-            line.split_whitespace().map(f64::from_str).for_each(|v| {
-                if let Ok(v) = v {
-                    raw_energy.push(v);
-                }
-            });
+            for v in line.split_whitespace() {
+                raw_energy.push(v.parse::<f64>()?);
+            }
+        }
+
+        if raw_energy.len() != energy_count {
+            return Err(DataRecordParsingError::InvalidData);
         }
 
         //let mut energy = vec![0.0; raw_energy.len()];
-- 
2.43.0


From 97cc5324eacd64de9cf5a3c824343efe1488e66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 29/50] fix: round radians to the nearest whole degree

---
 src/units/direction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/units/direction.rs b/src/units/direction.rs
index 2ca3e4c..a303af2 100644
--- a/src/units/direction.rs
+++ b/src/units/direction.rs
@@ -48,7 +48,7 @@ impl Direction {
     }
 
     pub fn from_radians(radians: f64) -> Direction {
-        let degrees = radians.to_degrees() as i32;
+        let degrees = radians.to_degrees().round() as i32;
         Direction {
             direction: CardinalDirection::from_degrees(&degrees),
             degrees,
-- 
2.43.0


From fe60e462821a8161fe470f2aa7923336031243cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 30/50] fix: compute distances with the haversine formula

---
 src/location.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/location.rs b/src/location.rs
index 9e50afd..58c4284 100644
--- a/src/location.rs
+++ b/src/location.rs
@@ -78,18 +78,18 @@ impl Location {
     }
 
     pub fn distance(&self, other: &Location, unit: &UnitSystem) -> f64 {
-        let source_lat = self.absolute_latitude().to_radians();
+        let source_lat = self.relative_latitude().to_radians();
         let source_lon = self.absolute_longitude().to_radians();
-        let dest_lat = other.absolute_latitude().to_radians();
+        let dest_lat = other.relative_latitude().to_radians();
         let dest_lon = other.absolute_longitude().to_radians();
 
         // Compute using the haversine formula
         let d_lat = dest_lat - source_lat;
         let d_lon = dest_lon - source_lon;
 
-        let a = (d_lat * 0.5).powf(2.0).sin()
-            + source_lat.cos() * dest_lat.cos() * (d_lon * 0.5).powf(2.0).sin();
-        let c = 2.0 * a.sqrt().asin();
+        let a = (d_lat * 0.5).sin().powf(2.0)
+            + source_lat.cos() * dest_lat.cos() * (d_lon * 0.5).sin().powf(2.0);
+        let c = 2.0 * a.sqrt().min(1.0).asin();
         let r = unit.earths_radius();
 
         c * r
-- 
2.43.0


From 18cf7aa18ddfb95b360e40fe15ed3578e1fb5062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 31/50] fix: find locations in boxes that cross the prime or
 the 180th meridian

---
 src/location.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/location.rs b/src/location.rs
index 58c4284..9701d54 100644
--- a/src/location.rs
+++ b/src/location.rs
@@ -96,8 +96,10 @@ impl Location {
     }
 
     pub fn within_bbox(&self, bbox: &(f64, f64, f64, f64)) -> bool {
-        let within_lng = absolute_longitude(bbox.0) <= absolute_longitude(self.longitude)
-            && absolute_longitude(self.longitude) <= absolute_longitude(bbox.2);
+        // Measured eastward from the western edge, so that boxes may cross any meridian
+        let width = bbox.2 - bbox.0;
+        let within_lng = width >= 360.0
+            || (self.longitude - bbox.0).rem_euclid(360.0) <= width.rem_euclid(360.0);
         let within_lat = normalize_latitude(bbox.1) <= self.latitude
             && self.latitude <= normalize_latitude(bbox.3);
         within_lng && within_lat
-- 
2.43.0


From 188c50d6592f41a45af44c3c8432f536185f484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 32/50] fix: divide by gravity in the dispersion relation

---
 src/tools/waves.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 26ebd43..1076af1 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -22,7 +22,7 @@ pub fn ldis(period: f64, depth: f64) -> Result<f64, Error> {
     const MAX_ITERATION: usize = 50;
 
     let omega = 2.0 * PI / period;
-    let d = omega.powi(2) * depth * GRAVITY;
+    let d = omega.powi(2) * depth / GRAVITY;
 
     let mut iter: usize = 0;
     let mut err: f64 = 1.0;
-- 
2.43.0


From 336797d1dcac30af80d190b9b6b59ceb1d8016fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 33/50] fix: measure the angle between swell and beach across
 north

---
 src/tools/waves.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 1076af1..4fde338 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -131,15 +131,16 @@ pub fn estimate_breaking_wave_height(
     let deep_water_wave_height = swell.wave_height.value.as_ref().unwrap();
     let period = swell.period.value.as_ref().unwrap();
     let incident_angle =
-        (swell.direction.value.as_ref().unwrap().degrees as f64 - beach_angle).abs() as i32 % 360;
+        (swell.direction.value.as_ref().unwrap().degrees as f64 - beach_angle).rem_euclid(360.0);
+    let incident_angle = incident_angle.min(360.0 - incident_angle);
 
-    if incident_angle > 90 {
+    if incident_angle > 90.0 {
         return Err(Error::OutOfRange);
     }
 
     let (breaking_wave_height, _) = break_wave(
         *period,
-        incident_angle as f64,
+        incident_angle,
         *deep_water_wave_height,
         beach_slope,
         water_depth,
-- 
2.43.0


From f8cf3185d1e137ea3aa70078e56897e1814cb0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:10 +0000
Subject: [PATCH 34/50] fix: report no solar events during polar day and night

---
 src/solar.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/solar.rs b/src/solar.rs
index cff9524..e4998f3 100644
--- a/src/solar.rs
+++ b/src/solar.rs
@@ -26,6 +26,11 @@ pub fn calculate_solar_events(location: &Location, date: &DateTime<Utc>) -> Opti
     let sunrise = solar_day.event_time(SolarEvent::Sunrise);
     let sunset = solar_day.event_time(SolarEvent::Sunset);
 
+    // During polar day and night the sun neither rises nor sets
+    if sunrise >= sunset {
+        return None;
+    }
+
     Some(SolarEvents { sunrise, sunset })
 }
 
-- 
2.43.0


From 48c65168b456d000c6b8662c314ef4d787afa1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:10 +0000
Subject: [PATCH 35/50] fix: read back the dates of serialized tidal records

---
 src/data/tidal_data_record.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/data/tidal_data_record.rs b/src/data/tidal_data_record.rs
index d923728..cd958e7 100644
--- a/src/data/tidal_data_record.rs
+++ b/src/data/tidal_data_record.rs
@@ -27,8 +27,11 @@ where
     D: Deserializer<'de>,
 {
     let s: String = Deserialize::deserialize(deserializer)?;
-    let naive = NaiveDateTime::parse_from_str(&s, "%Y-%m-%d %H:%M").map_err(de::Error::custom)?;
-    Ok(DateTime::<Utc>::from_naive_utc_and_offset(naive, Utc))
+    // Either as the tides API writes dates, or as this record is serialized
+    match NaiveDateTime::parse_from_str(&s, "%Y-%m-%d %H:%M") {
+        Ok(naive) => Ok(DateTime::<Utc>::from_naive_utc_and_offset(naive, Utc)),
+        Err(e) => s.parse().map_err(|_| de::Error::custom(e)),
+    }
 }
 
 fn tidal_value_f64<'de, D: Deserializer<'de>>(deserializer: D) -> Result<f64, D::Error> {
-- 
2.43.0


From 8d27b39038f8c45aa2c14defd1def8bf1e518426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 36/50] fix: read NWS forecasts whose values are null

---
 src/data/nws_weather_forecast_data_record.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/data/nws_weather_forecast_data_record.rs b/src/data/nws_weather_forecast_data_record.rs
index 7d758f1..46808c7 100644
--- a/src/data/nws_weather_forecast_data_record.rs
+++ b/src/data/nws_weather_forecast_data_record.rs
@@ -31,7 +31,8 @@ impl NwsGridPointData {
 #[serde(rename_all = "camelCase")]
 struct WMODataField {
     unit_code: String,
-    value: f64,
+    // null when the value is not available
+    value: Option<f64>,
 }
 
 #[derive(Clone, Debug, Serialize, Deserialize)]
@@ -85,12 +86,12 @@ impl From<&NwsWeatherForecastPeriodData> for NwsWeatherForecastDataRecord {
                 unit: Unit::from(data.temperature_unit.as_str()),
             },
             dewpoint: DimensionalData {
-                value: Some(data.dewpoint.value),
+                value: data.dewpoint.value,
                 variable_name: "dewpoint".to_string(),
                 unit: Unit::from(data.dewpoint.unit_code.as_str()),
             },
             humidity: DimensionalData {
-                value: Some(data.relative_humidity.value),
+                value: data.relative_humidity.value,
                 variable_name: "humidity".to_string(),
                 unit: Unit::from(data.relative_humidity.unit_code.as_str()),
             },
-- 
2.43.0


From d710a3f955a1590980def307dd854515cf8a849d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 37/50] fix: break waves without height at no height

---
 src/tools/waves.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 4fde338..28c0a1d 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -171,10 +171,11 @@ pub fn break_wave(
     let a = 43.8 * (1.0 - (-19.0 * beach_slope).exp());
     let b = 1.56 / (1.0 + (-19.5 * beach_slope).exp());
     let deep_refracted_wave_height = refraction_coefficient * deep_water_wave_height;
-    let w = 0.56 * (deep_refracted_wave_height / deep_wavelength).powf(-0.2);
 
-    // Finally calculate the breaking wave height
-    let breaking_wave_height = w * deep_refracted_wave_height;
+    // Finally calculate the breaking wave height. This is 0.56 H0 (H0 / L0)^-0.2, arranged so that
+    // no waves break at no height
+    let breaking_wave_height =
+        0.56 * deep_refracted_wave_height.powf(0.8) * deep_wavelength.powf(0.2);
 
     // And the breaking wave depth
     let k = b - a * (breaking_wave_height / (GRAVITY * period.powi(2)));
-- 
2.43.0


From 020aeab2e2cb8052139bd5cd12ada97bf8d76520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:13 +0000
Subject: [PATCH 38/50] fix: refuse spectral forecast headers with unreadable
 values

---
 .../forecast_spectral_wave_data_record.rs     | 23 ++++++++-----------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/data/forecast_spectral_wave_data_record.rs b/src/data/forecast_spectral_wave_data_record.rs
index 579dbd6..97b4521 100644
--- a/src/data/forecast_spectral_wave_data_record.rs
+++ b/src/data/forecast_spectral_wave_data_record.rs
@@ -116,14 +116,11 @@ impl FromStr for ForecastSpectralWaveDataRecordMetadata {
 
             line_count += 1;
 
-            data_line.for_each(|v| {
+            for v in data_line {
                 if frequency.len() < frequency_count {
-                    let value = v.parse::<f64>();
-                    if let Ok(value) = value {
-                        frequency.push(value);
-                    }
+                    frequency.push(v.parse::<f64>()?);
                 }
-            })
+            }
         }
 
         while direction.len() < direction_count {
@@ -136,16 +133,14 @@ impl FromStr for ForecastSpectralWaveDataRecordMetadata {
 
             line_count += 1;
 
-            data_line.for_each(|v| {
+            for v in data_line {
                 if direction.len() < direction_count {
-                    let value = v.parse::<f64>();
-                    if let Ok(value) = value {
-                        let angle = ((value - (2.5 * PI)) % (2.0 * PI)).abs();
-                        direction.push(Direction::from_radians(angle));
-                        //direction.push(Direction::from_radians(value));
-                    }
+                    let value = v.parse::<f64>()?;
+                    let angle = ((value - (2.5 * PI)) % (2.0 * PI)).abs();
+                    direction.push(Direction::from_radians(angle));
+                    //direction.push(Direction::from_radians(value));
                 }
-            })
+            }
         }
 
         Ok(ForecastSpectralWaveDataRecordMetadata {
-- 
2.43.0


From 3f03fa939f1d871aeb7ac3a691b64e31f795baf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:54 +0000
Subject: [PATCH 39/50] fix: keep crowded bins from splitting the polar image's
 tree without end

---
 src/spectra.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index a06b20d..02f624b 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -455,8 +455,11 @@ impl Spectra {
                 let r =
                     ((size / 2) as f64) * (periods[*ik].powf(exp_scale) / period_scale_threshold);
                 let t = (directions[*ith] + 270.0) % 360.0;
-                let x = (origin.0 as f64) + (r * t.to_radians().cos());
-                let y = (origin.1 as f64) + (r * t.to_radians().sin());
+                // Snapped to a billionth of a pixel: a crowd of bins that differ by nothing but
+                // the last digit would have the tree split without end
+                let snap = |v: f64| (v * 1e9).round() / 1e9;
+                let x = snap((origin.0 as f64) + (r * t.to_radians().cos()));
+                let y = snap((origin.1 as f64) + (r * t.to_radians().sin()));
                 let p = [x, y];
                 let _ = kdtree.add(p, i);
             });
-- 
2.43.0


From 2baf47e453be19835efc0ea412d9a2545ac3d48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:41 +0000
Subject: [PATCH 40/50] fix: reject meteorological rows with missing columns or
 invalid dates

---
 src/data/meteorological_data_record.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/data/meteorological_data_record.rs b/src/data/meteorological_data_record.rs
index c4c4dee..961bbe4 100644
--- a/src/data/meteorological_data_record.rs
+++ b/src/data/meteorological_data_record.rs
@@ -42,16 +42,23 @@ impl ParseableDataRecord for MeteorologicalDataRecord {
         _: Option<&Self::Metadata>,
         row: &Vec<&str>,
     ) -> Result<MeteorologicalDataRecord, DataRecordParsingError> {
+        if row.len() < 19 {
+            return Err(DataRecordParsingError::ParseFailure(
+                "Invalid meteorological data record: not enough columns parsed".to_string(),
+            ));
+        }
+
         let date = Utc
             .with_ymd_and_hms(
-                row[0].parse().unwrap(),
-                row[1].parse().unwrap(),
-                row[2].parse().unwrap(),
-                row[3].parse().unwrap(),
-                row[4].parse().unwrap(),
+                row[0].parse()?,
+                row[1].parse()?,
+                row[2].parse()?,
+                row[3].parse()?,
+                row[4].parse()?,
                 0,
             )
-            .unwrap();
+            .single()
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         Ok(MeteorologicalDataRecord {
             date,
-- 
2.43.0


From 978923b0ac722815e28c5c6d100abc614977b672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:41 +0000
Subject: [PATCH 41/50] fix: reject latest observation rows with missing
 columns or invalid dates

---
 src/data/latest_obs_data_record.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/data/latest_obs_data_record.rs b/src/data/latest_obs_data_record.rs
index bd1027f..071e9ac 100644
--- a/src/data/latest_obs_data_record.rs
+++ b/src/data/latest_obs_data_record.rs
@@ -50,19 +50,26 @@ impl ParseableDataRecord for LatestObsDataRecord {
         _: Option<&Self::Metadata>,
         row: &Vec<&str>,
     ) -> Result<LatestObsDataRecord, DataRecordParsingError> {
+        if row.len() < 22 {
+            return Err(DataRecordParsingError::ParseFailure(
+                "Invalid latest observation record: not enough columns parsed".to_string(),
+            ));
+        }
+
         let station_id = row[0].to_string();
-        let latitude = row[1].parse().unwrap();
-        let longitude = row[2].parse().unwrap();
+        let latitude = row[1].parse()?;
+        let longitude = row[2].parse()?;
         let date = Utc
             .with_ymd_and_hms(
-                row[3].parse().unwrap(),
-                row[4].parse().unwrap(),
-                row[5].parse().unwrap(),
-                row[6].parse().unwrap(),
-                row[7].parse().unwrap(),
+                row[3].parse()?,
+                row[4].parse()?,
+                row[5].parse()?,
+                row[6].parse()?,
+                row[7].parse()?,
                 0,
             )
-            .unwrap();
+            .single()
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         Ok(LatestObsDataRecord {
             station_id,
-- 
2.43.0


From 5aa73b1e4010503b3c8152f5687584c1c1943912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:42 +0000
Subject: [PATCH 42/50] fix: name the visibility of observations

---
 src/data/latest_obs_data_record.rs     | 6 +++++-
 src/data/meteorological_data_record.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/data/latest_obs_data_record.rs b/src/data/latest_obs_data_record.rs
index 071e9ac..bbd6199 100644
--- a/src/data/latest_obs_data_record.rs
+++ b/src/data/latest_obs_data_record.rs
@@ -136,7 +136,11 @@ impl ParseableDataRecord for LatestObsDataRecord {
                 "dewpoint temperature".into(),
                 Unit::Celsius,
             ),
-            visibility: DimensionalData::from_raw_data(row[20], "".into(), Unit::NauticalMiles),
+            visibility: DimensionalData::from_raw_data(
+                row[20],
+                "visibility".into(),
+                Unit::NauticalMiles,
+            ),
             tide: DimensionalData::from_raw_data(row[21], "tide".into(), Unit::Feet),
         })
     }
diff --git a/src/data/meteorological_data_record.rs b/src/data/meteorological_data_record.rs
index 961bbe4..8e19220 100644
--- a/src/data/meteorological_data_record.rs
+++ b/src/data/meteorological_data_record.rs
@@ -113,7 +113,11 @@ impl ParseableDataRecord for MeteorologicalDataRecord {
                 "dewpoint temperature".into(),
                 Unit::Celsius,
             ),
-            visibility: DimensionalData::from_raw_data(row[16], "".into(), Unit::NauticalMiles),
+            visibility: DimensionalData::from_raw_data(
+                row[16],
+                "visibility".into(),
+                Unit::NauticalMiles,
+            ),
             air_pressure_tendency: DimensionalData::from_raw_data(
                 row[17],
                 "air pressure tendency".into(),
-- 
2.43.0


From 7ec7bdbc59bac693943fa45bf6c28b9a3ad5a4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:42 +0000
Subject: [PATCH 43/50] fix: read whether a buoy station has meteorological
 data

---
 src/buoy_station.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/buoy_station.rs b/src/buoy_station.rs
index 3dd4292..3ef7411 100644
--- a/src/buoy_station.rs
+++ b/src/buoy_station.rs
@@ -65,7 +65,12 @@ pub struct BuoyStation {
     #[serde(rename = "@type")]
     pub buoy_type: BuoyType,
 
-    #[serde(rename = "met", deserialize_with = "bool_from_simple_str", default)]
+    #[serde(
+        default,
+        rename = "@met",
+        alias = "met",
+        deserialize_with = "bool_from_simple_str"
+    )]
     pub has_meteorological_data: bool,
 
     #[serde(
-- 
2.43.0


From 704fa9a3d56a1b9b5025c802fb2f941a856ed7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:42 +0000
Subject: [PATCH 44/50] fix: count tsunami data as activity of a buoy station

---
 src/buoy_station.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buoy_station.rs b/src/buoy_station.rs
index 3ef7411..220d802 100644
--- a/src/buoy_station.rs
+++ b/src/buoy_station.rs
@@ -136,7 +136,7 @@ impl BuoyStation {
         self.has_meteorological_data
             || self.has_currents_data
             || self.has_water_quality_data
-            || self.has_water_quality_data
+            || self.has_tsnuami_data
     }
 
     pub fn latest_obs_data_url(&self) -> String {
-- 
2.43.0


From 29a6d6772901567ec17556c51489ceda8a395687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:42 +0000
Subject: [PATCH 45/50] fix: keep the words of buoy station names apart and
 drop whole bracketed notes

---
 src/buoy_station.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/buoy_station.rs b/src/buoy_station.rs
index 220d802..eb1464d 100644
--- a/src/buoy_station.rs
+++ b/src/buoy_station.rs
@@ -324,11 +324,16 @@ impl Station for BuoyStation {
                 _ => true,
             })
             .collect::<Vec<&str>>()
-            .join("");
+            .join(" ");
 
+        let mut bracketed = false;
         name = name
             .split_whitespace()
-            .filter(|s| if s.starts_with("(") { false } else { true })
+            .filter(|s| {
+                let inside = bracketed || s.starts_with("(");
+                bracketed = inside && !s.contains(")");
+                !inside
+            })
             .collect::<Vec<&str>>()
             .join(" ");
 
-- 
2.43.0


From 3a0a7f8760663cd59cc1f70e8ad825cc3910cd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:42 +0000
Subject: [PATCH 46/50] fix: refuse malformed DAP constraints

---
 src/tools/dap.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/tools/dap.rs b/src/tools/dap.rs
index 1c87ecf..d3ba118 100644
--- a/src/tools/dap.rs
+++ b/src/tools/dap.rs
@@ -26,18 +26,18 @@ impl FromStr for DapConstraint {
         .to_string();
         let ranges = parts
             .map(|range| {
-                let mut parts = range.split(':');
-                let start = parts.next().unwrap().parse::<usize>().unwrap();
-                let step = parts.next().unwrap().parse::<usize>().unwrap();
-                let end = parts
-                    .next()
-                    .unwrap()
-                    .replace("]", "")
-                    .parse::<usize>()
-                    .unwrap();
-                (start, step, end)
+                let parts = range
+                    .strip_suffix(']')
+                    .unwrap_or(range)
+                    .split(':')
+                    .map(|part| part.parse::<usize>().map_err(|e| e.to_string()))
+                    .collect::<Result<Vec<usize>, String>>()?;
+                match parts[..] {
+                    [start, step, end] => Ok((start, step, end)),
+                    _ => Err(format!("Invalid range for dap constraint: [{range}")),
+                }
             })
-            .collect::<Vec<(usize, usize, usize)>>();
+            .collect::<Result<Vec<(usize, usize, usize)>, String>>()?;
         Ok(Self { var, ranges })
     }
 }
-- 
2.43.0


From 5ae23c44c3c14702f2d41b8b66960b71b7983b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 47/50] fix: find the grid point of a location in grids that
 cross a meridian

---
 src/model/noaa_model.rs | 104 +++++++++++++++++++++-------------------
 1 file changed, 54 insertions(+), 50 deletions(-)

diff --git a/src/model/noaa_model.rs b/src/model/noaa_model.rs
index 2a6bdd9..e855a04 100644
--- a/src/model/noaa_model.rs
+++ b/src/model/noaa_model.rs
@@ -114,6 +114,32 @@ impl ModelTimeOutputResolution {
     }
 }
 
+/// The position of a location on a regular grid, in rows and columns from its first point
+fn grid_position(
+    location: &Location,
+    start: (f64, f64),
+    end: (f64, f64),
+    (lat_size, lng_size): (usize, usize),
+) -> (f64, f64) {
+    // The ends are the first and last grid points
+    let lat_last = lat_size as f64 - 1.0;
+    let lng_last = lng_size as f64 - 1.0;
+    let lat_step = (end.0 - start.0) / lat_last;
+    let lng_step = (end.1 - start.1) / lng_last;
+
+    let lat_position =
+        (location.relative_latitude() - normalize_latitude(start.0)) / lat_step;
+
+    // Measured along the grid from its first column, as it may cross any meridian
+    let lng_position = ((location.longitude - start.1) * lng_step.signum()).rem_euclid(360.0)
+        / lng_step.abs();
+
+    (
+        lat_position.clamp(0.0, lat_last),
+        lng_position.clamp(0.0, lng_last),
+    )
+}
+
 pub trait NOAAModel {
     fn id(&self) -> &'static str;
     fn name(&self) -> &'static str;
@@ -203,18 +229,15 @@ pub trait NOAAModel {
 
         // This only works for regular grids.
         let (lat_size, lng_size) = message.grid_dimensions()?;
-        let start = projector.latlng_start();
-        let end = projector.latlng_end();
-
-        let lng_step = (end.1 - start.1) / lng_size as f64;
-        let lat_step = (end.0 - start.0) / lat_size as f64;
+        let (lat_position, lng_position) = grid_position(
+            location,
+            projector.latlng_start(),
+            projector.latlng_end(),
+            (lat_size, lng_size),
+        );
 
-        let lng_index = ((location.relative_longitude() - normalize_longitude(start.1)) / lng_step)
-            .abs()
-            .round() as usize;
-        let lat_index = ((location.relative_latitude() - normalize_latitude(start.0)) / lat_step)
-            .abs()
-            .round() as usize;
+        let lat_index = lat_position.round() as usize;
+        let lng_index = lng_position.round() as usize;
 
         let data = message.data()?;
         let latlng_index = lng_index + lng_size * lat_index;
@@ -238,58 +261,39 @@ pub trait NOAAModel {
 
         // This only works for regular grids.
         let (lat_size, lng_size) = message.grid_dimensions()?;
-        let start = projector.latlng_start();
-        let end = projector.latlng_end();
-
-        let lng_step = (end.1 - start.1) / lng_size as f64;
-        let lat_step = (end.0 - start.0) / lat_size as f64;
-
-        let lng_lower_index = ((location.relative_longitude() - normalize_longitude(start.1))
-            / lng_step)
-            .abs()
-            .floor() as usize;
-        let lng_upper_index = ((location.relative_longitude() - normalize_longitude(start.1))
-            / lng_step)
-            .abs()
-            .ceil() as usize;
-        let lat_lower_index = ((location.relative_latitude() - normalize_latitude(start.0))
-            / lat_step)
-            .abs()
-            .floor() as usize;
-        let lat_upper_index = ((location.relative_latitude() - normalize_latitude(start.0))
-            / lat_step)
-            .abs()
-            .ceil() as usize;
+        let (lat_position, lng_position) = grid_position(
+            location,
+            projector.latlng_start(),
+            projector.latlng_end(),
+            (lat_size, lng_size),
+        );
 
-        let (lat, lng) = projector.lat_lng();
-        let data = message.data()?;
+        let (y0, y1) = (lat_position.floor(), lat_position.ceil());
+        let (x0, x1) = (lng_position.floor(), lng_position.ceil());
 
-        let a = data[lat_lower_index * lng_size + lng_lower_index];
-        let b = data[lat_lower_index * lng_size + lng_upper_index];
-        let c = data[lat_upper_index * lng_size + lng_lower_index];
-        let d = data[lat_upper_index * lng_size + lng_upper_index];
+        let data = message.data()?;
 
-        let x0 = normalize_longitude(lng[lng_lower_index]);
-        let x1 = normalize_longitude(lng[lng_upper_index]);
-        let y0 = normalize_latitude(lat[lat_lower_index * lng_size]);
-        let y1 = normalize_latitude(lat[lat_upper_index * lng_size]);
+        let a = data[y0 as usize * lng_size + x0 as usize];
+        let b = data[y0 as usize * lng_size + x1 as usize];
+        let c = data[y1 as usize * lng_size + x0 as usize];
+        let d = data[y1 as usize * lng_size + x1 as usize];
 
-        let value = if lat_lower_index == lat_upper_index && lng_lower_index == lng_upper_index {
+        let value = if y0 == y1 && x0 == x1 {
             a
-        } else if lat_lower_index == lat_upper_index {
-            lerp(&a, &b, &location.longitude, &x0, &x1)
-        } else if lng_lower_index == lat_lower_index {
-            lerp(&a, &c, &location.latitude, &y0, &y1)
+        } else if y0 == y1 {
+            lerp(&a, &b, &lng_position, &x0, &x1)
+        } else if x0 == x1 {
+            lerp(&a, &c, &lat_position, &y0, &y1)
         } else {
             bilerp(
                 &a,
                 &b,
                 &c,
                 &d,
-                &location.longitude,
+                &lng_position,
                 &x0,
                 &x1,
-                &location.latitude,
+                &lat_position,
                 &y0,
                 &y1,
             )
-- 
2.43.0


From d6c23435a1b0b2065642c3c821e7f1678cf8f25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 48/50] fix: include grid points across the 180th meridian
 within the tolerance

---
 src/model/noaa_model.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/model/noaa_model.rs b/src/model/noaa_model.rs
index e855a04..63559e6 100644
--- a/src/model/noaa_model.rs
+++ b/src/model/noaa_model.rs
@@ -187,8 +187,6 @@ pub trait NOAAModel {
 
         let min_lat = location.relative_latitude() - *tolerance;
         let max_lat = location.relative_latitude() + *tolerance;
-        let min_lng = location.relative_longitude() - *tolerance;
-        let max_lng = location.relative_longitude() + *tolerance;
 
         let data = message.data()?;
 
@@ -204,8 +202,8 @@ pub trait NOAAModel {
 
                 normalize_latitude(lat[row]) >= min_lat
                     && normalize_latitude(lat[row]) <= max_lat
-                    && normalize_longitude(lng[col]) >= min_lng
-                    && normalize_longitude(lng[col]) <= max_lng
+                    && normalize_longitude((lng[col] - location.longitude).rem_euclid(360.0)).abs()
+                        <= *tolerance
             })
             .map(|(_, v)| *v)
             .collect();
-- 
2.43.0


From ba4a68eaf70f7c1e23e5e29a58fae64182d96f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:38 +0000
Subject: [PATCH 49/50] fix: average the directions of grid points across north

---
 src/data/gfs_wave_grib_point_data_record.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/data/gfs_wave_grib_point_data_record.rs b/src/data/gfs_wave_grib_point_data_record.rs
index ec61a95..0e50983 100644
--- a/src/data/gfs_wave_grib_point_data_record.rs
+++ b/src/data/gfs_wave_grib_point_data_record.rs
@@ -24,6 +24,18 @@ pub struct GFSWaveGribPointDataRecord {
     pub swell_components: Vec<Swell>,
 }
 
+/// The mean of directions that lie close together, on either side of north too
+fn mean_degrees(values: &[f64]) -> f64 {
+    let Some(first) = values.first() else {
+        return f64::NAN;
+    };
+    let sum: f64 = values
+        .iter()
+        .map(|v| (v - first + 180.0).rem_euclid(360.0) - 180.0)
+        .sum();
+    (first + sum / values.len() as f64).rem_euclid(360.0)
+}
+
 impl GFSWaveGribPointDataRecord {
     pub fn from_messages(
         model: &impl NOAAModel,
@@ -58,8 +70,12 @@ impl GFSWaveGribPointDataRecord {
 
             match model.query_location_tolerance(location, &tolerance, m) {
                 Ok(value) => {
-                    let sum: f64 = value.iter().sum();
-                    let mean: f64 = sum / value.len() as f64;
+                    let mean = if abbrev.contains("DIR") {
+                        mean_degrees(&value)
+                    } else {
+                        let sum: f64 = value.iter().sum();
+                        sum / value.len() as f64
+                    };
                     data.insert(abbrev, mean);
                 }
                 Err(err) => println!("{err}"),
-- 
2.43.0


From b20459bd67854b26e266653e1aabda5b729195db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:55 +0000
Subject: [PATCH 50/50] fix: put east-northeast in the middle of its compass
 point

---
 src/units/cardinal_direction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/units/cardinal_direction.rs b/src/units/cardinal_direction.rs
index 1bfd68d..a9075ab 100644
--- a/src/units/cardinal_direction.rs
+++ b/src/units/cardinal_direction.rs
@@ -54,7 +54,7 @@ impl CardinalDirection {
             CardinalDirection::North => 0,
             CardinalDirection::NorthNorthEast => 23,
             CardinalDirection::NorthEast => 45,
-            CardinalDirection::EastNorthEast => 69,
+            CardinalDirection::EastNorthEast => 68,
             CardinalDirection::East => 90,
             CardinalDirection::EastSouthEast => 112,
             CardinalDirection::SouthEast => 135,
-- 
2.43.0

