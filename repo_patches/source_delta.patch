From 504a35722205bc42c7e5958e02c3b464ff850711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:58 +0000
Subject: [PATCH 01/19] fix: report the cell volume as a positive number

The volume was the signed determinant of the lattice. A left-handed cell
had a negative volume, and the tolerance of the Niggli reduction, which
takes its cube root, became NaN.
---
 src/structure.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structure.rs b/src/structure.rs
index 7d765df..d15f540 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -121,7 +121,7 @@ impl Structure {
 
     /// Volume of the unit cell in angstroms
     pub fn volume(&self) -> f64 {
-        self.lattice.determinant()
+        self.lattice.determinant().abs()
     }
 
     /// Metric tensor of lattice matrix
-- 
2.43.0


From a55a8bcb2378583347976901187265846b8a1924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:58 +0000
Subject: [PATCH 02/19] fix: count more than 127 sites of a species in formulas

The tally used an 8-bit integer and overflowed for large cells.
---
 src/structure.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index d15f540..7b67a05 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -333,7 +333,7 @@ impl Structure {
 
     /// Formula and reduced formula of the structure.
     pub fn formulas(&self) -> (String, String) {
-        let mut species_tally = HashMap::<&String, i8>::new();
+        let mut species_tally = HashMap::<&String, usize>::new();
 
         let mut max_count = 0;
 
@@ -345,7 +345,7 @@ impl Structure {
                 max_count = *count;
             }
         }
-        let mut gcf: i8 = 1;
+        let mut gcf: usize = 1;
 
         for div in 2..(max_count + 1) {
             if species_tally.values().all(|&tally| (tally % div) == 0) {
-- 
2.43.0


From c08c6e44b01e8af0fbd6905dd22effcc7c39ba4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:58 +0000
Subject: [PATCH 03/19] fix: end the site search of a transformation at the
 exact site count

The volume ratio was rounded to two digits. For ratios such as 2/3 or 1/6
the rounded value is larger than the true one, so the search for new
sites never ended.
---
 src/structure.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index 7b67a05..7354d75 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -158,11 +158,12 @@ impl Structure {
         let mut new_frac_coords: Vec<Vector3<f64>> = Vec::new();
         let mut new_species: Vec<String> = Vec::new();
 
-        let volume_ratio = (transformation_matrix.determinant().abs() * 100.0).round() / 100.0;
+        let volume_ratio = transformation_matrix.determinant().abs();
+        let new_num_sites = (self.coords.len() as f64 * volume_ratio).round() as usize;
 
         // Search for new sites in transformed cell using volume ratio to determine proper number of sites
         let mut mult = 2;
-        while (new_frac_coords.len() as f64 / self.coords.len() as f64) < volume_ratio {
+        while new_frac_coords.len() < new_num_sites {
             let mut translation_vecs: Vec<Vector3<f64>> = Vec::new();
 
             for (i, j, k) in iproduct!(0..mult, 0..mult, 0..mult) {
-- 
2.43.0


From 52d8f8a72d2e0dee3ed123647c63b5908e62186e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:58 +0000
Subject: [PATCH 04/19] fix: compare transformed sites in the transformed
 lattice

Differences of new fractional coordinates were converted to distances
with the old lattice. Distinct sites of long cells were merged, and the
search for the missing sites did not end.
---
 src/structure.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index 7354d75..111ec47 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -139,12 +139,6 @@ impl Structure {
     /// * `transformation_matrix` - A 3x3 matrix representing the transformation.
     /// * `pos_tol` - Position tolerance in angstroms to use when comparing atomic sites.
     pub fn apply_transformation(&mut self, transformation_matrix: &Matrix3<f64>, pos_tol: &f64) {
-        let frac_tols = Vector3::from_iterator(
-            self.lattice
-                .column_iter()
-                .map(|col| pos_tol / col.magnitude()),
-        );
-
         let mut inv_trans_mat: Matrix3<f64> = Matrix3::identity();
 
         let inverted = try_invert_to(*transformation_matrix, &mut inv_trans_mat);
@@ -155,6 +149,12 @@ impl Structure {
 
         let new_lattice = self.lattice * transformation_matrix;
 
+        let frac_tols = Vector3::from_iterator(
+            new_lattice
+                .column_iter()
+                .map(|col| pos_tol / col.magnitude()),
+        );
+
         let mut new_frac_coords: Vec<Vector3<f64>> = Vec::new();
         let mut new_species: Vec<String> = Vec::new();
 
@@ -180,7 +180,7 @@ impl Structure {
                     for new_coord in new_frac_coords.iter() {
                         let mut coord_diff = vec![frac_coord - new_coord];
                         normalize_frac_vectors(&mut coord_diff, &frac_tols);
-                        let cart_coord_delta = Self::get_cart_coords(&self.lattice, &coord_diff);
+                        let cart_coord_delta = Self::get_cart_coords(&new_lattice, &coord_diff);
 
                         if cart_coord_delta[0].magnitude().abs() <= (pos_tol * 2.0) {
                             eq = true;
-- 
2.43.0


From da4ac79f5a097a5188c62625755b209a357d3ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:27 +0000
Subject: [PATCH 05/19] fix: invert lattices accurately

The pseudo-inverse loses up to ten digits for a few lattices, so that
coordinates and recovered transformations were off by about 1e-5.
---
 src/structure.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index 111ec47..3b84997 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -282,9 +282,7 @@ impl Structure {
         lattice: &Matrix3<f64>,
         cart_coords: &[Vector3<f64>],
     ) -> Vec<Vector3<f64>> {
-        let inverted_lattice = (*lattice)
-            .pseudo_inverse(ZERO_TOL)
-            .expect("Crystal lattice is not invertible!");
+        let inverted_lattice = Self::invert_lattice(lattice);
 
         let mut new_coords = cart_coords.to_owned();
 
@@ -384,12 +382,27 @@ impl Structure {
     ///
     /// * `structure` - A transformed structure
     pub fn get_transformation_matrix(&self, structure: &Structure) -> Matrix3<f64> {
-        let inv_lattice: Matrix3<f64> = self
-            .lattice
+        let inv_lattice: Matrix3<f64> = Self::invert_lattice(&self.lattice);
+
+        inv_lattice * structure.lattice
+    }
+
+    /// Inverse of a lattice matrix.
+    fn invert_lattice(lattice: &Matrix3<f64>) -> Matrix3<f64> {
+        let inverted_lattice = lattice
             .pseudo_inverse(ZERO_TOL)
             .expect("Crystal lattice is not invertible!");
 
-        inv_lattice * structure.lattice
+        // The singular value decomposition is inaccurate for a few lattices
+        let error = (inverted_lattice * lattice - Matrix3::identity()).amax();
+
+        if error > 1e-10 {
+            return lattice
+                .try_inverse()
+                .expect("Crystal lattice is not invertible!");
+        }
+
+        inverted_lattice
     }
 }
 
-- 
2.43.0


From cc838dbeaf9625fc2f7b0a829eece3dd344923ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:56 +0000
Subject: [PATCH 06/19] fix: choose primitive vectors which span the whole
 lattice

The third vector was only accepted when it completed a right-handed
set, otherwise an arbitrary vector was used and the cell could be flat.
The three shortest candidates can also span only a part of the
translations, which left the cell larger than primitive.
---
 src/reduce.rs | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index e6aff14..763bbe0 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -118,7 +118,12 @@ impl Reducer {
         let mut cart_translation_vecs: Vec<Vector3<f64>> =
             Structure::get_cart_coords(&temp_structure.lattice, &translation_vecs);
 
-        let frac_translation_vecs = self.get_shortest_translation_vecs(&mut cart_translation_vecs);
+        // Each translation which is not a lattice vector of the input divides the volume further
+        let num_translations = (translation_vecs.len() - 2) as f64;
+        let prim_volume = temp_structure.volume() / num_translations;
+
+        let frac_translation_vecs =
+            self.get_shortest_translation_vecs(&mut cart_translation_vecs, prim_volume);
 
         //
         // 5.) Add combinations of shortest vectors
@@ -162,7 +167,8 @@ impl Reducer {
         let mut cart_translation_vecs: Vec<Vector3<f64>> =
             Structure::get_cart_coords(&temp_structure.lattice, &combination_vecs);
 
-        let final_cart_vecs = self.get_shortest_translation_vecs(&mut cart_translation_vecs);
+        let final_cart_vecs =
+            self.get_shortest_translation_vecs(&mut cart_translation_vecs, prim_volume);
 
         //
         // 6.) Create a new structure object with new lattice and coords.
@@ -509,7 +515,12 @@ impl Reducer {
     }
 
     /// Function to get three shortest (right-handed) cartestian translation vectors which still span the lattice.
-    fn get_shortest_translation_vecs(&self, cart_vecs: &mut [Vector3<f64>]) -> Vec<Vector3<f64>> {
+    /// The vectors have to enclose the volume of the primitive cell, otherwise they only span a part of the lattice.
+    fn get_shortest_translation_vecs(
+        &self,
+        cart_vecs: &mut [Vector3<f64>],
+        prim_volume: f64,
+    ) -> Vec<Vector3<f64>> {
         cart_vecs.sort_by(|a, b| a.magnitude().partial_cmp(&b.magnitude()).unwrap());
 
         let first = cart_vecs[0];
@@ -535,6 +546,25 @@ impl Reducer {
 
         let final_vecs = vec![cart_vecs[0], cart_vecs[second_ind], cart_vecs[third_ind]];
 
+        let spans_lattice = |volume: f64| (volume / prim_volume - 1.0).abs() < 0.5;
+
+        if spans_lattice(Matrix3::from_columns(&final_vecs).determinant()) {
+            return final_vecs;
+        }
+
+        // Try all combinations, and invert the last vector of left-handed ones
+        for (third_ind, third) in cart_vecs.iter().enumerate() {
+            for (second_ind, second) in cart_vecs[..third_ind].iter().enumerate() {
+                for first in cart_vecs[..second_ind].iter() {
+                    let volume = first.cross(second).dot(third);
+
+                    if spans_lattice(volume.abs()) {
+                        return vec![*first, *second, *third * volume.signum()];
+                    }
+                }
+            }
+        }
+
         final_vecs
     }
 
-- 
2.43.0


From 79130e49b717c15bbcf2a97aa0913b44ee1dfbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:30 +0000
Subject: [PATCH 07/19] fix: fold sites into the primitive cell with its own
 lattice

Distances between folded sites were measured with the lattice of the
input cell, so that slightly displaced copies of a site were kept.
---
 src/reduce.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index 763bbe0..18732d8 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -177,6 +177,12 @@ impl Reducer {
 
         let new_lattice = Matrix3::from_columns(&final_cart_vecs);
 
+        let frac_tols = Vector3::from_iterator(
+            new_lattice
+                .column_iter()
+                .map(|col| self.dtol / col.magnitude()),
+        );
+
         let temp_frac_coords = Structure::get_frac_coords(&new_lattice, &temp_structure.coords);
 
         let mut new_frac_coords: Vec<Vector3<f64>> = Vec::new();
@@ -188,8 +194,7 @@ impl Reducer {
             for new_coord in new_frac_coords.iter() {
                 let mut coord_diff = vec![coord - new_coord];
                 normalize_frac_vectors(&mut coord_diff, &frac_tols);
-                let cart_coord_delta =
-                    Structure::get_cart_coords(&temp_structure.lattice, &coord_diff);
+                let cart_coord_delta = Structure::get_cart_coords(&new_lattice, &coord_diff);
 
                 if cart_coord_delta[0].magnitude().abs() <= (self.dtol * 2.0) {
                     eq = true;
-- 
2.43.0


From 0a3be0527b883821125e9021fea183402190295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:22 +0000
Subject: [PATCH 08/19] fix: generate space groups with the composition of
 operations

The product used for closing the group rotated the wrong translation,
so that groups with non-commuting rotations gained operations which
are not symmetries.
---
 src/spacegroup.rs |  2 +-
 src/symmop.rs     | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/spacegroup.rs b/src/spacegroup.rs
index e77a627..2dc6a57 100644
--- a/src/spacegroup.rs
+++ b/src/spacegroup.rs
@@ -139,7 +139,7 @@ impl SpaceGroup {
             let mut generated: Vec<SymmOp> = Vec::new();
 
             for (m1, m2) in iproduct!(symm_ops.clone(), new_ops) {
-                let mut op = m1 * m2;
+                let mut op = m1.compose(&m2);
 
                 if !(symm_ops
                     .iter()
diff --git a/src/symmop.rs b/src/symmop.rs
index d1147bd..3fe4271 100644
--- a/src/symmop.rs
+++ b/src/symmop.rs
@@ -29,6 +29,20 @@ impl SymmOp {
         (self.rotation == op.rotation) && translation_eq
     }
 
+    /// Composition of two symmetry operations, `{ R1*R2 | (R1*t2)+t1 }`, which applies `op` first.
+    ///
+    /// # Arguments
+    ///
+    /// * `op` - Symmetry operation which is applied before this one.
+    pub fn compose(&self, op: &Self) -> Self {
+        let float_rotation: Matrix3<f64> = self.rotation.cast::<f64>();
+
+        Self {
+            rotation: self.rotation * op.rotation,
+            translation: (float_rotation * op.translation) + self.translation,
+        }
+    }
+
     /// Normalize the fractional components of the translation component such that all lie within `(-tol, 1+tol)`.
     ///
     /// # Arguments
-- 
2.43.0


From 7e7898aee8775d6e28ffc5998cddc18251ac98e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:23 +0000
Subject: [PATCH 09/19] fix: list repeated generators of a space group once

---
 src/spacegroup.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/spacegroup.rs b/src/spacegroup.rs
index 2dc6a57..a8ccd08 100644
--- a/src/spacegroup.rs
+++ b/src/spacegroup.rs
@@ -133,8 +133,18 @@ impl SpaceGroup {
     }
 
     fn ops_from_generators(generators: &[SymmOp], frac_tols: &Vector3<f64>) -> Vec<SymmOp> {
-        let mut symm_ops: Vec<SymmOp> = generators.to_vec();
-        let mut new_ops: Vec<SymmOp> = generators.to_vec();
+        let mut symm_ops: Vec<SymmOp> = Vec::new();
+
+        for generator in generators {
+            if !(symm_ops
+                .iter()
+                .any(|symm_op| symm_op.is_approx_eq(generator, frac_tols)))
+            {
+                symm_ops.push(generator.clone());
+            }
+        }
+
+        let mut new_ops: Vec<SymmOp> = symm_ops.clone();
         while !new_ops.is_empty() {
             let mut generated: Vec<SymmOp> = Vec::new();
 
-- 
2.43.0


From 7d3c7dea9808d6683074ee98af03c6a02a46ed2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:23 +0000
Subject: [PATCH 10/19] fix: put rhombohedral lattices into the rhombohedral
 system

They were searched among the hexagonal space groups, where none of
their groups is listed, and could not be identified.
---
 src/data/core.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/data/core.rs b/src/data/core.rs
index 9f38019..b1f4d5a 100644
--- a/src/data/core.rs
+++ b/src/data/core.rs
@@ -127,6 +127,11 @@ impl BravaisType {
     }
 
     pub fn lattice_system(&self) -> LatticeSystem {
+        // Shares the first letter with the hexagonal system
+        if self == &BravaisType::hR {
+            return LatticeSystem::Rhombohedral;
+        }
+
         let system: String = self.to_string().chars().next().unwrap().to_string();
 
         LatticeSystem::from_str(&system).expect("Problem determining lattice system.")
-- 
2.43.0


From f78abfbed6c4d0d7320f33458438c2f7520a26f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:24 +0000
Subject: [PATCH 11/19] fix: classify lattices with accidentally equal lengths

Lattices of low symmetry with two or three equal lengths match none of
the lattice characters for equal lengths and made the analysis fail.
---
 src/analyzer.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/analyzer.rs b/src/analyzer.rs
index 9cb31b5..6c0d232 100644
--- a/src/analyzer.rs
+++ b/src/analyzer.rs
@@ -384,17 +384,19 @@ impl SymmetryAnalyzer {
 
         let mut char_num = 0;
 
-        let vecs: Vec<(Vector3<f64>, u8)>;
+        let mut vecs: Vec<(Vector3<f64>, u8)> = Vec::new();
 
+        // Equal lengths may be accidental, so the less restrictive sets have to be tried as well
         if cust_eq(&a, &b, &epsilon) && cust_eq(&a, &c, &epsilon) {
-            vecs = Self::get_first_set(type_i, a, b, d, e, f, epsilon);
-        } else if cust_eq(&a, &b, &epsilon) {
-            vecs = Self::get_second_set(type_i, a, b, d, e, f, epsilon);
-        } else if cust_eq(&b, &c, &epsilon) {
-            vecs = Self::get_third_set(type_i, a, b, d, e, f, epsilon);
-        } else {
-            vecs = Self::get_fourth_set(type_i, a, b, d, e, f);
+            vecs.extend(Self::get_first_set(type_i, a, b, d, e, f, epsilon));
+        }
+        if cust_eq(&a, &b, &epsilon) {
+            vecs.extend(Self::get_second_set(type_i, a, b, d, e, f, epsilon));
+        }
+        if cust_eq(&b, &c, &epsilon) {
+            vecs.extend(Self::get_third_set(type_i, a, b, d, e, f, epsilon));
         }
+        vecs.extend(Self::get_fourth_set(type_i, a, b, d, e, f));
 
         for (vec, num) in vecs {
             if vec
-- 
2.43.0


From 03182f0a6adf507a5c82f8cb41d07d9a610c150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:25 +0000
Subject: [PATCH 12/19] fix: correct the symbols of space groups 19 and 24

---
 src/data/spacegroup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/spacegroup.rs b/src/data/spacegroup.rs
index 3877fdc..1e8a9bf 100644
--- a/src/data/spacegroup.rs
+++ b/src/data/spacegroup.rs
@@ -24,12 +24,12 @@ lazy_static! {
             (16, "P222"),
             (17, "P222_1"),
             (18, "P2_12_12"),
-            (19, "P2_12_121"),
+            (19, "P2_12_12_1"),
             (20, "C222_1"),
             (21, "C222"),
             (22, "F222"),
             (23, "I222"),
-            (24, "I2_12_121"),
+            (24, "I2_12_12_1"),
             (25, "Pmm2"),
             (26, "Pmc2_1"),
             (27, "Pcc2"),
-- 
2.43.0


From f2014df19a08383be14f6d5c40c431c098124232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:26 +0000
Subject: [PATCH 13/19] fix: detect an unfinished Delaunay reduction

The step limit was tested with the wrong count, so that cells which
need more steps were returned without being reduced.
---
 src/reduce.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index 18732d8..6ca2fb3 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -437,7 +437,7 @@ impl Reducer {
         let mut count = 0;
 
         // Iterate until all scalar prods are <= zero
-        while scalar_prods.iter().any(|val| val > &ZERO_TOL) && count <= 100 {
+        while scalar_prods.iter().any(|val| val > &ZERO_TOL) && count < 100 {
             let mut max_scalar_prod = &0.0;
             let mut max_index = 0_usize;
             for (i, entry) in scalar_prods.iter().enumerate() {
@@ -466,7 +466,7 @@ impl Reducer {
             count += 1;
         }
 
-        if count == 100 {
+        if scalar_prods.iter().any(|val| val > &ZERO_TOL) {
             panic!("Reached max number of iterations without reduction!")
         }
 
-- 
2.43.0


From f24dae6914f5dc962c8b250de06c2fab41e5d43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:27 +0000
Subject: [PATCH 14/19] fix: keep exactly the operations which fit the
 transformed cell

Operations with a single integer entry were kept with rounded rotation
matrices, and the number of operations to search for was wrong when
operations were dropped, which could make the search endless.
---
 src/spacegroup.rs | 70 ++++++++++++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 28 deletions(-)

diff --git a/src/spacegroup.rs b/src/spacegroup.rs
index a8ccd08..4f9986d 100644
--- a/src/spacegroup.rs
+++ b/src/spacegroup.rs
@@ -50,17 +50,41 @@ impl SpaceGroup {
 
         // Find extra unit translations included in new cell if it is bigger
 
-        let volume_ratio = (transformation_matrix.determinant().abs() * 100.0).round() / 100.0;
+        let volume_ratio = transformation_matrix.determinant().abs();
+
+        // Keep the operations which map the new lattice onto itself, the others have
+        // non-integer rotation matrices
+        let int_tol = frac_tols.max().max(ZERO_TOL);
+
+        let kept_operations: Vec<(Matrix3<i8>, Vector3<f64>)> = self
+            .operations
+            .iter()
+            .filter_map(|op| {
+                let float_rot =
+                    inv_trans_mat * op.rotation.cast::<f64>() * transformation_matrix;
+
+                if float_rot
+                    .iter()
+                    .all(|val| (val - val.round()).abs() < int_tol)
+                {
+                    Some((float_rot.map(|x| x.round() as i8), op.translation))
+                } else {
+                    None
+                }
+            })
+            .collect();
+
+        let new_num_ops = (kept_operations.len() as f64 * volume_ratio).round() as usize;
 
         let mut new_operations: Vec<SymmOp> = Vec::new();
 
         // Set up found vector mapping
         let mut found_vectors_mapping: HashMap<Matrix3<i8>, Vec<Vector3<f64>>> = HashMap::new();
 
-        let mut initial_num_ops = self.operations.len() as f64;
-
         let mut mult = 2;
-        while (new_operations.len() as f64 / initial_num_ops) < volume_ratio {
+        while new_operations.len() < new_num_ops {
+            let found_num_ops = new_operations.len();
+
             let mut translation_vecs: Vec<Vector3<f64>> = Vec::new();
 
             // Generate unit translation vectors
@@ -68,33 +92,17 @@ impl SpaceGroup {
                 translation_vecs.push(Vector3::new(i as f64, j as f64, k as f64))
             }
 
-            for op in self.operations.iter() {
-                // Calculate transformed rotation matrix
-                let mut float_rot = op.rotation.cast::<f64>();
-                float_rot = inv_trans_mat * float_rot * transformation_matrix;
-
-                // Throw out non-integer rotation matrices
-                if !float_rot
-                    .iter()
-                    .any(|val| (val.abs() < ZERO_TOL) || ((val.abs() - 1.0).abs() < ZERO_TOL))
-                {
-                    initial_num_ops -= 1.0;
-                    continue;
-                }
-
-                let trans_rotation =
-                    Matrix3::from_iterator(float_rot.iter().map(|&x| x.round() as i8));
-
+            for (trans_rotation, translation) in kept_operations.iter() {
                 // Iterate through candidate transformed translation vector for a specific symm op
                 // and check if it has been seen before. If not, add it to the list of new operations.
                 for vec in translation_vecs.iter() {
-                    let mut trans_vec = vec![inv_trans_mat * (op.translation + vec)];
+                    let mut trans_vec = vec![inv_trans_mat * (translation + vec)];
                     normalize_frac_vectors(&mut trans_vec, frac_tols);
 
                     let mut unique = true;
 
                     for found_trans_vec in found_vectors_mapping
-                        .entry(trans_rotation)
+                        .entry(*trans_rotation)
                         .or_default()
                         .iter()
                     {
@@ -115,18 +123,24 @@ impl SpaceGroup {
                     if unique {
                         normalize_frac_vectors(&mut trans_vec, frac_tols);
                         found_vectors_mapping
-                            .entry(trans_rotation)
+                            .entry(*trans_rotation)
                             .or_insert(Vec::new())
                             .push(trans_vec[0]);
 
                         // Add new ops to group
-                        let mut new_op = op.clone();
-                        new_op.translation = trans_vec[0];
-                        new_op.rotation = trans_rotation;
-                        new_operations.push(new_op)
+                        new_operations.push(SymmOp {
+                            rotation: *trans_rotation,
+                            translation: trans_vec[0],
+                        })
                     }
                 }
             }
+
+            // A larger range which adds no translation means that all of them are known
+            if new_operations.len() == found_num_ops {
+                break;
+            }
+
             mult += 1;
         }
         self.operations = new_operations;
-- 
2.43.0


From 9b206d895e6a578e13f0fc6a0db554ad573be47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:51 +0000
Subject: [PATCH 15/19] fix: give lattice character 17 a right-handed
 conventional cell

---
 src/data/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/core.rs b/src/data/core.rs
index b1f4d5a..f254e69 100644
--- a/src/data/core.rs
+++ b/src/data/core.rs
@@ -239,7 +239,7 @@ lazy_static! {
             (15, Matrix3::new(1,0,0,0,1,0,1,1,2)),
             (16, Matrix3::new(-1,-1,0,1,-1,0,1,1,2)),
             (14, Matrix3::new(1,1,0,-1,1,0,0,0,1)),
-            (17, Matrix3::new(1,-1,0,1,1,0,-1,0,-1)),
+            (17, Matrix3::new(1,-1,0,-1,-1,0,-1,0,-1)),
             // Third set, B=C
             (18, Matrix3::new(0,-1,1,1,-1,-1,1,0,0)),
             (19, Matrix3::new(-1,0,0,0,-1,1,-1,1,1)),
-- 
2.43.0


From 9a2940732815ade86177a992477a9c7c2d50b076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:55 +0000
Subject: [PATCH 16/19] fix: stop the search for transformed sites which do not
 exist

If sites of a crystal agree only roughly with a translation, the number of
sites expected from the volume cannot be reached and the search went on
forever. It now ends with a panic.
---
 src/structure.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/structure.rs b/src/structure.rs
index 3b84997..1c5a4b0 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -162,8 +162,13 @@ impl Structure {
         let new_num_sites = (self.coords.len() as f64 * volume_ratio).round() as usize;
 
         // Search for new sites in transformed cell using volume ratio to determine proper number of sites
+        let max_mult = 2 * volume_ratio.ceil() as usize + 20;
         let mut mult = 2;
         while new_frac_coords.len() < new_num_sites {
+            if mult > max_mult {
+                panic!("Could not find all sites of the transformed structure!");
+            }
+
             let mut translation_vecs: Vec<Vector3<f64>> = Vec::new();
 
             for (i, j, k) in iproduct!(0..mult, 0..mult, 0..mult) {
-- 
2.43.0


From e20439f149ae18e1bea3002a9577c33e298c560f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:55 +0000
Subject: [PATCH 17/19] fix: stop generating space groups which do not close

Operations which hold only roughly can generate more and more operations
which differ by more than the tolerance. The analysis now panics instead
of generating them forever.
---
 src/analyzer.rs   |  2 +-
 src/spacegroup.rs | 27 +++++++++++++++++++++++++--
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/analyzer.rs b/src/analyzer.rs
index 6c0d232..0175eae 100644
--- a/src/analyzer.rs
+++ b/src/analyzer.rs
@@ -57,7 +57,7 @@ impl SymmetryAnalyzer {
                 .map(|col| self.dtol / col.magnitude()),
         );
 
-        let mut sg = SpaceGroup::from_generators(&sg_generators, &frac_tols);
+        let mut sg = SpaceGroup::from_primitive_generators(&sg_generators, &frac_tols);
         let (int_num, sg_symbol) = SymmetryAnalyzer::identify_space_group(
             &sg,
             &bravais_symbol.lattice_system(),
diff --git a/src/spacegroup.rs b/src/spacegroup.rs
index 4f9986d..834f924 100644
--- a/src/spacegroup.rs
+++ b/src/spacegroup.rs
@@ -20,7 +20,22 @@ impl SpaceGroup {
     ///
     /// * `generators` - List of generator symmetry operations
     pub fn from_generators(generators: &[SymmOp], frac_tols: &Vector3<f64>) -> Self {
-        let symm_ops = Self::ops_from_generators(generators, frac_tols);
+        let symm_ops = Self::ops_from_generators(generators, frac_tols, usize::MAX);
+
+        Self {
+            operations: symm_ops,
+        }
+    }
+
+    /// Constructs a space group from a list of generators in the basis of a primitive cell.
+    ///
+    /// Panics if the generated operations do not close within the 48 which such a group can have.
+    ///
+    /// # Arguments
+    ///
+    /// * `generators` - List of generator symmetry operations
+    pub fn from_primitive_generators(generators: &[SymmOp], frac_tols: &Vector3<f64>) -> Self {
+        let symm_ops = Self::ops_from_generators(generators, frac_tols, 48);
 
         Self {
             operations: symm_ops,
@@ -146,7 +161,11 @@ impl SpaceGroup {
         self.operations = new_operations;
     }
 
-    fn ops_from_generators(generators: &[SymmOp], frac_tols: &Vector3<f64>) -> Vec<SymmOp> {
+    fn ops_from_generators(
+        generators: &[SymmOp],
+        frac_tols: &Vector3<f64>,
+        max_num_ops: usize,
+    ) -> Vec<SymmOp> {
         let mut symm_ops: Vec<SymmOp> = Vec::new();
 
         for generator in generators {
@@ -172,6 +191,10 @@ impl SpaceGroup {
                     op.normalize(frac_tols);
                     symm_ops.push(op.clone());
                     generated.push(op);
+
+                    if symm_ops.len() > max_num_ops {
+                        panic!("Generated operations do not form a space group!");
+                    }
                 }
             }
 
-- 
2.43.0


From 47ab4549a022a3fb924debd3fba3dfceba53f29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:17:36 +0000
Subject: [PATCH 18/19] fix: give the same operations for the same structure

Translations which agree only within the tolerance were collected in hash
maps, so that the result depended on the random order of their entries.
---
 src/analyzer.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/analyzer.rs b/src/analyzer.rs
index 0175eae..dd209e5 100644
--- a/src/analyzer.rs
+++ b/src/analyzer.rs
@@ -11,7 +11,6 @@ use crate::structure::Structure;
 use crate::symmop::SymmOp;
 use crate::utils::{cust_eq, decode_spg_op, normalize_frac_vectors, num_negative_zero};
 use nalgebra::{Matrix3, Vector3};
-use std::collections::HashMap;
 
 #[derive(Debug, Clone)]
 pub struct SymmetryAnalyzer {
@@ -101,7 +100,11 @@ impl SymmetryAnalyzer {
 
         let mut output_data: Option<(u8, String)> = Option::None;
 
-        for (num, encoded_ops) in candidate_groups.iter() {
+        // Sorting ensures determinism when several groups fit within the tolerance
+        let mut sorted_groups: Vec<(&u8, &Vec<u32>)> = candidate_groups.iter().collect();
+        sorted_groups.sort_by_key(|(num, _)| **num);
+
+        for (num, encoded_ops) in sorted_groups {
             let mut all_found = true;
             let is_a_centered = SG_NUM_TO_SYMBOL
                 .get(num)
@@ -193,17 +196,25 @@ impl SymmetryAnalyzer {
         // 3. If the occurance number of a particular vector is equal to number of sites,
         //    choose it as canonical translation for the operation.
         // NOTE: These translations include both instrinsic translation and origin shift.
-        let mut op_trans_vecs: HashMap<Matrix3<i8>, Vec<Vector3<f64>>> = HashMap::new();
+        let mut op_trans_vecs: Vec<(Matrix3<i8>, Vec<Vector3<f64>>)> = Vec::new();
 
         let (_, ele_inds, ele_counts) = prim_structure.get_min_element();
 
+        // Sorting ensures determinism when translations are only equal within the tolerance
+        let mut sorted_ele_inds: Vec<(&String, &u16)> = ele_inds.iter().collect();
+        sorted_ele_inds.sort_by_key(|(_, ind)| **ind);
+
+        holohedry_pg
+            .operations
+            .sort_by(|a, b| a.iter().cmp(b.iter()));
+
         for op in holohedry_pg.operations {
             let float_op = Matrix3::from_iterator(op.iter().map(|&x| x as f64));
             let mut translation_vectors: Vec<Vector3<f64>> = Vec::new();
 
-            for (ele, ind) in ele_inds.iter() {
-                let start = ind.to_owned();
-                let end = start + ele_counts.get(ele).unwrap().to_owned();
+            for (ele, ind) in sorted_ele_inds.iter() {
+                let start = **ind;
+                let end = start + ele_counts.get(*ele).unwrap().to_owned();
 
                 for coord_ind_a in start..end {
                     let rotated_coord = float_op * prim_structure.frac_coords[coord_ind_a as usize];
@@ -219,7 +230,7 @@ impl SymmetryAnalyzer {
                 }
             }
 
-            op_trans_vecs.insert(op, translation_vectors);
+            op_trans_vecs.push((op, translation_vectors));
         }
 
         // Sort through candidate vectors and get counts
@@ -227,7 +238,7 @@ impl SymmetryAnalyzer {
         let mut matched;
 
         for (op, translation_vectors) in op_trans_vecs.iter() {
-            let mut translation_counts: HashMap<Vector3<i64>, u64> = HashMap::new();
+            let mut translation_counts: Vec<(Vector3<i64>, u64)> = Vec::new();
 
             for translation in translation_vectors.iter() {
                 let int_translation: Vector3<i64> = Vector3::from_iterator(
@@ -257,7 +268,7 @@ impl SymmetryAnalyzer {
                 }
 
                 if !matched {
-                    translation_counts.insert(int_translation, 1);
+                    translation_counts.push((int_translation, 1));
                 }
             }
 
-- 
2.43.0


From ac6f2bbd74f1c6d8e61d646a24be839d7ac5d1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:47:04 +0000
Subject: [PATCH 19/19] fix: refuse singular transformation matrices and cells

A singular matrix of whole numbers could pass the inversion because rounding
left a tiny pivot. A structure transformed with it lost all its sites.
---
 src/pointgroup.rs | 3 ++-
 src/spacegroup.rs | 3 ++-
 src/structure.rs  | 6 ++++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pointgroup.rs b/src/pointgroup.rs
index 7f6e434..20b3920 100644
--- a/src/pointgroup.rs
+++ b/src/pointgroup.rs
@@ -40,7 +40,8 @@ impl PointGroup {
         let mut inv_trans_mat: Matrix3<f64> = Matrix3::identity();
         let inverted = try_invert_to(*transformation_matrix, &mut inv_trans_mat);
 
-        if !inverted {
+        // Rounding can hide the zero pivot of a singular matrix
+        if !inverted || transformation_matrix.determinant() == 0.0 {
             panic!("Transformation matrix is not invertible!");
         }
 
diff --git a/src/spacegroup.rs b/src/spacegroup.rs
index 834f924..c40fa37 100644
--- a/src/spacegroup.rs
+++ b/src/spacegroup.rs
@@ -59,7 +59,8 @@ impl SpaceGroup {
         let mut inv_trans_mat: Matrix3<f64> = Matrix3::identity();
         let inverted = try_invert_to(*transformation_matrix, &mut inv_trans_mat);
 
-        if !inverted {
+        // Rounding can hide the zero pivot of a singular matrix
+        if !inverted || transformation_matrix.determinant() == 0.0 {
             panic!("Transformation matrix is not invertible!");
         }
 
diff --git a/src/structure.rs b/src/structure.rs
index 1c5a4b0..b9fe3a0 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -143,7 +143,8 @@ impl Structure {
 
         let inverted = try_invert_to(*transformation_matrix, &mut inv_trans_mat);
 
-        if !inverted {
+        // Rounding can hide the zero pivot of a singular matrix
+        if !inverted || transformation_matrix.determinant() == 0.0 {
             panic!("Transformation matrix is not invertible!");
         }
 
@@ -302,7 +303,8 @@ impl Structure {
         let mut reciprocal_lattice = Matrix3::identity();
         let inverted = try_invert_to(self.lattice, &mut reciprocal_lattice);
 
-        if !inverted {
+        // Rounding can hide the zero pivot of a singular matrix
+        if !inverted || self.lattice.determinant() == 0.0 {
             panic!("Crystal lattice is not invertible!");
         }
 
-- 
2.43.0

