From 68341669a7fcb018e4ed31934a8d06492b18bb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 01/21] fix: pivot on magnitude in solve_gausselim and report
 singular matrices

---
 src/matrix/inverse.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/matrix/inverse.rs b/src/matrix/inverse.rs
index 22f42b2..6afdf3c 100644
--- a/src/matrix/inverse.rs
+++ b/src/matrix/inverse.rs
@@ -36,17 +36,17 @@ where
 
         // triangularize the matrix
         for col in 0..dim {
-            // find the row with the greatest value in the current column
+            // find the row with the greatest magnitude in the current column
             // (after finished rows)
             let max = self
                 .col(col)
                 .enumerate()
                 .skip(col)
-                .max_by(|(_, &x), (_, y)| x.partial_cmp(y).unwrap());
-            if max == None {
-                return Err(MatrixError::solve("no non-zero values remain in column"));
-            }
-            let (max_idx, _) = max.unwrap();
+                .max_by(|(_, x), (_, y)| x.abs().partial_cmp(&y.abs()).unwrap());
+            let max_idx = match max {
+                Some((i, &x)) if x != 0.0 => i,
+                _ => return Err(MatrixError::solve("no non-zero values remain in column")),
+            };
 
             self.swap_rows(col, max_idx);
             b.swap_rows(col, max_idx);
-- 
2.43.0


From f172309ec66abc32b399099b99947f499f08f2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 02/21] fix: accumulate nodal loads instead of overwriting them

---
 src/element/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/element/mod.rs b/src/element/mod.rs
index 2f8b276..7e0c23a 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -250,7 +250,7 @@ impl ElementAssemblage {
             // check if each node dof still exists and if so apply that part of force
             for d in 0..NODE_DIM {
                 let node_dof = NodeDof(n, d);
-                res[node_dof.to_dof().0] = f[d];
+                res[node_dof.to_dof().0] += f[d];
             }
         }
 
@@ -259,8 +259,10 @@ impl ElementAssemblage {
                 // TODO this is a bad way of locating affected elements - very slow, lots of loops
                 if el.nodes_connect(n, m) {
                     for (i, val) in el.int_f_l((n, m), f).unwrap() {
-                        res[i.to_dof().0] = val;
+                        res[i.to_dof().0] += val;
                     }
+                    // interior edges belong to two elements, only apply the force once
+                    break;
                 }
             }
         }
-- 
2.43.0


From febb62f554c02cb2e4b183111d7976636f67d932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 03/21] fix: scale the element mass matrix by the jacobian
 determinant

---
 src/element/element.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/element/element.rs b/src/element/element.rs
index 06ab84c..4943f0a 100644
--- a/src/element/element.rs
+++ b/src/element/element.rs
@@ -231,11 +231,11 @@ impl Element {
         let integrand = |nat_coor| {
             let mats = self.get_isopar_mats(NaturalCoor(nat_coor));
 
-            // integrand is rho * scaling * H_t * H
+            // integrand is rho * scaling * (det J) * H_t * H
             let h = mats.h;
             let mut ht = h.clone();
             ht.transpose();
-            ht *= self.material().density * mats.thickness;
+            ht *= self.material().density * mats.thickness * mats.det_j;
 
             ht.mul(&h)
         };
-- 
2.43.0


From eb6a09b46b6007fbfd23ed3886faab684f751553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 04/21] fix: integrate clockwise elements with positive area

---
 src/element/element.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/element/element.rs b/src/element/element.rs
index 4943f0a..7d6dc97 100644
--- a/src/element/element.rs
+++ b/src/element/element.rs
@@ -214,7 +214,7 @@ impl Element {
             // the integrand for K is thickness * (det J) * B_t * C * B
             mats.b.transpose(); // transpose in place is cheap
             let mut inter: LinearMatrix = mats.b.mul(&c);
-            inter *= mats.det_j;
+            inter *= mats.det_j.abs(); // clockwise elements have a negative det J
             inter *= mats.thickness;
             mats.b.transpose();
 
@@ -235,7 +235,7 @@ impl Element {
             let h = mats.h;
             let mut ht = h.clone();
             ht.transpose();
-            ht *= self.material().density * mats.thickness * mats.det_j;
+            ht *= self.material().density * mats.thickness * mats.det_j.abs();
 
             ht.mul(&h)
         };
-- 
2.43.0


From c7be19e6b3c5eea19a30ea54c089d0ab37c81c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 05/21] fix: let gauss_seidel converge on a zero solution

---
 src/matrix/solve/iterative.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/solve/iterative.rs b/src/matrix/solve/iterative.rs
index 30cb4ac..52da864 100644
--- a/src/matrix/solve/iterative.rs
+++ b/src/matrix/solve/iterative.rs
@@ -82,7 +82,7 @@ pub(super) fn gauss_seidel(
 
         u = new_u;
 
-        if diff_norm / u.frobenius() <= tol {
+        if diff_norm <= tol * u.frobenius() {
             // iterations have sufficiently converged
             eprintln!("converged in {} iterations", round);
             break;
-- 
2.43.0


From b817267a0b412bb61c60aea872b8595234be8da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 06/21] fix: give CompressedRow::zeros a start index for every
 row

---
 src/matrix/sparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index 2c5cb61..955eff4 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -691,7 +691,7 @@ impl MatrixLike for CompressedRow {
             nz_count: 0,
             data: vec![],
             col_indices: vec![],
-            row_starts: vec![],
+            row_starts: vec![0; shape.0],
         }
     }
 
-- 
2.43.0


From 874f6dc910efc45d8e43e5f6174a202cb160461d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 07/21] fix: keep the diagonal out of the envelope forward
 substitution dot products

---
 src/matrix/sparse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index 955eff4..c4e0c8e 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -243,7 +243,7 @@ impl LowerRowEnvelope {
 
             let dot: f64 = row_stored
                 .iter()
-                .zip(start_col..)
+                .zip(start_col..i)
                 .map(|(val, col)| val * x[col])
                 .sum();
 
@@ -275,7 +275,7 @@ impl LowerRowEnvelope {
             let sub_start_col = start_col - range.0;
             let dot: f64 = row_stored
                 .iter()
-                .zip(sub_start_col..)
+                .zip(sub_start_col..sub_i)
                 .map(|(val, col)| val * x[col])
                 .sum();
 
-- 
2.43.0


From 75dbae602b8fe2d1df40a9ce1eb268c2f4b87759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 08/21] fix: accept empty rows in BiEnvelope

---
 src/matrix/sparse.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index c4e0c8e..4a7e0a5 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -397,11 +397,18 @@ impl BiEnvelope {
         Entry::Data(self.row_starts[row] + offset)
     }
 
-    fn from_row_bounds(bnd: Vec<(usize, usize)>) -> Self {
+    fn from_row_bounds(mut bnd: Vec<(usize, usize)>) -> Self {
         // initialize a zero matrix with the given shape
         let n = bnd.len();
         // for now, this matrix type is always square
 
+        // rows without entries store nothing
+        for (i, b) in bnd.iter_mut().enumerate() {
+            if b.0 > b.1 {
+                *b = (i, i);
+            }
+        }
+
         let mut row_starts = vec![0];
 
         for &(a, b) in bnd.iter() {
-- 
2.43.0


From 8eb43ce31ff3ca31a195a833ebceb88d602f2f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 09/21] fix: order graphs with isolated vertices and several
 components

---
 src/matrix/graph.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/matrix/graph.rs b/src/matrix/graph.rs
index ca69884..54549b0 100644
--- a/src/matrix/graph.rs
+++ b/src/matrix/graph.rs
@@ -76,6 +76,9 @@ impl Graph {
             res.adjacent.push(y);
         }
 
+        // trailing vertices may have no edges
+        res.indices.resize(v_count, res.adjacent.len());
+
         res
     }
 
@@ -214,6 +217,13 @@ impl Graph {
         mask[ordering[0]] = false;
 
         for i in 0..self.vertex_count() {
+            if i == ordering.len() {
+                // component exhausted, continue with any unvisited vertex
+                let next = mask.iter().position(|&m| m).unwrap();
+                mask[next] = false;
+                ordering.push(next);
+            }
+
             let adj = self.adjacent_masked(ordering[i], &mask);
 
             for a in adj {
-- 
2.43.0


From 545f95abf6ee75e5a6a83933e27d97ae0b6fd0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 10/21] fix: refuse matrix shapes whose size overflows

---
 src/matrix/buffer.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/matrix/buffer.rs b/src/matrix/buffer.rs
index 947c61b..a15665e 100644
--- a/src/matrix/buffer.rs
+++ b/src/matrix/buffer.rs
@@ -222,7 +222,8 @@ impl MatrixLike for LinearMatrix {
     fn zeros<T: Into<MatrixShape>>(shape: T) -> Self {
         let shape: MatrixShape = shape.into();
         let dims = (shape.nrow, shape.ncol);
-        let data = vec![0.0; dims.0 * dims.1];
+        let len = dims.0.checked_mul(dims.1).expect("matrix too large");
+        let data = vec![0.0; len];
         Self {
             dims,
             row_maj: true,
@@ -235,7 +236,7 @@ impl MatrixLike for LinearMatrix {
         let shape: MatrixShape = shape.into();
         let dims = (shape.nrow, shape.ncol);
         let data: Vec<f64> = data.into_iter().collect();
-        if (dims.0 * dims.1) != data.len() {
+        if dims.0.checked_mul(dims.1) != Some(data.len()) {
             panic!("bad shape {:?} for data length {}", dims, data.len())
         }
         Self {
@@ -387,7 +388,8 @@ impl MatrixLike for LowerTriangular {
     fn zeros<T: Into<MatrixShape>>(shape: T) -> Self {
         let shape: MatrixShape = shape.into();
         let dim = shape.max_dim;
-        let data = vec![0.0; ((dim + 1) * (dim + 2)) / 2];
+        let len = dim.checked_add(2).and_then(|d| d.checked_mul(d - 1));
+        let data = vec![0.0; len.expect("matrix too large") / 2];
         Self { dim, data }
     }
 
@@ -468,7 +470,8 @@ impl MatrixLike for UpperTriangular {
     fn zeros<T: Into<MatrixShape>>(shape: T) -> Self {
         let shape: MatrixShape = shape.into();
         let dim = shape.max_dim;
-        let data = vec![0.0; ((dim + 1) * (dim + 2)) / 2];
+        let len = dim.checked_add(2).and_then(|d| d.checked_mul(d - 1));
+        let data = vec![0.0; len.expect("matrix too large") / 2];
         Self { dim, data }
     }
 
-- 
2.43.0


From 3246e24abc82da6e668f6b218a0c8b9824fc9b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 11/21] fix: check the shape of fixed-size matrices against
 their storage

---
 src/matrix/buffer.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/matrix/buffer.rs b/src/matrix/buffer.rs
index a15665e..843ac96 100644
--- a/src/matrix/buffer.rs
+++ b/src/matrix/buffer.rs
@@ -182,7 +182,11 @@ impl<const SIZE: usize> ConstMatrix<SIZE> {
         let shape = shape.into();
         let dims = (shape.nrow, shape.ncol);
 
-        assert_eq!(dims.0 * dims.1, SIZE, "provided array does not match shape");
+        assert_eq!(
+            dims.0.checked_mul(dims.1),
+            Some(SIZE),
+            "provided array does not match shape"
+        );
 
         Self { dims, data }
     }
@@ -649,7 +653,7 @@ impl<const SIZE: usize> MatrixLike for ConstMatrix<SIZE> {
     fn zeros<T: Into<MatrixShape>>(shape: T) -> Self {
         let shape: MatrixShape = shape.into();
         let dims = (shape.nrow, shape.ncol);
-        assert_eq!(dims.0 * dims.1, SIZE);
+        assert_eq!(dims.0.checked_mul(dims.1), Some(SIZE), "bad shape");
 
         Self {
             dims,
@@ -662,16 +666,18 @@ impl<const SIZE: usize> MatrixLike for ConstMatrix<SIZE> {
         let shape: MatrixShape = shape.into();
         let dims = (shape.nrow, shape.ncol);
 
+        assert_eq!(dims.0.checked_mul(dims.1), Some(SIZE), "bad shape");
+
         let mut arr_data = [0.0; SIZE];
-        let mut last = 0;
+        let mut len = 0;
 
         for (i, x) in data.into_iter().enumerate() {
             assert!(i < SIZE, "provided iterator too long");
             arr_data[i] = x;
-            last = i;
+            len = i + 1;
         }
 
-        assert_eq!(last, SIZE - 1, "provided iterator too short");
+        assert_eq!(len, SIZE, "provided iterator too short");
 
         Self {
             dims,
-- 
2.43.0


From ef6f8236c4be5365f736f912ca63faf2c086a0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 12/21] fix: yield no indices for matrices without columns

---
 src/matrix/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/mod.rs b/src/matrix/mod.rs
index 7b71742..e754669 100644
--- a/src/matrix/mod.rs
+++ b/src/matrix/mod.rs
@@ -454,7 +454,7 @@ impl Iterator for MatrixIndices {
     type Item = (usize, usize);
 
     fn next(&mut self) -> Option<(usize, usize)> {
-        if self.r >= self.rows {
+        if self.r >= self.rows || self.cols == 0 {
             return None;
         }
 
-- 
2.43.0


From bc911b1e39c2e6748ded6447a04ddd31f7a6c9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 13/21] fix: fill both triangles of the cauchy stress tensor

---
 src/element/stress.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/element/stress.rs b/src/element/stress.rs
index e6d0492..005351f 100644
--- a/src/element/stress.rs
+++ b/src/element/stress.rs
@@ -93,6 +93,7 @@ impl StressState {
         for r in 0..dim {
             for c in r..dim {
                 res[(r, c)] = self.data[self.loc(r, c)];
+                res[(c, r)] = self.data[self.loc(r, c)];
             }
         }
 
-- 
2.43.0


From c46a6d3ec4bc478a5ec65d18a803438efd8803f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 14/21] fix: von mises stress of bar and plane states

---
 src/element/stress.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/element/stress.rs b/src/element/stress.rs
index 005351f..8aa6efe 100644
--- a/src/element/stress.rs
+++ b/src/element/stress.rs
@@ -103,9 +103,12 @@ impl StressState {
     pub fn von_mises(&self) -> f64 {
         // compute the von mises yield criterion
         match self.state_type {
-            StressType::Bar => self.data[0],
+            StressType::Bar => self.data[0].abs(),
             StressType::Plane => {
-                ((self.data[0] - self.data[1]).powi(2) + 3.0 * self.data[2].powi(2)).sqrt()
+                // the out-of-plane normal stress is zero
+                let normals = self.data[0].powi(2) - self.data[0] * self.data[1]
+                    + self.data[1].powi(2);
+                (normals + 3.0 * self.data[2].powi(2)).sqrt()
             }
             StressType::ThreeD => {
                 let normals = (self.data[0] - self.data[1]).powi(2)
-- 
2.43.0


From 2befb024e78a3a100870e176df4ee7641adc2081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 15/21] fix: draw line pixels on the image border

---
 src/visual/bresenham.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/visual/bresenham.rs b/src/visual/bresenham.rs
index 626cc60..e64e481 100644
--- a/src/visual/bresenham.rs
+++ b/src/visual/bresenham.rs
@@ -4,7 +4,7 @@ pub fn line_unsigned(orig: &(u32, u32), end: &(u32, u32)) -> Vec<(u32, u32)> {
 
     line(orig, end)
         .into_iter()
-        .filter(|(x, y)| x > &0 && y > &0)
+        .filter(|(x, y)| x >= &0 && y >= &0)
         .map(|(x, y)| (x as u32, y as u32))
         .collect()
 }
-- 
2.43.0


From 92bd9fc609d4e5d686a101a132898a6fefd90d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 16/21] fix: use the z coordinate in in_sphere

---
 src/spatial/predicates.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/spatial/predicates.rs b/src/spatial/predicates.rs
index dbe6a19..c63c856 100644
--- a/src/spatial/predicates.rs
+++ b/src/spatial/predicates.rs
@@ -111,27 +111,27 @@ pub fn in_sphere(p: Point, tet: (Point, Point, Point, Point)) -> bool {
             a[0],
             a[1],
             a[2],
-            a[0].powi(2) + a[1].powi(2) + a[1].powi(2),
+            a[0].powi(2) + a[1].powi(2) + a[2].powi(2),
             1.0,
             b[0],
             b[1],
             b[2],
-            b[0].powi(2) + b[1].powi(2) + b[1].powi(2),
+            b[0].powi(2) + b[1].powi(2) + b[2].powi(2),
             1.0,
             c[0],
             c[1],
             c[2],
-            c[0].powi(2) + c[1].powi(2) + c[1].powi(2),
+            c[0].powi(2) + c[1].powi(2) + c[2].powi(2),
             1.0,
             d[0],
             d[1],
             d[2],
-            d[0].powi(2) + d[1].powi(2) + d[1].powi(2),
+            d[0].powi(2) + d[1].powi(2) + d[2].powi(2),
             1.0,
             p[0],
             p[1],
             p[2],
-            p[0].powi(2) + p[1].powi(2) + p[1].powi(2),
+            p[0].powi(2) + p[1].powi(2) + p[2].powi(2),
             1.0,
         ],
     );
-- 
2.43.0


From 911a69861e1f7bdf420fc8db9a0ee2db048a569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:13 +0000
Subject: [PATCH 17/21] fix: adding a free constraint keeps an angled one

---
 src/element/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/element/mod.rs b/src/element/mod.rs
index 7e0c23a..4c567fa 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -189,6 +189,7 @@ impl ElementAssemblage {
 
     pub fn add_constraint(&mut self, n: NodeId, constraint: Constraint) {
         match (self.constraints[n.0], constraint) {
+            (_, Constraint::Free) => {}
             (Constraint::Free, c) => {
                 self.constraints[n.0] = c;
             }
-- 
2.43.0


From 58f6b0ccd7a831b290d07dc4bc6965d45d2edd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 18/21] verification hooks behind cfg(bugi_verif)

---
 src/element/mod.rs        | 30 ++++++++++++++++++++++++++++++
 src/element/stress.rs     |  8 ++++++++
 src/lib.rs                |  7 +++++++
 src/matrix/graph.rs       |  8 ++++++++
 src/matrix/solve/eigen.rs | 38 ++++++++++++++++++++++++++++++++++++++
 src/matrix/solve/mod.rs   | 28 ++++++++++++++++++++++++++++
 src/visual/mod.rs         | 15 +++++++++++++++
 7 files changed, 134 insertions(+)

diff --git a/src/element/mod.rs b/src/element/mod.rs
index 4c567fa..73d2c41 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -446,3 +446,33 @@ impl<'a> Deformation<'a> {
         self.ang_freq
     }
 }
+
+// verification hooks, compiled only with --cfg bugi_verif
+#[cfg(bugi_verif)]
+pub mod verif {
+    use super::*;
+
+    pub fn dof(n: NodeDof) -> usize {
+        n.to_dof().0
+    }
+
+    pub fn calc_k(e: &ElementAssemblage) -> Dictionary {
+        e.calc_k()
+    }
+
+    pub fn calc_m(e: &ElementAssemblage) -> Dictionary {
+        e.calc_m()
+    }
+
+    pub fn calc_load(e: &ElementAssemblage) -> Vec<f64> {
+        e.calc_load()
+    }
+
+    pub fn raw_to_node_disp(e: &ElementAssemblage, raw: &[f64]) -> Vec<Point> {
+        e.raw_to_node_disp(raw)
+    }
+
+    pub fn deformation(e: &ElementAssemblage, node_disp: Vec<Point>) -> Deformation<'_> {
+        Deformation::new(e, node_disp)
+    }
+}
diff --git a/src/element/stress.rs b/src/element/stress.rs
index 8aa6efe..5ed0a04 100644
--- a/src/element/stress.rs
+++ b/src/element/stress.rs
@@ -183,3 +183,11 @@ impl Div<f64> for StressState {
         }
     }
 }
+
+// verification hooks, compiled only with --cfg bugi_verif
+#[cfg(bugi_verif)]
+pub mod verif {
+    pub fn data(s: &super::StressState) -> [f64; 6] {
+        s.data
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 04a3ec1..225d91c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,3 +12,10 @@ mod tests {
         assert_eq!(2 + 2, 4);
     }
 }
+
+// verification hooks, compiled only with --cfg bugi_verif
+#[cfg(bugi_verif)]
+pub mod verif {
+    pub use crate::spatial::predicates;
+    pub use crate::spatial::Point;
+}
diff --git a/src/matrix/graph.rs b/src/matrix/graph.rs
index 54549b0..90e81e0 100644
--- a/src/matrix/graph.rs
+++ b/src/matrix/graph.rs
@@ -310,3 +310,11 @@ impl Permutation {
         }
     }
 }
+
+// verification hooks, compiled only with --cfg bugi_verif
+#[cfg(bugi_verif)]
+pub mod verif {
+    pub fn from_placement(p: Vec<usize>) -> super::Permutation {
+        super::Permutation::from_placement(p)
+    }
+}
diff --git a/src/matrix/solve/eigen.rs b/src/matrix/solve/eigen.rs
index e3a7903..c8092e2 100644
--- a/src/matrix/solve/eigen.rs
+++ b/src/matrix/solve/eigen.rs
@@ -465,3 +465,41 @@ fn gram_schmidt_orthogonalize(x: &mut [f64], m: &BiEnvelope, eigs: &[EigenPair])
         }
     }
 }
+
+// verification hooks, compiled only with --cfg bugi_verif
+#[cfg(bugi_verif)]
+pub mod verif {
+    use super::*;
+
+    // (kind, lower, upper, low_i, next_i) with kind 0 empty, 1 one, 2 many
+    pub type Range = (usize, f64, f64, usize, usize);
+
+    fn describe(r: EigenRange) -> Range {
+        match r {
+            EigenRange::Empty => (0, 0.0, 0.0, 0, 0),
+            EigenRange::One(r) => (1, r.lower, r.upper, 0, 0),
+            EigenRange::Many(r) => (2, r.lower, r.upper, r.low_i, r.next_i),
+        }
+    }
+
+    pub fn split(lower: f64, upper: f64, low_i: usize, next_i: usize, n: usize) -> (Range, Range) {
+        let (l, u) = ManyEigenRange::new(lower, upper, low_i, next_i).split(n);
+        (describe(l), describe(u))
+    }
+
+    pub fn range(lower: f64, upper: f64, under_lower: usize, under_upper: usize) -> Range {
+        describe(EigenRange::new(lower, upper, under_lower, under_upper))
+    }
+
+    pub fn rayleigh(x: &[f64], k: &BiEnvelope, m: &BiEnvelope) -> f64 {
+        rayleigh_quotient(x, k, m)
+    }
+
+    pub fn gram_schmidt(x: &mut [f64], m: &BiEnvelope, eigs: &[EigenPair]) {
+        gram_schmidt_orthogonalize(x, m, eigs)
+    }
+
+    pub fn pair(value: f64, vector: Vec<f64>) -> EigenPair {
+        EigenPair::new(value, vector)
+    }
+}
diff --git a/src/matrix/solve/mod.rs b/src/matrix/solve/mod.rs
index f573192..160d1c5 100644
--- a/src/matrix/solve/mod.rs
+++ b/src/matrix/solve/mod.rs
@@ -393,3 +393,31 @@ mod tests {
         );
     }
 }
+
+// verification hooks, compiled only with --cfg bugi_verif
+#[cfg(bugi_verif)]
+pub mod verif {
+    use super::System;
+    use crate::matrix::graph::Permutation;
+    use crate::matrix::{CompressedRow, Dictionary, LinearMatrix};
+
+    pub fn gauss_seidel(
+        k: CompressedRow,
+        r: LinearMatrix,
+        tol: f64,
+        max_iter: usize,
+    ) -> LinearMatrix {
+        super::iterative::gauss_seidel(k, r, tol, max_iter)
+    }
+
+    pub fn system_parts(
+        s: System,
+    ) -> (
+        Option<Dictionary>,
+        Option<Dictionary>,
+        Option<Vec<f64>>,
+        Option<Permutation>,
+    ) {
+        s.into_parts()
+    }
+}
diff --git a/src/visual/mod.rs b/src/visual/mod.rs
index 7e498bd..40aaee2 100644
--- a/src/visual/mod.rs
+++ b/src/visual/mod.rs
@@ -288,3 +288,18 @@ fn project(points: Vec<Point>) -> Vec<(f64, f64)> {
         .zip(new_points.row(1).cloned())
         .collect()
 }
+
+// verification hooks, compiled only with --cfg bugi_verif
+#[cfg(bugi_verif)]
+pub mod verif {
+    pub use super::bresenham::{line, line_unsigned};
+    pub use super::fill::{dot_points, triangle_interp};
+
+    pub fn node_vals(v: &super::Visualizer) -> Option<Vec<f64>> {
+        v.node_vals.clone()
+    }
+
+    pub fn val_range(v: &super::Visualizer) -> Option<(f64, f64)> {
+        v.val_range
+    }
+}
-- 
2.43.0


From abaa2a60b75aff62128626ed01f188605a51abde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 19/21] fix: return dense and gauss-seidel solutions in the
 original order

---
 src/matrix/solve/direct.rs    | 14 +++++++++++---
 src/matrix/solve/iterative.rs | 14 ++++++++++++--
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/matrix/solve/direct.rs b/src/matrix/solve/direct.rs
index b607e5b..32b5fe3 100644
--- a/src/matrix/solve/direct.rs
+++ b/src/matrix/solve/direct.rs
@@ -9,12 +9,13 @@ use super::{Solver, System};
 pub struct DenseGaussSolver {
     k: LinearMatrix,
     r: LinearMatrix,
+    perm: Option<Permutation>,
 }
 
 impl Solver for DenseGaussSolver {
     fn new(sys: System) -> Self {
-        let (k, r, _) = sys.into_krp();
-        Self { k, r }
+        let (k, r, perm) = sys.into_krp();
+        Self { k, r, perm }
     }
 
     fn solve(mut self) -> Result<Vec<f64>, ()> {
@@ -22,7 +23,14 @@ impl Solver for DenseGaussSolver {
         let res = self.k.solve_gausselim(self.r).map_err(|_| ())?;
         eprintln!("dense gauss solution complete");
 
-        Ok(res.flat().cloned().collect())
+        let mut x: Vec<f64> = res.flat().cloned().collect();
+
+        // invert the permutation
+        if let Some(perm) = self.perm {
+            perm.permute_slice(x.as_mut_slice());
+        }
+
+        Ok(x)
     }
 }
 
diff --git a/src/matrix/solve/iterative.rs b/src/matrix/solve/iterative.rs
index 52da864..c49b823 100644
--- a/src/matrix/solve/iterative.rs
+++ b/src/matrix/solve/iterative.rs
@@ -1,4 +1,5 @@
 use super::{Solver, System};
+use crate::matrix::graph::Permutation;
 use crate::matrix::{CompressedRow, LinearMatrix, MatrixLike, Norm};
 
 #[derive(Clone, Debug)]
@@ -7,11 +8,12 @@ pub struct GaussSeidelSolver {
     max_iter: usize,
     k: CompressedRow,
     r: LinearMatrix,
+    perm: Option<Permutation>,
 }
 
 impl Solver for GaussSeidelSolver {
     fn new(sys: System) -> Self {
-        let (k, r, _) = sys.into_krp();
+        let (k, r, perm) = sys.into_krp();
 
         Self {
             // TODO add interface for tol, max_iter specification
@@ -20,6 +22,7 @@ impl Solver for GaussSeidelSolver {
 
             k,
             r,
+            perm,
         }
     }
 
@@ -29,7 +32,14 @@ impl Solver for GaussSeidelSolver {
 
         // TODO pass informative errors up, remove gauss_seidel panics
         eprintln!("iteration converged, gauss-seidel solution complete");
-        Ok(res.flat().cloned().collect())
+        let mut x: Vec<f64> = res.flat().cloned().collect();
+
+        // invert the permutation
+        if let Some(perm) = self.perm {
+            perm.permute_slice(x.as_mut_slice());
+        }
+
+        Ok(x)
     }
 }
 
-- 
2.43.0


From 990f0ead80d6edfbbf4e0f783b17c442bd1601de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 20/21] fix: fixing both directions of a node fixed in one
 keeps both

---
 src/element/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/element/mod.rs b/src/element/mod.rs
index 73d2c41..0652ab3 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -205,6 +205,9 @@ impl ElementAssemblage {
             (Constraint::XFixed, Constraint::YFixed) | (Constraint::YFixed, Constraint::XFixed) => {
                 self.constraints[n.0] = Constraint::XYFixed;
             }
+            (Constraint::XFixed, Constraint::XYFixed) | (Constraint::YFixed, Constraint::XYFixed) => {
+                self.constraints[n.0] = Constraint::XYFixed;
+            }
             _ => {}
         }
     }
-- 
2.43.0


From 0e1372799e8add3976883352898ff6704e8a0ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:52 +0000
Subject: [PATCH 21/21] fix: exchange the dimensions of a transposed dictionary

---
 src/matrix/sparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index 4a7e0a5..9e844d2 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -527,7 +527,7 @@ impl Dictionary {
 
     pub fn transposed(&self) -> Self {
         let mut res = Self {
-            shape: self.shape,
+            shape: (self.shape.1, self.shape.0),
             data: HashMap::new(),
         };
 
-- 
2.43.0

