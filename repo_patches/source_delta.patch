From 98a77f566c8a0423c89c7254a334d59e831537be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 01/19] fix: Domain::get_basis_spec reports an Err for elem_id
 == elems.len()

---
 src/fem_domain/domain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem_domain/domain.rs b/src/fem_domain/domain.rs
index e58196b..f7c1da6 100644
--- a/src/fem_domain/domain.rs
+++ b/src/fem_domain/domain.rs
@@ -181,7 +181,7 @@ impl Domain {
     /// * An `Err` if the `elem` does not have a [BasisSpec] at the given `address`
     ///
     pub fn get_basis_spec(&self, bs_address: BSAddress) -> Result<&BasisSpec, String> {
-        if bs_address.elem_id > self.mesh.elems.len() {
+        if bs_address.elem_id >= self.mesh.elems.len() {
             Err(format!(
                 "Elem {} does not exist; cannot retrieve BasisSpec!",
                 bs_address.elem_id
-- 
2.43.0


From 35fb41d074c37cd83a47ca97bca11178e38a2d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:57 +0000
Subject: [PATCH 02/19] fix: Mesh::descendant_edges reports an Err for edge_id
 == edges.len()

---
 src/fem_domain/domain/mesh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index 5430879..bb4dcc2 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -579,7 +579,7 @@ impl Mesh {
         edge_id: usize,
         include_starting_edge: bool,
     ) -> Result<Vec<usize>, MeshAccessError> {
-        if edge_id > self.edges.len() {
+        if edge_id >= self.edges.len() {
             Err(MeshAccessError::EdgeDoesNotExist(edge_id))
         } else {
             let mut descendants = Vec::new();
-- 
2.43.0


From 92bb282ee9cce8ee2155b46d036317d13c2e63f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:59 +0000
Subject: [PATCH 03/19] fix: PRef handles deltas of -128 and sums beyond 127
 without overflow

---
 src/fem_domain/domain/mesh/p_refinement.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/fem_domain/domain/mesh/p_refinement.rs b/src/fem_domain/domain/mesh/p_refinement.rs
index ed413b4..9bfc51f 100644
--- a/src/fem_domain/domain/mesh/p_refinement.rs
+++ b/src/fem_domain/domain/mesh/p_refinement.rs
@@ -105,10 +105,11 @@ impl PRefInt {
     fn refine(&self, n: u8) -> Result<u8, PRefError> {
         match self {
             Self::Increment(delta) => {
-                if n + *delta > MAX_POLYNOMIAL_ORDER {
+                let refined = n.saturating_add(*delta);
+                if refined > MAX_POLYNOMIAL_ORDER {
                     Err(PRefError::ExceededMaxExpansion)
                 } else {
-                    Ok(n + *delta)
+                    Ok(refined)
                 }
             }
             Self::Decrement(delta) => {
@@ -126,7 +127,7 @@ impl PRefInt {
         match delta {
             0 => PRefInt::None,
             d if d > 0 => PRefInt::Increment(d as u8),
-            d if d < 0 => PRefInt::Decrement(-d as u8),
+            d if d < 0 => PRefInt::Decrement(d.unsigned_abs()),
             _ => unreachable!(),
         }
     }
@@ -134,8 +135,8 @@ impl PRefInt {
     pub fn as_i8(&self) -> i8 {
         match self {
             Self::None => 0,
-            Self::Increment(delta) => *delta as i8,
-            Self::Decrement(delta) => -1 * (*delta as i8),
+            Self::Increment(delta) => i8::try_from(*delta).unwrap_or(i8::MAX),
+            Self::Decrement(delta) => i8::try_from(-i16::from(*delta)).unwrap_or(i8::MIN),
         }
     }
 
@@ -159,7 +160,7 @@ impl AddAssign for PRefInt {
     fn add_assign(&mut self, rhs: Self) {
         let sum = match *self {
             Self::Increment(s_delta) => match rhs {
-                Self::Increment(r_delta) => Self::Increment(s_delta + r_delta),
+                Self::Increment(r_delta) => Self::Increment(s_delta.saturating_add(r_delta)),
                 Self::Decrement(r_delta) => match s_delta.cmp(&r_delta) {
                     Ordering::Equal => Self::None,
                     Ordering::Greater => Self::Increment(s_delta - r_delta),
@@ -168,7 +169,7 @@ impl AddAssign for PRefInt {
                 Self::None => self.clone(),
             },
             Self::Decrement(s_delta) => match rhs {
-                Self::Decrement(r_delta) => Self::Decrement(s_delta + r_delta),
+                Self::Decrement(r_delta) => Self::Decrement(s_delta.saturating_add(r_delta)),
                 Self::Increment(r_delta) => match s_delta.cmp(&r_delta) {
                     Ordering::Equal => Self::None,
                     Ordering::Greater => Self::Decrement(s_delta - r_delta),
-- 
2.43.0


From c41e63b8ea8e595e70dd975b7a5a82090b539411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:15 +0000
Subject: [PATCH 04/19] fix: combining HRef::U/V with an extended HRef keeps
 the extension

---
 src/fem_domain/domain/mesh/h_refinement.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh/h_refinement.rs b/src/fem_domain/domain/mesh/h_refinement.rs
index 867656b..7769de7 100644
--- a/src/fem_domain/domain/mesh/h_refinement.rs
+++ b/src/fem_domain/domain/mesh/h_refinement.rs
@@ -163,12 +163,12 @@ impl AddAssign for HRef {
             HRef::U(None) => match rhs {
                 HRef::V(_) => *self = HRef::T,
                 HRef::T => *self = HRef::T,
-                _ => (),
+                HRef::U(_) => *self = rhs,
             },
             HRef::V(None) => match rhs {
                 HRef::U(_) => *self = HRef::T,
                 HRef::T => *self = HRef::T,
-                _ => (),
+                HRef::V(_) => *self = rhs,
             },
             HRef::U(Some(idx)) => match rhs {
                 HRef::U(Some(r_idx)) => {
-- 
2.43.0


From a74e8a2de5b2d221e4f5613d74f62b93b4c17776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:17 +0000
Subject: [PATCH 05/19] fix: PolyOrders::refine leaves both orders unchanged
 when it returns an Err

---
 src/fem_domain/domain/mesh/p_refinement.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh/p_refinement.rs b/src/fem_domain/domain/mesh/p_refinement.rs
index 9bfc51f..58d9dc1 100644
--- a/src/fem_domain/domain/mesh/p_refinement.rs
+++ b/src/fem_domain/domain/mesh/p_refinement.rs
@@ -18,8 +18,11 @@ impl PolyOrders {
     ///
     /// Return an `Err` if the refinement causes the expansion orders to fall outside of the valid range
     pub fn refine(&mut self, refinement: PRef) -> Result<(), PRefError> {
-        self.ni = refinement.refine_i(self.ni)?;
-        self.nj = refinement.refine_j(self.nj)?;
+        let ni = refinement.refine_i(self.ni)?;
+        let nj = refinement.refine_j(self.nj)?;
+
+        self.ni = ni;
+        self.nj = nj;
 
         Ok(())
     }
-- 
2.43.0


From 2db9706b3b8324a30dbfb6ba4ecdc447e26604b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:01 +0000
Subject: [PATCH 06/19] fix: execute_h_refinements leaves the Mesh unchanged
 when it returns an Err

---
 src/fem_domain/domain/mesh.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index bb4dcc2..9d3668a 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -845,6 +845,15 @@ impl Mesh {
         &mut self,
         refinements: Vec<(usize, HRef)>,
     ) -> Result<(), HRefError> {
+        // some errors are only found mid-way; work on a copy S.T. `self` is not left partially refined
+        let mut refined_mesh = self.clone();
+        refined_mesh.apply_h_refinements(refinements)?;
+        *self = refined_mesh;
+
+        Ok(())
+    }
+
+    fn apply_h_refinements(&mut self, refinements: Vec<(usize, HRef)>) -> Result<(), HRefError> {
         let mut refinements_map: BTreeMap<usize, HRef> = BTreeMap::new();
         for (elem_id, h_ref) in refinements {
             match self.elem_is_h_refineable(elem_id) {
@@ -905,7 +914,7 @@ impl Mesh {
         }
 
         if !refinement_extensions.is_empty() {
-            self.execute_h_refinements(refinement_extensions)?;
+            self.apply_h_refinements(refinement_extensions)?;
         }
 
         self.set_edge_activation();
-- 
2.43.0


From b950addb94dc7b0fadb4b1cca47c0de779bea48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:04 +0000
Subject: [PATCH 07/19] fix: extended HRef with a child index above 1 is an Err
 rather than a panic

---
 src/fem_domain/domain/mesh.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index 9d3668a..3109fdb 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -856,6 +856,11 @@ impl Mesh {
     fn apply_h_refinements(&mut self, refinements: Vec<(usize, HRef)>) -> Result<(), HRefError> {
         let mut refinements_map: BTreeMap<usize, HRef> = BTreeMap::new();
         for (elem_id, h_ref) in refinements {
+            if let HRef::U(Some(child_idx)) | HRef::V(Some(child_idx)) = h_ref {
+                if child_idx > 1 {
+                    return Err(HRefError::BisectionIdxExceeded);
+                }
+            }
             match self.elem_is_h_refineable(elem_id) {
                 Ok(true) => {
                     refinements_map
-- 
2.43.0


From 8bb3b756f6edc40c7e9ed15693ff52f2b48df988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:27 +0000
Subject: [PATCH 08/19] fix: Mesh::unit connects its Elem to its Edges and
 Nodes

---
 src/fem_domain/domain/mesh.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index 3109fdb..e69c6d2 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -67,18 +67,25 @@ impl Mesh {
         let unit_element = Arc::new(Element::new(0, points.clone(), Materials::default()));
         let unit_elem = Elem::new(0, [0, 1, 2, 3], [0, 1, 2, 3], unit_element.clone());
 
-        let nodes: Vec<Node> = points
+        let mut nodes: Vec<Node> = points
             .iter()
             .enumerate()
             .map(|(n_id, p)| Node::new(n_id, *p, true))
             .collect();
-        let edges: Vec<Edge> = vec![
+        let mut edges: Vec<Edge> = vec![
             Edge::new(0, [&nodes[0], &nodes[1]], true),
             Edge::new(1, [&nodes[2], &nodes[3]], true),
             Edge::new(2, [&nodes[0], &nodes[2]], true),
             Edge::new(3, [&nodes[1], &nodes[3]], true),
         ];
 
+        for edge in edges.iter_mut() {
+            edge.connect_elem(&unit_elem);
+        }
+        for node in nodes.iter_mut() {
+            node.connect_elem(&unit_elem);
+        }
+
         Self {
             elements: vec![unit_element],
             elems: vec![unit_elem],
-- 
2.43.0


From f8f977553a10771b9cacc15f8bb800488a6f891e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:51 +0000
Subject: [PATCH 09/19] fix: Points at 0.0, -0.0 and values rounding to zero
 compare equal

---
 src/fem_domain/domain/mesh/space.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fem_domain/domain/mesh/space.rs b/src/fem_domain/domain/mesh/space.rs
index b1cd26b..8aa9639 100644
--- a/src/fem_domain/domain/mesh/space.rs
+++ b/src/fem_domain/domain/mesh/space.rs
@@ -353,7 +353,8 @@ impl FloatRep {
         let total_rounded = integer_part + fractional_rounded;
 
         Self {
-            sign: value.is_sign_positive(),
+            // values that round to zero are all equal to (positive) zero
+            sign: value.is_sign_positive() || total_rounded == 0.0,
             bits: total_rounded.to_bits(),
         }
     }
-- 
2.43.0


From f686529ca72f96f416bc8c161844d2e94c20bd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:53 +0000
Subject: [PATCH 10/19] fix: M2D * M2D is the matrix product (rows by columns)

---
 src/fem_domain/domain/mesh/space.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh/space.rs b/src/fem_domain/domain/mesh/space.rs
index 8aa9639..b1ee17b 100644
--- a/src/fem_domain/domain/mesh/space.rs
+++ b/src/fem_domain/domain/mesh/space.rs
@@ -167,9 +167,10 @@ impl Div<f64> for M2D {
 impl Mul<Self> for M2D {
     type Output = Self;
     fn mul(self, other: Self) -> Self {
+        let cols = other.transpose();
         Self {
-            u: V2D::from([self.u.dot_with(&other.u), self.u.dot_with(&other.v)]),
-            v: V2D::from([self.v.dot_with(&other.u), self.v.dot_with(&other.v)]),
+            u: V2D::from([self.u.dot_with(&cols.u), self.u.dot_with(&cols.v)]),
+            v: V2D::from([self.v.dot_with(&cols.u), self.v.dot_with(&cols.v)]),
         }
     }
 }
-- 
2.43.0


From 5021227cb4bb7d3053fb72da1fd9a937251cee3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:20 +0000
Subject: [PATCH 11/19] fix: field values are sized [u-density][v-density] as
 they are indexed

---
 src/fem_domain/domain/fields.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fem_domain/domain/fields.rs b/src/fem_domain/domain/fields.rs
index ba34790..be69b5b 100644
--- a/src/fem_domain/domain/fields.rs
+++ b/src/fem_domain/domain/fields.rs
@@ -80,8 +80,8 @@ impl<'d> UniformFieldSpace<'d> {
             let [i_max, j_max] = self.domain.mesh.max_expansion_orders();
 
             for shell_elem in self.domain.mesh.elems.iter().filter(|e| !e.has_children()) {
-                let mut x_values = vec![vec![0.0; self.densities[0]]; self.densities[1]];
-                let mut y_values = vec![vec![0.0; self.densities[0]]; self.densities[1]];
+                let mut x_values = vec![vec![0.0; self.densities[1]]; self.densities[0]];
+                let mut y_values = vec![vec![0.0; self.densities[1]]; self.densities[0]];
 
                 for anc_elem_id in self
                     .domain
@@ -323,7 +323,7 @@ impl<'d> UniformFieldSpace<'d> {
             for ((shell_elem_id, elem_values_a), elem_values_b) in
                 q_a.values.iter().zip(q_b.values.values())
             {
-                let mut result_values = vec![vec![0.0; self.densities[0]]; self.densities[1]];
+                let mut result_values = vec![vec![0.0; self.densities[1]]; self.densities[0]];
                 for m in 0..self.densities[0] {
                     for n in 0..self.densities[1] {
                         result_values[m][n] = expression(elem_values_a[m][n], elem_values_b[m][n]);
-- 
2.43.0


From 87f608d87da0ee9a253161a6414c104f676098bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:23 +0000
Subject: [PATCH 12/19] fix: VTK cells use the v-density as the stride between
 rows of points

---
 src/fem_domain/domain/fields.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fem_domain/domain/fields.rs b/src/fem_domain/domain/fields.rs
index be69b5b..7bf7f13 100644
--- a/src/fem_domain/domain/fields.rs
+++ b/src/fem_domain/domain/fields.rs
@@ -201,15 +201,15 @@ impl<'d> UniformFieldSpace<'d> {
         for k in 0..num_shell_elems {
             for i in 0..(nx - 1) {
                 for j in 0..(ny - 1) {
-                    let initial_pt = nx * i + j + (nx * ny) * k;
+                    let initial_pt = ny * i + j + (nx * ny) * k;
 
                     writeln!(
                         writer,
                         "4\t{}\t{}\t{}\t{}",
                         initial_pt,
                         initial_pt + 1,
-                        initial_pt + nx + 1,
-                        initial_pt + nx,
+                        initial_pt + ny + 1,
+                        initial_pt + ny,
                     )?;
                 }
             }
-- 
2.43.0


From 085e75dea05255c66451894f4ab188c3a139693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:37 +0000
Subject: [PATCH 13/19] fix: flush buffered writers so that file exports report
 write errors

---
 src/fem_domain/domain/fields.rs         | 1 +
 src/fem_domain/domain/mesh.rs           | 3 ++-
 src/fem_problem/linalg/sparse_matrix.rs | 1 +
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fem_domain/domain/fields.rs b/src/fem_domain/domain/fields.rs
index 7bf7f13..a2e3fe5 100644
--- a/src/fem_domain/domain/fields.rs
+++ b/src/fem_domain/domain/fields.rs
@@ -229,6 +229,7 @@ impl<'d> UniformFieldSpace<'d> {
             field_quant.write_vtk_quantity(&mut writer)?;
         }
         writeln!(writer)?;
+        writer.flush()?;
 
         Ok(())
     }
diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index e69c6d2..ca0f77a 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -29,7 +29,7 @@ use std::cmp::Ordering;
 use std::collections::BTreeMap;
 use std::fmt;
 use std::fs::{read_to_string, File};
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::sync::Arc;
 
 /// Minimum Edge length in parametric space. h-Refinements will fail after edges are smaller than this value.
@@ -353,6 +353,7 @@ impl Mesh {
         };
 
         mesh_object.write_pretty(&mut w, 4)?;
+        w.flush()?;
 
         Ok(())
     }
diff --git a/src/fem_problem/linalg/sparse_matrix.rs b/src/fem_problem/linalg/sparse_matrix.rs
index 7010745..aad7a1c 100644
--- a/src/fem_problem/linalg/sparse_matrix.rs
+++ b/src/fem_problem/linalg/sparse_matrix.rs
@@ -259,6 +259,7 @@ impl AIJMatrixBinary {
             a_buf.put_f64(a);
         }
         writer.write_all(a_buf.as_ref())?;
+        writer.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From e61c8e7cee2866d9b0e84f5e74d2b3e6adb9c6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:39 +0000
Subject: [PATCH 14/19] fix: SparseMatrix::write_to_petsc_binary_format writes
 a complete PETSc matrix file

---
 src/fem_problem/linalg/sparse_matrix.rs | 36 +------------------------
 1 file changed, 1 insertion(+), 35 deletions(-)

diff --git a/src/fem_problem/linalg/sparse_matrix.rs b/src/fem_problem/linalg/sparse_matrix.rs
index aad7a1c..64c9737 100644
--- a/src/fem_problem/linalg/sparse_matrix.rs
+++ b/src/fem_problem/linalg/sparse_matrix.rs
@@ -127,41 +127,7 @@ impl SparseMatrix {
     }
 
     pub fn write_to_petsc_binary_format(&self, path: impl AsRef<str>) -> std::io::Result<()> {
-        let file = File::create(path.as_ref())?;
-        let mut writer = BufWriter::new(file);
-
-        let mut full_sparse: BTreeMap<[u32; 2], f64> = self
-            .entries
-            .iter()
-            .map(|([r, c], v)| ([*c, *r], *v))
-            .collect();
-        full_sparse.append(&mut self.entries.clone());
-
-        let nnz = full_sparse.len();
-        let mut i = Vec::with_capacity(nnz);
-        let mut j = Vec::with_capacity(nnz);
-        let mut v = Vec::with_capacity(nnz);
-
-        for ([r, c], value) in full_sparse {
-            i.push(r);
-            j.push(c);
-            v.push(value);
-        }
-        let nnz = v.len();
-
-        // Write the header
-        writer.write_all(
-            format!("1211216 {} {} {}\n", self.dimension, self.dimension, nnz).as_bytes(),
-        )?;
-        let mut row_nnz = vec![0; self.dimension];
-        for (coordinates, _) in self.iter_upper_tri() {
-            row_nnz[coordinates[0]] += 1;
-        }
-        for rnz in row_nnz.iter() {
-            writer.write_all(format!("{} ", rnz).as_bytes())?;
-        }
-
-        Ok(())
+        AIJMatrixBinary::from(self.clone()).print_to_petsc_binary_file(path)
     }
 }
 
-- 
2.43.0


From 8858f4d8fb57d083f3bd306335a13f1c951b9843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:04 +0000
Subject: [PATCH 15/19] fix: slepc_solve_gep removes its temporary files on
 every exit

---
 src/fem_problem/linalg/slepc_solve.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/fem_problem/linalg/slepc_solve.rs b/src/fem_problem/linalg/slepc_solve.rs
index 24e8c8b..e694a79 100644
--- a/src/fem_problem/linalg/slepc_solve.rs
+++ b/src/fem_problem/linalg/slepc_solve.rs
@@ -18,6 +18,10 @@ pub fn slepc_solve_gep(
     if let Some(esolve_dir) = var_os("GEP_SOLVE_DIR") {
         let dir = esolve_dir.to_str().unwrap();
         let prefix = unique_prefix();
+        let _temp_files = TempFiles {
+            dir,
+            prefix: &prefix,
+        };
 
         // Write the matrices to files
         gep.print_to_petsc_binary_files(&dir, &prefix)?;
@@ -42,8 +46,6 @@ pub fn slepc_solve_gep(
                     clean_directory(&dir, &prefix)?;
                     Ok(solution)
                 } else {
-                    clean_directory(&dir, &prefix)?;
-
                     match status.code() {
                         Some(1) => Err(Box::new(SlepcGEPError::FailedToInitializeSlepc)),
                         Some(2) => Err(Box::new(SlepcGEPError::BadArguments)),
@@ -55,11 +57,7 @@ pub fn slepc_solve_gep(
                     }
                 }
             }
-            Err(_) => {
-                clean_directory(&dir, &prefix)?;
-
-                Err(Box::new(SlepcGEPError::FailedToExecute))
-            }
+            Err(_) => Err(Box::new(SlepcGEPError::FailedToExecute)),
         }
     } else {
         println!("Solver not found; please set the GEP_SOLVE_DIR environment variable to the directory containing the solver executable!");
@@ -152,6 +150,18 @@ fn unique_prefix() -> String {
     format!("p_{}", hasher.finish().to_string().split_at(8).0)
 }
 
+// Removes the temporary files of a solve when it is dropped (on every exit, including errors)
+struct TempFiles<'a> {
+    dir: &'a str,
+    prefix: &'a str,
+}
+
+impl Drop for TempFiles<'_> {
+    fn drop(&mut self) {
+        let _ = clean_directory(self.dir, self.prefix);
+    }
+}
+
 fn clean_directory(dir: impl AsRef<str>, prefix: impl AsRef<str>) -> std::io::Result<()> {
     for file in std::fs::read_dir(&format!("{}/tmp/", dir.as_ref()))? {
         let file = file?;
-- 
2.43.0


From c9e0cc35f56283144d20ddf49e83b3a6bcdae608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 16/19] fix: max_uv_ratio compares uv_ratio with vu_ratio

---
 src/fem_domain/basis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem_domain/basis.rs b/src/fem_domain/basis.rs
index 5bafc72..eca7277 100644
--- a/src/fem_domain/basis.rs
+++ b/src/fem_domain/basis.rs
@@ -334,7 +334,7 @@ impl<BSpace: HierCurlBasisFnSpace> HierCurlBasisFn<BSpace> {
     /// Maximum of `uv_ratio` and `vu_ratio`
     pub fn max_uv_ratio(&self, [m, n]: [usize; 2]) -> f64 {
         let r0 = self.jac[m][n].u[0] / self.jac[m][n].v[1];
-        let r1 = self.jac[m][n].u[0] / self.jac[m][n].v[1];
+        let r1 = self.jac[m][n].v[1] / self.jac[m][n].u[0];
         std::cmp::max_by(r0, r1, |a, b| a.partial_cmp(b).unwrap())
     }
     /// The ratio of the du/dx to dv/dy at some point (m, n)
-- 
2.43.0


From 53ee2ff65db997a4fed19cf5ca7161c0655c4e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:02 +0000
Subject: [PATCH 17/19] fix: the max_ortho_basis feature compiles (stale
 attribute and re-export path)

---
 src/fem_domain/basis/hierarchical_basis_fns.rs | 2 +-
 src/lib.rs                                     | 6 +-----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/fem_domain/basis/hierarchical_basis_fns.rs b/src/fem_domain/basis/hierarchical_basis_fns.rs
index 7a541e6..eeadbed 100644
--- a/src/fem_domain/basis/hierarchical_basis_fns.rs
+++ b/src/fem_domain/basis/hierarchical_basis_fns.rs
@@ -199,7 +199,7 @@ pub mod poly {
 }
 
 #[cfg(feature = "max_ortho_basis")]
-mod max_ortho {
+pub mod max_ortho {
     use super::super::HierCurlBasisFnSpace;
 
     //https://ieeexplore.ieee.org/stamp/stamp.jsp?tp=&arnumber=6470651
diff --git a/src/lib.rs b/src/lib.rs
index ef4a74e..f1fe4ce 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,7 +1,3 @@
-#![cfg_attr(
-    feature = "max_ortho_basis",
-    feature(const_fn_floating_point_arithmetic)
-)]
 #![doc = include_str!("../README.md")]
 
 /// Structures defining the FEM Domain, Mesh, and Basis Space
@@ -14,7 +10,7 @@ pub mod fem_problem;
 pub mod prelude {
     pub use crate::fem_domain::basis::hierarchical_basis_fns::poly::HierPoly;
     #[cfg(feature = "max_ortho_basis")]
-    pub use crate::fem_domain::basis::shape_fns::max_ortho::MaxOrthoShapeFn;
+    pub use crate::fem_domain::basis::hierarchical_basis_fns::max_ortho::HierMaxOrtho;
     pub use crate::fem_domain::domain::{
         dof::{
             basis_spec::{BSAddress, BasisSpec},
-- 
2.43.0


From 6989733b607b2bf40f10ed3aad991b25ceebbbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:58 +0000
Subject: [PATCH 18/19] fix: max-ortho tangential functions of order 10 and 13
 vanish at the interval's ends

---
 src/fem_domain/basis/hierarchical_basis_fns.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fem_domain/basis/hierarchical_basis_fns.rs b/src/fem_domain/basis/hierarchical_basis_fns.rs
index eeadbed..ae21de9 100644
--- a/src/fem_domain/basis/hierarchical_basis_fns.rs
+++ b/src/fem_domain/basis/hierarchical_basis_fns.rs
@@ -217,12 +217,12 @@ pub mod max_ortho {
         &[0, -3, 0, -7, 0, -11, 0, 21],
         &[-1, 0, -5, 0, -9, 0, -13, 0, 28],
         &[0, -3, 0, -7, 0, -11, 0, -15, 0, 36],
-        &[-1, 0, -5, 0, -9, 0, -13, 0, -17, 0, 40],
+        &[-1, 0, -5, 0, -9, 0, -13, 0, -17, 0, 45],
         &[0, -3, 0, -7, 0, -11, 0, -15, 0, -19, 0, 55],
         &[-1, 0, -5, 0, -9, 0, -13, 0, -17, 0, -21, 0, 66],
-        &[0, -3, 0, -7, 0, -11, 0, -15, 0, -19, 0, -23, 0, 72],
+        &[0, -3, 0, -7, 0, -11, 0, -15, 0, -19, 0, -23, 0, 78],
     ];
-    const Q_DENOMINATORS: [i32; 12] = [1, 3, 6, 10, 15, 21, 28, 36, 40, 55, 66, 72];
+    const Q_DENOMINATORS: [i32; 12] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 66, 78];
 
     const fn get_q_weight_vector<const DIM: usize>() -> [f64; DIM] {
         let mut coeffs = [0.0; DIM];
-- 
2.43.0


From 9b1fb80104a8cf3320a14a43e0d0ddfc81eca2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:35 +0000
Subject: [PATCH 19/19] fix: second derivatives of the max-ortho functions at
 the ends of the interval

---
 .../basis/hierarchical_basis_fns.rs           | 48 ++-----------------
 1 file changed, 3 insertions(+), 45 deletions(-)

diff --git a/src/fem_domain/basis/hierarchical_basis_fns.rs b/src/fem_domain/basis/hierarchical_basis_fns.rs
index ae21de9..d07b584 100644
--- a/src/fem_domain/basis/hierarchical_basis_fns.rs
+++ b/src/fem_domain/basis/hierarchical_basis_fns.rs
@@ -470,46 +470,6 @@ pub mod max_ortho {
             let mut primes = Vec::with_capacity(n);
             let mut double_primes = Vec::with_capacity(n);
 
-            // construct (1 - x^2) without singularities at the endpoints
-            let d2_denom: Vec<f64> = match (
-                (points[0].abs() - 1.0).abs() < 1e-15,
-                (points[num_p - 1].abs() - 1.0).abs() < 1e-15,
-            ) {
-                (true, true) => {
-                    let mut den = vec![1.0];
-                    den.extend(
-                        points
-                            .iter()
-                            .skip(1)
-                            .take(num_p - 2)
-                            .map(|x| 1.0 - x.powi(2)),
-                    );
-                    den.push(1.0);
-                    den
-                }
-                (true, false) => {
-                    let mut den = vec![1.0];
-                    den.extend(
-                        points
-                            .iter()
-                            .skip(1)
-                            .take(num_p - 1)
-                            .map(|x| 1.0 - x.powi(2)),
-                    );
-                    den
-                }
-                (false, true) => {
-                    let mut den: Vec<_> = points
-                        .iter()
-                        .take(num_p - 1)
-                        .map(|x| 1.0 - x.powi(2))
-                        .collect();
-                    den.push(1.0);
-                    den
-                }
-                (false, false) => points.iter().map(|x| (1.0 - x.powi(2))).collect(),
-            };
-
             for i in 0..=n {
                 let i_f = i as f64;
                 match i {
@@ -568,13 +528,11 @@ pub mod max_ortho {
                         );
 
                         double_primes.push(
-                            primes[i]
+                            points
                                 .iter()
-                                .zip(values[i].iter())
                                 .enumerate()
-                                .map(|(p, (prime, value))| {
-                                    (2.0 * points[p] * prime - (i_f * (i_f + 1.0)) * value)
-                                        / d2_denom[p]
+                                .map(|(p, x)| {
+                                    (i_f + 1.0) * primes[i - 1][p] + x * double_primes[i - 1][p]
                                 })
                                 .collect(),
                         )
-- 
2.43.0

