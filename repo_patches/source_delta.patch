From 1e56344fbaf57d02e8fab50034bbde8343721902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 01/20] fix: report an error for the first edge id past the end
 in descendant_edges

---
 src/fem_domain/domain/mesh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index 5430879..bb4dcc2 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -579,7 +579,7 @@ impl Mesh {
         edge_id: usize,
         include_starting_edge: bool,
     ) -> Result<Vec<usize>, MeshAccessError> {
-        if edge_id > self.edges.len() {
+        if edge_id >= self.edges.len() {
             Err(MeshAccessError::EdgeDoesNotExist(edge_id))
         } else {
             let mut descendants = Vec::new();
-- 
2.43.0


From 63bb7ba2c578babee3e63f01e775373e6508a64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 02/20] fix: report an error for the first element id past the
 end in get_basis_spec

---
 src/fem_domain/domain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem_domain/domain.rs b/src/fem_domain/domain.rs
index e58196b..f7c1da6 100644
--- a/src/fem_domain/domain.rs
+++ b/src/fem_domain/domain.rs
@@ -181,7 +181,7 @@ impl Domain {
     /// * An `Err` if the `elem` does not have a [BasisSpec] at the given `address`
     ///
     pub fn get_basis_spec(&self, bs_address: BSAddress) -> Result<&BasisSpec, String> {
-        if bs_address.elem_id > self.mesh.elems.len() {
+        if bs_address.elem_id >= self.mesh.elems.len() {
             Err(format!(
                 "Elem {} does not exist; cannot retrieve BasisSpec!",
                 bs_address.elem_id
-- 
2.43.0


From 9a2a5a69c1edadc3cf97ddddb4652cb6a141d366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 03/20] fix: size field value grids correctly for unequal
 sampling densities

---
 src/fem_domain/domain/fields.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fem_domain/domain/fields.rs b/src/fem_domain/domain/fields.rs
index ba34790..be69b5b 100644
--- a/src/fem_domain/domain/fields.rs
+++ b/src/fem_domain/domain/fields.rs
@@ -80,8 +80,8 @@ impl<'d> UniformFieldSpace<'d> {
             let [i_max, j_max] = self.domain.mesh.max_expansion_orders();
 
             for shell_elem in self.domain.mesh.elems.iter().filter(|e| !e.has_children()) {
-                let mut x_values = vec![vec![0.0; self.densities[0]]; self.densities[1]];
-                let mut y_values = vec![vec![0.0; self.densities[0]]; self.densities[1]];
+                let mut x_values = vec![vec![0.0; self.densities[1]]; self.densities[0]];
+                let mut y_values = vec![vec![0.0; self.densities[1]]; self.densities[0]];
 
                 for anc_elem_id in self
                     .domain
@@ -323,7 +323,7 @@ impl<'d> UniformFieldSpace<'d> {
             for ((shell_elem_id, elem_values_a), elem_values_b) in
                 q_a.values.iter().zip(q_b.values.values())
             {
-                let mut result_values = vec![vec![0.0; self.densities[0]]; self.densities[1]];
+                let mut result_values = vec![vec![0.0; self.densities[1]]; self.densities[0]];
                 for m in 0..self.densities[0] {
                     for n in 0..self.densities[1] {
                         result_values[m][n] = expression(elem_values_a[m][n], elem_values_b[m][n]);
-- 
2.43.0


From 22257d948276092f96220badafb866f92ab650ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 04/20] fix: index VTK cell corners with the stride of the
 point grid

---
 src/fem_domain/domain/fields.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fem_domain/domain/fields.rs b/src/fem_domain/domain/fields.rs
index be69b5b..7bf7f13 100644
--- a/src/fem_domain/domain/fields.rs
+++ b/src/fem_domain/domain/fields.rs
@@ -201,15 +201,15 @@ impl<'d> UniformFieldSpace<'d> {
         for k in 0..num_shell_elems {
             for i in 0..(nx - 1) {
                 for j in 0..(ny - 1) {
-                    let initial_pt = nx * i + j + (nx * ny) * k;
+                    let initial_pt = ny * i + j + (nx * ny) * k;
 
                     writeln!(
                         writer,
                         "4\t{}\t{}\t{}\t{}",
                         initial_pt,
                         initial_pt + 1,
-                        initial_pt + nx + 1,
-                        initial_pt + nx,
+                        initial_pt + ny + 1,
+                        initial_pt + ny,
                     )?;
                 }
             }
-- 
2.43.0


From b5201ebd8e995e7ce73b0801461e4015f66bf160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 05/20] fix: keep p-refinement amounts from overflowing when
 they are negated or summed

---
 src/fem_domain/domain/mesh/p_refinement.rs | 42 ++++++++++++----------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/fem_domain/domain/mesh/p_refinement.rs b/src/fem_domain/domain/mesh/p_refinement.rs
index ed413b4..16bd113 100644
--- a/src/fem_domain/domain/mesh/p_refinement.rs
+++ b/src/fem_domain/domain/mesh/p_refinement.rs
@@ -96,8 +96,8 @@ impl From<PolyOrders> for JsonValue {
 // the internal p-refinement type
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
 enum PRefInt {
-    Increment(u8),
-    Decrement(u8),
+    Increment(u32),
+    Decrement(u32),
     None,
 }
 
@@ -105,17 +105,18 @@ impl PRefInt {
     fn refine(&self, n: u8) -> Result<u8, PRefError> {
         match self {
             Self::Increment(delta) => {
-                if n + *delta > MAX_POLYNOMIAL_ORDER {
+                let refined = (n as u32).saturating_add(*delta);
+                if refined > MAX_POLYNOMIAL_ORDER as u32 {
                     Err(PRefError::ExceededMaxExpansion)
                 } else {
-                    Ok(n + *delta)
+                    Ok(refined as u8)
                 }
             }
             Self::Decrement(delta) => {
-                if *delta >= n {
+                if *delta >= n as u32 {
                     Err(PRefError::NegExpansion)
                 } else {
-                    Ok(n - *delta)
+                    Ok(n - *delta as u8)
                 }
             }
             Self::None => Ok(n),
@@ -125,33 +126,38 @@ impl PRefInt {
     pub const fn from_i8(delta: i8) -> Self {
         match delta {
             0 => PRefInt::None,
-            d if d > 0 => PRefInt::Increment(d as u8),
-            d if d < 0 => PRefInt::Decrement(-d as u8),
+            d if d > 0 => PRefInt::Increment(d as u32),
+            d if d < 0 => PRefInt::Decrement(d.unsigned_abs() as u32),
             _ => unreachable!(),
         }
     }
 
-    pub fn as_i8(&self) -> i8 {
+    fn as_i64(&self) -> i64 {
         match self {
             Self::None => 0,
-            Self::Increment(delta) => *delta as i8,
-            Self::Decrement(delta) => -1 * (*delta as i8),
+            Self::Increment(delta) => *delta as i64,
+            Self::Decrement(delta) => -(*delta as i64),
         }
     }
 
+    // the signed delta; limited to the range of an `i8`
+    pub fn as_i8(&self) -> i8 {
+        self.as_i64().clamp(i8::MIN as i64, i8::MAX as i64) as i8
+    }
+
     pub fn constrain(&mut self, bounds: [i8; 2]) {
-        let si = self.as_i8();
+        let si = self.as_i64();
 
-        if si < bounds[0] {
+        if si < bounds[0] as i64 {
             *self = Self::from_i8(bounds[0]);
-        } else if si > bounds[1] {
+        } else if si > bounds[1] as i64 {
             *self = Self::from_i8(bounds[1]);
         }
     }
 
     pub fn within(&self, bounds: [i8; 2]) -> bool {
-        let si = self.as_i8();
-        si >= bounds[0] && si <= bounds[1]
+        let si = self.as_i64();
+        si >= bounds[0] as i64 && si <= bounds[1] as i64
     }
 }
 
@@ -159,7 +165,7 @@ impl AddAssign for PRefInt {
     fn add_assign(&mut self, rhs: Self) {
         let sum = match *self {
             Self::Increment(s_delta) => match rhs {
-                Self::Increment(r_delta) => Self::Increment(s_delta + r_delta),
+                Self::Increment(r_delta) => Self::Increment(s_delta.saturating_add(r_delta)),
                 Self::Decrement(r_delta) => match s_delta.cmp(&r_delta) {
                     Ordering::Equal => Self::None,
                     Ordering::Greater => Self::Increment(s_delta - r_delta),
@@ -168,7 +174,7 @@ impl AddAssign for PRefInt {
                 Self::None => self.clone(),
             },
             Self::Decrement(s_delta) => match rhs {
-                Self::Decrement(r_delta) => Self::Decrement(s_delta + r_delta),
+                Self::Decrement(r_delta) => Self::Decrement(s_delta.saturating_add(r_delta)),
                 Self::Increment(r_delta) => match s_delta.cmp(&r_delta) {
                     Ordering::Equal => Self::None,
                     Ordering::Greater => Self::Decrement(s_delta - r_delta),
-- 
2.43.0


From f7926e7b5bd396fb8264dc317b0a7442a1bb2e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 06/20] fix: leave expansion orders untouched when a
 p-refinement is rejected

---
 src/fem_domain/domain/mesh/p_refinement.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh/p_refinement.rs b/src/fem_domain/domain/mesh/p_refinement.rs
index 16bd113..99020d8 100644
--- a/src/fem_domain/domain/mesh/p_refinement.rs
+++ b/src/fem_domain/domain/mesh/p_refinement.rs
@@ -18,8 +18,11 @@ impl PolyOrders {
     ///
     /// Return an `Err` if the refinement causes the expansion orders to fall outside of the valid range
     pub fn refine(&mut self, refinement: PRef) -> Result<(), PRefError> {
-        self.ni = refinement.refine_i(self.ni)?;
-        self.nj = refinement.refine_j(self.nj)?;
+        let ni = refinement.refine_i(self.ni)?;
+        let nj = refinement.refine_j(self.nj)?;
+
+        self.ni = ni;
+        self.nj = nj;
 
         Ok(())
     }
-- 
2.43.0


From 8450c6b0a3d00263b51ceec50ff86c75a4fa17d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 07/20] fix: keep the extension when a plain and an extended
 h-refinement are combined

---
 src/fem_domain/domain/mesh/h_refinement.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh/h_refinement.rs b/src/fem_domain/domain/mesh/h_refinement.rs
index 867656b..7769de7 100644
--- a/src/fem_domain/domain/mesh/h_refinement.rs
+++ b/src/fem_domain/domain/mesh/h_refinement.rs
@@ -163,12 +163,12 @@ impl AddAssign for HRef {
             HRef::U(None) => match rhs {
                 HRef::V(_) => *self = HRef::T,
                 HRef::T => *self = HRef::T,
-                _ => (),
+                HRef::U(_) => *self = rhs,
             },
             HRef::V(None) => match rhs {
                 HRef::U(_) => *self = HRef::T,
                 HRef::T => *self = HRef::T,
-                _ => (),
+                HRef::V(_) => *self = rhs,
             },
             HRef::U(Some(idx)) => match rhs {
                 HRef::U(Some(r_idx)) => {
-- 
2.43.0


From 05030f60b55dd65606a8d00e6d161fb86af07e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:06 +0000
Subject: [PATCH 08/20] fix: reject h-refinements that cannot be completed
 before modifying the mesh

---
 src/fem_domain/domain/mesh.rs      | 50 ++++++++++++++++++++++++++++++
 src/fem_domain/domain/mesh/edge.rs |  9 ++++++
 2 files changed, 59 insertions(+)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index bb4dcc2..17cfb40 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -847,6 +847,11 @@ impl Mesh {
     ) -> Result<(), HRefError> {
         let mut refinements_map: BTreeMap<usize, HRef> = BTreeMap::new();
         for (elem_id, h_ref) in refinements {
+            if let HRef::U(Some(child_idx)) | HRef::V(Some(child_idx)) = h_ref {
+                if child_idx > 1 {
+                    return Err(HRefError::BisectionIdxExceeded);
+                }
+            }
             match self.elem_is_h_refineable(elem_id) {
                 Ok(true) => {
                     refinements_map
@@ -859,6 +864,11 @@ impl Mesh {
             }
         }
 
+        // make sure that every refinement can be completed before anything is modified
+        for (elem_id, refinement) in refinements_map.iter() {
+            self.check_edge_lengths(*elem_id, *refinement)?;
+        }
+
         let mut refinement_extensions: Vec<(usize, HRef)> = Vec::new();
         let mut elem_id_tracker = self.elems.len();
         let mut node_id_tracker = IdTracker::new(self.nodes.len());
@@ -913,6 +923,46 @@ impl Mesh {
         Ok(())
     }
 
+    // Check that an h-refineable Elem's Edges are long enough to be bisected by the given h-refinement (including its extension)
+    fn check_edge_lengths(&self, elem_id: usize, refinement: HRef) -> Result<(), HRefError> {
+        let edge_ids = self.elems[elem_id].edges;
+
+        let (bisected, outer, extension) = match refinement {
+            HRef::T => {
+                return edge_ids
+                    .iter()
+                    .try_for_each(|edge_id| self.edges[*edge_id].check_bisection())
+            }
+            HRef::U(extension) => ([edge_ids[0], edge_ids[1]], [edge_ids[2], edge_ids[3]], extension),
+            HRef::V(extension) => ([edge_ids[2], edge_ids[3]], [edge_ids[0], edge_ids[1]], extension),
+        };
+
+        for edge_id in bisected {
+            self.edges[edge_id].check_bisection()?;
+        }
+
+        if let Some(child_idx) = extension {
+            // the child must be refineable itself
+            for edge_id in bisected {
+                if self.edges[edge_id].length / 2.0 <= MIN_EDGE_LENGTH {
+                    return Err(HRefError::MinEdgeLength(edge_id));
+                }
+            }
+
+            // as must the Edge it shares with its parent, and the new Edge it shares with its sibling
+            self.edges[outer[child_idx]].check_bisection()?;
+            let [p0, p1] = bisected.map(|edge_id| {
+                let edge_points = self.edge_points(edge_id).unwrap();
+                Point::between(edge_points[0], edge_points[1])
+            });
+            if p0.dist(&p1) / 2.0 < MIN_EDGE_LENGTH {
+                return Err(HRefError::MinEdgeLength(outer[child_idx]));
+            }
+        }
+
+        Ok(())
+    }
+
     fn execute_t_refinement(
         &mut self,
         mut new_elems: Vec<ElemUninit>,
diff --git a/src/fem_domain/domain/mesh/edge.rs b/src/fem_domain/domain/mesh/edge.rs
index f21c577..aaf28a7 100644
--- a/src/fem_domain/domain/mesh/edge.rs
+++ b/src/fem_domain/domain/mesh/edge.rs
@@ -122,6 +122,15 @@ impl Edge {
         }
     }
 
+    /// Returns an `Err` if this Edge has not been h-refined yet, and is too short to be
+    pub(crate) fn check_bisection(&self) -> Result<(), HRefError> {
+        if self.children.is_none() && self.length / 2.0 < MIN_EDGE_LENGTH {
+            Err(HRefError::MinEdgeLength(self.id))
+        } else {
+            Ok(())
+        }
+    }
+
     /// Produce two child Edges from this edge and connect them to a new Node along its center
     pub(crate) fn h_refine(
         &mut self,
-- 
2.43.0


From e96da0aedcc012500b9084d017e52e81de326441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:06 +0000
Subject: [PATCH 09/20] fix: connect the unit mesh's element to its nodes and
 edges

---
 src/fem_domain/domain/mesh.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index 17cfb40..8536eca 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -67,18 +67,25 @@ impl Mesh {
         let unit_element = Arc::new(Element::new(0, points.clone(), Materials::default()));
         let unit_elem = Elem::new(0, [0, 1, 2, 3], [0, 1, 2, 3], unit_element.clone());
 
-        let nodes: Vec<Node> = points
+        let mut nodes: Vec<Node> = points
             .iter()
             .enumerate()
             .map(|(n_id, p)| Node::new(n_id, *p, true))
             .collect();
-        let edges: Vec<Edge> = vec![
+        let mut edges: Vec<Edge> = vec![
             Edge::new(0, [&nodes[0], &nodes[1]], true),
             Edge::new(1, [&nodes[2], &nodes[3]], true),
             Edge::new(2, [&nodes[0], &nodes[2]], true),
             Edge::new(3, [&nodes[1], &nodes[3]], true),
         ];
 
+        for edge in edges.iter_mut() {
+            edge.connect_elem(&unit_elem);
+        }
+        for node in nodes.iter_mut() {
+            node.connect_elem(&unit_elem);
+        }
+
         Self {
             elements: vec![unit_element],
             elems: vec![unit_elem],
-- 
2.43.0


From 66ecb2878936d774471e001ea13c57a4deba671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:06 +0000
Subject: [PATCH 10/20] fix: treat positive and negative zero as the same
 coordinate

---
 src/fem_domain/domain/mesh/space.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fem_domain/domain/mesh/space.rs b/src/fem_domain/domain/mesh/space.rs
index b1cd26b..a07a50f 100644
--- a/src/fem_domain/domain/mesh/space.rs
+++ b/src/fem_domain/domain/mesh/space.rs
@@ -353,7 +353,8 @@ impl FloatRep {
         let total_rounded = integer_part + fractional_rounded;
 
         Self {
-            sign: value.is_sign_positive(),
+            // zero is always positive (including values which are rounded to zero)
+            sign: value.is_sign_positive() || total_rounded == 0.0,
             bits: total_rounded.to_bits(),
         }
     }
-- 
2.43.0


From dbba23a20d2f0d007b52f7d91e7c680ed70949ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:07 +0000
Subject: [PATCH 11/20] fix: multiply M2D matrices row by column

---
 src/fem_domain/domain/mesh/space.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh/space.rs b/src/fem_domain/domain/mesh/space.rs
index a07a50f..ba71d08 100644
--- a/src/fem_domain/domain/mesh/space.rs
+++ b/src/fem_domain/domain/mesh/space.rs
@@ -167,9 +167,10 @@ impl Div<f64> for M2D {
 impl Mul<Self> for M2D {
     type Output = Self;
     fn mul(self, other: Self) -> Self {
+        let cols = other.transpose();
         Self {
-            u: V2D::from([self.u.dot_with(&other.u), self.u.dot_with(&other.v)]),
-            v: V2D::from([self.v.dot_with(&other.u), self.v.dot_with(&other.v)]),
+            u: V2D::from([self.u.dot_with(&cols.u), self.u.dot_with(&cols.v)]),
+            v: V2D::from([self.v.dot_with(&cols.u), self.v.dot_with(&cols.v)]),
         }
     }
 }
-- 
2.43.0


From 10abf1b09e2da06355ca143dbcb3431721fa401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:07 +0000
Subject: [PATCH 12/20] fix: write the PETSc binary format from
 write_to_petsc_binary_format

---
 src/fem_problem/linalg/sparse_matrix.rs | 36 +------------------------
 1 file changed, 1 insertion(+), 35 deletions(-)

diff --git a/src/fem_problem/linalg/sparse_matrix.rs b/src/fem_problem/linalg/sparse_matrix.rs
index 7010745..b4e6bc0 100644
--- a/src/fem_problem/linalg/sparse_matrix.rs
+++ b/src/fem_problem/linalg/sparse_matrix.rs
@@ -127,41 +127,7 @@ impl SparseMatrix {
     }
 
     pub fn write_to_petsc_binary_format(&self, path: impl AsRef<str>) -> std::io::Result<()> {
-        let file = File::create(path.as_ref())?;
-        let mut writer = BufWriter::new(file);
-
-        let mut full_sparse: BTreeMap<[u32; 2], f64> = self
-            .entries
-            .iter()
-            .map(|([r, c], v)| ([*c, *r], *v))
-            .collect();
-        full_sparse.append(&mut self.entries.clone());
-
-        let nnz = full_sparse.len();
-        let mut i = Vec::with_capacity(nnz);
-        let mut j = Vec::with_capacity(nnz);
-        let mut v = Vec::with_capacity(nnz);
-
-        for ([r, c], value) in full_sparse {
-            i.push(r);
-            j.push(c);
-            v.push(value);
-        }
-        let nnz = v.len();
-
-        // Write the header
-        writer.write_all(
-            format!("1211216 {} {} {}\n", self.dimension, self.dimension, nnz).as_bytes(),
-        )?;
-        let mut row_nnz = vec![0; self.dimension];
-        for (coordinates, _) in self.iter_upper_tri() {
-            row_nnz[coordinates[0]] += 1;
-        }
-        for rnz in row_nnz.iter() {
-            writer.write_all(format!("{} ", rnz).as_bytes())?;
-        }
-
-        Ok(())
+        AIJMatrixBinary::from(self.clone()).print_to_petsc_binary_file(path)
     }
 }
 
-- 
2.43.0


From 278c10635bb210b19b891977e5ac16e7f543b26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:07 +0000
Subject: [PATCH 13/20] fix: report write errors that only surface when an
 output file is flushed

---
 src/fem_domain/domain/fields.rs         | 1 +
 src/fem_domain/domain/mesh.rs           | 4 ++--
 src/fem_problem/linalg/sparse_matrix.rs | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fem_domain/domain/fields.rs b/src/fem_domain/domain/fields.rs
index 7bf7f13..a2e3fe5 100644
--- a/src/fem_domain/domain/fields.rs
+++ b/src/fem_domain/domain/fields.rs
@@ -229,6 +229,7 @@ impl<'d> UniformFieldSpace<'d> {
             field_quant.write_vtk_quantity(&mut writer)?;
         }
         writeln!(writer)?;
+        writer.flush()?;
 
         Ok(())
     }
diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index 8536eca..cee80f5 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -29,7 +29,7 @@ use std::cmp::Ordering;
 use std::collections::BTreeMap;
 use std::fmt;
 use std::fs::{read_to_string, File};
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::sync::Arc;
 
 /// Minimum Edge length in parametric space. h-Refinements will fail after edges are smaller than this value.
@@ -354,7 +354,7 @@ impl Mesh {
 
         mesh_object.write_pretty(&mut w, 4)?;
 
-        Ok(())
+        w.flush()
     }
 
     // ----------------------------------------------------------------------------------------------------
diff --git a/src/fem_problem/linalg/sparse_matrix.rs b/src/fem_problem/linalg/sparse_matrix.rs
index b4e6bc0..b9f5e6a 100644
--- a/src/fem_problem/linalg/sparse_matrix.rs
+++ b/src/fem_problem/linalg/sparse_matrix.rs
@@ -226,7 +226,7 @@ impl AIJMatrixBinary {
         }
         writer.write_all(a_buf.as_ref())?;
 
-        Ok(())
+        writer.flush()
     }
 }
 
-- 
2.43.0


From 681f7a3acd72131985ae8897ad3b431b0fead905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:07 +0000
Subject: [PATCH 14/20] fix: remove the external solver's files when writing
 matrices or reading the solution fails

---
 src/fem_problem/linalg/slepc_solve.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fem_problem/linalg/slepc_solve.rs b/src/fem_problem/linalg/slepc_solve.rs
index 24e8c8b..dd9c673 100644
--- a/src/fem_problem/linalg/slepc_solve.rs
+++ b/src/fem_problem/linalg/slepc_solve.rs
@@ -20,7 +20,11 @@ pub fn slepc_solve_gep(
         let prefix = unique_prefix();
 
         // Write the matrices to files
-        gep.print_to_petsc_binary_files(&dir, &prefix)?;
+        if let Err(write_err) = gep.print_to_petsc_binary_files(&dir, &prefix) {
+            // don't leave an incomplete set of files behind
+            let _ = clean_directory(&dir, &prefix);
+            return Err(Box::new(write_err));
+        }
 
         // Run the solver
         let esolve_exit_status = Command::new("mpiexec")
@@ -38,9 +42,9 @@ pub fn slepc_solve_gep(
         match esolve_exit_status {
             Ok(status) => {
                 if status.success() {
-                    let solution = retrieve_solution(&dir, &prefix)?;
+                    let solution = retrieve_solution(&dir, &prefix);
                     clean_directory(&dir, &prefix)?;
-                    Ok(solution)
+                    Ok(solution?)
                 } else {
                     clean_directory(&dir, &prefix)?;
 
-- 
2.43.0


From 43fd69704c09d0ac0fde904e165d97048aa5fd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:07 +0000
Subject: [PATCH 15/20] fix: report corrupt eigenvector files as errors

---
 src/fem_problem/linalg/slepc_solve.rs | 34 ++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/fem_problem/linalg/slepc_solve.rs b/src/fem_problem/linalg/slepc_solve.rs
index dd9c673..3dd4670 100644
--- a/src/fem_problem/linalg/slepc_solve.rs
+++ b/src/fem_problem/linalg/slepc_solve.rs
@@ -8,7 +8,7 @@ use std::time::SystemTime;
 use bytes::{Buf, BytesMut};
 use std::env::var_os;
 use std::fs::File;
-use std::io::Read;
+use std::io::{Error, ErrorKind, Read};
 use std::process::Command;
 
 pub fn slepc_solve_gep(
@@ -18,6 +18,7 @@ pub fn slepc_solve_gep(
     if let Some(esolve_dir) = var_os("GEP_SOLVE_DIR") {
         let dir = esolve_dir.to_str().unwrap();
         let prefix = unique_prefix();
+        let num_dofs = gep.a.dimension;
 
         // Write the matrices to files
         if let Err(write_err) = gep.print_to_petsc_binary_files(&dir, &prefix) {
@@ -42,7 +43,7 @@ pub fn slepc_solve_gep(
         match esolve_exit_status {
             Ok(status) => {
                 if status.success() {
-                    let solution = retrieve_solution(&dir, &prefix);
+                    let solution = retrieve_solution(&dir, &prefix, num_dofs);
                     clean_directory(&dir, &prefix)?;
                     Ok(solution?)
                 } else {
@@ -103,8 +104,15 @@ impl std::fmt::Display for SlepcGEPError {
 
 impl std::error::Error for SlepcGEPError {}
 
-fn retrieve_solution(dir: impl AsRef<str>, prefix: impl AsRef<str>) -> std::io::Result<EigenPair> {
-    let evec = retrieve_eigenvector(format!("{}/tmp/{}_evec.dat", dir.as_ref(), prefix.as_ref()))?;
+fn retrieve_solution(
+    dir: impl AsRef<str>,
+    prefix: impl AsRef<str>,
+    num_dofs: usize,
+) -> std::io::Result<EigenPair> {
+    let evec = retrieve_eigenvector(
+        format!("{}/tmp/{}_evec.dat", dir.as_ref(), prefix.as_ref()),
+        num_dofs,
+    )?;
     let eval = retrieve_eigenvalue(format!("{}/tmp/{}_eval.dat", dir.as_ref(), prefix.as_ref()))?;
 
     Ok(EigenPair {
@@ -113,16 +121,30 @@ fn retrieve_solution(dir: impl AsRef<str>, prefix: impl AsRef<str>) -> std::io::
     })
 }
 
-fn retrieve_eigenvector(path: String) -> std::io::Result<Vec<f64>> {
+fn retrieve_eigenvector(path: String, num_dofs: usize) -> std::io::Result<Vec<f64>> {
     let mut vec_file = File::open(path)?;
 
     let mut header_bytes = BytesMut::new();
     header_bytes.resize(8, 0);
     vec_file.read_exact(&mut header_bytes)?;
 
-    assert_eq!(header_bytes.get_i32(), 1211214_i32); // ensure this is a PETSC vector file
+    // ensure this is a PETSC vector file
+    if header_bytes.get_i32() != 1211214_i32 {
+        return Err(Error::new(
+            ErrorKind::InvalidData,
+            "Eigenvector file is not a PETSC vector!",
+        ));
+    }
     let m = header_bytes.get_i32() as usize;
 
+    // ensure it has one value for each row of the matrices
+    if m != num_dofs {
+        return Err(Error::new(
+            ErrorKind::InvalidData,
+            "Eigenvector file has the wrong length!",
+        ));
+    }
+
     let mut value_bytes = BytesMut::new();
     value_bytes.resize(m * 8, 0);
     vec_file.read_exact(&mut value_bytes)?;
-- 
2.43.0


From 53f0ee6b05ccd3ed6344a7ffb72c42694adc0709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:07 +0000
Subject: [PATCH 16/20] fix: give every external solver call its own file
 prefix

---
 src/fem_problem/linalg/slepc_solve.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fem_problem/linalg/slepc_solve.rs b/src/fem_problem/linalg/slepc_solve.rs
index 3dd4670..985fdf0 100644
--- a/src/fem_problem/linalg/slepc_solve.rs
+++ b/src/fem_problem/linalg/slepc_solve.rs
@@ -10,6 +10,7 @@ use std::env::var_os;
 use std::fs::File;
 use std::io::{Error, ErrorKind, Read};
 use std::process::Command;
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 pub fn slepc_solve_gep(
     gep: GEP,
@@ -169,13 +170,19 @@ fn retrieve_eigenvalue(path: String) -> std::io::Result<f64> {
     Ok(value)
 }
 
+// the number of calls made to the solver by this process
+static CALL_COUNT: AtomicUsize = AtomicUsize::new(0);
+
 fn unique_prefix() -> String {
     let t_now = SystemTime::now()
         .duration_since(SystemTime::UNIX_EPOCH)
         .unwrap();
     let mut hasher = DefaultHasher::new();
     t_now.hash(&mut hasher);
-    format!("p_{}", hasher.finish().to_string().split_at(8).0)
+    // calls made at the same time (from this process or another) must not share a prefix
+    std::process::id().hash(&mut hasher);
+    CALL_COUNT.fetch_add(1, Ordering::Relaxed).hash(&mut hasher);
+    format!("p_{:020}", hasher.finish())
 }
 
 fn clean_directory(dir: impl AsRef<str>, prefix: impl AsRef<str>) -> std::io::Result<()> {
-- 
2.43.0


From 5e0f09b8cbc5a00f6494be876aa74420965750cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:07 +0000
Subject: [PATCH 17/20] fix: don't panic on paths that are not valid UTF-8 in
 the external solver link

---
 src/fem_problem/linalg/slepc_solve.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fem_problem/linalg/slepc_solve.rs b/src/fem_problem/linalg/slepc_solve.rs
index 985fdf0..f07ae08 100644
--- a/src/fem_problem/linalg/slepc_solve.rs
+++ b/src/fem_problem/linalg/slepc_solve.rs
@@ -17,7 +17,10 @@ pub fn slepc_solve_gep(
     target_eigenvalue: f64,
 ) -> Result<EigenPair, Box<dyn std::error::Error>> {
     if let Some(esolve_dir) = var_os("GEP_SOLVE_DIR") {
-        let dir = esolve_dir.to_str().unwrap();
+        let dir = match esolve_dir.to_str() {
+            Some(dir) => dir,
+            None => return Err(Box::new(SlepcGEPError::SolverNotFound)),
+        };
         let prefix = unique_prefix();
         let num_dofs = gep.a.dimension;
 
@@ -189,7 +192,7 @@ fn clean_directory(dir: impl AsRef<str>, prefix: impl AsRef<str>) -> std::io::Re
     for file in std::fs::read_dir(&format!("{}/tmp/", dir.as_ref()))? {
         let file = file?;
         let file_name_os = file.file_name();
-        let file_name = String::from(file_name_os.to_str().unwrap());
+        let file_name = file_name_os.to_string_lossy();
 
         if file_name.contains(prefix.as_ref()) {
             std::fs::remove_file(file.path())?;
-- 
2.43.0


From 7ad29213659b599e27120a838fb04371cce99b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:52 +0000
Subject: [PATCH 18/20] fix: compare both ratios in max_uv_ratio

---
 src/fem_domain/basis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem_domain/basis.rs b/src/fem_domain/basis.rs
index 5bafc72..eca7277 100644
--- a/src/fem_domain/basis.rs
+++ b/src/fem_domain/basis.rs
@@ -334,7 +334,7 @@ impl<BSpace: HierCurlBasisFnSpace> HierCurlBasisFn<BSpace> {
     /// Maximum of `uv_ratio` and `vu_ratio`
     pub fn max_uv_ratio(&self, [m, n]: [usize; 2]) -> f64 {
         let r0 = self.jac[m][n].u[0] / self.jac[m][n].v[1];
-        let r1 = self.jac[m][n].u[0] / self.jac[m][n].v[1];
+        let r1 = self.jac[m][n].v[1] / self.jac[m][n].u[0];
         std::cmp::max_by(r0, r1, |a, b| a.partial_cmp(b).unwrap())
     }
     /// The ratio of the du/dx to dv/dy at some point (m, n)
-- 
2.43.0


From 3f61f6bf399adaaabe7ed7a17e7e56314465e9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:54 +0000
Subject: [PATCH 19/20] fix: compute accurate Gauss-Legendre weights for every
 number of points

---
 src/fem_problem/integration/glq.rs | 39 +++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/fem_problem/integration/glq.rs b/src/fem_problem/integration/glq.rs
index 3e2a076..ce34557 100644
--- a/src/fem_problem/integration/glq.rs
+++ b/src/fem_problem/integration/glq.rs
@@ -191,19 +191,12 @@ pub fn gauss_quadrature_points(n: usize, include_endpoints: bool) -> (Vec<f64>,
         }
     });
 
-    let eigen_decomp = SymmetricEigen::new(polymat);
-
-    let mut xw: Vec<(f64, f64)> = eigen_decomp
+    // the Eigenvalues are the roots of the Legendre polynomial of degree n; the Eigenvectors are not
+    // accurate enough to obtain the weights for every n
+    let mut xw: Vec<(f64, f64)> = SymmetricEigen::new(polymat)
         .eigenvalues
         .iter()
-        .cloned()
-        .zip(
-            eigen_decomp
-                .eigenvectors
-                .row(0)
-                .iter()
-                .map(|weight| (*weight).powi(2) * 2.0),
-        )
+        .map(|x| refine_legendre_root(n, *x))
         .collect();
 
     xw.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
@@ -221,6 +214,30 @@ pub fn gauss_quadrature_points(n: usize, include_endpoints: bool) -> (Vec<f64>,
     (points, weights)
 }
 
+/// Polish an approximate root of the Legendre polynomial of degree `n` using Newton's method. Return the root and its quadrature weight
+fn refine_legendre_root(n: usize, approx: f64) -> (f64, f64) {
+    // value and derivative of the Legendre polynomial
+    let evaluate = |x: f64| {
+        let (mut prev, mut value) = (1.0, x);
+        for k in 2..=n {
+            let k = k as f64;
+            let next = ((2.0 * k - 1.0) * x * value - (k - 1.0) * prev) / k;
+            prev = value;
+            value = next;
+        }
+        (value, n as f64 * (prev - x * value) / (1.0 - x * x))
+    };
+
+    let mut root = approx;
+    for _ in 0..3 {
+        let (value, derivative) = evaluate(root);
+        root -= value / derivative;
+    }
+    let (_, derivative) = evaluate(root);
+
+    (root, 2.0 / ((1.0 - root * root) * derivative.powi(2)))
+}
+
 /// Scale a set of Gauss-Legendre-Quadrature Integration points to fall within a specific range
 ///
 /// ```
-- 
2.43.0


From cb40277ec1df42cc86d700d0e9b0137583d2cf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:23 +0000
Subject: [PATCH 20/20] fix: tell elements of different meshes apart in the
 basis function cache

---
 src/fem_domain/basis.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/fem_domain/basis.rs b/src/fem_domain/basis.rs
index eca7277..449f567 100644
--- a/src/fem_domain/basis.rs
+++ b/src/fem_domain/basis.rs
@@ -155,6 +155,10 @@ struct BSDescription {
     sample: Option<[usize; 2]>,
     base_id: usize,
     desc_id: Option<usize>,
+    // ids are only unique within one Mesh, so the geometry is needed to tell Elems of different Meshes apart
+    corners: [[u64; 2]; 4],
+    base_range: [[u64; 2]; 2],
+    desc_range: Option<[[u64; 2]; 2]>,
 }
 
 impl BSDescription {
@@ -164,8 +168,15 @@ impl BSDescription {
             sample: sampled_over.map(|so_elem| [so_elem.nodes[0], so_elem.nodes[3]]),
             base_id: elem.id,
             desc_id: sampled_over.map(|so_elem| so_elem.id),
+            corners: elem.element.points.map(|p| [p.x, p.y].map(f64::to_bits)),
+            base_range: Self::range_of(elem),
+            desc_range: sampled_over.map(Self::range_of),
         }
     }
+
+    fn range_of(elem: &Elem) -> [[u64; 2]; 2] {
+        elem.parametric_range().map(|uv| uv.map(f64::to_bits))
+    }
 }
 
 // 4 * the maximum order (rounded up to the nearest power of 2)
-- 
2.43.0

