From aba67310320950fee18c53762f02a8cb8d8028a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:38 +0000
Subject: [PATCH 01/66] fix: k-nearest search keeps its candidates sorted so
 the farthest one is replaced

---
 src/kd_tree.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/kd_tree.rs b/src/kd_tree.rs
index 967d28d..edd8421 100644
--- a/src/kd_tree.rs
+++ b/src/kd_tree.rs
@@ -224,6 +224,7 @@ where
         if pc.len() < n || sqr_dist_3d(search, &self.val) < sqr_dist_3d(search, &pc[&pc.len() - 1])
         {
             pc.push(self.val.clone());
+            Self::sort_and_limit(pc, search, n);
         }
 
         let comp = dimension_compare(search, &self.val, self.dimension);
@@ -407,12 +408,13 @@ where
         PSearch: Is3D,
         PFind: Is3D + Clone,
     {
+        // always sorted, since callers rely on the last element being the farthest
+        pc.sort_by(|a, b| {
+            sqr_dist_3d(search, a)
+                .partial_cmp(&sqr_dist_3d(search, b))
+                .unwrap_or(Ordering::Equal)
+        });
         if pc.len() > max_size {
-            pc.sort_by(|a, b| {
-                sqr_dist_3d(search, a)
-                    .partial_cmp(&sqr_dist_3d(search, b))
-                    .unwrap_or(Ordering::Equal)
-            });
             let mut result: Vec<PFind>;
             result = Vec::new();
             for i in pc.iter().take(max_size) {
-- 
2.43.0


From 6c3979f67aafe1407508a10197afb1f8fe4e997e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 02/66] fix: bounding box trees stop splitting when no axis
 separates the objects

---
 src/aa_bb_tree_2d.rs | 19 ++++++++++++++++---
 src/aa_bb_tree_3d.rs | 19 ++++++++++++++++---
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/aa_bb_tree_2d.rs b/src/aa_bb_tree_2d.rs
index d8400a3..a4a769f 100644
--- a/src/aa_bb_tree_2d.rs
+++ b/src/aa_bb_tree_2d.rs
@@ -47,7 +47,7 @@ where
     HB: HasBoundingBox2D + Clone,
 {
     pub fn new(data: Vec<HB>, maxdepth: usize, allowed_bucket_size: usize) -> Self {
-        Self::new_rec(data, maxdepth, allowed_bucket_size, 0)
+        Self::new_rec(data, maxdepth, allowed_bucket_size, 0, 0)
     }
 
     pub fn any<'a>(&'a self, f: &dyn Fn(&HB) -> bool) -> bool {
@@ -90,7 +90,14 @@ where
         }
     }
 
-    fn new_rec(data: Vec<HB>, maxdepth: usize, allowed_bucket_size: usize, depth: usize) -> Self {
+    // unsplit: number of directly preceding splits which failed to remove any element
+    fn new_rec(
+        data: Vec<HB>,
+        maxdepth: usize,
+        allowed_bucket_size: usize,
+        depth: usize,
+        unsplit: usize,
+    ) -> Self {
         match data.len() {
             0 => AABBTree2D::Empty,
             1 => {
@@ -98,7 +105,7 @@ where
                 AABBTree2D::Leaf(AABBTree2DLeaf::new(data, bb))
             }
             _ => {
-                if depth >= maxdepth || data.len() <= allowed_bucket_size {
+                if depth >= maxdepth || data.len() <= allowed_bucket_size || unsplit >= 2 {
                     let bb = Self::bb_of(&data).unwrap(); //unwrap fine, since data non empty and with valid bbs (see new)
                     AABBTree2D::Leaf(AABBTree2DLeaf::new(data, bb))
                 } else {
@@ -120,17 +127,23 @@ where
                     if (dleft.len() == dright.len()) && dleft.len() == data.len() {
                         AABBTree2D::Leaf(AABBTree2DLeaf::new(data, bb))
                     } else {
+                        let n = data.len();
+                        let unsplit_of = |len| if len == n { unsplit + 1 } else { 0 };
+                        let (unsplit_left, unsplit_right) =
+                            (unsplit_of(dleft.len()), unsplit_of(dright.len()));
                         let left = Box::new(Self::new_rec(
                             dleft,
                             maxdepth,
                             allowed_bucket_size,
                             depth + 1,
+                            unsplit_left,
                         ));
                         let right = Box::new(Self::new_rec(
                             dright,
                             maxdepth,
                             allowed_bucket_size,
                             depth + 1,
+                            unsplit_right,
                         ));
 
                         AABBTree2D::Branch(AABBTree2DBranch::new(left, right, bb))
diff --git a/src/aa_bb_tree_3d.rs b/src/aa_bb_tree_3d.rs
index d34a15b..47f7f2c 100644
--- a/src/aa_bb_tree_3d.rs
+++ b/src/aa_bb_tree_3d.rs
@@ -47,7 +47,7 @@ where
     HB: HasBoundingBox3D + Clone,
 {
     pub fn new(data: Vec<HB>, maxdepth: usize, allowed_bucket_size: usize) -> Self {
-        Self::new_rec(data, maxdepth, allowed_bucket_size, 0)
+        Self::new_rec(data, maxdepth, allowed_bucket_size, 0, 0)
     }
 
     pub fn any<'a>(&'a self, f: &dyn Fn(&HB) -> bool) -> bool {
@@ -106,7 +106,14 @@ where
         }
     }
 
-    fn new_rec(data: Vec<HB>, maxdepth: usize, allowed_bucket_size: usize, depth: usize) -> Self {
+    // unsplit: number of directly preceding splits which failed to remove any element
+    fn new_rec(
+        data: Vec<HB>,
+        maxdepth: usize,
+        allowed_bucket_size: usize,
+        depth: usize,
+        unsplit: usize,
+    ) -> Self {
         match data.len() {
             0 => AABBTree3D::Empty,
             1 => {
@@ -114,7 +121,7 @@ where
                 AABBTree3D::Leaf(AABBTree3DLeaf::new(data, bb))
             }
             _ => {
-                if depth >= maxdepth || data.len() <= allowed_bucket_size {
+                if depth >= maxdepth || data.len() <= allowed_bucket_size || unsplit >= 3 {
                     let bb = Self::bb_of(&data).unwrap(); //unwrap fine, since data non empty and with valid bbs (see new)
                     AABBTree3D::Leaf(AABBTree3DLeaf::new(data, bb))
                 } else {
@@ -140,17 +147,23 @@ where
                     if (dleft.len() == dright.len()) && dleft.len() == data.len() {
                         AABBTree3D::Leaf(AABBTree3DLeaf::new(data, bb))
                     } else {
+                        let n = data.len();
+                        let unsplit_of = |len| if len == n { unsplit + 1 } else { 0 };
+                        let (unsplit_left, unsplit_right) =
+                            (unsplit_of(dleft.len()), unsplit_of(dright.len()));
                         let left = Box::new(Self::new_rec(
                             dleft,
                             maxdepth,
                             allowed_bucket_size,
                             depth + 1,
+                            unsplit_left,
                         ));
                         let right = Box::new(Self::new_rec(
                             dright,
                             maxdepth,
                             allowed_bucket_size,
                             depth + 1,
+                            unsplit_right,
                         ));
 
                         AABBTree3D::Branch(AABBTree3DBranch::new(left, right, bb))
-- 
2.43.0


From 6320536881103170c5cb82d8e27f3a9d92952741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:36 +0000
Subject: [PATCH 03/66] fix: equal positive and negative zero coordinates hash
 equally

---
 src/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 22db621..5a5e98d 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -73,7 +73,8 @@ pub fn hash_f64<H>(x: f64, state: &mut H)
 where
     H: Hasher,
 {
-    x.to_bits().hash(state);
+    // adding 0.0 maps -0.0 to 0.0, since these are equal and must hash equally
+    (x + 0.0).to_bits().hash(state);
 }
 
 /// Returns a container with duplicates removed and indices representing the original order
-- 
2.43.0


From 4d8702778bbc9b375fbf19f61ca0536aa9cb1105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:36 +0000
Subject: [PATCH 04/66] fix: octree keeps points on octant borders and almost
 coincident points

---
 src/oc_tree.rs | 147 ++++++++++++++++++++++++++-----------------------
 1 file changed, 79 insertions(+), 68 deletions(-)

diff --git a/src/oc_tree.rs b/src/oc_tree.rs
index 5ce694e..b179291 100644
--- a/src/oc_tree.rs
+++ b/src/oc_tree.rs
@@ -60,11 +60,14 @@ where
         let mut unique_data = Vec::new();
         let mut set = HashSet::new();
         for p in pc.data {
+            if !(p.x().is_finite() && p.y().is_finite() && p.z().is_finite()) {
+                return Err(ErrorKind::ComparisionFailed);
+            }
             set.insert(p);
         }
 
         unique_data.extend(set.into_iter());
-        self.root = Some(OcNode::new(&self.bb, unique_data)?);
+        self.root = Some(OcNode::new(&self.bb.min_p(), &self.bb.max_p(), unique_data));
 
         Ok(())
     }
@@ -191,9 +194,13 @@ where
     P: IsBuildable3D + Clone,
 {
     /// Creates a new OcNode from a min and max position and the data it should hold
-    pub fn new(bb: &BoundingBox3D, pc: Vec<P>) -> Result<OcNode<P>> {
-        if pc.len() == 1 {
-            return Ok(OcNode::Leaf(pc[0].clone()));
+    pub fn new(min: &Point3D, max: &Point3D, pc: Vec<P>) -> OcNode<P> {
+        // elements sharing a single position can't be separated by further splits
+        if pc
+            .iter()
+            .all(|p| p.x() == pc[0].x() && p.y() == pc[0].y() && p.z() == pc[0].z())
+        {
+            return OcNode::Leaf(pc[0].clone());
         };
         let mut pcppp = Vec::new();
         let mut pcppn = Vec::new();
@@ -204,43 +211,34 @@ where
         let mut pcnnp = Vec::new();
         let mut pcnnn = Vec::new();
 
-        let bbppp = Self::calc_sub_min_max(Direction::PPP, bb)?;
-        let bbppn = Self::calc_sub_min_max(Direction::PPN, bb)?;
-        let bbpnp = Self::calc_sub_min_max(Direction::PNP, bb)?;
-        let bbpnn = Self::calc_sub_min_max(Direction::PNN, bb)?;
-        let bbnpp = Self::calc_sub_min_max(Direction::NPP, bb)?;
-        let bbnpn = Self::calc_sub_min_max(Direction::NPN, bb)?;
-        let bbnnp = Self::calc_sub_min_max(Direction::NNP, bb)?;
-        let bbnnn = Self::calc_sub_min_max(Direction::NNN, bb)?;
+        let middle = Self::calc_middle(min, max);
 
+        // the planes through the middle belong to the positive side, so every point has exactly one octant
         for p in pc {
-            if bbppp.contains(&p) {
-                pcppp.push(p);
-            } else if bbppn.contains(&p) {
-                pcppn.push(p);
-            } else if bbpnp.contains(&p) {
-                pcpnp.push(p);
-            } else if bbpnn.contains(&p) {
-                pcpnn.push(p);
-            } else if bbnpp.contains(&p) {
-                pcnpp.push(p);
-            } else if bbnpn.contains(&p) {
-                pcnpn.push(p);
-            } else if bbnnp.contains(&p) {
-                pcnnp.push(p);
-            } else if bbnnn.contains(&p) {
-                pcnnn.push(p);
+            match (
+                p.x() >= middle.x(),
+                p.y() >= middle.y(),
+                p.z() >= middle.z(),
+            ) {
+                (true, true, true) => pcppp.push(p),
+                (true, true, false) => pcppn.push(p),
+                (true, false, true) => pcpnp.push(p),
+                (true, false, false) => pcpnn.push(p),
+                (false, true, true) => pcnpp.push(p),
+                (false, true, false) => pcnpn.push(p),
+                (false, false, true) => pcnnp.push(p),
+                (false, false, false) => pcnnn.push(p),
             }
         }
 
-        let ppp = Self::build_subnode(pcppp, &bbppp);
-        let ppn = Self::build_subnode(pcppn, &bbppn);
-        let pnp = Self::build_subnode(pcpnp, &bbpnp);
-        let pnn = Self::build_subnode(pcpnn, &bbpnn);
-        let npp = Self::build_subnode(pcnpp, &bbnpp);
-        let npn = Self::build_subnode(pcnpn, &bbnpn);
-        let nnp = Self::build_subnode(pcnnp, &bbnnp);
-        let nnn = Self::build_subnode(pcnnn, &bbnnn);
+        let ppp = Self::build_subnode(pcppp, Direction::PPP, min, &middle, max);
+        let ppn = Self::build_subnode(pcppn, Direction::PPN, min, &middle, max);
+        let pnp = Self::build_subnode(pcpnp, Direction::PNP, min, &middle, max);
+        let pnn = Self::build_subnode(pcpnn, Direction::PNN, min, &middle, max);
+        let npp = Self::build_subnode(pcnpp, Direction::NPP, min, &middle, max);
+        let npn = Self::build_subnode(pcnpn, Direction::NPN, min, &middle, max);
+        let nnp = Self::build_subnode(pcnnp, Direction::NNP, min, &middle, max);
+        let nnn = Self::build_subnode(pcnnn, Direction::NNN, min, &middle, max);
 
         let result: Internal<P> = Internal {
             ppp,
@@ -253,13 +251,15 @@ where
             nnn,
         };
 
-        Ok(OcNode::Node(result))
+        OcNode::Node(result)
     }
     /// Calculates the min and max values of sub nodes of an OcTree
-    fn calc_sub_min_max(dir: Direction, bb: &BoundingBox3D) -> Result<BoundingBox3D> {
-        let (min, max) = (bb.min_p(), bb.max_p());
-        let middle = center_3d(&min, &max);
-
+    fn calc_sub_min_max(
+        dir: Direction,
+        min: &Point3D,
+        middle: &Point3D,
+        max: &Point3D,
+    ) -> (Point3D, Point3D) {
         let px = max.x();
         let py = max.y();
         let pz = max.z();
@@ -271,36 +271,47 @@ where
         let mz = middle.z();
 
         match dir {
-            Direction::PPP => BoundingBox3D::new(&middle, &max),
-            Direction::PPN => {
-                BoundingBox3D::new(&Point3D::new(mx, my, nz), &Point3D::new(px, py, mz))
-            }
-            Direction::PNP => {
-                BoundingBox3D::new(&Point3D::new(mx, ny, mz), &Point3D::new(px, my, pz))
-            }
-            Direction::PNN => {
-                BoundingBox3D::new(&Point3D::new(mx, ny, nz), &Point3D::new(px, my, mz))
-            }
-            Direction::NPP => {
-                BoundingBox3D::new(&Point3D::new(nx, my, mz), &Point3D::new(mx, py, pz))
-            }
-            Direction::NPN => {
-                BoundingBox3D::new(&Point3D::new(nx, my, nz), &Point3D::new(mx, py, mz))
-            }
-            Direction::NNP => {
-                BoundingBox3D::new(&Point3D::new(nx, ny, mz), &Point3D::new(mx, my, pz))
-            }
-            Direction::NNN => BoundingBox3D::new(&min.clone(), &middle),
+            Direction::PPP => (Point3D::new(mx, my, mz), Point3D::new(px, py, pz)),
+            Direction::PPN => (Point3D::new(mx, my, nz), Point3D::new(px, py, mz)),
+            Direction::PNP => (Point3D::new(mx, ny, mz), Point3D::new(px, my, pz)),
+            Direction::PNN => (Point3D::new(mx, ny, nz), Point3D::new(px, my, mz)),
+            Direction::NPP => (Point3D::new(nx, my, mz), Point3D::new(mx, py, pz)),
+            Direction::NPN => (Point3D::new(nx, my, nz), Point3D::new(mx, py, mz)),
+            Direction::NNP => (Point3D::new(nx, ny, mz), Point3D::new(mx, my, pz)),
+            Direction::NNN => (Point3D::new(nx, ny, nz), Point3D::new(mx, my, mz)),
         }
     }
+    /// Calculates the position where the range between min and max is split.
+    /// Always larger than min if there is any larger number, so a split separates distinct positions
+    fn calc_middle(min: &Point3D, max: &Point3D) -> Point3D {
+        let middle_of = |min: f64, max: f64| {
+            let middle = min + (0.5 * max - 0.5 * min);
+            if middle > min {
+                middle
+            } else {
+                max
+            }
+        };
+        Point3D::new(
+            middle_of(min.x(), max.x()),
+            middle_of(min.y(), max.y()),
+            middle_of(min.z(), max.z()),
+        )
+    }
     /// Creates a child node
-    fn build_subnode(pc: Vec<P>, bb: &BoundingBox3D) -> Option<Box<OcNode<P>>> {
+    fn build_subnode(
+        pc: Vec<P>,
+        dir: Direction,
+        min: &Point3D,
+        middle: &Point3D,
+        max: &Point3D,
+    ) -> Option<Box<OcNode<P>>> {
         match pc.len() {
             0 => None,
-            _ => match OcNode::new(bb, pc) {
-                Err(_) => None,
-                Ok(x) => Some(Box::new(x)),
-            },
+            _ => {
+                let (min, max) = Self::calc_sub_min_max(dir, min, middle, max);
+                Some(Box::new(OcNode::new(&min, &max, pc)))
+            }
         }
     }
 }
@@ -353,14 +364,14 @@ where
     ) {
         if only_collect_centers {
             let mut sub_pc = PointCloud3D::new();
-            n.collect(depth + 1, maxdepth, &mut sub_pc);
+            n.collect(depth.saturating_add(1), maxdepth, &mut sub_pc);
             if let Some(c) = sub_pc.center_of_gravity() {
                 let mut p = P::default();
                 p.from(&c);
                 pc.push(p);
             }
         } else {
-            n.collect(depth + 1, maxdepth, pc);
+            n.collect(depth.saturating_add(1), maxdepth, pc);
         }
     }
 }
-- 
2.43.0


From 1311e52c87c653d64a304b5d9d8949a2078471a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 05/66] fix: lookups with huge unknown ids do not overflow

---
 src/mesh_3d.rs            | 8 ++++----
 src/point_cloud_3d_f32.rs | 3 +++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mesh_3d.rs b/src/mesh_3d.rs
index 77565a0..b782ea3 100644
--- a/src/mesh_3d.rs
+++ b/src/mesh_3d.rs
@@ -56,14 +56,14 @@ where
     }
 
     fn face_vertex_ids(&self, faceid: FId) -> Option<Face3> {
+        if faceid.0 >= self.num_faces() {
+            return None;
+        }
+
         let id1 = 3 * faceid.0 + 0;
         let id2 = 3 * faceid.0 + 1;
         let id3 = 3 * faceid.0 + 2;
 
-        if id3 >= self.topology.len() {
-            return None;
-        }
-
         Some(Face3::new(
             VId(self.topology.get(id1)),
             VId(self.topology.get(id2)),
diff --git a/src/point_cloud_3d_f32.rs b/src/point_cloud_3d_f32.rs
index 290b541..e19b69f 100644
--- a/src/point_cloud_3d_f32.rs
+++ b/src/point_cloud_3d_f32.rs
@@ -95,6 +95,9 @@ where
     }
 
     fn get_d(&self, index: usize) -> Option<P> {
+        if index >= self.len_d() {
+            return None;
+        }
         Some(P::new(
             *self.data.get(3 * index + 0)? as f64,
             *self.data.get(3 * index + 1)? as f64,
-- 
2.43.0


From 521d229c9ab2cc495147f9029377355223411f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 06/66] fix: half edge twins and vertices without faces

---
 src/half_edge.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/half_edge.rs b/src/half_edge.rs
index 8d7dafb..d01c546 100644
--- a/src/half_edge.rs
+++ b/src/half_edge.rs
@@ -91,6 +91,11 @@ where
             }
         }
 
+        // vertices which aren't part of any face don't have any edges, but are still valid
+        while vertices_start_edges.len() < n_vertices {
+            vertices_start_edges.push(IC::with_capacity_and_support_for(0, n_edges));
+        }
+
         let mut result = HalfEdge {
             tails,
             twins,
@@ -112,7 +117,7 @@ where
             for originating_id in cache.iter() {
                 let _ = result.next(*originating_id).map(|candidate_id| {
                     if result.tails.get(candidate_id.0) == result.tails.get(i) {
-                        result.twins[i] = Some(candidate_id)
+                        result.twins[i] = Some(*originating_id)
                     }
                 });
             }
-- 
2.43.0


From 4d1c1bbe314852803d6b9bb80d83591747d73727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 07/66] fix: sorting points breaks ties by the remaining
 coordinates

---
 src/functions.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/functions.rs b/src/functions.rs
index 3e04332..074f7b7 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -113,6 +113,7 @@ where
     xs.sort_by(|a, b| {
         a.x()
             .partial_cmp(&b.x())
+            .filter(|ordering| *ordering != Ordering::Equal)
             .or_else(|| a.y().partial_cmp(&b.y()))
             .unwrap_or(Ordering::Equal)
     });
@@ -126,6 +127,7 @@ where
     xs.sort_by(|a, b| {
         a.y()
             .partial_cmp(&b.y())
+            .filter(|ordering| *ordering != Ordering::Equal)
             .or_else(|| a.x().partial_cmp(&b.x()))
             .unwrap_or(Ordering::Equal)
     });
@@ -139,7 +141,9 @@ where
     xs.sort_by(|a, b| {
         a.x()
             .partial_cmp(&b.x())
+            .filter(|ordering| *ordering != Ordering::Equal)
             .or_else(|| a.y().partial_cmp(&b.y()))
+            .filter(|ordering| *ordering != Ordering::Equal)
             .or_else(|| a.z().partial_cmp(&b.z()))
             .unwrap_or(Ordering::Equal)
     });
@@ -153,7 +157,9 @@ where
     xs.sort_by(|a, b| {
         a.y()
             .partial_cmp(&b.y())
+            .filter(|ordering| *ordering != Ordering::Equal)
             .or_else(|| a.z().partial_cmp(&b.z()))
+            .filter(|ordering| *ordering != Ordering::Equal)
             .or_else(|| a.x().partial_cmp(&b.x()))
             .unwrap_or(Ordering::Equal)
     });
@@ -167,7 +173,9 @@ where
     xs.sort_by(|a, b| {
         a.z()
             .partial_cmp(&b.z())
+            .filter(|ordering| *ordering != Ordering::Equal)
             .or_else(|| a.x().partial_cmp(&b.x()))
+            .filter(|ordering| *ordering != Ordering::Equal)
             .or_else(|| a.y().partial_cmp(&b.y()))
             .unwrap_or(Ordering::Equal)
     });
-- 
2.43.0


From 5238d93a195aad8ceb02557b3bce6dc40a84d2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 08/66] fix: convex hull of coincident points has no duplicates
 and keeps a single point

---
 src/convex_hull_2d.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/convex_hull_2d.rs b/src/convex_hull_2d.rs
index df98677..ef04651 100644
--- a/src/convex_hull_2d.rs
+++ b/src/convex_hull_2d.rs
@@ -34,13 +34,19 @@ where
     RA: IsRandomAccessible<P>,
     P: IsBuildable2D + Clone,
 {
-    let n = ra.len();
-
     let mut sorted = PointCloud2D::new();
     sorted.append_ra(ra);
     sorted.sort_x();
+    sorted
+        .data
+        .dedup_by(|a, b| a.x() == b.x() && a.y() == b.y());
     let sorted = sorted;
 
+    let n = sorted.len();
+    if n < 2 {
+        return sorted.data;
+    }
+
     let mut lower = Vec::<P>::new();
     for i in 0..n {
         while lower.len() >= 2
-- 
2.43.0


From 969e7c5af4ae91650e75c7c94d8ed939539f954b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 09/66] fix: line simplification keeps split points, handles
 vertical lines, closed polylines and single points

---
 src/douglas_peucker_2d.rs | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/src/douglas_peucker_2d.rs b/src/douglas_peucker_2d.rs
index 162ed0d..a948295 100644
--- a/src/douglas_peucker_2d.rs
+++ b/src/douglas_peucker_2d.rs
@@ -31,7 +31,7 @@ pub fn douglas_peucker_2d<P>(mut pc: PointCloud2D<P>, epsilon: f64) -> PointClou
 where
     P: Is2D + Clone,
 {
-    if pc.len() < 1 {
+    if pc.len() < 2 {
         return pc;
     }
 
@@ -47,11 +47,11 @@ where
         }
     }
 
-    if dmax > epsilon {
+    if index > 0 && dmax > epsilon {
         let mut pc1 = pc.clone();
         let mut pc2 = pc.clone();
 
-        pc1.data = pc.data.iter().cloned().take(index).collect();
+        pc1.data = pc.data.iter().cloned().take(index + 1).collect();
         pc1 = douglas_peucker_2d(pc1, epsilon);
 
         pc2.data = pc.data.into_iter().skip(index).collect();
@@ -79,25 +79,11 @@ where
     Q: Is2D,
     R: Is2D,
 {
-    let a1 = l1.x();
-    let a2 = l1.y();
-
-    let b1 = l2.x();
-    let b2 = l2.y();
-
-    let c1 = p.x();
-    let c2 = p.y();
-
-    let x = (a1 * a1 * c1 - a1 * a2 * b2 + a1 * a2 * c2 - 2.0 * a1 * b1 * c1 + a1 * b2 * b2
-        - a1 * b2 * c2
-        + a2 * a2 * b1
-        - a2 * b1 * b2
-        - a2 * b1 * c2
-        + b1 * b1 * c1
-        + b1 * b2 * c2)
-        / (a1 * a1 - 2.0 * a1 * b1 + a2 * a2 - 2.0 * a2 * b2 + b1 * b1 + b2 * b2);
-
-    let y = ((a2 - b2) * x + a1 * b2 - a2 * b1) / (a1 - b1);
+    let (dx, dy) = (l2.x() - l1.x(), l2.y() - l1.y());
+    let length = (dx * dx + dy * dy).sqrt();
+    if length == 0.0 {
+        return dist_2d(p, l1);
+    }
 
-    ((x - p.x()).powi(2) + (y - p.y()).powi(2)).sqrt()
+    (dx * (p.y() - l1.y()) - dy * (p.x() - l1.x())).abs() / length
 }
-- 
2.43.0


From 61dbfba7f5eaf532debcbc844797c12f5c607188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 10/66] fix: spheres report their z position

---
 src/filter_sphere.rs | 2 +-
 src/sphere.rs        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter_sphere.rs b/src/filter_sphere.rs
index c994523..4510843 100644
--- a/src/filter_sphere.rs
+++ b/src/filter_sphere.rs
@@ -62,7 +62,7 @@ impl Is3D for FilterSphere {
 
     #[inline(always)]
     fn z(&self) -> f64 {
-        self.sphere.y()
+        self.sphere.z()
     }
 }
 
diff --git a/src/sphere.rs b/src/sphere.rs
index 7db25d6..834976f 100644
--- a/src/sphere.rs
+++ b/src/sphere.rs
@@ -73,7 +73,7 @@ impl Is3D for Sphere {
 
     #[inline(always)]
     fn z(&self) -> f64 {
-        self.center.y()
+        self.center.z()
     }
 }
 
-- 
2.43.0


From 30ac8bcd9951c83d2c0ac3033b7c104c5d7175cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 11/66] fix: any-filter on collections keeps only what one of
 its filters keeps

---
 src/filter_any_random_accessible.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/filter_any_random_accessible.rs b/src/filter_any_random_accessible.rs
index 601593c..6e83891 100644
--- a/src/filter_any_random_accessible.rs
+++ b/src/filter_any_random_accessible.rs
@@ -22,6 +22,8 @@ OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 //! FilterAnyRandomAccessible, a filter to chain multiple IsFilterRandomAccessible with the or condition => must pass any filter to pass this filter
 
+use std::collections::HashSet;
+
 use crate::*;
 
 //------------------------------------------------------------------------------
@@ -40,11 +42,13 @@ where
     RA: IsRandomAccessible<T>,
 {
     fn filter(&self, ra: &RA, view: &mut View) {
-        let view_initial = view.clone();
+        let mut view_any = View::Restricted(HashSet::new());
         for f in &self.filters {
-            let mut view_now = view_initial.clone();
+            let mut view_now = view.clone();
             f.filter(&ra, &mut view_now);
-            view.union(view_now);
+            view_any.union(view_now);
         }
+
+        *view = view_any;
     }
 }
-- 
2.43.0


From 9488754622074a528c88560071ac3156074e9f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:28 +0000
Subject: [PATCH 12/66] fix: 2D direction filter compares the angle between the
 directions

---
 src/filter_direction_field_2d.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter_direction_field_2d.rs b/src/filter_direction_field_2d.rs
index 244025e..20d59ad 100644
--- a/src/filter_direction_field_2d.rs
+++ b/src/filter_direction_field_2d.rs
@@ -52,6 +52,7 @@ where
 {
     fn is_allowed(&self, pn: &(P, N)) -> bool {
         let expected = self.field.direction_at(&pn.0);
-        expected.rad_to(&pn.1) <= self.eps
+        let angle = Rad(expected.cross(&pn.1).abs().atan2(expected.dot(&pn.1)));
+        angle <= self.eps
     }
 }
-- 
2.43.0


From 55c58cb8ab9ff0063183d84edd4a682c2610449d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:28 +0000
Subject: [PATCH 13/66] fix: angle between parallel 3D directions is a number

---
 src/is_3d.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/is_3d.rs b/src/is_3d.rs
index 9ea6219..de6765d 100644
--- a/src/is_3d.rs
+++ b/src/is_3d.rs
@@ -71,7 +71,10 @@ pub trait Is3D: IsND {
         if *self.abs() == 0.0 || *other.abs() == 0.0 {
             return Err(ErrorKind::CantCalculateAngleIfZeroLength);
         }
-        Ok(Rad((self.dot(other) / *(self.abs() * other.abs())).acos()))
+        // rounding might exceed the range of cos
+        let cos = self.dot(other) / *(self.abs() * other.abs());
+
+        Ok(Rad(cos.max(-1.0).min(1.0).acos()))
     }
     /// Transforms the position in a "x y z" string. E.g. "3.72 5.99 1.01"
     fn to_str(&self) -> String {
-- 
2.43.0


From 8c641be08f18a584b51256a081394f28a8a3e95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 14/66] fix: bounding boxes can't be built from NaN coordinates

---
 src/bounding_box_2d.rs | 2 +-
 src/bounding_box_3d.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bounding_box_2d.rs b/src/bounding_box_2d.rs
index cc40768..6996fa0 100644
--- a/src/bounding_box_2d.rs
+++ b/src/bounding_box_2d.rs
@@ -42,7 +42,7 @@ impl BoundingBox2D {
     {
         if min.x() == max.x() || min.y() == max.y() {
             Err(ErrorKind::MinMaxEqual)
-        } else if min.x() > max.x() || min.y() > max.y() {
+        } else if !(min.x() < max.x() && min.y() < max.y()) {
             Err(ErrorKind::MinMaxSwapped)
         } else {
             Ok(BoundingBox2D {
diff --git a/src/bounding_box_3d.rs b/src/bounding_box_3d.rs
index 7b2cd49..6af48ff 100644
--- a/src/bounding_box_3d.rs
+++ b/src/bounding_box_3d.rs
@@ -42,7 +42,7 @@ impl BoundingBox3D {
     {
         if min.x() == max.x() || min.y() == max.y() || min.z() == max.z() {
             Err(ErrorKind::MinMaxEqual)
-        } else if min.x() > max.x() || min.y() > max.y() || min.z() > max.z() {
+        } else if !(min.x() < max.x() && min.y() < max.y() && min.z() < max.z()) {
             Err(ErrorKind::MinMaxSwapped)
         } else {
             Ok(BoundingBox3D {
-- 
2.43.0


From f60af625bd5e3a97650ee37804cc57fe0fbbb2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 15/66] fix: single precision point cloud has a bounding box
 from two points on

---
 src/point_cloud_3d_f32.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/point_cloud_3d_f32.rs b/src/point_cloud_3d_f32.rs
index e19b69f..6f5919f 100644
--- a/src/point_cloud_3d_f32.rs
+++ b/src/point_cloud_3d_f32.rs
@@ -133,7 +133,7 @@ where
         let d = &self.data;
         let n_p = d.len() / 3;
 
-        if n_p <= 2 {
+        if n_p < 2 {
             return None;
         }
 
-- 
2.43.0


From 70fefc445fc1df53b5124772638b318d69fe1957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 16/66] fix: unaligned box corners lie half a size from the
 center and its bounding box contains them

---
 src/box_unaligned_3d.rs | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/box_unaligned_3d.rs b/src/box_unaligned_3d.rs
index 7f4f2f1..b5505fd 100644
--- a/src/box_unaligned_3d.rs
+++ b/src/box_unaligned_3d.rs
@@ -68,15 +68,15 @@ impl BoxUnaligned3D {
         }
     }
     fn d_x(&self) -> Point3D {
-        let d = *self.size[0];
+        let d = 0.5 * *self.size[0];
         Point3D::new_from(&self.x_dir()) * d
     }
     fn d_y(&self) -> Point3D {
-        let d = *self.size[1];
+        let d = 0.5 * *self.size[1];
         Point3D::new_from(&self.y_dir) * d
     }
     fn d_z(&self) -> Point3D {
-        let d = *self.size[2];
+        let d = 0.5 * *self.size[2];
         Point3D::new_from(&self.z_dir) * d
     }
     pub fn x_dir(&self) -> Norm3D {
@@ -129,24 +129,23 @@ impl IsSATObject for BoxUnaligned3D {
 
 impl HasBoundingBox3D for BoxUnaligned3D {
     fn bounding_box(&self) -> BoundingBox3D {
-        let mut max_size = self.size[0];
-        if self.size[1] > max_size {
-            max_size = self.size[1]
-        }
-        if self.size[2] > max_size {
-            max_size = self.size[2]
-        }
+        let dx = self.d_x();
+        let dy = self.d_y();
+        let dz = self.d_z();
+        let half_x = dx.x().abs() + dy.x().abs() + dz.x().abs();
+        let half_y = dx.y().abs() + dy.y().abs() + dz.y().abs();
+        let half_z = dx.z().abs() + dy.z().abs() + dz.z().abs();
 
         BoundingBox3D::new(
             &Point3D::new(
-                self.center.x() - 0.5 * *max_size,
-                self.center.y() - 0.5 * *max_size,
-                self.center.z() - 0.5 * *max_size,
+                self.center.x() - half_x,
+                self.center.y() - half_y,
+                self.center.z() - half_z,
             ),
             &Point3D::new(
-                self.center.x() + 0.5 * *max_size,
-                self.center.y() + 0.5 * *max_size,
-                self.center.z() + 0.5 * *max_size,
+                self.center.x() + half_x,
+                self.center.y() + half_y,
+                self.center.z() + half_z,
             ),
         )
         .unwrap() //@todo unwrap, see above
-- 
2.43.0


From 30b29bcbe2cd808dae3968d8aa5c0bced121dda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 17/66] fix: bounding box collision compares the intervals
 without rounding

---
 src/bounding_box_2d.rs |  8 +++++---
 src/bounding_box_3d.rs | 12 +++++++-----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/bounding_box_2d.rs b/src/bounding_box_2d.rs
index 6996fa0..67a9ff0 100644
--- a/src/bounding_box_2d.rs
+++ b/src/bounding_box_2d.rs
@@ -195,10 +195,12 @@ impl BoundingBox2D {
     }
     /// Tests whether this bounding box and the other overlap in any way
     pub fn collides_with(&self, other: &BoundingBox2D) -> bool {
-        2.0 * (self.center_bb().x - other.center_bb().x).abs() < *(self.size_x() + other.size_x())
-            && 2.0 * (self.center_bb().y - other.center_bb().y).abs()
-                < *(self.size_y() + other.size_y())
+        self.min.x() < other.max.x()
+            && other.min.x() < self.max.x()
+            && self.min.y() < other.max.y()
+            && other.min.y() < self.max.y()
     }
+
     /// Tests whether this bounding box crosses a certain x value
     pub fn crossing_x_value(&self, x: f64) -> bool {
         self.min.x() < x && self.max.x() > x
diff --git a/src/bounding_box_3d.rs b/src/bounding_box_3d.rs
index 6af48ff..6a91580 100644
--- a/src/bounding_box_3d.rs
+++ b/src/bounding_box_3d.rs
@@ -250,12 +250,14 @@ impl BoundingBox3D {
     }
     /// Tests whether this bounding box and the other overlap in any way
     pub fn collides_with(&self, other: &BoundingBox3D) -> bool {
-        2.0 * (self.center_bb().x - other.center_bb().x).abs() < (*(self.size_x() + other.size_x()))
-            && 2.0 * (self.center_bb().y - other.center_bb().y).abs()
-                < (*(self.size_y() + other.size_y()))
-            && 2.0 * (self.center_bb().z - other.center_bb().z).abs()
-                < (*(self.size_z() + other.size_z()))
+        self.min.x() < other.max.x()
+            && other.min.x() < self.max.x()
+            && self.min.y() < other.max.y()
+            && other.min.y() < self.max.y()
+            && self.min.z() < other.max.z()
+            && other.min.z() < self.max.z()
     }
+
     /// Tests whether this bounding box crosses a certain x value
     pub fn crossing_x_value(&self, x: f64) -> bool {
         self.min.x() < x && self.max.x() > x
-- 
2.43.0


From 618fc3c012a1d7ff8ba1c7cda82aefd513cee575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 18/66] fix: product of positive values stays positive

---
 src/positive.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/positive.rs b/src/positive.rs
index 9d448b1..31d72f5 100644
--- a/src/positive.rs
+++ b/src/positive.rs
@@ -32,6 +32,9 @@ use crate::*;
 
 //------------------------------------------------------------------------------
 
+/// The smallest representable value > 0
+const SMALLEST: f64 = 4.9406564584124654e-324;
+
 #[derive(Debug, PartialEq, PartialOrd, Clone, Copy)]
 /// Positive, a wrapper for a f64 value, ensuring it is always > 0
 pub struct Positive {
@@ -106,7 +109,8 @@ impl Mul for Positive {
 
     fn mul(self, other: Positive) -> Positive {
         Positive {
-            val: self.val * other.val,
+            // stays positive if the product is too small to be represented
+            val: (self.val * other.val).max(SMALLEST),
         }
     }
 }
@@ -121,7 +125,7 @@ impl Mul<NonNegative> for Positive {
 
 impl MulAssign for Positive {
     fn mul_assign(&mut self, other: Positive) {
-        self.val *= *other;
+        *self = *self * other;
     }
 }
 
-- 
2.43.0


From 01e89e2613bb7c3d383194f32981e7c1e958a29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 19/66] fix: non negative arithmetic never stores NaN

---
 src/non_negative.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/non_negative.rs b/src/non_negative.rs
index 0935239..4961989 100644
--- a/src/non_negative.rs
+++ b/src/non_negative.rs
@@ -54,6 +54,10 @@ impl NonNegative {
     pub fn one() -> NonNegative {
         NonNegative { val: 1.0 }
     }
+    /// Result of an operation, panics if this isn't a number (e.g. 0 / 0) since it can't be stored
+    fn checked(val: f64) -> NonNegative {
+        NonNegative::new(val).expect("result of NonNegative operation is not a number")
+    }
     /// Returns the square root
     pub fn sqrt(&self) -> NonNegative {
         NonNegative {
@@ -115,9 +119,7 @@ impl Mul for NonNegative {
     type Output = NonNegative;
 
     fn mul(self, other: NonNegative) -> NonNegative {
-        NonNegative {
-            val: self.val * other.val,
-        }
+        Self::checked(self.val * other.val)
     }
 }
 
@@ -125,21 +127,19 @@ impl Mul<Positive> for NonNegative {
     type Output = NonNegative;
 
     fn mul(self, other: Positive) -> NonNegative {
-        NonNegative {
-            val: self.val * *other,
-        }
+        Self::checked(self.val * *other)
     }
 }
 
 impl MulAssign for NonNegative {
     fn mul_assign(&mut self, other: NonNegative) {
-        self.val *= other.val;
+        *self = *self * other;
     }
 }
 
 impl MulAssign<Positive> for NonNegative {
     fn mul_assign(&mut self, other: Positive) {
-        self.val *= *other;
+        *self = *self * other;
     }
 }
 
@@ -147,9 +147,7 @@ impl Div for NonNegative {
     type Output = NonNegative;
 
     fn div(self, other: NonNegative) -> NonNegative {
-        NonNegative {
-            val: self.val / other.val,
-        }
+        Self::checked(self.val / other.val)
     }
 }
 
@@ -157,21 +155,19 @@ impl Div<Positive> for NonNegative {
     type Output = NonNegative;
 
     fn div(self, other: Positive) -> NonNegative {
-        NonNegative {
-            val: self.val / *other,
-        }
+        Self::checked(self.val / *other)
     }
 }
 
 impl DivAssign for NonNegative {
     fn div_assign(&mut self, other: NonNegative) {
-        self.val /= other.val;
+        *self = *self / other;
     }
 }
 
 impl DivAssign<Positive> for NonNegative {
     fn div_assign(&mut self, other: Positive) {
-        self.val /= *other;
+        *self = *self / other;
     }
 }
 
-- 
2.43.0


From 2940f38f9a0bd2d213e04a9014c8180dad316542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 20/66] fix: flat line segments and point clouds scale around
 their center

---
 src/line_segment_2d.rs |  7 +++----
 src/line_segment_3d.rs |  7 +++----
 src/point_cloud_2d.rs  | 17 ++++++++++++-----
 src/point_cloud_3d.rs  | 25 ++++++++++++++++++++-----
 4 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/src/line_segment_2d.rs b/src/line_segment_2d.rs
index 92ac16b..6356397 100644
--- a/src/line_segment_2d.rs
+++ b/src/line_segment_2d.rs
@@ -69,10 +69,9 @@ impl HasCenterOfGravity2D for LineSegment2D {
 
 impl IsScalable for LineSegment2D {
     fn scale(&mut self, factor: Positive) {
-        if let Some(c) = self.bounding_box_maybe().map(|x| x.center_bb()) {
-            self.start.increase_distance_to_by(&c, factor);
-            self.end.increase_distance_to_by(&c, factor);
-        }
+        let c = center_2d(&self.start, &self.end);
+        self.start.increase_distance_to_by(&c, factor);
+        self.end.increase_distance_to_by(&c, factor);
     }
 }
 
diff --git a/src/line_segment_3d.rs b/src/line_segment_3d.rs
index 1320840..c983b77 100644
--- a/src/line_segment_3d.rs
+++ b/src/line_segment_3d.rs
@@ -69,10 +69,9 @@ impl HasCenterOfGravity3D for LineSegment3D {
 
 impl IsScalable for LineSegment3D {
     fn scale(&mut self, factor: Positive) {
-        if let Some(c) = self.bounding_box_maybe().map(|x| x.center_bb()) {
-            self.start.increase_distance_to_by(&c, factor);
-            self.end.increase_distance_to_by(&c, factor);
-        }
+        let c = center_3d(&self.start, &self.end);
+        self.start.increase_distance_to_by(&c, factor);
+        self.end.increase_distance_to_by(&c, factor);
     }
 }
 
diff --git a/src/point_cloud_2d.rs b/src/point_cloud_2d.rs
index 65b0087..c939992 100644
--- a/src/point_cloud_2d.rs
+++ b/src/point_cloud_2d.rs
@@ -329,11 +329,18 @@ where
     P: IsEditable2D,
 {
     fn scale(&mut self, factor: Positive) {
-        if let Some(bb) = self.bounding_box_maybe() {
-            let c = bb.center_bb();
-            for p in &mut self.data {
-                p.increase_distance_to_by(&c, factor);
-            }
+        // not using the bounding box here, since flat point clouds don't have one
+        let (mut min, mut max) = match self.data.first() {
+            Some(p) => (Point2D::new_from(p), Point2D::new_from(p)),
+            None => return,
+        };
+        for p in &self.data {
+            min.set_xy(min64(min.x, p.x()), min64(min.y, p.y()));
+            max.set_xy(max64(max.x, p.x()), max64(max.y, p.y()));
+        }
+        let c = center_2d(&min, &max);
+        for p in &mut self.data {
+            p.increase_distance_to_by(&c, factor);
         }
     }
 }
diff --git a/src/point_cloud_3d.rs b/src/point_cloud_3d.rs
index 12238fe..5eb5c3c 100644
--- a/src/point_cloud_3d.rs
+++ b/src/point_cloud_3d.rs
@@ -339,11 +339,26 @@ where
     P: IsEditable3D,
 {
     fn scale(&mut self, factor: Positive) {
-        if let Some(bb) = self.bounding_box_maybe() {
-            let c = bb.center_bb();
-            for p in &mut self.data {
-                p.increase_distance_to_by(&c, factor);
-            }
+        // not using the bounding box here, since flat point clouds don't have one
+        let (mut min, mut max) = match self.data.first() {
+            Some(p) => (Point3D::new_from(p), Point3D::new_from(p)),
+            None => return,
+        };
+        for p in &self.data {
+            min.set_xyz(
+                min64(min.x, p.x()),
+                min64(min.y, p.y()),
+                min64(min.z, p.z()),
+            );
+            max.set_xyz(
+                max64(max.x, p.x()),
+                max64(max.y, p.y()),
+                max64(max.z, p.z()),
+            );
+        }
+        let c = center_3d(&min, &max);
+        for p in &mut self.data {
+            p.increase_distance_to_by(&c, factor);
         }
     }
 }
-- 
2.43.0


From 185bed0c68f322c739feba11fc3d6990fe8a48b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 21/66] fix: bezier interpolation handles more than 20 base
 points

---
 src/interpolate_2d.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/interpolate_2d.rs b/src/interpolate_2d.rs
index b0ff22f..b4dcd62 100644
--- a/src/interpolate_2d.rs
+++ b/src/interpolate_2d.rs
@@ -28,21 +28,17 @@ use crate::*;
 
 //------------------------------------------------------------------------------
 
-fn factorial(number: usize) -> usize {
-    let mut result = 1;
-
-    for i in 1..number + 1 {
-        result *= i;
+fn binominal_coefficient(n: usize, k: usize) -> f64 {
+    // multiplied step by step, since factorials would overflow early
+    let mut result = 1.0;
+    for i in 0..k {
+        result = result * ((n - i) as f64) / ((i + 1) as f64);
     }
     result
 }
 
-fn binominal_coefficient(n: usize, k: usize) -> usize {
-    factorial(n) / (factorial(k) * factorial(n - k))
-}
-
 fn bernstein_polynomial(n: usize, i: usize, t: f64) -> f64 {
-    (binominal_coefficient(n, i) as f64) * t.powi(i as i32) * (1.0 - t).powi((n - i) as i32)
+    binominal_coefficient(n, i) * t.powi(i as i32) * (1.0 - t).powi((n - i) as i32)
 }
 
 fn control_polygon<P>(path: &PointCloud2D<P>, n_points: usize, t: f64) -> P
-- 
2.43.0


From 3a1624d4c21291f4ef5ad2f4cb8cd4c4519bf848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 22/66] fix: linear and cosine interpolation yield the
 requested number of valid points

---
 src/interpolate_2d.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/interpolate_2d.rs b/src/interpolate_2d.rs
index b4dcd62..938c298 100644
--- a/src/interpolate_2d.rs
+++ b/src/interpolate_2d.rs
@@ -56,6 +56,20 @@ where
     P::new(x, y)
 }
 
+/// The number of intervals between the given number of points, at least 1
+fn n_intervals(n_points: usize) -> usize {
+    std::cmp::max(n_points, 2) - 1
+}
+
+/// How far the distance is between the distances before and after, 0 for segments without length
+fn proportion(distance: f64, before: f64, after: f64) -> f64 {
+    if after > before {
+        ((distance - before) / (after - before)).min(1.0)
+    } else {
+        0.0
+    }
+}
+
 /// Returns the Bezier interpolation of the given base points
 pub fn interpolate_bezier<P>(
     base_points: &PointCloud2D<P>,
@@ -94,7 +108,7 @@ where
     }
 
     let mut pc = PointCloud2D::with_capacity(n_points);
-    let p_dist = base_points.length() / (n_points - 1) as f64;
+    let p_dist = base_points.length() / n_intervals(n_points) as f64;
 
     for i in 0..n_points {
         let mut traveled: f64 = 0.0;
@@ -107,9 +121,9 @@ where
             traveled +=
                 ((p_now.x() - p_prev.x()).powi(2) + (p_now.y() - p_prev.y()).powi(2)).sqrt();
 
-            if traveled >= p_dist * (i as f64) {
-                let proportion =
-                    ((i as f64) * p_dist - traveled_before) / (traveled - traveled_before);
+            let is_last = j + 1 == base_points.len(); // rounding might exceed the length
+            if is_last || traveled >= p_dist * (i as f64) {
+                let proportion = proportion((i as f64) * p_dist, traveled_before, traveled);
                 let proportion2 = (1.0 - (proportion * PI).cos()) / 2.0;
                 pc.push(P::new(
                     p_prev.x() + proportion * (p_now.x() - p_prev.x()),
@@ -136,7 +150,7 @@ where
     }
 
     let mut pc = PointCloud2D::with_capacity(n_points);
-    let p_dist = base_points.length() / (n_points - 1) as f64;
+    let p_dist = base_points.length() / n_intervals(n_points) as f64;
 
     for i in 0..n_points {
         let mut traveled: f64 = 0.0;
@@ -150,9 +164,9 @@ where
             traveled +=
                 ((p_now.x() - p_prev.x()).powi(2) + (p_now.y() - p_prev.y()).powi(2)).sqrt();
 
-            if traveled >= p_dist * (i as f64) {
-                let proportion =
-                    ((i as f64) * p_dist - traveled_before) / (traveled - traveled_before);
+            let is_last = j + 1 == base_points.len(); // rounding might exceed the length
+            if is_last || traveled >= p_dist * (i as f64) {
+                let proportion = proportion((i as f64) * p_dist, traveled_before, traveled);
                 pc.push(P::new(
                     p_prev.x() + proportion * (p_now.x() - p_prev.x()),
                     p_prev.y() + proportion * (p_now.y() - p_prev.y()),
-- 
2.43.0


From 8ccd98aec22cd80929374300c2f5e80043c4313d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 23/66] fix: 2D shapes of less than two points have no invalid
 points

---
 src/factory_2d.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/factory_2d.rs b/src/factory_2d.rs
index 5027442..0fda960 100644
--- a/src/factory_2d.rs
+++ b/src/factory_2d.rs
@@ -56,7 +56,7 @@ where
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
     let d = *diameter;
-    let p_dist = (end.0 - start.0).abs() / (n_points - 1) as f64;
+    let p_dist = (end.0 - start.0).abs() / n_intervals(n_points) as f64;
 
     for i in 0..n_points {
         let current = (i as f64) * p_dist;
@@ -81,7 +81,7 @@ where
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
     let d = *diameter;
-    let p_dist = (end.0 - start.0).abs() / (n_points - 1) as f64;
+    let p_dist = (end.0 - start.0).abs() / n_intervals(n_points) as f64;
 
     for i in 0..n_points {
         let radians = start.0 + (i as f64) * p_dist;
@@ -99,7 +99,7 @@ where
     P: IsBuildable2D,
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
-    let p_dist = PI / (n_points - 1) as f64;
+    let p_dist = PI / n_intervals(n_points) as f64;
     let a = *ap;
     let b = *bp;
     let angle: f64 = 0.0;
@@ -113,3 +113,8 @@ where
     }
     pc
 }
+
+/// The number of intervals between the given number of points, at least 1
+fn n_intervals(n_points: usize) -> usize {
+    std::cmp::max(n_points, 2) - 1
+}
-- 
2.43.0


From 6046edbca93d9f4d3f4f2b35f07cc9f6657db99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 24/66] fix: arcs and involutes run from their start angle to
 their end angle

---
 src/factory_2d.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/factory_2d.rs b/src/factory_2d.rs
index 0fda960..d50f952 100644
--- a/src/factory_2d.rs
+++ b/src/factory_2d.rs
@@ -56,10 +56,10 @@ where
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
     let d = *diameter;
-    let p_dist = (end.0 - start.0).abs() / n_intervals(n_points) as f64;
+    let p_dist = (end.0 - start.0) / n_intervals(n_points) as f64;
 
     for i in 0..n_points {
-        let current = (i as f64) * p_dist;
+        let current = start.0 + (i as f64) * p_dist;
         pc.push(P::new(
             center.x() + d / 2.0 * (current.cos() + current * current.sin()),
             center.y() + d / 2.0 * (current.sin() - current * current.cos()),
@@ -81,7 +81,7 @@ where
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
     let d = *diameter;
-    let p_dist = (end.0 - start.0).abs() / n_intervals(n_points) as f64;
+    let p_dist = (end.0 - start.0) / n_intervals(n_points) as f64;
 
     for i in 0..n_points {
         let radians = start.0 + (i as f64) * p_dist;
-- 
2.43.0


From 06cf07a73bb02c6162df3c1d4e141b666c49acbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 25/66] fix: ellipse covers the full turn

---
 src/factory_2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factory_2d.rs b/src/factory_2d.rs
index d50f952..45c8f7e 100644
--- a/src/factory_2d.rs
+++ b/src/factory_2d.rs
@@ -99,7 +99,7 @@ where
     P: IsBuildable2D,
 {
     let mut pc = PointCloud2D::with_capacity(n_points);
-    let p_dist = PI / n_intervals(n_points) as f64;
+    let p_dist = 2.0 * PI / n_intervals(n_points) as f64;
     let a = *ap;
     let b = *bp;
     let angle: f64 = 0.0;
-- 
2.43.0


From b444865c76b4a5cfcfb3077f317f40b7d998cc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 26/66] fix: point clouds compress to 64 bit units

---
 src/compressed_point_cloud_3d.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/compressed_point_cloud_3d.rs b/src/compressed_point_cloud_3d.rs
index 16af708..9cdd404 100644
--- a/src/compressed_point_cloud_3d.rs
+++ b/src/compressed_point_cloud_3d.rs
@@ -72,9 +72,9 @@ where
             let disty = p.y() - bb.min_p().y;
             let distz = p.z() - bb.min_p().z;
 
-            let unitsx = T::from(distx / unitsizex).ok_or(ErrorKind::NumberConversionError)?;
-            let unitsy = T::from(disty / unitsizey).ok_or(ErrorKind::NumberConversionError)?;
-            let unitsz = T::from(distz / unitsizez).ok_or(ErrorKind::NumberConversionError)?;
+            let unitsx = to_units(distx / unitsizex, maxval)?;
+            let unitsy = to_units(disty / unitsizey, maxval)?;
+            let unitsz = to_units(distz / unitsizez, maxval)?;
 
             data.push(CompressedPoint3D {
                 unitsx,
@@ -112,3 +112,15 @@ where
         pc
     }
 }
+
+/// Converts the number of units, limiting these to the largest value of the unit type
+fn to_units<T>(units: f64, maxval: f64) -> Result<T>
+where
+    T: Unsigned + PrimInt,
+{
+    if units >= maxval {
+        Ok(T::max_value())
+    } else {
+        T::from(units).ok_or(ErrorKind::NumberConversionError)
+    }
+}
-- 
2.43.0


From 20ecb79b7e608f807d86a0c1ff8a88eb3a75bb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:51 +0000
Subject: [PATCH 27/66] fix: healing a mesh removes duplicate faces

---
 src/heal_mesh.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/heal_mesh.rs b/src/heal_mesh.rs
index 96aadf2..a1ab7f1 100644
--- a/src/heal_mesh.rs
+++ b/src/heal_mesh.rs
@@ -24,7 +24,7 @@ OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 use crate::*;
 
-use std::hash::Hash;
+use std::{collections::HashSet, hash::Hash};
 
 //------------------------------------------------------------------------------
 
@@ -56,11 +56,24 @@ where
         result.add_vertex(x);
     }
 
+    let mut added = HashSet::with_capacity(nf_new);
+
     for f in 0..nf_new {
         let (a, b, c) = (indices[3 * f + 0], indices[3 * f + 1], indices[3 * f + 2]);
         if a == b || a == c || b == c {
             continue;
         }
+        // rotated faces are duplicates, flipped ones aren't
+        let rotated = if a < b && a < c {
+            (a, b, c)
+        } else if b < c {
+            (b, c, a)
+        } else {
+            (c, a, b)
+        };
+        if !added.insert(rotated) {
+            continue;
+        }
         result.try_add_connection(VId(a), VId(b), VId(c))?;
     }
 
-- 
2.43.0


From 02b9030384e50e123d99b1d0215df03194a41e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 28/66] fix: unifying faces compares the direction of their
 common edge

---
 src/unify_faces.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/unify_faces.rs b/src/unify_faces.rs
index 0c84f63..fcf9f1c 100644
--- a/src/unify_faces.rs
+++ b/src/unify_faces.rs
@@ -67,18 +67,19 @@ where
             neighbour_buffer.clear();
             collect_neighbour_faces(mesh, &v_to_f, FId(this), &mut neighbour_buffer)?;
 
-            let [v1, v2, v3] = mesh.face_vertices(FId(this)).unwrap(); // safe since index is safe
-            let n_this = normal_of_face(&v1, &v2, &v3);
+            let f_this = mesh.face_vertex_ids(FId(this)).unwrap(); // safe since index is safe
 
             for neighbour in neighbour_buffer.iter() {
                 if checked[neighbour] {
                     continue;
                 }
 
-                let [v1n, v2n, v3n] = mesh.face_vertices(FId(neighbour)).unwrap(); // safe since index is safe
-                let n_neighbour = normal_of_face(&v1n, &v2n, &v3n);
+                let f_neighbour = mesh.face_vertex_ids(FId(neighbour)).unwrap(); // safe since index is safe
+                let are_different = match traverse_edge_equally(&f_this, &f_neighbour) {
+                    Some(x) => x,
+                    None => continue, // only sharing a single vertex
+                };
 
-                let are_different = n_this.dot(&n_neighbour) < 0.0;
                 let flip_this = must_flip[this];
                 must_flip.set(
                     neighbour,
@@ -159,3 +160,19 @@ where
     neighbours.retain(|x| *x != fid.0);
     Ok(())
 }
+
+/// Whether the common edge of both faces is traversed in the same direction by both of them
+/// This is the case if their orientations differ. None if there's no common edge
+fn traverse_edge_equally(f1: &Face3, f2: &Face3) -> Option<bool> {
+    for (tail1, head1) in [(f1.a, f1.b), (f1.b, f1.c), (f1.c, f1.a)].iter() {
+        for (tail2, head2) in [(f2.a, f2.b), (f2.b, f2.c), (f2.c, f2.a)].iter() {
+            if tail1 == tail2 && head1 == head2 {
+                return Some(true);
+            }
+            if tail1 == head2 && head1 == tail2 {
+                return Some(false);
+            }
+        }
+    }
+    None
+}
-- 
2.43.0


From 6c70f7314da2c2fd983207a31108593b47e18b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 29/66] fix: SAT collisions also test the axes perpendicular to
 edge pairs

---
 src/is_sat_object.rs |  8 ++++++++
 src/sat_collider.rs  |  9 +++++++++
 src/tri_face_3d.rs   | 11 +++++++++++
 3 files changed, 28 insertions(+)

diff --git a/src/is_sat_object.rs b/src/is_sat_object.rs
index c58a847..ce26918 100644
--- a/src/is_sat_object.rs
+++ b/src/is_sat_object.rs
@@ -35,4 +35,12 @@ pub trait IsSATObject {
     fn for_each_axis<F>(&self, f: &mut F)
     where
         F: FnMut(&Norm3D);
+
+    /// Directions of the edges, defaults to the axes (correct for boxes)
+    fn for_each_edge<F>(&self, f: &mut F)
+    where
+        F: FnMut(&Norm3D),
+    {
+        self.for_each_axis(f)
+    }
 }
diff --git a/src/sat_collider.rs b/src/sat_collider.rs
index 5912445..1f5a790 100644
--- a/src/sat_collider.rs
+++ b/src/sat_collider.rs
@@ -94,6 +94,15 @@ impl SATCollider {
 
         a.for_each_axis(&mut f);
         b.for_each_axis(&mut f);
+
+        // edges might only be separated by an axis perpendicular to both of them
+        a.for_each_edge(&mut |edge_a: &Norm3D| {
+            b.for_each_edge(&mut |edge_b: &Norm3D| {
+                if let Ok(axis) = Norm3D::new(cross(edge_a, &Point3D::new_from(edge_b))) {
+                    f(&axis)
+                }
+            })
+        });
         all_overlap
     }
 }
diff --git a/src/tri_face_3d.rs b/src/tri_face_3d.rs
index 6972b3d..d8b7c4b 100644
--- a/src/tri_face_3d.rs
+++ b/src/tri_face_3d.rs
@@ -86,6 +86,17 @@ impl IsSATObject for TriFace3D {
         f(&e2);
         f(&e3);
     }
+
+    fn for_each_edge<F>(&self, f: &mut F)
+    where
+        F: FnMut(&Norm3D),
+    {
+        for (from, to) in [(&self.a, &self.b), (&self.b, &self.c), (&self.c, &self.a)].iter() {
+            if let Ok(edge) = Norm3D::new(conn(*from, *to)) {
+                f(&edge)
+            }
+        }
+    }
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From e82cae2c68957015131b9f1a920ad7d40ce674a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:13 +0000
Subject: [PATCH 30/66] fix: line in the plane of a box side does not lose the
 bounds of the other axes

---
 src/functions.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/functions.rs b/src/functions.rs
index 074f7b7..a470548 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -456,20 +456,21 @@ pub fn intersection(l: &Line3D, b: &BoundingBox3D) -> Option<Point3D> {
     let tx1 = (min.x() - l.anchor.x()) * inv_dir[0];
     let tx2 = (max.x() - l.anchor.x()) * inv_dir[0];
 
-    let mut tmin = min64(tx1, tx2);
-    let mut tmax = max64(tx1, tx2);
+    // f64::min/max ignore the NaNs of a line within the plane of a side, keeping the other bounds
+    let mut tmin = tx1.min(tx2);
+    let mut tmax = tx1.max(tx2);
 
     let ty1 = (min.y() - l.anchor.y()) * inv_dir[1];
     let ty2 = (max.y() - l.anchor.y()) * inv_dir[1];
 
-    tmin = max64(tmin, min64(ty1, ty2));
-    tmax = min64(tmax, max64(ty1, ty2));
+    tmin = tmin.max(ty1.min(ty2));
+    tmax = tmax.min(ty1.max(ty2));
 
     let tz1 = (min.z() - l.anchor.z()) * inv_dir[2];
     let tz2 = (max.z() - l.anchor.z()) * inv_dir[2];
 
-    tmin = max64(tmin, min64(tz1, tz2));
-    tmax = min64(tmax, max64(tz1, tz2));
+    tmin = tmin.max(tz1.min(tz2));
+    tmax = tmax.min(tz1.max(tz2));
 
     if tmax >= tmin && tmax >= 0.0 {
         Some(&l.anchor + &l.dir * tmin)
-- 
2.43.0


From 54a69bf068e920f5bd57e31832045fa0ba43ebaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:13 +0000
Subject: [PATCH 31/66] fix: intersection with a box around the anchor is ahead
 of the anchor

---
 src/functions.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/functions.rs b/src/functions.rs
index a470548..a6d3449 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -473,7 +473,9 @@ pub fn intersection(l: &Line3D, b: &BoundingBox3D) -> Option<Point3D> {
     tmax = tmax.min(tz1.max(tz2));
 
     if tmax >= tmin && tmax >= 0.0 {
-        Some(&l.anchor + &l.dir * tmin)
+        // inside the box, leaving it is what's ahead of the anchor
+        let t = if tmin >= 0.0 { tmin } else { tmax };
+        Some(&l.anchor + &l.dir * t)
     } else {
         None
     }
-- 
2.43.0


From 54e2066321b28f6b02f69c84bf88d522cb66af69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 32/66] fix: a last line without line break keeps its last
 character

---
 src/io/utils.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/utils.rs b/src/io/utils.rs
index f5d116b..1d290ff 100644
--- a/src/io/utils.rs
+++ b/src/io/utils.rs
@@ -99,10 +99,10 @@ where
         return Err(FetchLineError);
     }
 
-    // We must drop the '\n' we read_until for sure
+    // We must drop the '\n' we read_until (missing if the last line isn't terminated)
     // And might also have to drop additional whitespace
-    let mut ignore_end = 1;
-    for i in 1..line_buffer.len() {
+    let mut ignore_end = 0;
+    for i in 0..line_buffer.len() {
         if (line_buffer[line_buffer.len() - i - 1] as char).is_whitespace() {
             ignore_end += 1;
         } else {
-- 
2.43.0


From af93d159bcdfa3776c546953df6ae510eb24c1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 33/66] fix: read failures are reported instead of treated as
 the end of the file

---
 src/io/gcode.rs                  | 10 +++++-
 src/io/obj.rs                    | 20 ++++++++++--
 src/io/off.rs                    | 20 ++++++++++--
 src/io/ply/header.rs             |  9 ++++-
 src/io/ply/iterators_internal.rs | 56 ++++++++++++++++++++------------
 src/io/pts.rs                    | 10 +++++-
 src/io/ptx.rs                    | 26 ++++++++++-----
 src/io/stl.rs                    |  7 ++--
 src/io/utils.rs                  | 14 +++++---
 src/io/xy.rs                     | 33 +++++++++++--------
 src/io/xyz.rs                    | 33 +++++++++++--------
 11 files changed, 169 insertions(+), 69 deletions(-)

diff --git a/src/io/gcode.rs b/src/io/gcode.rs
index e4fc1f1..78ed37e 100644
--- a/src/io/gcode.rs
+++ b/src/io/gcode.rs
@@ -85,7 +85,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndReached) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(GcodeError::AccessFile).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if line.len() >= 4 && line[0] == b'G' {
diff --git a/src/io/obj.rs b/src/io/obj.rs
index af7ab3b..6f2c801 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -75,7 +75,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndReached) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(ObjError::AccessFile).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if line.starts_with(b"v ") {
@@ -141,7 +149,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndReached) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(ObjError::AccessFile).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if line.starts_with(b"v ") {
diff --git a/src/io/off.rs b/src/io/off.rs
index 1b506af..4a7c16c 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -82,7 +82,15 @@ where
             return None;
         }
 
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndReached) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(OffError::AccessFile).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if !self.off_seen && line.starts_with(b"OFF") {
@@ -235,7 +243,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndReached) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(OffError::AccessFile).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if !self.off_seen && line.starts_with(b"OFF") {
diff --git a/src/io/ply/header.rs b/src/io/ply/header.rs
index 08fbd6b..078f55b 100644
--- a/src/io/ply/header.rs
+++ b/src/io/ply/header.rs
@@ -64,7 +64,14 @@ where
     let mut face_before = BytesWords::default();
     let mut face_after = BytesWords::default();
 
-    while let Ok(line) = fetch_line(read, line_buffer) {
+    loop {
+        let line = match fetch_line(read, line_buffer) {
+            Ok(line) => line,
+            Err(FetchLineError::EndReached) => break,
+            Err(FetchLineError::AccessFile) => {
+                return Err(PlyError::AccessFile).index(*i_line);
+            }
+        };
         *i_line += 1;
 
         if line.starts_with(b"comment") {
diff --git a/src/io/ply/iterators_internal.rs b/src/io/ply/iterators_internal.rs
index 82ab84e..0f95e6d 100644
--- a/src/io/ply/iterators_internal.rs
+++ b/src/io/ply/iterators_internal.rs
@@ -379,16 +379,23 @@ where
         }
         if self.current < self.header.vertex.count {
             self.current += 1;
-            while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
-                self.i_line += 1;
-                return Some(
-                    Self::fetch_one(&self.header, line)
-                        .line(self.i_line, line)
-                        .map_err(|e| {
-                            self.is_done = true;
-                            e
-                        }),
-                );
+            match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => {
+                    self.i_line += 1;
+                    return Some(
+                        Self::fetch_one(&self.header, line)
+                            .line(self.i_line, line)
+                            .map_err(|e| {
+                                self.is_done = true;
+                                e
+                            }),
+                    );
+                }
+                Err(FetchLineError::EndReached) => (),
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(PlyError::AccessFile).index(self.i_line));
+                }
             }
         }
 
@@ -451,17 +458,24 @@ where
         }
         if self.current < self.header.face.count {
             self.current += 1;
-            while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
-                self.i_line += 1;
-                return Some(
-                    collect_index_line(&line)
-                        .ok_or(PlyError::FaceStructure)
-                        .line(self.i_line, line)
-                        .map_err(|e| {
-                            self.is_done = true;
-                            e
-                        }),
-                );
+            match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => {
+                    self.i_line += 1;
+                    return Some(
+                        collect_index_line(&line)
+                            .ok_or(PlyError::FaceStructure)
+                            .line(self.i_line, line)
+                            .map_err(|e| {
+                                self.is_done = true;
+                                e
+                            }),
+                    );
+                }
+                Err(FetchLineError::EndReached) => (),
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(PlyError::AccessFile).index(self.i_line));
+                }
             }
         }
 
diff --git a/src/io/pts.rs b/src/io/pts.rs
index 1bec397..6a34d35 100644
--- a/src/io/pts.rs
+++ b/src/io/pts.rs
@@ -101,7 +101,15 @@ where
         if self.is_done {
             return None;
         }
-        while let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
+        loop {
+            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndReached) => break,
+                Err(FetchLineError::AccessFile) => {
+                    self.is_done = true;
+                    return Some(Err(PtsError::AccessFile).index(self.i_line));
+                }
+            };
             self.i_line += 1;
 
             if line.is_empty() {
diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index e342459..1665faf 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -173,14 +173,19 @@ where
             return None;
         }
         if self.n_points_to_fetch == 0 {
-            let first_line = fetch_line(&mut self.read, &mut self.line_buffer);
-            if first_line.is_err() {
-                self.is_done = true;
-                return None;
-            }
+            let first_line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+                Ok(line) => line,
+                Err(FetchLineError::EndReached) => {
+                    self.is_done = true;
+                    return None;
+                }
+                Err(e) => {
+                    self.is_done = true;
+                    return Some(Err(e.into()).index(self.i_line));
+                }
+            };
             self.i_line += 1;
-            // unwrap safe, is_err() checked above
-            match from_ascii(first_line.as_ref().unwrap())
+            match from_ascii(first_line)
                 .ok_or(PtxError::Columns)
                 .index(self.i_line)
                 .and_then(|columns| self.fetch_header(columns))
@@ -298,8 +303,11 @@ impl From<ioError> for PtxError {
 }
 
 impl From<FetchLineError> for PtxError {
-    fn from(_error: FetchLineError) -> Self {
-        PtxError::LoadFileEndReached
+    fn from(error: FetchLineError) -> Self {
+        match error {
+            FetchLineError::EndReached => PtxError::LoadFileEndReached,
+            FetchLineError::AccessFile => PtxError::AccessFile,
+        }
     }
 }
 
diff --git a/src/io/stl.rs b/src/io/stl.rs
index b4f4213..1b7adab 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -732,7 +732,10 @@ impl From<FromBytesError> for StlError {
 }
 
 impl From<FetchLineError> for StlError {
-    fn from(_error: FetchLineError) -> Self {
-        StlError::LoadFileEndReached
+    fn from(error: FetchLineError) -> Self {
+        match error {
+            FetchLineError::EndReached => StlError::LoadFileEndReached,
+            FetchLineError::AccessFile => StlError::AccessFile,
+        }
     }
 }
diff --git a/src/io/utils.rs b/src/io/utils.rs
index 1d290ff..9e63916 100644
--- a/src/io/utils.rs
+++ b/src/io/utils.rs
@@ -96,7 +96,7 @@ where
     line_buffer.clear();
     let n_read = read.read_until(b'\n', line_buffer)?;
     if n_read == 0 {
-        return Err(FetchLineError);
+        return Err(FetchLineError::EndReached);
     }
 
     // We must drop the '\n' we read_until (missing if the last line isn't terminated)
@@ -116,19 +116,25 @@ where
 //------------------------------------------------------------------------------
 
 /// Error type for the fetch_line function
-pub struct FetchLineError;
+pub enum FetchLineError {
+    EndReached,
+    AccessFile,
+}
 
 /// Result type for the fetch_line function
 pub type FetchLineResult<T> = std::result::Result<T, FetchLineError>;
 
 impl fmt::Debug for FetchLineError {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "Unable to fetch line")
+        match self {
+            Self::EndReached => write!(f, "Unable to fetch line"),
+            Self::AccessFile => write!(f, "Unable to access file"),
+        }
     }
 }
 
 impl From<ioError> for FetchLineError {
     fn from(_error: ioError) -> Self {
-        FetchLineError {}
+        FetchLineError::AccessFile
     }
 }
diff --git a/src/io/xy.rs b/src/io/xy.rs
index 4531160..b7fb5cb 100644
--- a/src/io/xy.rs
+++ b/src/io/xy.rs
@@ -101,19 +101,26 @@ where
         if self.is_done {
             return None;
         }
-        if let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
-            self.i_line += 1;
-            Some(
-                Self::fetch_one(&mut self.delim_determined, &mut self.delim, line)
-                    .line(self.i_line, line)
-                    .map_err(|e| {
-                        self.is_done = true;
-                        e
-                    }),
-            )
-        } else {
-            self.is_done = true;
-            None
+        match fetch_line(&mut self.read, &mut self.line_buffer) {
+            Ok(line) => {
+                self.i_line += 1;
+                Some(
+                    Self::fetch_one(&mut self.delim_determined, &mut self.delim, line)
+                        .line(self.i_line, line)
+                        .map_err(|e| {
+                            self.is_done = true;
+                            e
+                        }),
+                )
+            }
+            Err(FetchLineError::EndReached) => {
+                self.is_done = true;
+                None
+            }
+            Err(FetchLineError::AccessFile) => {
+                self.is_done = true;
+                Some(Err(XyError::AccessFile).index(self.i_line))
+            }
         }
     }
 }
diff --git a/src/io/xyz.rs b/src/io/xyz.rs
index 5399984..d97fa75 100644
--- a/src/io/xyz.rs
+++ b/src/io/xyz.rs
@@ -106,19 +106,26 @@ where
         if self.is_done {
             return None;
         }
-        if let Ok(line) = fetch_line(&mut self.read, &mut self.line_buffer) {
-            self.i_line += 1;
-            Some(
-                Self::fetch_one(&mut self.delim_determined, &mut self.delim, line)
-                    .line(self.i_line, line)
-                    .map_err(|e| {
-                        self.is_done = true;
-                        e
-                    }),
-            )
-        } else {
-            self.is_done = true;
-            None
+        match fetch_line(&mut self.read, &mut self.line_buffer) {
+            Ok(line) => {
+                self.i_line += 1;
+                Some(
+                    Self::fetch_one(&mut self.delim_determined, &mut self.delim, line)
+                        .line(self.i_line, line)
+                        .map_err(|e| {
+                            self.is_done = true;
+                            e
+                        }),
+                )
+            }
+            Err(FetchLineError::EndReached) => {
+                self.is_done = true;
+                None
+            }
+            Err(FetchLineError::AccessFile) => {
+                self.is_done = true;
+                Some(Err(XyzError::AccessFile).index(self.i_line))
+            }
         }
     }
 }
-- 
2.43.0


From eb8c076fd57661828da654a723ade3effcc0e9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:00 +0000
Subject: [PATCH 34/66] fix: ascii ply files ending before their declared
 vertices and faces are an error

---
 src/io/ply/iterators_internal.rs | 10 ++++++++--
 src/io/ply/types.rs              |  2 ++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/io/ply/iterators_internal.rs b/src/io/ply/iterators_internal.rs
index 0f95e6d..269d9b1 100644
--- a/src/io/ply/iterators_internal.rs
+++ b/src/io/ply/iterators_internal.rs
@@ -391,7 +391,10 @@ where
                             }),
                     );
                 }
-                Err(FetchLineError::EndReached) => (),
+                Err(FetchLineError::EndReached) => {
+                    self.is_done = true;
+                    return Some(Err(PlyError::LoadVertexCountIncorrect).index(self.i_line));
+                }
                 Err(FetchLineError::AccessFile) => {
                     self.is_done = true;
                     return Some(Err(PlyError::AccessFile).index(self.i_line));
@@ -471,7 +474,10 @@ where
                             }),
                     );
                 }
-                Err(FetchLineError::EndReached) => (),
+                Err(FetchLineError::EndReached) => {
+                    self.is_done = true;
+                    return Some(Err(PlyError::LoadFaceCountIncorrect).index(self.i_line));
+                }
                 Err(FetchLineError::AccessFile) => {
                     self.is_done = true;
                     return Some(Err(PlyError::AccessFile).index(self.i_line));
diff --git a/src/io/ply/types.rs b/src/io/ply/types.rs
index 9cb21e9..c06e2ab 100644
--- a/src/io/ply/types.rs
+++ b/src/io/ply/types.rs
@@ -288,6 +288,7 @@ pub enum PlyError {
     LoadVertexIndexDefinitionNotFound,
     LoadHeaderInvalid,
     LoadVertexCountIncorrect,
+    LoadFaceCountIncorrect,
     AccessFile,
     ColorArrayIncorrectLength,
     VertexElement,
@@ -319,6 +320,7 @@ impl fmt::Debug for PlyError {
             }
             Self::LoadHeaderInvalid => write!(f, "Header of .ply seems to be invalid"),
             Self::LoadVertexCountIncorrect => write!(f, "Vertex count of .ply not found"),
+            Self::LoadFaceCountIncorrect => write!(f, "Face count of .ply not found"),
             Self::ColorArrayIncorrectLength => {
                 write!(f, "The provided color array has an incorrect length")
             }
-- 
2.43.0


From ff5585dcca709a5e5f79ccebb865f790d459340e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:01 +0000
Subject: [PATCH 35/66] fix: ascii stl files ending within a facet are an error

---
 src/io/stl.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/io/stl.rs b/src/io/stl.rs
index 1b7adab..33f115b 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -308,10 +308,8 @@ where
         }
 
         match read_stl_facet(&mut self.read, &mut self.line_buffer, &mut self.i_line) {
-            Ok([a, b, c, n]) => return Some(Ok(DataReserve::Data(StlFace { a, b, c, n }))),
-            Err(WithLineInfo::None(StlError::LoadFileEndReached))
-            | Err(WithLineInfo::Index(_, StlError::LoadFileEndReached))
-            | Err(WithLineInfo::Line(_, _, StlError::LoadFileEndReached)) => {
+            Ok(Some([a, b, c, n])) => return Some(Ok(DataReserve::Data(StlFace { a, b, c, n }))),
+            Ok(None) => {
                 self.is_done = true;
                 return None;
             }
@@ -518,18 +516,22 @@ fn read_stl_facet<P, R>(
     read: &mut R,
     line_buffer: &mut Vec<u8>,
     i_line: &mut usize,
-) -> StlIOResult<[P; 4]>
+) -> StlIOResult<Option<[P; 4]>>
 where
     P: IsBuildable3D,
     R: BufRead,
 {
     let mut line: &[u8];
 
-    line = trim_start(fetch_line(read, line_buffer).index(*i_line)?);
+    // the file might only end in between facets
+    line = match fetch_line(read, line_buffer) {
+        Err(FetchLineError::EndReached) => return Ok(None),
+        fetched => trim_start(fetched.index(*i_line)?),
+    };
     *i_line += 1;
 
     if line.starts_with(b"endsolid") {
-        return Err(StlError::LoadFileEndReached).line(*i_line, line);
+        return Ok(None);
     }
 
     if !line.starts_with(b"facet") {
@@ -580,7 +582,7 @@ where
         return Err(StlError::EndFacet).line(*i_line, line);
     }
 
-    Ok([a, b, c, n])
+    Ok(Some([a, b, c, n]))
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 07f1641b706f20f31f4af8f387548423e23672d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 36/66] fix: off files ending before their declared vertices
 and faces are an error

---
 src/io/off.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/io/off.rs b/src/io/off.rs
index 4a7c16c..9711932 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -140,8 +140,10 @@ where
         }
 
         self.is_done = true;
-
-        None
+        match self.n_vertices {
+            Some(n) if self.n_added >= n => None,
+            _ => Some(Err(OffError::LoadFileEndReached).index(self.i_line)),
+        }
     }
 }
 
@@ -167,6 +169,7 @@ where
     off_seen: bool,
     counts: Option<[usize; 2]>,
     n_vertices_added: usize,
+    n_faces_added: usize,
     phantom_p: PhantomData<P>,
 }
 
@@ -184,6 +187,7 @@ where
             off_seen: false,
             counts: None,
             n_vertices_added: 0,
+            n_faces_added: 0,
             phantom_p: PhantomData,
         }
     }
@@ -285,6 +289,7 @@ where
                         .map(|x| FaceDataReserve::Data(x))
                         .line(self.i_line, line)
                 } else {
+                    self.n_faces_added += 1;
                     Self::fetch_face(line)
                         .map(|x| FaceDataReserve::Face(x))
                         .line(self.i_line, line)
@@ -301,8 +306,14 @@ where
         }
 
         self.is_done = true;
-
-        None
+        match self.counts {
+            Some([n_vertices, n_faces])
+                if self.n_vertices_added >= n_vertices && self.n_faces_added >= n_faces =>
+            {
+                None
+            }
+            _ => Some(Err(OffError::LoadFileEndReached).index(self.i_line)),
+        }
     }
 }
 
@@ -367,6 +378,7 @@ where
 
 /// Error type for .off file operations
 pub enum OffError {
+    LoadFileEndReached,
     AccessFile,
     InvalidMeshIndices,
     VertexCount,
@@ -383,6 +395,7 @@ type OffResult<T> = std::result::Result<T, OffError>;
 impl fmt::Debug for OffError {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         match self {
+            Self::LoadFileEndReached => write!(f, "Unexpected reach of .off file end"),
             Self::AccessFile => write!(f, "Unable to access file"),
             Self::VertexCount => write!(f, "Unable to parse vertex count"),
             Self::FaceCount => write!(f, "Unable to parse face count"),
-- 
2.43.0


From 5b76a8d9f9f6078fdeb44a700a0a0575cf1c650d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 37/66] fix: pts files ending before their declared points are
 an error

---
 src/io/pts.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/io/pts.rs b/src/io/pts.rs
index 6a34d35..bdbdeb4 100644
--- a/src/io/pts.rs
+++ b/src/io/pts.rs
@@ -170,8 +170,12 @@ where
         }
 
         self.is_done = true;
-
-        None
+        match self.n_vertices {
+            Some(n) if self.n_vertices_added < n => {
+                Some(Err(PtsError::LoadFileEndReached).index(self.i_line))
+            }
+            _ => None,
+        }
     }
 }
 
@@ -205,6 +209,7 @@ where
 
 /// Error type for .pts file operations
 pub enum PtsError {
+    LoadFileEndReached,
     AccessFile,
     VertexCount,
     Vertex,
@@ -217,6 +222,7 @@ type PtsResult<T> = std::result::Result<T, PtsError>;
 impl fmt::Debug for PtsError {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         match self {
+            Self::LoadFileEndReached => write!(f, "Unexpected reach of .pts file end"),
             Self::AccessFile => write!(f, "Unable to access file"),
             Self::VertexCount => write!(f, "Unable to parse vertex count"),
             Self::Vertex => write!(f, "Unable to parse vertex"),
-- 
2.43.0


From 388205f28e848e98dd4ee563ec648f60bc7d8798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:53 +0000
Subject: [PATCH 38/66] fix: ply vertex types follow the order of the
 properties

---
 src/io/ply/header.rs | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/io/ply/header.rs b/src/io/ply/header.rs
index 078f55b..f164022 100644
--- a/src/io/ply/header.rs
+++ b/src/io/ply/header.rs
@@ -50,9 +50,8 @@ where
     let mut opt_n_vertices: Option<usize> = None;
     let mut opt_n_faces: Option<usize> = None;
 
-    let mut opt_fst_type = None;
-    let mut opt_snd_type = None;
-    let mut opt_third_type = None;
+    // in the order of the file, just like vertex_order
+    let mut opt_types = [None; 3];
     let mut n_types_found = 0;
     let mut vertex_before = BytesWords::default();
     let mut vertex_between_first_snd = BytesWords::default();
@@ -152,17 +151,20 @@ where
                         .ok_or(PlyError::InvalidProperty)
                         .line(*i_line, line)?;
                     if id == b"x" {
-                        opt_fst_type = Some(VertexType::try_from(t).line(*i_line, line)?);
+                        opt_types[n_types_found] =
+                            Some(VertexType::try_from(t).line(*i_line, line)?);
                         n_types_found += 1;
                         vertex_order[i_vertex_order] = Xyz::X;
                         i_vertex_order += 1;
                     } else if id == b"y" {
-                        opt_snd_type = Some(VertexType::try_from(t).line(*i_line, line)?);
+                        opt_types[n_types_found] =
+                            Some(VertexType::try_from(t).line(*i_line, line)?);
                         n_types_found += 1;
                         vertex_order[i_vertex_order] = Xyz::Y;
                         i_vertex_order += 1;
                     } else if id == b"z" {
-                        opt_third_type = Some(VertexType::try_from(t).line(*i_line, line)?);
+                        opt_types[n_types_found] =
+                            Some(VertexType::try_from(t).line(*i_line, line)?);
                         n_types_found += 1;
                         vertex_order[i_vertex_order] = Xyz::Z;
                         i_vertex_order += 1;
@@ -228,20 +230,26 @@ where
         }
 
         if line == b"end_header" && ply_found {
-            if let (Some(format), Some(n_vertices), Some(x_type), Some(y_type), Some(z_type)) = (
+            if let (
+                Some(format),
+                Some(n_vertices),
+                Some(fst_type),
+                Some(snd_type),
+                Some(third_type),
+            ) = (
                 opt_format,
                 opt_n_vertices,
-                opt_fst_type,
-                opt_snd_type,
-                opt_third_type,
+                opt_types[0],
+                opt_types[1],
+                opt_types[2],
             ) {
                 let vertex_data = VertexData {
                     count: n_vertices,
                     format: VertexFormat {
                         order: VertexOrder::try_from(vertex_order).line(*i_line, line)?,
-                        first: x_type,
-                        snd: y_type,
-                        third: z_type,
+                        first: fst_type,
+                        snd: snd_type,
+                        third: third_type,
                         before: vertex_before,
                         between_first_snd: vertex_between_first_snd,
                         between_snd_third: vertex_between_snd_third,
-- 
2.43.0


From 18ee55846667a5ba2bf39adf7851186d2f81cf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 39/66] fix: ply headers with more than three coordinates are
 an error

---
 src/io/ply/header.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/ply/header.rs b/src/io/ply/header.rs
index f164022..6e3e424 100644
--- a/src/io/ply/header.rs
+++ b/src/io/ply/header.rs
@@ -150,6 +150,9 @@ where
                         .next()
                         .ok_or(PlyError::InvalidProperty)
                         .line(*i_line, line)?;
+                    if n_types_found == 3 && (id == b"x" || id == b"y" || id == b"z") {
+                        return Err(PlyError::InvalidVertexDimensionDefinition).line(*i_line, line);
+                    }
                     if id == b"x" {
                         opt_types[n_types_found] =
                             Some(VertexType::try_from(t).line(*i_line, line)?);
-- 
2.43.0


From 142f356f54d773632113f3223545f0dafd8b7ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 40/66] fix: ply headers with faces in front of the vertices
 are an error

---
 src/io/ply/header.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io/ply/header.rs b/src/io/ply/header.rs
index 6e3e424..813b9a5 100644
--- a/src/io/ply/header.rs
+++ b/src/io/ply/header.rs
@@ -120,6 +120,10 @@ where
         match opt_n_faces {
             None => {
                 if line.starts_with(b"element face") {
+                    // faces stored before the vertices are not supported
+                    if opt_n_vertices.is_none() {
+                        return Err(PlyError::FaceElement).line(*i_line, line);
+                    }
                     read_state = HeaderReadState::Face;
                     let mut words = to_words_skip_empty(line);
                     opt_n_faces = Some(
-- 
2.43.0


From dc42b484d2aa64572e6a964dcbc66fcf34b87788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 41/66] fix: ply headers with additional lists per face are an
 error

---
 src/io/ply/header.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/io/ply/header.rs b/src/io/ply/header.rs
index 813b9a5..ec83ff5 100644
--- a/src/io/ply/header.rs
+++ b/src/io/ply/header.rs
@@ -191,7 +191,10 @@ where
                 }
                 HeaderReadState::Face => {
                     if line.starts_with(b"property list") {
-                        if contains(line, b"vertex_indices") || contains(line, b"vertex_index") {
+                        if opt_face_count_type.is_none()
+                            && (contains(line, b"vertex_indices")
+                                || contains(line, b"vertex_index"))
+                        {
                             let mut words = to_words_skip_empty(line);
                             skip_n(&mut words, 2); // skip "property" and "list"
 
@@ -210,6 +213,9 @@ where
 
                             opt_face_count_type = Some(t_count);
                             opt_face_index_type = Some(t_index);
+                        } else {
+                            // additional lists can't be skipped
+                            return Err(PlyError::InvalidProperty).line(*i_line, line);
                         }
                     } else {
                         let mut words = to_words_skip_empty(line);
-- 
2.43.0


From d476465fe7ffeda745cae48293e984d162a4ff2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:57 +0000
Subject: [PATCH 42/66] fix: ascii ply faces skip the properties in front of
 the indices

---
 src/io/ply/iterators_internal.rs | 2 +-
 src/io/ply/utils.rs              | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/ply/iterators_internal.rs b/src/io/ply/iterators_internal.rs
index 269d9b1..a928deb 100644
--- a/src/io/ply/iterators_internal.rs
+++ b/src/io/ply/iterators_internal.rs
@@ -465,7 +465,7 @@ where
                 Ok(line) => {
                     self.i_line += 1;
                     return Some(
-                        collect_index_line(&line)
+                        collect_index_line(&line, self.header.face.format.before.words)
                             .ok_or(PlyError::FaceStructure)
                             .line(self.i_line, line)
                             .map_err(|e| {
diff --git a/src/io/ply/utils.rs b/src/io/ply/utils.rs
index dc00574..12c2544 100644
--- a/src/io/ply/utils.rs
+++ b/src/io/ply/utils.rs
@@ -34,8 +34,9 @@ use std::io::Read;
 //------------------------------------------------------------------------------
 
 #[inline(always)]
-pub fn collect_index_line(line: &[u8]) -> Option<[usize; 3]> {
+pub fn collect_index_line(line: &[u8], n_words_before: usize) -> Option<[usize; 3]> {
     let mut words = to_words_skip_empty(line);
+    skip_n(&mut words, n_words_before);
     if words.next()? != b"3" {
         return None;
     }
-- 
2.43.0


From 6846d742854a2d549fc2a9ca0d6ccfdcfabc479d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 43/66] fix: ply mesh iterators stop after a point error

---
 src/io/ply/iterators_internal.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/io/ply/iterators_internal.rs b/src/io/ply/iterators_internal.rs
index a928deb..223b8db 100644
--- a/src/io/ply/iterators_internal.rs
+++ b/src/io/ply/iterators_internal.rs
@@ -71,7 +71,11 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         if let Some(ref mut p_iter) = self.p_iter {
             match p_iter.next() {
-                Some(x) => return Some(x.map(|x| io::types::FaceData::Data(x))),
+                Some(Ok(x)) => return Some(Ok(io::types::FaceData::Data(x))),
+                Some(Err(e)) => {
+                    self.p_iter = None;
+                    return Some(Err(e));
+                }
                 None => {
                     // point iteration done, switch to face iteration
                     // unwrap safe, since in if let Some()
@@ -85,10 +89,9 @@ where
                 }
             }
         }
-        //unwrap safe, either is always constructed
+        // neither is left after an error within the points
         self.f_iter
-            .as_mut()
-            .unwrap()
+            .as_mut()?
             .next()
             .map(|x| x.map(|x| io::types::FaceData::Face(x)))
     }
@@ -141,7 +144,11 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         if let Some(ref mut p_iter) = self.p_iter {
             match p_iter.next() {
-                Some(x) => return Some(x.map(|x| io::types::FaceData::Data(x))),
+                Some(Ok(x)) => return Some(Ok(io::types::FaceData::Data(x))),
+                Some(Err(e)) => {
+                    self.p_iter = None;
+                    return Some(Err(e));
+                }
                 None => {
                     // point iteration done, switch to face iteration
                     // unwrap safe, since in if let Some()
@@ -151,10 +158,9 @@ where
                 }
             }
         }
-        //unwrap safe, either is always constructed
+        // neither is left after an error within the points
         self.f_iter
-            .as_mut()
-            .unwrap()
+            .as_mut()?
             .next()
             .map(|x| x.map(|x| io::types::FaceData::Face(x)))
     }
-- 
2.43.0


From c4d144c8ff7663bda242f973b8da8a0642c545e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:45 +0000
Subject: [PATCH 44/66] fix: huge counts within files no longer exhaust the
 memory upfront

---
 src/io/las/load.rs |  4 ++--
 src/io/off.rs      |  6 +++---
 src/io/ply/load.rs | 14 +++++++-------
 src/io/pts.rs      |  2 +-
 src/io/ptx.rs      |  2 +-
 src/io/stl.rs      | 12 ++++++------
 src/io/utils.rs    |  9 +++++++++
 7 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/io/las/load.rs b/src/io/las/load.rs
index da06a24..d4dbfa5 100644
--- a/src/io/las/load.rs
+++ b/src/io/las/load.rs
@@ -33,7 +33,7 @@ use std::{
     marker::PhantomData,
 };
 
-use super::super::{from_bytes::*, types::*};
+use super::super::{from_bytes::*, types::*, utils::*};
 
 //------------------------------------------------------------------------------
 
@@ -149,7 +149,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/off.rs b/src/io/off.rs
index 9711932..86fb55f 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -343,8 +343,8 @@ where
                     .simple()?;
             }
             FaceDataReserve::ReserveDataFaces(n_vertices, n_faces) => {
-                mesh.reserve_vertices(n_vertices);
-                mesh.reserve_faces(n_faces);
+                mesh.reserve_vertices(limit_reserve(n_vertices));
+                mesh.reserve_faces(limit_reserve(n_faces));
             }
             FaceDataReserve::Data(x) => {
                 mesh.add_vertex(x);
@@ -366,7 +366,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/ply/load.rs b/src/io/ply/load.rs
index 82ae4b6..a9d2006 100644
--- a/src/io/ply/load.rs
+++ b/src/io/ply/load.rs
@@ -26,7 +26,7 @@ use crate::*;
 
 use std::io::{BufRead, Read};
 
-use super::super::{byte_reader::*, types::*};
+use super::super::{byte_reader::*, types::*, utils::*};
 
 use super::{header::*, iterators::*, iterators_internal::*, types::*};
 
@@ -49,8 +49,8 @@ where
 
     match load_header(&mut read, &mut line_buffer, &mut i_line)? {
         Header::Full(header) => {
-            mesh.reserve_vertices(header.vertex.count);
-            mesh.reserve_faces(header.face.count);
+            mesh.reserve_vertices(limit_reserve(header.vertex.count));
+            mesh.reserve_faces(limit_reserve(header.face.count));
 
             match header.format {
                 Format::Ascii => load_mesh_ascii(&mut read, mesh, header, &mut i_line),
@@ -65,7 +65,7 @@ where
             Ok(MeshOrPoints::Mesh)
         }
         Header::Partial(header) => {
-            ip.reserve(header.vertex.count);
+            ip.reserve(limit_reserve(header.vertex.count));
 
             match header.format {
                 Format::Ascii => load_points_ascii(&mut read, ip, header, i_line),
@@ -97,8 +97,8 @@ where
                 mesh.add_vertex(p);
             }
             FaceDataReserve::ReserveDataFaces(n_d, n_f) => {
-                mesh.reserve_vertices(n_d);
-                mesh.reserve_faces(n_f);
+                mesh.reserve_vertices(limit_reserve(n_d));
+                mesh.reserve_faces(limit_reserve(n_f));
             }
             FaceDataReserve::Face([a, b, c]) => {
                 mesh.try_add_connection(VId(a), VId(b), VId(c))
@@ -124,7 +124,7 @@ where
 
     for rp in iterator {
         match rp? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/pts.rs b/src/io/pts.rs
index bdbdeb4..1472488 100644
--- a/src/io/pts.rs
+++ b/src/io/pts.rs
@@ -197,7 +197,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index 1665faf..d5d31d8 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -239,7 +239,7 @@ where
 
     for rd in iterator {
         match rd? {
-            DataReserve::Reserve(x) => ip.reserve(x),
+            DataReserve::Reserve(x) => ip.reserve(limit_reserve(x)),
             DataReserve::Data(x) => ip.push(x),
         }
     }
diff --git a/src/io/stl.rs b/src/io/stl.rs
index 33f115b..b4764ca 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -348,8 +348,8 @@ where
     for fr in iterator {
         match fr? {
             DataReserve::Reserve(n) => {
-                mesh.reserve_vertices(3 * n);
-                mesh.reserve_faces(n);
+                mesh.reserve_vertices(3 * limit_reserve(n));
+                mesh.reserve_faces(limit_reserve(n));
             }
             DataReserve::Data(face) => {
                 mesh.add_face(face.a, face.b, face.c);
@@ -383,8 +383,8 @@ where
         match fr? {
             DataReserve::Reserve(n) => {
                 //Can't reserve vertices since not sure how many are unique
-                mesh.reserve_faces(n);
-                face_normals.reserve(n);
+                mesh.reserve_faces(limit_reserve(n));
+                face_normals.reserve(limit_reserve(n));
             }
             DataReserve::Data(face) => {
                 let [a, b, c, n] = [face.a, face.b, face.c, face.n];
@@ -441,8 +441,8 @@ where
     for fr in iterator {
         match fr? {
             DataReserve::Reserve(n) => {
-                ip.reserve(3 * n);
-                face_normals.reserve(n);
+                ip.reserve(3 * limit_reserve(n));
+                face_normals.reserve(limit_reserve(n));
             }
             DataReserve::Data(face) => {
                 ip.push(face.a);
diff --git a/src/io/utils.rs b/src/io/utils.rs
index 9e63916..4a5fed1 100644
--- a/src/io/utils.rs
+++ b/src/io/utils.rs
@@ -30,6 +30,9 @@ use std::{
 
 //------------------------------------------------------------------------------
 
+/// Maximum number of elements reserved because of counts found in files
+const MAX_RESERVE: usize = 65_536;
+
 /// Skip number of bytes
 #[inline(always)]
 pub fn skip_bytes<R>(read: &mut R, n_bytes: usize) -> std::io::Result<()>
@@ -57,6 +60,12 @@ where
 
 //------------------------------------------------------------------------------
 
+/// Limits the number of elements to reserve upfront, since the counts found in files can't be trusted
+#[inline(always)]
+pub fn limit_reserve(n: usize) -> usize {
+    n.min(MAX_RESERVE)
+}
+
 /// Trims white space at the start of the input
 pub fn trim_start(text: &[u8]) -> &[u8] {
     let mut to_drop = 0;
-- 
2.43.0


From da531dcbce1d4458317ea9d1d20d4581ef7c29be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:46 +0000
Subject: [PATCH 45/66] fix: ptx point counts which can't be represented are an
 error

---
 src/io/ptx.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index d5d31d8..705307c 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -155,7 +155,10 @@ where
 
         self.must_transform = self.transformation != Matrix4::identity();
 
-        self.n_points_to_fetch = rows * columns;
+        self.n_points_to_fetch = rows
+            .checked_mul(columns)
+            .ok_or(PtxError::Rows)
+            .index(self.i_line)?;
 
         Ok(())
     }
-- 
2.43.0


From d581b627eb18966ae42406b745cc723323c0c451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 46/66] fix: ptx iterators stop after a point error

---
 src/io/ptx.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index 705307c..3fc2197 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -207,7 +207,11 @@ where
                     Some(
                         Self::fetch_one(line, self.must_transform, &self.transformation)
                             .map(|x| DataReserve::Data(x))
-                            .line(self.i_line, line),
+                            .line(self.i_line, line)
+                            .map_err(|e| {
+                                self.is_done = true;
+                                e
+                            }),
                     )
                 }
                 Err(e) => {
-- 
2.43.0


From 700fbd6afaed94a5f0ad8ffbb7783436d3b10d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 47/66] fix: ptx transformations apply the translation, which
 is the last line of the matrix

---
 src/io/ptx.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/io/ptx.rs b/src/io/ptx.rs
index 3fc2197..3851447 100644
--- a/src/io/ptx.rs
+++ b/src/io/ptx.rs
@@ -144,12 +144,13 @@ where
             .ok_or(PtxError::Matrix)
             .line(self.i_line, line)?;
 
+        // the file stores the columns of the matrix as lines, ending with the translation
         self.transformation = Matrix4 {
             data: [
-                [m11, m12, m13, m14],
-                [m21, m22, m23, m24],
-                [m31, m32, m33, m34],
-                [m41, m42, m43, m44],
+                [m11, m21, m31, m41],
+                [m12, m22, m32, m42],
+                [m13, m23, m33, m43],
+                [m14, m24, m34, m44],
             ],
         };
 
-- 
2.43.0


From d14b32ce341ae1b05b4c7344113620d29ba9a958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:50 +0000
Subject: [PATCH 48/66] fix: obj face index 0 is an error

---
 src/io/obj.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/obj.rs b/src/io/obj.rs
index 6f2c801..df428e4 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -322,7 +322,9 @@ fn fetch_face(line: &[u8]) -> ObjResult<[usize; 3]> {
     tmp = words.next().ok_or(ObjError::Face)?;
     let c: usize = from_ascii(until_bytes(tmp, b'/')).ok_or(ObjError::Face)?;
 
-    //@todo could fail if 0 in file
     //obj indexing starts at 1
+    if a == 0 || b == 0 || c == 0 {
+        return Err(ObjError::Face);
+    }
     Ok([a - 1, b - 1, c - 1])
 }
-- 
2.43.0


From 12fdd555add03aaa032b22e1496c12a8d9908c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:07 +0000
Subject: [PATCH 49/66] fix: obj statements might be separated or preceded by
 any blanks

---
 src/io/obj.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/io/obj.rs b/src/io/obj.rs
index df428e4..1dfdb92 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -86,7 +86,7 @@ where
             };
             self.i_line += 1;
 
-            if line.starts_with(b"v ") {
+            if is_statement(line, b"v") {
                 return Some(fetch_vertex(line).line(self.i_line, line).map_err(|e| {
                     self.is_done = true;
                     e
@@ -160,7 +160,7 @@ where
             };
             self.i_line += 1;
 
-            if line.starts_with(b"v ") {
+            if is_statement(line, b"v") {
                 return Some(
                     fetch_vertex(line)
                         .map(|x| FaceData::Data(x))
@@ -170,7 +170,7 @@ where
                             e
                         }),
                 );
-            } else if line.starts_with(b"f ") {
+            } else if is_statement(line, b"f") {
                 return Some(
                     fetch_face(line)
                         .map(|x| FaceData::Face(x))
@@ -278,6 +278,12 @@ impl From<ioError> for ObjError {
 
 //------------------------------------------------------------------------------
 
+/// Whether the first word of the line is the given keyword
+#[inline(always)]
+fn is_statement(line: &[u8], keyword: &[u8]) -> bool {
+    to_words_skip_empty(line).next() == Some(keyword)
+}
+
 #[inline(always)]
 fn fetch_vertex<P>(line: &[u8]) -> ObjResult<P>
 where
-- 
2.43.0


From 2b743a6e93748f65eebdcdcb9f738927e87a3bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 50/66] fix: obj polygons are split into triangles instead of
 cut to their first triangle

---
 src/io/obj.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/io/obj.rs b/src/io/obj.rs
index 1dfdb92..9c6370b 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -25,6 +25,7 @@ OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 use crate::*;
 
 use std::{
+    collections::VecDeque,
     fmt,
     io::{BufRead, Error as ioError},
     iter::FusedIterator,
@@ -119,6 +120,8 @@ where
     is_done: bool,
     i_line: usize,
     line_buffer: Vec<u8>,
+    // remaining triangles of the last polygon
+    triangles: VecDeque<[usize; 3]>,
     phantom_p: PhantomData<P>,
 }
 
@@ -133,6 +136,7 @@ where
             is_done: false,
             i_line: 0,
             line_buffer: Vec::new(),
+            triangles: VecDeque::new(),
             phantom_p: PhantomData,
         }
     }
@@ -149,6 +153,9 @@ where
         if self.is_done {
             return None;
         }
+        if let Some(face) = self.triangles.pop_front() {
+            return Some(Ok(FaceData::Face(face)));
+        }
         loop {
             let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
                 Ok(line) => line,
@@ -172,7 +179,7 @@ where
                 );
             } else if is_statement(line, b"f") {
                 return Some(
-                    fetch_face(line)
+                    fetch_face(line, &mut self.triangles)
                         .map(|x| FaceData::Face(x))
                         .line(self.i_line, line)
                         .map_err(|e| {
@@ -313,7 +320,7 @@ where
 }
 
 #[inline(always)]
-fn fetch_face(line: &[u8]) -> ObjResult<[usize; 3]> {
+fn fetch_face(line: &[u8], remaining: &mut VecDeque<[usize; 3]>) -> ObjResult<[usize; 3]> {
     let mut words = to_words_skip_empty(line);
 
     // skip "f"
@@ -332,5 +339,15 @@ fn fetch_face(line: &[u8]) -> ObjResult<[usize; 3]> {
     if a == 0 || b == 0 || c == 0 {
         return Err(ObjError::Face);
     }
+    // polygons are split into a fan of triangles
+    let mut last = c;
+    for word in words.take_while(|word| !word.starts_with(b"#")) {
+        let d: usize = from_ascii(until_bytes(word, b'/')).ok_or(ObjError::Face)?;
+        if d == 0 {
+            return Err(ObjError::Face);
+        }
+        remaining.push_back([a - 1, last - 1, d - 1]);
+        last = d;
+    }
     Ok([a - 1, b - 1, c - 1])
 }
-- 
2.43.0


From 476acc9dd9e23e281b1cfa19e6488f854ffe6b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 51/66] fix: gcode commands might end or be followed by a
 comment without a blank

---
 src/io/gcode.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/io/gcode.rs b/src/io/gcode.rs
index 78ed37e..883152e 100644
--- a/src/io/gcode.rs
+++ b/src/io/gcode.rs
@@ -96,7 +96,10 @@ where
             };
             self.i_line += 1;
 
-            if line.len() >= 4 && line[0] == b'G' {
+            // anything behind the ';' is a comment, which might directly follow the command
+            let line = until_bytes(line, b';');
+
+            if line.len() >= 3 && line[0] == b'G' {
                 if line[2] == b' ' && (line[1] == b'1' || line[1] == b'2' || line[1] == b'3') {
                     // Move according to absolute/relative
                     let mut any_changed = false;
@@ -138,7 +141,7 @@ where
                             }
                         }
                     }
-                } else if line[1] == b'9' && line[3] == b' ' {
+                } else if line[1] == b'9' && (line.len() == 3 || line[3] == b' ') {
                     // G9x
                     if line[2] == b'0' {
                         // G90
@@ -150,7 +153,7 @@ where
                         // G92
                         // Move according absolute
                         let mut any_changed = false;
-                        match command(&line[4..])
+                        match command(&line[3..])
                             .ok_or(GcodeError::Command)
                             .line(self.i_line, line)
                         {
-- 
2.43.0


From f0f0939c758030b51814d6b45bdde47b227d2dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 52/66] fix: binary ply files are written completely by writers
 accepting partial data

---
 src/io/ply/save.rs | 52 +++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/io/ply/save.rs b/src/io/ply/save.rs
index 9b58ae3..e71fe7f 100644
--- a/src/io/ply/save.rs
+++ b/src/io/ply/save.rs
@@ -192,28 +192,28 @@ where
         Precision::P32 => {
             for i in 0..mesh.num_vertices() {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating num_vertices
-                write.write(&(vertex.x() as f32).to_be_bytes())?;
-                write.write(&(vertex.y() as f32).to_be_bytes())?;
-                write.write(&(vertex.z() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.x() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.y() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.z() as f32).to_be_bytes())?;
             }
         }
 
         Precision::P64 => {
             for i in 0..mesh.num_vertices() {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating num_vertices
-                write.write(&(vertex.x()).to_be_bytes())?;
-                write.write(&(vertex.y()).to_be_bytes())?;
-                write.write(&(vertex.z()).to_be_bytes())?;
+                write.write_all(&(vertex.x()).to_be_bytes())?;
+                write.write_all(&(vertex.y()).to_be_bytes())?;
+                write.write_all(&(vertex.z()).to_be_bytes())?;
             }
         }
     }
 
     for i in 0..mesh.num_faces() {
         let face = mesh.face_vertex_ids(FId(i)).unwrap(); // safe since iterating num_faces
-        write.write(&3u8.to_be_bytes())?;
-        write.write(&(face.a.0 as u32).to_be_bytes())?;
-        write.write(&(face.b.0 as u32).to_be_bytes())?;
-        write.write(&(face.c.0 as u32).to_be_bytes())?;
+        write.write_all(&3u8.to_be_bytes())?;
+        write.write_all(&(face.a.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.b.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.c.0 as u32).to_be_bytes())?;
     }
 
     Ok(())
@@ -288,12 +288,12 @@ where
             for i in 0..n_vertices {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating n_vertices
                 let color = &colors[i];
-                write.write(&(vertex.x() as f32).to_be_bytes())?;
-                write.write(&(vertex.y() as f32).to_be_bytes())?;
-                write.write(&(vertex.z() as f32).to_be_bytes())?;
-                write.write(&color.r.to_be_bytes())?;
-                write.write(&color.g.to_be_bytes())?;
-                write.write(&color.b.to_be_bytes())?;
+                write.write_all(&(vertex.x() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.y() as f32).to_be_bytes())?;
+                write.write_all(&(vertex.z() as f32).to_be_bytes())?;
+                write.write_all(&color.r.to_be_bytes())?;
+                write.write_all(&color.g.to_be_bytes())?;
+                write.write_all(&color.b.to_be_bytes())?;
             }
         }
 
@@ -301,22 +301,22 @@ where
             for i in 0..n_vertices {
                 let vertex = mesh.vertex(VId(i)).unwrap(); // safe since iterating n_vertices
                 let color = &colors[i];
-                write.write(&(vertex.x()).to_be_bytes())?;
-                write.write(&(vertex.y()).to_be_bytes())?;
-                write.write(&(vertex.z()).to_be_bytes())?;
-                write.write(&color.r.to_be_bytes())?;
-                write.write(&color.g.to_be_bytes())?;
-                write.write(&color.b.to_be_bytes())?;
+                write.write_all(&(vertex.x()).to_be_bytes())?;
+                write.write_all(&(vertex.y()).to_be_bytes())?;
+                write.write_all(&(vertex.z()).to_be_bytes())?;
+                write.write_all(&color.r.to_be_bytes())?;
+                write.write_all(&color.g.to_be_bytes())?;
+                write.write_all(&color.b.to_be_bytes())?;
             }
         }
     }
 
     for i in 0..n_faces {
         let face = mesh.face_vertex_ids(FId(i)).unwrap(); // safe since iterating n_faces
-        write.write(&3u8.to_be_bytes())?;
-        write.write(&(face.a.0 as u32).to_be_bytes())?;
-        write.write(&(face.b.0 as u32).to_be_bytes())?;
-        write.write(&(face.c.0 as u32).to_be_bytes())?;
+        write.write_all(&3u8.to_be_bytes())?;
+        write.write_all(&(face.a.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.b.0 as u32).to_be_bytes())?;
+        write.write_all(&(face.c.0 as u32).to_be_bytes())?;
     }
 
     Ok(())
-- 
2.43.0


From 7a9b0875fff15d3d2c930ec48a32e79a6d166135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:26 +0000
Subject: [PATCH 53/66] fix: saving a degenerated face as ascii stl does not
 panic

---
 src/io/stl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/stl.rs b/src/io/stl.rs
index b4764ca..7fe709e 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -63,7 +63,7 @@ where
 
     for i in 0..mesh.num_faces() {
         let [v1, v2, v3] = mesh.face_vertices(FId(i)).unwrap(); // safe since iterating num_faces
-        let n = mesh.face_normal(FId(i)).unwrap(); // safe since iterating num_faces
+        let n = mesh.face_normal(FId(i)).unwrap_or(Norm3D::norm_z()); // degenerated faces don't have a normal
         let buffer = "facet normal ".to_string()
             + &str_exp(&n)
             + "\n"
-- 
2.43.0


From 4bde0d71f612d9f22cd304ceba8358a1270f5000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:27 +0000
Subject: [PATCH 54/66] fix: las point records too short for the coordinates
 are an error

---
 src/io/las/types.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io/las/types.rs b/src/io/las/types.rs
index 8966e55..45240f7 100644
--- a/src/io/las/types.rs
+++ b/src/io/las/types.rs
@@ -64,6 +64,11 @@ impl TryFrom<HeaderRaw> for Header {
             return Err(LasError::UnknownPointFormat);
         }
 
+        // coordinates must fit into the records
+        if x.point_record_length < 12 {
+            return Err(LasError::BinaryData);
+        }
+
         Ok(Header {
             offset_point_data: x.offset_point_data,
             point_record_length: x.point_record_length,
-- 
2.43.0


From 57f2723578f8439d7ff5c838b9dd92b26b5cf508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:28 +0000
Subject: [PATCH 55/66] fix: las headers before version 1.4 do not require and
 use the bytes behind the header

---
 src/io/las/load.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/las/load.rs b/src/io/las/load.rs
index d4dbfa5..54e9bb3 100644
--- a/src/io/las/load.rs
+++ b/src/io/las/load.rs
@@ -164,7 +164,11 @@ where
     R: Read,
 {
     let mut buffer = [0u8; 375];
-    read.read_exact(&mut buffer)?;
+    read.read_exact(&mut buffer[0..227])?;
+    // headers before version 1.4 are shorter, the fields missing there must not be read from the data following them
+    if u16::from_le_bytes(buffer[94..96].try_into()?) >= 375 {
+        read.read_exact(&mut buffer[227..375])?;
+    }
 
     Ok(HeaderRaw {
         file_signature: array_from_bytes_le!(u8, 4, &buffer[0..4])?, //4 4
-- 
2.43.0


From 901b61992e8226d264b50f07716b73ebea12f3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:29 +0000
Subject: [PATCH 56/66] fix: psl files are read completely, not only their
 first point

---
 src/io/psl.rs | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/src/io/psl.rs b/src/io/psl.rs
index e7f7fdd..0a8fe83 100644
--- a/src/io/psl.rs
+++ b/src/io/psl.rs
@@ -72,31 +72,18 @@ where
     }
     #[inline(always)]
     fn fetch_counts(&mut self) -> PslResult<()> {
-        self.n_lines_left = if self.n_lines_left == 0 && self.n_passes_left > 0 {
-            fetch_pass_header_return_n_lines(&mut self.read)?
-        } else {
-            0
-        };
-        self.n_point_left = if self.n_point_left == 0 && self.n_lines_left > 0 {
-            fetch_line_header_return_n_points(&mut self.read)?
-        } else {
-            0
-        };
-        Ok(())
-    }
-    #[inline(always)]
-    fn reduce_count(&mut self) {
-        if self.n_point_left > 0 {
-            self.n_point_left -= 1
-        } else {
+        while self.n_point_left <= 0 {
             if self.n_lines_left > 0 {
-                self.n_lines_left -= 1
+                self.n_lines_left -= 1;
+                self.n_point_left = fetch_line_header_return_n_points(&mut self.read)?
+            } else if self.n_passes_left > 0 {
+                self.n_passes_left -= 1;
+                self.n_lines_left = fetch_pass_header_return_n_lines(&mut self.read)?
             } else {
-                if self.n_passes_left > 0 {
-                    self.n_passes_left -= 1
-                }
+                break;
             }
         }
+        Ok(())
     }
 }
 
@@ -125,12 +112,12 @@ where
             return Some(Err(e));
         }
 
-        if self.n_point_left == 0 {
+        if self.n_point_left <= 0 {
             self.is_done = true;
             return None;
         }
 
-        self.reduce_count();
+        self.n_point_left -= 1;
 
         return Some(fetch_point(&mut self.read).map_err(|e| {
             self.is_done = true;
-- 
2.43.0


From 772319d9bd3c1d699e77f0c4fc295a5b67a2c406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:18 +0000
Subject: [PATCH 57/66] fix: normalizing very small, very large or not finite
 vectors does not panic or yield other lengths

---
 src/norm_2d.rs | 14 +++++++++++---
 src/norm_3d.rs | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/norm_2d.rs b/src/norm_2d.rs
index fbdbc45..c9714ca 100644
--- a/src/norm_2d.rs
+++ b/src/norm_2d.rs
@@ -133,12 +133,20 @@ impl IsNormalized2D for Norm2D {
     where
         P: Is2D,
     {
-        let l = *p.abs();
-        if l == 0.0 {
+        let max = p.x().abs().max(p.y().abs());
+        if max == 0.0 || !(p.x().is_finite() && p.y().is_finite()) {
             return Err(ErrorKind::NormalizeVecWithoutLength);
         }
 
-        let f = 1.0 / l;
+        // the squares of very small and large coordinates can't be represented
+        let scale = if max > 1e-150 && max < 1e150 {
+            1.0
+        } else {
+            max
+        };
+        let p = Point2D::new(p.x() / scale, p.y() / scale);
+
+        let f = 1.0 / *p.abs();
 
         Ok(Norm2D {
             x: f * p.x(),
diff --git a/src/norm_3d.rs b/src/norm_3d.rs
index 0aa5971..e185178 100644
--- a/src/norm_3d.rs
+++ b/src/norm_3d.rs
@@ -145,12 +145,20 @@ impl IsNormalized3D for Norm3D {
     where
         P: Is3D,
     {
-        let l = *p.abs();
-        if l == 0.0 {
+        let max = p.x().abs().max(p.y().abs()).max(p.z().abs());
+        if max == 0.0 || !(p.x().is_finite() && p.y().is_finite() && p.z().is_finite()) {
             return Err(ErrorKind::NormalizeVecWithoutLength);
         }
 
-        let f = 1.0 / l;
+        // the squares of very small and large coordinates can't be represented
+        let scale = if max > 1e-150 && max < 1e150 {
+            1.0
+        } else {
+            max
+        };
+        let p = Point3D::new(p.x() / scale, p.y() / scale, p.z() / scale);
+
+        let f = 1.0 / *p.abs();
 
         Ok(Norm3D {
             x: f * p.x(),
-- 
2.43.0


From 3f3c454cff1ade542ce341a4d08517f5adf1186e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:21 +0000
Subject: [PATCH 58/66] fix: ply vertices in the orders yzx and zxy are read
 with their own coordinates

---
 src/io/ply/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/ply/utils.rs b/src/io/ply/utils.rs
index 12c2544..a1aa4e8 100644
--- a/src/io/ply/utils.rs
+++ b/src/io/ply/utils.rs
@@ -91,8 +91,8 @@ where
         VertexOrder::Xyz => P::new(fst, snd, third),
         VertexOrder::Xzy => P::new(fst, third, snd),
         VertexOrder::Yxz => P::new(snd, fst, third),
-        VertexOrder::Yzx => P::new(snd, third, fst),
-        VertexOrder::Zxy => P::new(third, fst, snd),
+        VertexOrder::Yzx => P::new(third, fst, snd),
+        VertexOrder::Zxy => P::new(snd, third, fst),
         VertexOrder::Zyx => P::new(third, snd, fst),
     }
 }
-- 
2.43.0


From f9b09ebbdc08eb7c3db56b80e1f3c8ca4db323a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:16 +0000
Subject: [PATCH 59/66] fix: ply elements are recognized by their full name

---
 src/io/ply/header.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/io/ply/header.rs b/src/io/ply/header.rs
index ec83ff5..d47f563 100644
--- a/src/io/ply/header.rs
+++ b/src/io/ply/header.rs
@@ -101,7 +101,7 @@ where
 
         match opt_n_vertices {
             None => {
-                if line.starts_with(b"element vertex") {
+                if is_element(line, b"vertex") {
                     read_state = HeaderReadState::Vertex;
                     let mut words = to_words_skip_empty(line);
                     opt_n_vertices = Some(
@@ -119,7 +119,7 @@ where
 
         match opt_n_faces {
             None => {
-                if line.starts_with(b"element face") {
+                if is_element(line, b"face") {
                     // faces stored before the vertices are not supported
                     if opt_n_vertices.is_none() {
                         return Err(PlyError::FaceElement).line(*i_line, line);
@@ -302,3 +302,9 @@ where
 }
 
 //------------------------------------------------------------------------------
+
+/// Whether the line declares the element with exactly this name
+fn is_element(line: &[u8], name: &[u8]) -> bool {
+    let mut words = to_words_skip_empty(line);
+    words.next() == Some(b"element") && words.next() == Some(name)
+}
-- 
2.43.0


From ed9683a7fd0c611972d50eb05f9647c0cf3717fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:03 +0000
Subject: [PATCH 60/66] fix: ply face lists are recognized by their full name

---
 src/io/ply/header.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/ply/header.rs b/src/io/ply/header.rs
index d47f563..8d51d9a 100644
--- a/src/io/ply/header.rs
+++ b/src/io/ply/header.rs
@@ -191,9 +191,9 @@ where
                 }
                 HeaderReadState::Face => {
                     if line.starts_with(b"property list") {
+                        let name = to_words_skip_empty(line).nth(4);
                         if opt_face_count_type.is_none()
-                            && (contains(line, b"vertex_indices")
-                                || contains(line, b"vertex_index"))
+                            && (name == Some(b"vertex_indices") || name == Some(b"vertex_index"))
                         {
                             let mut words = to_words_skip_empty(line);
                             skip_n(&mut words, 2); // skip "property" and "list"
-- 
2.43.0


From c9c6516e1fe53c2388219c2cc80d7ed2377ab009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:55 +0000
Subject: [PATCH 61/66] fix: off files with the counts in the line of the
 keyword are not misread

---
 src/io/off.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/io/off.rs b/src/io/off.rs
index 86fb55f..fd7f70e 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -83,7 +83,7 @@ where
         }
 
         loop {
-            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+            let mut line = match fetch_line(&mut self.read, &mut self.line_buffer) {
                 Ok(line) => line,
                 Err(FetchLineError::EndReached) => break,
                 Err(FetchLineError::AccessFile) => {
@@ -95,7 +95,8 @@ where
 
             if !self.off_seen && line.starts_with(b"OFF") {
                 self.off_seen = true;
-                continue;
+                // the counts might follow in the same line
+                line = trim_start(&line[3..]);
             }
 
             if line.is_empty() || line.starts_with(b"#") {
@@ -248,7 +249,7 @@ where
             return None;
         }
         loop {
-            let line = match fetch_line(&mut self.read, &mut self.line_buffer) {
+            let mut line = match fetch_line(&mut self.read, &mut self.line_buffer) {
                 Ok(line) => line,
                 Err(FetchLineError::EndReached) => break,
                 Err(FetchLineError::AccessFile) => {
@@ -260,7 +261,8 @@ where
 
             if !self.off_seen && line.starts_with(b"OFF") {
                 self.off_seen = true;
-                continue;
+                // the counts might follow in the same line
+                line = trim_start(&line[3..]);
             }
 
             if line.is_empty() || line.starts_with(b"#") {
-- 
2.43.0


From 1c7afc3d862081b43b333e3f9294751f90ddf8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:29 +0000
Subject: [PATCH 62/66] fix: bezier interpolation stays finite for more than
 1030 base points

---
 src/interpolate_2d.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/interpolate_2d.rs b/src/interpolate_2d.rs
index 938c298..04706a8 100644
--- a/src/interpolate_2d.rs
+++ b/src/interpolate_2d.rs
@@ -28,6 +28,9 @@ use crate::*;
 
 //------------------------------------------------------------------------------
 
+// all binominal coefficients up to this n can be represented
+const MAX_BINOMINAL: usize = 1000;
+
 fn binominal_coefficient(n: usize, k: usize) -> f64 {
     // multiplied step by step, since factorials would overflow early
     let mut result = 1.0;
@@ -41,10 +44,33 @@ fn bernstein_polynomial(n: usize, i: usize, t: f64) -> f64 {
     binominal_coefficient(n, i) * t.powi(i as i32) * (1.0 - t).powi((n - i) as i32)
 }
 
+// The sum of the base points weighted by their bernstein polynomials, for any number of base points.
+// The weights are accumulated relative to each other, since the binominal coefficients would overflow
+fn control_polygon_large<P>(path: &PointCloud2D<P>, n_points: usize, t: f64) -> P
+where
+    P: IsBuildable2D,
+{
+    let mut share: f64 = 1.0; // of the latest base point among all visited so far
+    let mut x: f64 = path.data[0].x();
+    let mut y: f64 = path.data[0].y();
+
+    for i in 1..n_points + 1 {
+        let growth = share * t * ((n_points + 1 - i) as f64);
+        share = growth / (growth + (i as f64) * (1.0 - t));
+        x = (1.0 - share) * x + share * path.data[i].x();
+        y = (1.0 - share) * y + share * path.data[i].y();
+    }
+    P::new(x, y)
+}
+
 fn control_polygon<P>(path: &PointCloud2D<P>, n_points: usize, t: f64) -> P
 where
     P: IsBuildable2D,
 {
+    if n_points > MAX_BINOMINAL {
+        return control_polygon_large(path, n_points, t);
+    }
+
     let mut x: f64 = 0.0;
     let mut y: f64 = 0.0;
 
-- 
2.43.0


From 3fabf5851690ef4e3339e019ed7330332dbe1913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 63/66] fix: faces of obj, off and ply files connect the
 vertices of their file when the mesh already holds vertices

---
 src/io/obj.rs      |  5 +++--
 src/io/off.rs      |  5 +++--
 src/io/ply/load.rs | 15 +++++++++------
 src/io/utils.rs    | 17 +++++++++++++++++
 4 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/io/obj.rs b/src/io/obj.rs
index 9c6370b..65bcc42 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -212,6 +212,7 @@ where
     P: IsBuildable3D + Clone,
     R: BufRead,
 {
+    let offset = mesh.num_vertices();
     let iterator = ObjMeshIterator::new(read);
 
     for rd in iterator {
@@ -219,8 +220,8 @@ where
             FaceData::Data(x) => {
                 mesh.add_vertex(x);
             }
-            FaceData::Face([a, b, c]) => {
-                mesh.try_add_connection(VId(a), VId(b), VId(c))
+            FaceData::Face(face) => {
+                try_add_face_offset(mesh, offset, face)
                     .map_err(|_| ObjError::InvalidMeshIndices)
                     .simple()?;
             }
diff --git a/src/io/off.rs b/src/io/off.rs
index fd7f70e..b55844f 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -335,12 +335,13 @@ where
     P: IsBuildable3D + Clone,
     R: BufRead,
 {
+    let offset = mesh.num_vertices();
     let iterator = OffMeshIterator::<P, R>::new(read);
 
     for rd in iterator {
         match rd? {
-            FaceDataReserve::Face([a, b, c]) => {
-                mesh.try_add_connection(VId(a), VId(b), VId(c))
+            FaceDataReserve::Face(face) => {
+                try_add_face_offset(mesh, offset, face)
                     .map_err(|_| OffError::InvalidMeshIndices)
                     .simple()?;
             }
diff --git a/src/io/ply/load.rs b/src/io/ply/load.rs
index a9d2006..8cee1db 100644
--- a/src/io/ply/load.rs
+++ b/src/io/ply/load.rs
@@ -89,6 +89,7 @@ where
     P: IsBuildable3D,
     R: BufRead,
 {
+    let offset = mesh.num_vertices();
     let iterator = PlyMeshIterator::new(read)?;
 
     for fr in iterator {
@@ -100,8 +101,8 @@ where
                 mesh.reserve_vertices(limit_reserve(n_d));
                 mesh.reserve_faces(limit_reserve(n_f));
             }
-            FaceDataReserve::Face([a, b, c]) => {
-                mesh.try_add_connection(VId(a), VId(b), VId(c))
+            FaceDataReserve::Face(face) => {
+                try_add_face_offset(mesh, offset, face)
                     .or(Err(PlyError::InvalidMeshIndices))
                     .simple()?;
             }
@@ -189,6 +190,7 @@ where
     R: Read,
     BR: IsByteReader,
 {
+    let offset = mesh.num_vertices();
     let iterator = PlyBinaryMeshIterator::<BR, _, _>::new(read, header);
 
     for fd in iterator {
@@ -196,8 +198,8 @@ where
             io::types::FaceData::Data(p) => {
                 mesh.add_vertex(p);
             }
-            io::types::FaceData::Face([a, b, c]) => {
-                mesh.try_add_connection(VId(a), VId(b), VId(c))
+            io::types::FaceData::Face(face) => {
+                try_add_face_offset(mesh, offset, face)
                     .or(Err(PlyError::InvalidMeshIndices))?;
             }
         }
@@ -219,6 +221,7 @@ where
     P: IsBuildable3D,
     R: BufRead,
 {
+    let offset = mesh.num_vertices();
     let iterator = PlyAsciiMeshIterator::new(read, header, *i_line);
 
     for fd in iterator {
@@ -226,8 +229,8 @@ where
             io::types::FaceData::Data(p) => {
                 mesh.add_vertex(p);
             }
-            io::types::FaceData::Face([a, b, c]) => {
-                mesh.try_add_connection(VId(a), VId(b), VId(c))
+            io::types::FaceData::Face(face) => {
+                try_add_face_offset(mesh, offset, face)
                     .or(Err(PlyError::InvalidMeshIndices))
                     .simple()?;
             }
diff --git a/src/io/utils.rs b/src/io/utils.rs
index 4a5fed1..5abdce5 100644
--- a/src/io/utils.rs
+++ b/src/io/utils.rs
@@ -22,6 +22,8 @@ OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 //! Module for interal utility functions for IO operations
 
+use crate::*;
+
 use std::{
     fmt,
     io::{BufRead, Error as ioError, Read},
@@ -33,6 +35,21 @@ use std::{
 /// Maximum number of elements reserved because of counts found in files
 const MAX_RESERVE: usize = 65_536;
 
+/// Adds a face to the mesh, its vertices are counted from the offset (number of vertices present before loading)
+#[inline(always)]
+pub fn try_add_face_offset<EM, P>(mesh: &mut EM, offset: usize, face: [usize; 3]) -> Result<FId>
+where
+    EM: IsFaceEditableMesh<P, Face3>,
+    P: IsBuildable3D,
+{
+    let vid = |x: usize| x.checked_add(offset).map(VId);
+
+    match (vid(face[0]), vid(face[1]), vid(face[2])) {
+        (Some(a), Some(b), Some(c)) => mesh.try_add_connection(a, b, c),
+        _ => Err(ErrorKind::IncorrectVertexID),
+    }
+}
+
 /// Skip number of bytes
 #[inline(always)]
 pub fn skip_bytes<R>(read: &mut R, n_bytes: usize) -> std::io::Result<()>
-- 
2.43.0


From 1f358b0291b1b8d3629e7d8a4479c6e46d2f7b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:27 +0000
Subject: [PATCH 64/66] fix: searching for nothing in a slice does not panic

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 5a5e98d..7227239 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -59,7 +59,7 @@ pub fn contains<T>(haystack: &[T], needle: &[T]) -> bool
 where
     T: PartialEq,
 {
-    haystack.windows(needle.len()).any(|x| x == needle)
+    needle.is_empty() || haystack.windows(needle.len()).any(|x| x == needle)
 }
 
 /// Max of three f64 values
-- 
2.43.0


From d36860b584bf3e867065be6e8263187cde2d1f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:07 +0000
Subject: [PATCH 65/66] fix: boxes without finite sides got lost in the AABB
 trees

---
 src/aa_bb_tree_2d.rs | 5 +++--
 src/aa_bb_tree_3d.rs | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/aa_bb_tree_2d.rs b/src/aa_bb_tree_2d.rs
index a4a769f..c8a92fe 100644
--- a/src/aa_bb_tree_2d.rs
+++ b/src/aa_bb_tree_2d.rs
@@ -161,11 +161,12 @@ where
         }
     }
 
+    // negated, so that nothing gets lost where the center of unbounded boxes is not a number
     fn is_right_of(compx: bool, bb: &BoundingBox2D, center: &Point2D) -> bool {
         if compx {
-            bb.max_p().x() >= center.x()
+            !(bb.max_p().x() < center.x())
         } else {
-            bb.max_p().y() >= center.y()
+            !(bb.max_p().y() < center.y())
         }
     }
 
diff --git a/src/aa_bb_tree_3d.rs b/src/aa_bb_tree_3d.rs
index 47f7f2c..463917b 100644
--- a/src/aa_bb_tree_3d.rs
+++ b/src/aa_bb_tree_3d.rs
@@ -181,11 +181,12 @@ where
         }
     }
 
+    // negated, so that nothing gets lost where the center of unbounded boxes is not a number
     fn is_right_of(comp: &Compare, bb: &BoundingBox3D, center: &Point3D) -> bool {
         match comp {
-            Compare::X => bb.max_p().x() >= center.x(),
-            Compare::Y => bb.max_p().y() >= center.y(),
-            Compare::Z => bb.max_p().z() >= center.z(),
+            Compare::X => !(bb.max_p().x() < center.x()),
+            Compare::Y => !(bb.max_p().y() < center.y()),
+            Compare::Z => !(bb.max_p().z() < center.z()),
         }
     }
 
-- 
2.43.0


From 8dc392f4f5b28ea84584ddf497ee876119c75d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:05 +0000
Subject: [PATCH 66/66] fix: LAS files before version 1.4 only have the legacy
 count of points

---
 src/io/las/types.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/las/types.rs b/src/io/las/types.rs
index 45240f7..e59efc2 100644
--- a/src/io/las/types.rs
+++ b/src/io/las/types.rs
@@ -54,7 +54,8 @@ impl TryFrom<HeaderRaw> for Header {
         }
 
         // These are conversions according to the legacy mode
-        let n_point_records = if x.legacy_n_point_records == 0 {
+        // There's no other count before 1.4, those bytes are user data
+        let n_point_records = if x.legacy_n_point_records == 0 && x.version_minor >= 4 {
             x.n_point_records
         } else {
             x.legacy_n_point_records as u64
-- 
2.43.0

