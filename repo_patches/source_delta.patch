From 60bb0fb52aa7f096c7ddb872ec367b4c64b993a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 01/21] fix: iterating on the points of an empty index panicked

---
 src/hnsw.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index d23eb58..7ca1fb0 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -661,7 +661,8 @@ impl<'b, T: Clone + Send + Sync> Iterator for IterPoint<'_, 'b, T> {
             // must reach a non empty layer if possible
             let entry_point_ref = self.point_indexation.entry_point.read();
             let points_by_layer = self.point_indexation.points_by_layer.read();
-            let entry_point_level = entry_point_ref.as_ref().unwrap().p_id.0;
+            // no entry point means that no point has been inserted, there is nothing to iterate on
+            let entry_point_level = entry_point_ref.as_ref()?.p_id.0;
             while (self.layer as u8) <= entry_point_level
                 && points_by_layer[self.layer as usize].is_empty()
             {
-- 
2.43.0


From f2227e3ed4a4dde6a0b30012ad973c02539b7902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 02/21] fix: a filtered search could return a point rejected by
 its filter

---
 src/hnsw.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 7ca1fb0..a44b0f7 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1517,7 +1517,11 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         // now search with asked ef in lower layer
         let neighbours_heap = self.search_layer(data, pivot, ef, layer_to_search, filter);
         // go from heap of points with negative dist to a sorted vec of increasing points with > 0 distances.
-        let neighbours = neighbours_heap.into_sorted_vec();
+        let mut neighbours = neighbours_heap.into_sorted_vec();
+        // the search starts from pivot whether the filter accepts it or not, so it can still be there
+        if let Some(f) = filter {
+            neighbours.retain(|p| f.hnsw_filter(&p.point_ref.origin_id));
+        }
         // get the min of K and ef points into a vector.
         //
         let last = knbn.min(ef).min(neighbours.len());
-- 
2.43.0


From 217c31197588fa3403d7561b7abed9eba0c6b21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 03/21] fix: concurrent first insertions could leave points
 without any link and a wrong entry point

---
 src/hnsw.rs | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index a44b0f7..ff9e633 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1058,34 +1058,26 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         let (data, origin_id) = data_with_id;
         let keep_pruned = self.keep_pruned;
         // insert in indexation and get point_id adn generate a new entry_point if necessary
-        let (new_point, point_rank) = self
+        let (new_point, _) = self
             .layer_indexed_points
             .generate_new_point(data, origin_id);
         trace!("Hnsw insert generated new point {:?} ", new_point.p_id);
         // now real work begins
         // allocate a binary heap
         let level = new_point.p_id.0;
-        let mut enter_point_copy = None;
-        let mut max_level_observed = 0;
-        // entry point has been set in
-        {
-            // I open a read lock on an option
-            if let Some(arc_point) = self.layer_indexed_points.entry_point.read().as_ref() {
-                enter_point_copy = Some(Arc::clone(arc_point));
-                if point_rank == 1 {
-                    debug!(
-                        "Hnsw  stored first point , direct return  {:?} ",
-                        new_point.p_id
-                    );
-                    return;
-                }
-                max_level_observed = enter_point_copy.as_ref().unwrap().p_id.0;
-            }
-        }
+        let mut enter_point_copy = self.layer_indexed_points.entry_point.read().clone();
         if enter_point_copy.is_none() {
-            self.layer_indexed_points.check_entry_point(&new_point);
-            return;
+            // the first point is the initial entry point. Many threads can come here at the beginning, so we must
+            // check again with a write lock. All but one will have to be linked to the point that was the first.
+            let mut entry_point_ref = self.layer_indexed_points.entry_point.write();
+            if entry_point_ref.is_none() {
+                debug!("Hnsw  stored first point {:?} ", new_point.p_id);
+                *entry_point_ref = Some(Arc::clone(&new_point));
+                return;
+            }
+            enter_point_copy = entry_point_ref.clone();
         }
+        let max_level_observed = enter_point_copy.as_ref().unwrap().p_id.0;
         let mut dist_to_entry = self
             .dist_f
             .eval(data, enter_point_copy.as_ref().unwrap().data.get_v());
-- 
2.43.0


From 474bc95d57b37fce404a371ae7e454ac7715f531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 04/21] fix: possible deadlock between concurrent insertions of
 points that are neighbours

---
 src/hnsw.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index ff9e633..31edc4c 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1214,7 +1214,10 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         );
         let level = new_point.p_id.0;
         for l in (0..level + 1).rev() {
-            for q in &new_point.neighbours.read()[l as usize] {
+            // we must not keep the lock on new_point while asking for a write lock on a neighbour: the neighbour may be
+            // under insertion in another thread which does the same with new_point
+            let neighbours_at_l = new_point.neighbours.read()[l as usize].clone();
+            for q in &neighbours_at_l {
                 if new_point.p_id != q.point_ref.p_id {
                     // as new point is in global table, do not loop and deadlock!!
                     let q_point = &q.point_ref;
-- 
2.43.0


From f223d869ced563d5906a42f28e019f354fbf86f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 05/21] fix: the level sampling scale was changed by a dump and
 reload

---
 src/hnsw.rs   | 11 +++--------
 src/hnswio.rs | 13 ++++++++-----
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 31edc4c..59fd36b 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -333,17 +333,12 @@ impl LayerGenerator {
         }
     }
 
-    // new when we know scale used. Should replace the one without scale
-    pub(crate) fn new_with_scale(
-        max_nb_connection: usize,
-        scale_factor: f64,
-        maxlevel: usize,
-    ) -> Self {
-        let scale_default = 1. / (max_nb_connection as f64).ln();
+    // new when we know scale used, i.e at reload
+    pub(crate) fn new_with_scale(scale: f64, maxlevel: usize) -> Self {
         LayerGenerator {
             rng: Arc::new(Mutex::new(StdRng::from_entropy())),
             unif: Uniform::<f64>::new(0., 1.),
-            scale: scale_default * scale_factor,
+            scale,
             maxlevel,
         }
     }
diff --git a/src/hnswio.rs b/src/hnswio.rs
index ea845f5..9dfbe3e 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -766,15 +766,18 @@ impl HnswIo {
             entry_point.get_point_id()
         );
         //
+        // the dump gives the scale in use, not a modification of the default one. There was no scale before version 4
+        let layer_g = match descr.format_version {
+            2 | 3 => {
+                LayerGenerator::new(descr.max_nb_connection as usize, NB_LAYER_MAX as usize)
+            }
+            _ => LayerGenerator::new_with_scale(descr.level_scale, NB_LAYER_MAX as usize),
+        };
         let point_indexation = PointIndexation {
             max_nb_connection: descr.max_nb_connection as usize,
             max_layer: NB_LAYER_MAX as usize,
             points_by_layer: Arc::new(RwLock::new(points_by_layer)),
-            layer_g: LayerGenerator::new_with_scale(
-                descr.max_nb_connection as usize,
-                descr.level_scale,
-                NB_LAYER_MAX as usize,
-            ),
+            layer_g,
             nb_point: Arc::new(RwLock::new(nb_points_loaded)), // CAVEAT , we should increase , the whole thing is to be able to increment graph ?
             entry_point: Arc::new(RwLock::new(Some(entry_point))),
         };
-- 
2.43.0


From da0d151cf6df10d4900adad100c94fb0e12aac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:25 +0000
Subject: [PATCH 06/21] fix: vectors of different lengths were not reloaded
 with their own length

---
 src/datamap.rs | 32 +++++++++-----------------------
 src/hnswio.rs  | 20 +++++++++++++-------
 2 files changed, 22 insertions(+), 30 deletions(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 3bce7c3..05a4d6f 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -30,8 +30,6 @@ pub struct DataMap {
     hmap: IndexMap<DataId, usize>,
     /// type name of Data
     t_name: String,
-    /// dimension of data vector
-    dimension: usize,
     //
     distname: String,
 } // end of DataMap
@@ -148,7 +146,7 @@ impl DataMap {
         }
         //
         // now we know that each record consists in
-        //   - MAGICDATAP (u32), DataId  (u64), dimension (u64) and then  (length of type in bytes * dimension)
+        //   - MAGICDATAP (u32), DataId  (u64), length in bytes (u64) and then the vector which has its own length
         //
         let record_size = std::mem::size_of::<u32>()
             + 2 * std::mem::size_of::<u64>()
@@ -161,7 +159,10 @@ impl DataMap {
             residual
         );
         let nb_record = residual / record_size;
-        debug!("Record size : {}, nb_record : {}", record_size, nb_record);
+        debug!(
+            "Record size : {}, expected nb_record : {}",
+            record_size, nb_record
+        );
         // allocate hmap with correct capacity
         let mut hmap = IndexMap::<DataId, usize>::with_capacity(nb_record);
         // fill hmap to have address of each data point in file
@@ -169,8 +170,8 @@ impl DataMap {
         //
         // now we loop on records
         //
-        for i in 0..nb_record {
-            debug!("Record i : {}, addr : {}", i, current_mmap_addr);
+        while current_mmap_addr < mapped_slice.len() {
+            debug!("Record i : {}, addr : {}", hmap.len(), current_mmap_addr);
             // decode Magic
             u32_slice.copy_from_slice(
                 &mapped_slice[current_mmap_addr..current_mmap_addr + std::mem::size_of::<u32>()],
@@ -196,22 +197,8 @@ impl DataMap {
             );
             current_mmap_addr += std::mem::size_of::<u64>();
             let serialized_len = u64::from_ne_bytes(u64_slice) as usize;
-            if i == 0 {
-                debug!("serialized bytes len to reload {:?}", serialized_len);
-            }
-            let mut v_serialized = vec![0; serialized_len];
-            v_serialized.copy_from_slice(
-                &mapped_slice[current_mmap_addr..current_mmap_addr + serialized_len],
-            );
             current_mmap_addr += serialized_len;
-            let slice_t =
-                unsafe { std::slice::from_raw_parts(v_serialized.as_ptr() as *const T, dimension) };
-            trace!(
-                "Deserialized v : {:?} address : {:?} ",
-                slice_t,
-                v_serialized.as_ptr() as *const T
-            );
-        } // end of for on record
+        } // end of loop on records
           //
         debug!("End of DataMap::from_hnsw.");
         //
@@ -220,7 +207,6 @@ impl DataMap {
             mmap,
             hmap,
             t_name,
-            dimension: descr_dimension,
             distname,
         };
         //
@@ -286,7 +272,7 @@ impl DataMap {
         let slice_t = unsafe {
             std::slice::from_raw_parts(
                 mapped_slice[current_mmap_addr..].as_ptr() as *const T,
-                self.dimension,
+                serialized_len / std::mem::size_of::<T>(),
             )
         };
         Some(slice_t)
diff --git a/src/hnswio.rs b/src/hnswio.rs
index 9dfbe3e..91ba347 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -768,9 +768,7 @@ impl HnswIo {
         //
         // the dump gives the scale in use, not a modification of the default one. There was no scale before version 4
         let layer_g = match descr.format_version {
-            2 | 3 => {
-                LayerGenerator::new(descr.max_nb_connection as usize, NB_LAYER_MAX as usize)
-            }
+            2 | 3 => LayerGenerator::new(descr.max_nb_connection as usize, NB_LAYER_MAX as usize),
             _ => LayerGenerator::new_with_scale(descr.level_scale, NB_LAYER_MAX as usize),
         };
         let point_indexation = PointIndexation {
@@ -1160,10 +1158,18 @@ where
         match descr.format_version {
             2 => bincode::deserialize(&v_serialized).unwrap(),
             3 | 4 => {
-                let slice_t = unsafe {
-                    std::slice::from_raw_parts(v_serialized.as_ptr() as *const T, descr.dimension)
-                };
-                slice_t.to_vec()
+                // each vector comes with its own length (think of Levenshtein distance)
+                let nb_elem = v_serialized.len() / std::mem::size_of::<T>();
+                let mut v = Vec::<T>::with_capacity(nb_elem);
+                unsafe {
+                    std::ptr::copy_nonoverlapping(
+                        v_serialized.as_ptr(),
+                        v.as_mut_ptr() as *mut u8,
+                        nb_elem * std::mem::size_of::<T>(),
+                    );
+                    v.set_len(nb_elem);
+                }
+                v
             }
             _ => {
                 error!(
-- 
2.43.0


From d2a71c7773f6d769f0e797a96362fbc3d3638dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 07/21] fix: a reload asking for mmap where it is not possible
 panicked

---
 src/hnswio.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 91ba347..ffab867 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -491,6 +491,7 @@ impl HnswIo {
         let t_type = description.t_name.clone();
         debug!("T type name in dump = {:?}", t_type);
         // Do we use mmap at reload
+        self.datamap = None;
         if self.options.use_mmap().0 {
             let datamap_res = DataMap::from_hnswdump::<T>(self.dir.as_path(), &self.basename);
             if datamap_res.is_err() {
@@ -651,7 +652,9 @@ impl HnswIo {
         //
         let mut nb_points_loaded: usize = 0;
         let mut nb_still_to_load = descr.nb_point as i64;
-        let (use_mmap, max_nbpoint_in_memory) = self.options.use_mmap();
+        let (mmap_asked, max_nbpoint_in_memory) = self.options.use_mmap();
+        // mmap is not always possible (old format, reload of graph only, reload with a given distance)
+        let use_mmap = mmap_asked && self.datamap.is_some();
         //
         for l in 0..nb_layer as usize {
             // read and check magic
-- 
2.43.0


From a4d6b40645d840cff11eb7f97f7f1908ad6fd4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 08/21] fix: reloading an incomplete or incoherent dump
 panicked or exited instead of returning an error

---
 src/hnswio.rs | 135 +++++++++++++++++++++++++++-----------------------
 1 file changed, 72 insertions(+), 63 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index ffab867..d4c98bb 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -413,7 +413,7 @@ impl HnswIo {
         let mut graph_in = BufReader::new(graphfile);
         let data_in = BufReader::new(datafile);
         // we need to call load_description first to get distance name
-        let hnsw_description = load_description(&mut graph_in).unwrap();
+        let hnsw_description = load_description(&mut graph_in)?;
         //
         Ok(LoadInit {
             descr: hnsw_description,
@@ -451,19 +451,20 @@ impl HnswIo {
         let mut it_slice = [0u8; std::mem::size_of::<u32>()];
         data_in.read_exact(&mut it_slice)?;
         let magic = u32::from_ne_bytes(it_slice);
-        assert_eq!(
-            magic, MAGICDATAP,
-            "magic not equal to MAGICDATAP in load_point"
-        );
+        if magic != MAGICDATAP {
+            return Err(anyhow!("magic not equal to MAGICDATAP in data file"));
+        }
         //
         let mut it_slice = [0u8; std::mem::size_of::<usize>()];
         data_in.read_exact(&mut it_slice)?;
         let dimension = usize::from_ne_bytes(it_slice);
-        assert_eq!(
-            dimension, description.dimension,
-            "data dimension incoherent {:?} {:?} ",
-            dimension, description.dimension
-        );
+        if dimension != description.dimension {
+            return Err(anyhow!(
+                "data dimension incoherent {:?} {:?} ",
+                dimension,
+                description.dimension
+            ));
+        }
         //
         let _mode = description.dumpmode;
         let distname = description.distname.clone();
@@ -551,19 +552,20 @@ impl HnswIo {
         let mut it_slice = [0u8; std::mem::size_of::<u32>()];
         data_in.read_exact(&mut it_slice)?;
         let magic = u32::from_ne_bytes(it_slice);
-        assert_eq!(
-            magic, MAGICDATAP,
-            "magic not equal to MAGICDATAP in load_point"
-        );
+        if magic != MAGICDATAP {
+            return Err(anyhow!("magic not equal to MAGICDATAP in data file"));
+        }
         //
         let mut it_slice = [0u8; std::mem::size_of::<usize>()];
         data_in.read_exact(&mut it_slice)?;
         let dimension = usize::from_ne_bytes(it_slice);
-        assert_eq!(
-            dimension, description.dimension,
-            "data dimension incoherent {:?} {:?} ",
-            dimension, description.dimension
-        );
+        if dimension != description.dimension {
+            return Err(anyhow!(
+                "data dimension incoherent {:?} {:?} ",
+                dimension,
+                description.dimension
+            ));
+        }
         //
         let _mode = description.dumpmode;
         let distname = description.distname.clone();
@@ -635,7 +637,7 @@ impl HnswIo {
                 descr.t_name,
                 std::any::type_name::<T>()
             );
-            panic!("incohrent size of T in description");
+            return Err(anyhow!("incoherent type T in description"));
         }
         //
         let mut points_by_layer: Vec<Vec<Arc<Point<T>>>> =
@@ -703,28 +705,34 @@ impl HnswIo {
                 let point = load_point_res.0;
                 let p_id = point.get_point_id();
                 // some checks
-                assert_eq!(l, p_id.0 as usize);
-                if r != p_id.1 as usize {
-                    debug!("Origin= {:?},  p_id = {:?}", point.get_origin_id(), p_id);
-                    debug!("Storing at l {:?}, r {:?}", l, r);
+                if l != p_id.0 as usize || r as i64 != p_id.1 as i64 {
+                    error!("Origin= {:?},  p_id = {:?}", point.get_origin_id(), p_id);
+                    return Err(anyhow!("bad point id {:?} at l {:?}, r {:?}", p_id, l, r));
                 }
-                assert_eq!(r, p_id.1 as usize);
                 // store neoghbour info of this point
                 neighbourhood_map.insert(p_id, load_point_res.1);
                 vlayer.push(point);
                 nb_points_loaded += 1;
                 nb_still_to_load -= 1;
-                assert!(nb_still_to_load >= 0);
+                if nb_still_to_load < 0 {
+                    return Err(anyhow!("more points than declared in description"));
+                }
             }
             points_by_layer.push(vlayer);
         }
+        if nb_still_to_load > 0 {
+            return Err(anyhow!("less points than declared in description"));
+        }
         // at this step all points are loaded , but without their neighbours fileds are not yet initialized
         let mut nbp: usize = 0;
         for (p_id, neighbours) in &neighbourhood_map {
             let point = &points_by_layer[p_id.0 as usize][p_id.1 as usize];
             for (l, neighbours) in neighbours.iter().enumerate() {
                 for n in neighbours {
-                    let n_point = &points_by_layer[n.p_id.0 as usize][n.p_id.1 as usize];
+                    let n_point = points_by_layer
+                        .get(n.p_id.0 as usize)
+                        .and_then(|layer| layer.get(n.p_id.1 as usize))
+                        .ok_or_else(|| anyhow!("unknown neighbour {:?}", n.p_id))?;
                     // now n_point is the Arc<Point> corresponding to neighbour n of point,
                     // construct a corresponding PointWithOrder
                     let n_pwo = PointWithOrder::<T>::new(n_point, n.distance);
@@ -762,7 +770,11 @@ impl HnswIo {
             "found entry point, origin_id {:?} , layer {:?}, rank in layer {:?} ",
             origin_id, layer, rank_in_l
         );
-        let entry_point = Arc::clone(&points_by_layer[layer as usize][rank_in_l as usize]);
+        let entry_point = points_by_layer
+            .get(layer as usize)
+            .and_then(|points| points.get(rank_in_l as usize))
+            .cloned()
+            .ok_or_else(|| anyhow!("bad entry point in dump"))?;
         info!(
             " loaded entry point, origin_id {:} p_id {:?}",
             entry_point.get_origin_id(),
@@ -817,18 +829,15 @@ impl HnswIo {
         //
         let point = match point_use_mmap {
             false => {
-                let v = load_point_data::<T>(origin_id, data_in, descr);
-                if v.is_err() {
-                    error!("loading point {:?}", origin_id);
-                    std::process::exit(1);
-                }
-                Point::<T>::new(v.unwrap(), origin_id, p_id)
+                let v = load_point_data::<T>(origin_id, data_in, descr)?;
+                Point::<T>::new(v, origin_id, p_id)
             }
             true => {
                 skip_point_data(origin_id, data_in, descr)?; // keep cohrence between data file and graph file!
                 debug!("constructing point from datamap, dataid : {:?}", origin_id);
                 let s: Option<&'b [T]> = self.datamap.as_ref().unwrap().get_data::<T>(&origin_id);
-                Point::<T>::new_from_mmap(s.unwrap(), origin_id, p_id)
+                let s = s.ok_or_else(|| anyhow!("no data for point {}", origin_id))?;
+                Point::<T>::new_from_mmap(s, origin_id, p_id)
             }
         };
         self.nb_point_loaded.fetch_add(1, Ordering::Relaxed);
@@ -1136,19 +1145,19 @@ where
     let mut it_slice = [0u8; std::mem::size_of::<u32>()];
     data_in.read_exact(&mut it_slice)?;
     let magic = u32::from_ne_bytes(it_slice);
-    assert_eq!(
-        magic, MAGICDATAP,
-        "magic not equal to MAGICDATAP in load_point, point_id : {:?} ",
-        origin_id
-    );
+    if magic != MAGICDATAP {
+        return Err(anyhow!(
+            "magic not equal to MAGICDATAP in data file, point_id : {:?} ",
+            origin_id
+        ));
+    }
     // read origin id
     let mut it_slice = [0u8; std::mem::size_of::<u64>()];
     data_in.read_exact(&mut it_slice)?;
     let origin_id_data = u64::from_ne_bytes(it_slice) as usize;
-    assert_eq!(
-        origin_id, origin_id_data,
-        "origin_id incoherent between graph and data"
-    );
+    if origin_id != origin_id_data {
+        return Err(anyhow!("origin_id incoherent between graph and data"));
+    }
     // now read data. we use size_t that is in description, to take care of the casewhere we reload
     let mut it_slice = [0u8; std::mem::size_of::<u64>()];
     data_in.read_exact(&mut it_slice)?;
@@ -1159,7 +1168,7 @@ where
 
     let v: Vec<T> = if std::any::TypeId::of::<T>() != std::any::TypeId::of::<NoData>() {
         match descr.format_version {
-            2 => bincode::deserialize(&v_serialized).unwrap(),
+            2 => bincode::deserialize(&v_serialized)?,
             3 | 4 => {
                 // each vector comes with its own length (think of Levenshtein distance)
                 let nb_elem = v_serialized.len() / std::mem::size_of::<T>();
@@ -1195,19 +1204,19 @@ fn skip_point_data(origin_id: usize, data_in: &mut dyn Read, _descr: &Descriptio
     let mut it_slice = [0u8; std::mem::size_of::<u32>()];
     data_in.read_exact(&mut it_slice)?;
     let magic = u32::from_ne_bytes(it_slice);
-    assert_eq!(
-        magic, MAGICDATAP,
-        "magic not equal to MAGICDATAP in load_point, point_id : {:?} ",
-        origin_id
-    );
+    if magic != MAGICDATAP {
+        return Err(anyhow!(
+            "magic not equal to MAGICDATAP in data file, point_id : {:?} ",
+            origin_id
+        ));
+    }
     // read origin id
     let mut it_slice = [0u8; std::mem::size_of::<u64>()];
     data_in.read_exact(&mut it_slice)?;
     let origin_id_data = u64::from_ne_bytes(it_slice) as usize;
-    assert_eq!(
-        origin_id, origin_id_data,
-        "origin_id incoherent between graph and data"
-    );
+    if origin_id != origin_id_data {
+        return Err(anyhow!("origin_id incoherent between graph and data"));
+    }
     //
     // now read data. we use size_t that is in description, to take care of the casewhere we reload
     let mut it_slice = [0u8; std::mem::size_of::<u64>()];
@@ -1235,23 +1244,23 @@ fn load_point_graph(graph_in: &mut dyn Read, descr: &Description) -> Result<Poin
     trace!("in load_point_graph");
     // read and check magic
     let mut it_slice = [0u8; std::mem::size_of::<u32>()];
-    graph_in.read_exact(&mut it_slice).unwrap();
+    graph_in.read_exact(&mut it_slice)?;
     let magic = u32::from_ne_bytes(it_slice);
     if magic != MAGICPOINT {
         error!("got instead of MAGICPOINT {:x}", magic);
         return Err(anyhow!("bad magic at point beginning"));
     }
     let mut it_slice = [0u8; std::mem::size_of::<DataId>()];
-    graph_in.read_exact(&mut it_slice).unwrap();
+    graph_in.read_exact(&mut it_slice)?;
     let origin_id = DataId::from_ne_bytes(it_slice);
     //
     // read point_id
     let mut it_slice = [0u8; std::mem::size_of::<u8>()];
-    graph_in.read_exact(&mut it_slice).unwrap();
+    graph_in.read_exact(&mut it_slice)?;
     let layer = u8::from_ne_bytes(it_slice);
     //
     let mut it_slice = [0u8; std::mem::size_of::<i32>()];
-    graph_in.read_exact(&mut it_slice).unwrap();
+    graph_in.read_exact(&mut it_slice)?;
     let rank_in_l = i32::from_ne_bytes(it_slice);
     let p_id = PointId(layer, rank_in_l);
     debug!(
@@ -1266,24 +1275,24 @@ fn load_point_graph(graph_in: &mut dyn Read, descr: &Description) -> Result<Poin
         let mut neighbour: Neighbour = Default::default();
         // read nb_neighbour as usize!!! CAUTION, then nb_neighbours times identity(depends on Full or Light) distance : f32
         let mut it_slice = [0u8; std::mem::size_of::<usize>()];
-        graph_in.read_exact(&mut it_slice).unwrap();
+        graph_in.read_exact(&mut it_slice)?;
         let nb_neighbours = usize::from_ne_bytes(it_slice);
         let mut neighborhood_l: Vec<Neighbour> = Vec::with_capacity(nb_neighbours);
         for _j in 0..nb_neighbours {
             let mut it_slice = [0u8; std::mem::size_of::<DataId>()];
-            graph_in.read_exact(&mut it_slice).unwrap();
+            graph_in.read_exact(&mut it_slice)?;
             neighbour.d_id = DataId::from_ne_bytes(it_slice);
             if descr.dumpmode == 1 {
                 let mut it_slice = [0u8; std::mem::size_of::<u8>()];
-                graph_in.read_exact(&mut it_slice).unwrap();
+                graph_in.read_exact(&mut it_slice)?;
                 neighbour.p_id.0 = u8::from_ne_bytes(it_slice);
                 //
                 let mut it_slice = [0u8; std::mem::size_of::<i32>()];
-                graph_in.read_exact(&mut it_slice).unwrap();
+                graph_in.read_exact(&mut it_slice)?;
                 neighbour.p_id.1 = i32::from_ne_bytes(it_slice);
             }
             let mut it_slice = [0u8; std::mem::size_of::<f32>()];
-            graph_in.read_exact(&mut it_slice).unwrap();
+            graph_in.read_exact(&mut it_slice)?;
             neighbour.distance = f32::from_ne_bytes(it_slice);
             //  debug!("        voisins  load {:?} {:?} {:?} ", neighbour.p_id, neighbour.d_id , neighbour.distance);
             // now we have a new neighbour, we must really fill neighbourhood info, so it means going from Neighbour to PointWithOrder
-- 
2.43.0


From 1f61eb4a4f85d0a82e65af99c8fa03bfebba30dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 09/21] fix: opening a data map on an incomplete dump panicked
 or exited instead of returning an error

---
 src/datamap.rs | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 05a4d6f..a28b6b0 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -51,13 +51,14 @@ impl DataMap {
         graphpath.push(filename);
         let graphfileres = OpenOptions::new().read(true).open(&graphpath);
         if graphfileres.is_err() {
-            println!("DataMap: could not open file {:?}", graphpath.as_os_str());
-            std::process::exit(1);
+            error!("DataMap: could not open file {:?}", graphpath.as_os_str());
+            return Err(format!("could not open file {:?}", graphpath));
         }
         let graphfile = graphfileres.unwrap();
         let mut graph_in = BufReader::new(graphfile);
         // we need to call load_description first to get distance name
-        let hnsw_description = hnswio::load_description(&mut graph_in).unwrap();
+        let hnsw_description =
+            hnswio::load_description(&mut graph_in).map_err(|e| e.to_string())?;
         if hnsw_description.format_version <= 2 {
             let msg = String::from("from_hnsw::from_hnsw : data mapping is only possible for dumps with the version > 0.1.19 of this crate");
             error!(
@@ -92,24 +93,24 @@ impl DataMap {
         let meta = std::fs::metadata(&datapath);
         if meta.is_err() {
             error!("Could not open file : {:?}", &datapath);
-            std::process::exit(1);
+            return Err(format!("could not open file {:?}", datapath));
         }
         let fsize = meta.unwrap().len().try_into().unwrap();
         //
         let file_res = File::open(&datapath);
         if file_res.is_err() {
             error!("Could not open file : {:?}", &datapath);
-            std::process::exit(1);
+            return Err(format!("could not open file {:?}", datapath));
         }
         let file = file_res.unwrap();
         let offset = 0;
         //
-        let mmap_opt = MmapOptions::new(fsize).unwrap();
+        let mmap_opt = MmapOptions::new(fsize).map_err(|e| e.to_string())?;
         let mmap_opt = unsafe { mmap_opt.with_file(&file, offset) };
         let mapping_res = mmap_opt.map();
         if mapping_res.is_err() {
             error!("Could not memory map : {:?}", &datapath);
-            std::process::exit(1);
+            return Err(format!("could not memory map {:?}", datapath));
         }
         let mmap = mapping_res.unwrap();
         //
@@ -119,8 +120,17 @@ impl DataMap {
         //
         let mapped_slice = mmap.as_slice();
         //
+        // an incomplete dump must not send us beyond the end of file
+        let check_size = |addr: usize, len: usize| match addr.checked_add(len) {
+            Some(end) if end <= mapped_slice.len() => Ok(()),
+            _ => Err(String::from("data file is truncated")),
+        };
         // where are we in decoding mmap slice?
         let mut current_mmap_addr = 0usize;
+        check_size(
+            current_mmap_addr,
+            std::mem::size_of::<u32>() + std::mem::size_of::<usize>(),
+        )?;
         let mut usize_slice = [0u8; std::mem::size_of::<usize>()];
         // check magic
         let mut u32_slice = [0u8; std::mem::size_of::<u32>()];
@@ -129,7 +139,9 @@ impl DataMap {
         );
         current_mmap_addr += std::mem::size_of::<u32>();
         let magic = u32::from_ne_bytes(u32_slice);
-        assert_eq!(magic, MAGICDATAP, "magic not equal to MAGICDATAP in mmap");
+        if magic != MAGICDATAP {
+            return Err(String::from("magic not equal to MAGICDATAP in mmap"));
+        }
         // get dimension
         usize_slice.copy_from_slice(
             &mapped_slice[current_mmap_addr..current_mmap_addr + std::mem::size_of::<usize>()],
@@ -172,13 +184,19 @@ impl DataMap {
         //
         while current_mmap_addr < mapped_slice.len() {
             debug!("Record i : {}, addr : {}", hmap.len(), current_mmap_addr);
+            check_size(
+                current_mmap_addr,
+                std::mem::size_of::<u32>() + 2 * std::mem::size_of::<u64>(),
+            )?;
             // decode Magic
             u32_slice.copy_from_slice(
                 &mapped_slice[current_mmap_addr..current_mmap_addr + std::mem::size_of::<u32>()],
             );
             current_mmap_addr += std::mem::size_of::<u32>();
             let magic = u32::from_ne_bytes(u32_slice);
-            assert_eq!(magic, MAGICDATAP, "magic not equal to MAGICDATAP in mmap");
+            if magic != MAGICDATAP {
+                return Err(String::from("magic not equal to MAGICDATAP in mmap"));
+            }
             // decode DataId
             u64_slice.copy_from_slice(
                 &mapped_slice[current_mmap_addr..current_mmap_addr + std::mem::size_of::<u64>()],
@@ -197,6 +215,7 @@ impl DataMap {
             );
             current_mmap_addr += std::mem::size_of::<u64>();
             let serialized_len = u64::from_ne_bytes(u64_slice) as usize;
+            check_size(current_mmap_addr, serialized_len)?;
             current_mmap_addr += serialized_len;
         } // end of loop on records
           //
-- 
2.43.0


From d4d801503b15c2a633909e5d99ff5fa197418218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 10/21] fix: a data map could not be opened in a relative
 directory

---
 src/datamap.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index a28b6b0..b3e6d08 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -45,7 +45,6 @@ impl DataMap {
     ) -> Result<DataMap, String> {
         // reload description to have data type, and check for dump version
         let mut graphpath = PathBuf::from(dir);
-        graphpath.push(dir);
         let mut filename = file_name.to_string();
         filename.push_str(".hnsw.graph");
         graphpath.push(filename);
-- 
2.43.0


From 97a5a3f40a174cd886dab40d03ad94648682981e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 11/21] fix: load_hnsw_description did not give the number of
 points

---
 src/libext.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libext.rs b/src/libext.rs
index 76bfd62..d19fc55 100644
--- a/src/libext.rs
+++ b/src/libext.rs
@@ -1195,6 +1195,7 @@ pub unsafe extern "C" fn load_hnsw_description(
                 ffi_description.max_nb_connection = description.max_nb_connection;
                 ffi_description.nb_layer = description.nb_layer;
                 ffi_description.ef = description.ef;
+                ffi_description.nb_point = description.nb_point;
                 ffi_description.data_dimension = description.dimension;
                 ffi_description.distname_len = distname_len;
                 ffi_description.distname = distname_ptr;
-- 
2.43.0


From dbad81b1365b736ef81760320182d0048bcc8338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 12/21] fix: DataMap::check_data_type accepted any type having
 the same first path component

---
 src/datamap.rs | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index b3e6d08..4ce76d0 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -239,29 +239,15 @@ impl DataMap {
     where
         T: 'static + Sized,
     {
-        // we check last part of name of type
-        let tname_vec = self.t_name.rsplit_terminator("::").collect::<Vec<&str>>();
-
-        if tname_vec.last().is_none() {
-            let errmsg = "DataMap::check_data_type() cannot determine data type name ";
-            error!("DataMap::check_data_type() cannot determine data type name ");
-            std::panic!("DataMap::check_data_type(), {}", errmsg);
-        }
-        let tname_last = tname_vec.last().unwrap();
-        //
-        let datat_name_arg = std::any::type_name::<T>().to_string();
-        let datat_name_vec = datat_name_arg
-            .rsplit_terminator("::")
-            .collect::<Vec<&str>>();
-
-        let datat_name_arg_last = datat_name_vec.last().unwrap();
+        // as in from_hnswdump we compare full names, different types can share a part of their path
+        let datat_name_arg = std::any::type_name::<T>();
         //
-        if datat_name_arg_last == tname_last {
+        if datat_name_arg == self.t_name {
             true
         } else {
             info!(
                 "Data type in DataMap : {},  type arg = {}",
-                tname_last, datat_name_arg_last
+                self.t_name, datat_name_arg
             );
             false
         }
-- 
2.43.0


From fcd5f60f8b70456e7bb60d62ab08349c3c850462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 13/21] fix: load_description panicked on names that are not
 utf8

---
 src/hnswio.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index d4c98bb..f1c526b 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -1032,7 +1032,7 @@ pub fn load_description(io_in: &mut dyn Read) -> Result<Description> {
     }
     let mut distv = vec![0; len];
     io_in.read_exact(distv.as_mut_slice())?;
-    let distname = String::from_utf8(distv).unwrap();
+    let distname = String::from_utf8(distv)?;
     debug!("distance name {:?} ", distname);
     descr.distname = distname;
     // reload of type name
@@ -1046,7 +1046,7 @@ pub fn load_description(io_in: &mut dyn Read) -> Result<Description> {
     }
     let mut tnamev = vec![0; len];
     io_in.read_exact(tnamev.as_mut_slice())?;
-    let t_name = String::from_utf8(tnamev).unwrap();
+    let t_name = String::from_utf8(tnamev)?;
     debug!("T type name {:?} ", t_name);
     descr.t_name = t_name;
     debug!(" end of description load \n");
-- 
2.43.0


From 5f83f1d93f999a61aba92384b9559797edf89a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 14/21] fix: a filtered search for 0 neighbours with ef 0
 panicked

---
 src/hnsw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 59fd36b..da1d905 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1494,7 +1494,7 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
             }
         } // end on for on layers
           // ef must be greater than knbn. Possibly it should be between knbn and self.max_nb_connection
-        let ef = ef_arg.max(knbn);
+        let ef = ef_arg.max(knbn).max(1);
         log::debug!("pivot changed , current pivot {:?}", pivot.get_point_id());
         // search lowest non empty layer (in case of search with incomplete lower layer at beginning of hnsw filling)
         let mut l = 0u8;
-- 
2.43.0


From 37dd2df5a6c1de72e1eaf997236fcedc4e0e993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 15/21] fix: a reload with explicit distance could use a mapped
 file and later overwrite it

---
 src/hnswio.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index f1c526b..da933d8 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -606,7 +606,8 @@ impl HnswIo {
             data_dimension: data_dim,
             dist_f: f,
             searching: false,
-            datamap_opt: false,
+            // a preceding load_hnsw may have left a data map, which is used here also
+            datamap_opt: self.datamap.is_some(),
         };
         //
         debug!("load_hnsw_with_dist completed");
-- 
2.43.0


From e2000d976d3211ec62cddd9e5c261dfdb535e2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 16/21] fix: a dump could be reloaded with another generic
 distance having the same parameter

---
 src/hnswio.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index da933d8..9924d15 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -248,6 +248,12 @@ impl DumpInit {
 } // end impl for DumpInit
 
 //====================================================
+// name of a type without the path it comes from. The parameters of a generic type, which have their own path, are kept.
+fn short_type_name(name: &str) -> (&str, &str) {
+    let (path, params) = name.split_at(name.find('<').unwrap_or(name.len()));
+    (path.rsplit("::").next().unwrap_or(path), params)
+}
+
 // basic block used to provide arguments to load_hnsw and load_hnsw_with_dist
 struct LoadInit {
     descr: Description,
@@ -472,13 +478,9 @@ impl HnswIo {
         // for that we check for short names equality stripping
         debug!("distance in description = {:?}", distname);
         let d_type_name = type_name::<D>().to_string();
-        let d_type_name_split: Vec<&str> = d_type_name.rsplit_terminator("::").collect();
-        for s in &d_type_name_split {
-            info!(" distname in generic type argument {:?}", s);
-        }
-        let distname_split: Vec<&str> = distname.rsplit_terminator("::").collect();
+        info!(" distname in generic type argument {:?}", d_type_name);
         if (std::any::TypeId::of::<T>() != std::any::TypeId::of::<NoData>())
-            && (d_type_name_split[0] != distname_split[0])
+            && (short_type_name(&d_type_name) != short_type_name(&distname))
         {
             // for all types except NoData , distance asked in reload declaration and distance in dump must be equal!
             let mut errmsg = String::from("error in distances : dumped distance is : ");
-- 
2.43.0


From 3452466640e28b95ece30cc18e5a0e7cf8a0c58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:24 +0000
Subject: [PATCH 17/21] fix: a dump of an index with 256 connections reported
 success but lost the number of connections

---
 src/hnswio.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 9924d15..cc6e39b 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -1387,6 +1387,14 @@ impl<
             DumpMode::Full => 1,
             _ => 0,
         };
+        // the number of connections is dumped as a u8, we must not report success for something that cannot be reloaded
+        if usize::from(self.get_max_nb_connection()) != self.max_nb_connection {
+            error!("max_nb_connection too large to be dumped : {}", self.max_nb_connection);
+            return Err(anyhow!(
+                "max_nb_connection too large to be dumped : {}",
+                self.max_nb_connection
+            ));
+        }
         let datadim: usize = self.layer_indexed_points.get_data_dimension();
         let level_scale = self.layer_indexed_points.get_level_scale();
         let description = Description {
-- 
2.43.0


From 9ada73dfcc783f7c29c6605b2f27321ae1ac59c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:38 +0000
Subject: [PATCH 18/21] fix: a dump whose distance or type has a name of more
 than 256 bytes reported success but could not be reloaded

---
 src/hnswio.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index cc6e39b..974677c 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -920,6 +920,11 @@ impl Description {
         info!("dumping dimension of data {:?}", self.dimension);
         out.write_all(&self.dimension.to_ne_bytes())?;
 
+        // load_description does not accept longer names
+        if self.distname.len() > 256 || self.t_name.len() > 256 {
+            error!("name of distance or type too long to be dumped");
+            return Err(anyhow!("name of distance or type too long to be dumped"));
+        }
         // dump of distance name
         let namelen: usize = self.distname.len();
         info!("distance name {:?} ", self.distname);
-- 
2.43.0


From 6e456b3af8b3115b79761591b166b523177e8c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:24 +0000
Subject: [PATCH 19/21] fix: a graph whose first points all had a level above 0
 was split in unconnected parts

search_layer considered a layer as empty when no point had exactly its level, although the points of higher levels
belong to it. With two first points of level above 0 none was linked to the other in layer 0, and each later point
was linked to the part of one of them only.
---
 src/hnsw.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index da1d905..c400710 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -926,8 +926,8 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         // we will store positive distances in this one
         let mut return_points = BinaryHeap::<Arc<PointWithOrder<T>>>::with_capacity(skiplist_size);
         //
-        if self.layer_indexed_points.points_by_layer.read()[layer as usize].is_empty() {
-            // at the beginning we can have nothing in layer
+        if entry_point.p_id.0 < layer {
+            // at the beginning we can have nothing in layer. (A layer contains the points of all the levels above it)
             trace!("search layer {:?}, empty layer", layer);
             return return_points;
         }
-- 
2.43.0


From 4575f3b59d42f0087891911fbc105a1c6c2415a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 20/21] fix: an iteration over all points can be asked for more
 after its end

---
 src/hnsw.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index c400710..c3b77d2 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -646,6 +646,10 @@ impl<'b, T: Clone + Send + Sync> Iterator for IterPoint<'_, 'b, T> {
             self.layer = 0;
             self.slot_in_layer = 0;
         }
+        // next may be called again after the end of the iteration
+        if self.layer as usize >= self.pi_guard.len() {
+            return None;
+        }
         if (self.slot_in_layer as usize) < self.pi_guard[self.layer as usize].len() {
             let slot = self.slot_in_layer as usize;
             self.slot_in_layer += 1;
-- 
2.43.0


From c8449015f9bd2bd5d804e8e12a31027b0e6e5800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:32 +0000
Subject: [PATCH 21/21] fix: a dump whose files cannot be created reports an
 error instead of panicking

---
 src/api.rs    |  2 +-
 src/hnswio.rs | 15 +++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/api.rs b/src/api.rs
index 5d75fbc..dacbe11 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -71,7 +71,7 @@ where
         //
         // do not overwrite if mmap is active
         let overwrite = !self.get_datamap_opt();
-        let mut dumpinit = DumpInit::new(path, file_basename, overwrite);
+        let mut dumpinit = DumpInit::try_new(path, file_basename, overwrite)?;
         let dumpname = dumpinit.get_basename().clone();
         //
         let res = self.dump(DumpMode::Full, &mut dumpinit);
diff --git a/src/hnswio.rs b/src/hnswio.rs
index 974677c..922bed0 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -150,7 +150,14 @@ pub struct DumpInit {
 
 impl DumpInit {
     // This structure will check existence of dumps of same name and generate a unique filename if necessary according to overwrite flag
+    // It panics if the files cannot be opened, see [try_new](Self::try_new())
     pub fn new(dir: &Path, basename_default: &str, overwrite: bool) -> Self {
+        DumpInit::try_new(dir, basename_default, overwrite)
+            .unwrap_or_else(|e| std::panic::panic_any(e.to_string()))
+    }
+
+    /// same as [new](Self::new()) but returns an error if one of the files cannot be opened.
+    pub fn try_new(dir: &Path, basename_default: &str, overwrite: bool) -> Result<Self> {
         // if we cannot overwrite data files (in case of mmap in particular)
         // we will ensure we have a unique basename
         let basename = match overwrite {
@@ -203,7 +210,7 @@ impl DumpInit {
                 "HnswIo::reload_hnsw : could not open file {:?}",
                 graphpath.as_os_str()
             );
-            std::panic::panic_any("HnswIo::init : could not open file".to_string());
+            return Err(anyhow!("HnswIo::init : could not open file"));
         }
         let graphfile = graphfileres.unwrap();
         //  same thing for data file
@@ -221,18 +228,18 @@ impl DumpInit {
                 "HnswIo::init : could not open file {:?}",
                 datapath.as_os_str()
             );
-            std::panic::panic_any("HnswIo::init : could not open file".to_string());
+            return Err(anyhow!("HnswIo::init : could not open file"));
         }
         let datafile = datafileres.unwrap();
         //
         let graph_out = BufWriter::new(graphfile);
         let data_out = BufWriter::new(datafile);
         //
-        DumpInit {
+        Ok(DumpInit {
             basename,
             data_out,
             graph_out,
-        }
+        })
     }
 
     /// returns the basename used for the dump. May be it has been made unique to void overwriting a previous or mmapped dump
-- 
2.43.0

