From ba9d38e2793eb6573ec1214e1c1f8a9671d9d273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 01/52] fix: tile queries of mesh sets by tile ownership, not
 MPI ownership

---
 src/mesh/MeshTile.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/mesh/MeshTile.cc b/src/mesh/MeshTile.cc
index 9ed9800..7a5115e 100644
--- a/src/mesh/MeshTile.cc
+++ b/src/mesh/MeshTile.cc
@@ -382,7 +382,8 @@ void MeshTile::get_set_entities(const Set_Name setname, const Entity_kind kind,
 void MeshTile::get_nodes_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::NODE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::NODE, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -406,7 +407,8 @@ void MeshTile::get_nodes_of_set(const Set_Name setname, const Entity_type type,
 void MeshTile::get_edges_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::EDGE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::EDGE, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -430,7 +432,8 @@ void MeshTile::get_edges_of_set(const Set_Name setname, const Entity_type type,
 void MeshTile::get_faces_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::FACE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::FACE, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -454,7 +457,8 @@ void MeshTile::get_faces_of_set(const Set_Name setname, const Entity_type type,
 void MeshTile::get_sides_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::SIDE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::SIDE, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -478,7 +482,8 @@ void MeshTile::get_sides_of_set(const Set_Name setname, const Entity_type type,
 void MeshTile::get_wedges_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::WEDGE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::WEDGE, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -503,7 +508,8 @@ void MeshTile::get_corners_of_set(const Set_Name setname,
                                   const Entity_type type,
                                   Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::CORNER, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::CORNER, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -527,7 +533,8 @@ void MeshTile::get_corners_of_set(const Set_Name setname,
 void MeshTile::get_cells_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::CELL, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::CELL, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
-- 
2.43.0


From 4caa7b9d5d8dc375616ea4e49e9225b5e827aa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 02/52] fix: list the sides of a tile when sides are requested
 without wedges

---
 src/mesh/MeshTile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/MeshTile.cc b/src/mesh/MeshTile.cc
index 7a5115e..27af9b1 100644
--- a/src/mesh/MeshTile.cc
+++ b/src/mesh/MeshTile.cc
@@ -249,7 +249,7 @@ MeshTile::MeshTile(Mesh& parent_mesh,
                         edgeids_ghost_.begin(), edgeids_ghost_.end());
   }
 
-  if (request_wedges) {
+  if (request_sides || request_wedges) {
     for (auto const& c : cellids_owned_) {
       std::vector<int> csides;
       mesh_.cell_get_sides(c, &csides);
-- 
2.43.0


From b3f6b63d8f9241d81da0029050348d9cb9cd08a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 03/52] fix: partitioning buffers neither leak on failure nor
 depend on requested faces

---
 src/mesh/Mesh.cc | 54 +++++++++++++++---------------------------------
 1 file changed, 17 insertions(+), 37 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 3d73d11..b021be2 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -3158,20 +3158,13 @@ void Mesh::get_partitioning_by_index_space(int const num_parts,
   int maxcells_per_tile = ceil(static_cast<double>(ncells)/num_parts + 0.5);
   int index = 0;
 
-  int *ncells_per_tile = new int[num_parts];
   for (int i = 0; i < num_parts; ++i) {
-    (*partitions)[i].resize(maxcells_per_tile);  // excludes MPI ghosts
-    ncells_per_tile[i] = 0;
+    (*partitions)[i].clear();  // excludes MPI ghosts
 
     // Owned cells in this partition
-    for (int j = 0; j < maxcells_per_tile && index < ncells; ++j) {
-      (*partitions)[i][j] = index++;
-      (ncells_per_tile[i])++;
-    }
-
-    (*partitions)[i].resize(ncells_per_tile[i]);
+    for (int j = 0; j < maxcells_per_tile && index < ncells; ++j)
+      (*partitions)[i].push_back(index++);
   }
-  delete [] ncells_per_tile;
 }
 
 #ifdef Jali_HAVE_METIS
@@ -3185,25 +3178,16 @@ void Mesh::get_partitioning_with_metis(int const num_parts,
   // Build the adjacency info
 
   int ncells_owned = num_cells<Entity_type::PARALLEL_OWNED>();
-  int ncells_all = num_cells<Entity_type::ALL>();
-  int nfaces_all = num_faces<Entity_type::ALL>();
-  idx_t *xadj = new idx_t[ncells_all+1];  // offset indicator into adjacency
-  //                                      // array - overallocate
-  idx_t *adjncy = new idx_t[2*nfaces_all];  // adjacency array (nbrs of a cell)
-  //                                        // - overallocate
-  xadj[0] = 0;  // starting offset
-  int ipos = 0;
-  int i = 0;
+  std::vector<idx_t> xadj;    // offset indicator into adjacency array
+  std::vector<idx_t> adjncy;  // adjacency array (nbrs of a cell)
+  xadj.reserve(ncells_owned+1);
+  xadj.push_back(0);  // starting offset
   Entity_ID_List nbrcells;
   for (auto const& c : cells<Entity_type::PARALLEL_OWNED>()) {
     cell_get_face_adj_cells(c, Entity_type::PARALLEL_OWNED, &nbrcells);
-    for (auto const& nbr : nbrcells)
-      adjncy[ipos++] = nbr;
-    xadj[++i] = ipos;
+    adjncy.insert(adjncy.end(), nbrcells.begin(), nbrcells.end());
+    xadj.push_back(adjncy.size());
   }
-  if (ipos > 2*nfaces_all)
-    std::cerr << "Mesh::get_partitioning - Wrote past end of adjncy array" <<
-        "Expand adjncy array or expect crashes\n";
 
   // Partition the graph
 
@@ -3213,7 +3197,7 @@ void Mesh::get_partitioning_with_metis(int const num_parts,
   idx_t ngraphvtx = ncells_owned;
   idx_t nparts = static_cast<idx_t>(num_parts);
   
-  idx_t *idxpart = new idx_t[ngraphvtx];
+  std::vector<idx_t> idxpart(ngraphvtx);
 
   idx_t ncons = 1;  // Number of constraints
   idx_t *vsize = nullptr;
@@ -3226,22 +3210,18 @@ void Mesh::get_partitioning_with_metis(int const num_parts,
   metisopts[METIS_OPTION_NUMBERING] = 0;   // Indicate C style numbering
 
   if (num_parts <= 8)
-    METIS_PartGraphRecursive(&ngraphvtx, &ncons, xadj, adjncy, vwt, vsize,
-                             adjwt, &nparts, tpwts, ubvec,
-                             metisopts, &nedgecut, idxpart);
+    METIS_PartGraphRecursive(&ngraphvtx, &ncons, xadj.data(), adjncy.data(),
+                             vwt, vsize, adjwt, &nparts, tpwts, ubvec,
+                             metisopts, &nedgecut, idxpart.data());
   else
-    METIS_PartGraphKway(&ngraphvtx, &ncons, xadj, adjncy, vwt, vsize,
-                        adjwt, &nparts, tpwts, ubvec, metisopts,
-                        &nedgecut, idxpart);
+    METIS_PartGraphKway(&ngraphvtx, &ncons, xadj.data(), adjncy.data(),
+                        vwt, vsize, adjwt, &nparts, tpwts, ubvec, metisopts,
+                        &nedgecut, idxpart.data());
 
-  for (i = 0; i < ncells_owned; ++i) {
+  for (int i = 0; i < ncells_owned; ++i) {
     int ipart = idxpart[i];
     (*partitions)[ipart].push_back(i);
   }
-
-  delete [] xadj;
-  delete [] adjncy;
-  delete [] idxpart;
 }
 
 #endif
-- 
2.43.0


From 5758b83f0c094224fcefae5e77dbdfee818a3f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 04/52] fix: block partitioning of meshes without block
 structure leaves no cell out

---
 src/mesh/Mesh.cc | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index b021be2..66c984a 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -3136,6 +3136,18 @@ Mesh::get_partitioning(int const num_parts,
 
     get_partitioning_by_blocks(num_parts, partitions);
 
+    // Not every mesh can be partitioned into blocks - if some cells did
+    // not make it into any block, fall back on cell indices
+
+    int nassigned = 0;
+    for (auto const& part : *partitions) nassigned += part.size();
+    if (nassigned != num_cells<Entity_type::PARALLEL_OWNED>()) {
+      std::cerr << "Mesh::get_partitioning() - " <<
+          "Mesh cannot be partitioned into blocks. " <<
+          "Partitioning by entity IDs\n";
+      get_partitioning_by_index_space(num_parts, partitions);
+    }
+
   } else {
     if (space_dimension() != 1) {
       std::cerr << "Mesh::get_partitioning() - " <<
@@ -3241,6 +3253,14 @@ void Mesh::get_partitioning_with_zoltan(int const num_parts,
 
 void Mesh::get_partitioning_by_blocks(int const num_parts,
                                       std::vector<std::vector<int>> *partitions) {
+  // Need the faces to figure out the structure of the mesh
+
+  if (!faces_requested) {
+    std::cerr << "Mesh does not have faces - cannot partition using " <<
+        "Partitioner_type::BLOCK\n";
+    return;
+  }
+
   // Figure out the domain limits
 
   std::vector<double> domainlimits(2*space_dim_);
@@ -3358,6 +3378,17 @@ void Mesh::get_partitioning_by_blocks(int const num_parts,
   }
 
 
+  // There cannot be more blocks than cells in the regular structure
+
+  int ncells_regular = 1;
+  for (int d = 0; d < space_dim_; d++)
+    ncells_regular *= num_cells_in_dir[d];
+  if (num_parts > ncells_regular) {
+    std::cerr << "Too few cells to partition into " << num_parts <<
+        " blocks\n";
+    return;
+  }
+
   // Now get the partitioning blocks
   std::vector<std::array<int, 3>> block_start_indices;
   std::vector<std::array<int, 3>> block_num_cells;
-- 
2.43.0


From 1ef906cecddfdb79d25868d2078e403962a969e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 05/52] fix: METIS partitioning into one part writes past the
 partition list

---
 src/mesh/Mesh.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 66c984a..6078ad6 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -3190,6 +3190,13 @@ void Mesh::get_partitioning_with_metis(int const num_parts,
   // Build the adjacency info
 
   int ncells_owned = num_cells<Entity_type::PARALLEL_OWNED>();
+  if (num_parts == 1 || num_parts > ncells_owned) {
+    // METIS returns a part number of 1 if one part is requested and
+    // cannot handle more parts than cells
+    get_partitioning_by_index_space(num_parts, partitions);
+    return;
+  }
+
   std::vector<idx_t> xadj;    // offset indicator into adjacency array
   std::vector<idx_t> adjncy;  // adjacency array (nbrs of a cell)
   xadj.reserve(ncells_owned+1);
-- 
2.43.0


From cf8d79cdbdc4627e7ddc2c50284be75772223df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:51 +0000
Subject: [PATCH 06/52] fix: cell geometry of 3D meshes without requested faces

---
 src/mesh/Mesh.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 6078ad6..40592ae 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1163,7 +1163,10 @@ int Mesh::compute_cell_geometry(const Entity_ID cellid, double *volume,
     std::vector<dir_t> fdirs;
     std::vector<JaliGeometry::Point> ccoords, cfcoords, fcoords;
 
-    cell_get_faces_and_dirs(cellid, &cfaces, &fdirs);
+    // Get this directly from the framework because the cell-to-face
+    // info is cached only if the application requested faces
+
+    cell_get_faces_and_dirs_internal(cellid, &cfaces, &fdirs, false);
 
     int nf = cfaces.size();
     nfnodes.resize(nf);
-- 
2.43.0


From e31b3887eba0128978d912c6d2268b47a1792db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 07/52] fix: side and wedge facet normals stay stale when
 geometry is updated

---
 src/mesh/Mesh.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 40592ae..8a10eef 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1110,6 +1110,10 @@ int Mesh::compute_side_geometric_quantities() const {
   // It is also unclear that this is good to do because it will cause
   // a copy operator to be triggered for each element (?)
 
+  // Start over because the quantities may be getting updated
+
+  side_outward_facet_normal.clear();
+  side_mid_facet_normal.clear();
   side_outward_facet_normal.reserve(num_sides());
   side_mid_facet_normal.reserve(num_sides());
 
-- 
2.43.0


From ac713bd293e690ad494b25b4b6e487693d22ab09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 08/52] fix: centroids of faces in 1D meshes are never set

---
 src/mesh/Mesh.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 8a10eef..98d8896 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1372,6 +1372,7 @@ int Mesh::compute_face_geometry(const Entity_ID faceid, double *area,
     face_get_coordinates(faceid, &fcoords);
 
     JaliGeometry::face1d_get_area(fcoords, geomtype, area);
+    *centroid = fcoords[0];
     JaliGeometry::Point normal(space_dim_);
     normal.set(*area);
 
-- 
2.43.0


From ea2d90ab173b380025ec21cad91bd62dcc6d6588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 09/52] fix: second side of a 1D cell has negative volume and
 inward normal

---
 src/mesh/Mesh.cc | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 98d8896..b4a98ff 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1533,19 +1533,6 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
       // should point out of zone and have area of face
       *outward_facet_normal = -vec0/JaliGeometry::norm(vec0);
     }
-    
-    // Flip sign depending on which node/edge of the cell the side is
-    // associated with
-
-    Entity_ID nodeid = side_node_ids[sideid][0];
-    Entity_ID cellid = side_cell_id[sideid];
-
-    Entity_ID_List cnodes;
-    cell_get_nodes(cellid, &cnodes);
-    if (nodeid == cnodes[1]) {  // have to reverse sign of volume and normal
-      *side_volume = -(*side_volume);
-      *outward_facet_normal = -(*outward_facet_normal);
-    }
 
     // This is not really defined - nobody should try to use this
     mid_facet_normal->set(0.0);
-- 
2.43.0


From d223cfba919db90cef76c5286958103437e1d71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 10/52] fix: normal of the facet between the wedges of a 2D
 side

---
 src/mesh/Mesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index b4a98ff..550df1f 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1507,7 +1507,7 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
 
     JaliGeometry::Point vec3 = scoords[2] - ecen;
 
-    *mid_facet_normal = JaliGeometry::Point(vec1[1], -vec1[0]);
+    *mid_facet_normal = JaliGeometry::Point(vec3[1], -vec3[0]);
 
   } else if (manifold_dim_ == 1) {
     std::vector<JaliGeometry::Point> scoords;
-- 
2.43.0


From 1e11f06d6382267f8a6b005fe1bb1674602be04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 11/52] fix: recomputed side, wedge and corner geometry uses
 stale centroids

---
 src/mesh/Mesh.cc | 26 ++++++++++++++++++--------
 src/mesh/Mesh.hh |  6 ++++--
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 550df1f..65dbd4a 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1436,7 +1436,8 @@ int Mesh::compute_edge_geometry(const Entity_ID edgeid, double *edge_length,
 void Mesh::compute_side_geometry(Entity_ID const sideid,
                                  double *side_volume,
                                  JaliGeometry::Point *outward_facet_normal,
-                                 JaliGeometry::Point *mid_facet_normal) const {
+                                 JaliGeometry::Point *mid_facet_normal,
+                                 bool const recompute) const {
   if (manifold_dim_ == 3) {
     std::vector<JaliGeometry::Point> scoords;
 
@@ -1448,6 +1449,10 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
     // will have a normal point inward.
 
     side_get_coordinates(sideid, &scoords);
+    if (recompute) {
+      scoords[2] = face_centroid(side_get_face(sideid), true);
+      scoords[3] = cell_centroid(side_get_cell(sideid), true);
+    }
 
     // vector from node 0 to node 1
     JaliGeometry::Point vec0 = scoords[1] - scoords[0];
@@ -1487,6 +1492,8 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
     // These are always - node coordinate, edge/face center, cell center
 
     side_get_coordinates(sideid, &scoords);
+    if (recompute)
+      scoords[2] = cell_centroid(side_get_cell(sideid), true);
 
     // vector from node 0 to node 1
     JaliGeometry::Point vec0 = scoords[1]-scoords[0];
@@ -1517,6 +1524,8 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
     // These are always - node coordinate and cell center
 
     side_get_coordinates(sideid, &scoords);
+    if (recompute)
+      scoords[1] = cell_centroid(side_get_cell(sideid), true);
 
     // vector from node to cell center
     JaliGeometry::Point vec0 = scoords[1]-scoords[0];
@@ -1541,7 +1550,8 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
 
 
 void Mesh::compute_corner_geometry(const Entity_ID cornerid,
-                                   double *volume) const {
+                                   double *volume,
+                                   bool const recompute) const {
   Entity_ID_List cwedges;
   corner_get_wedges(cornerid, &cwedges);
 
@@ -1549,7 +1559,7 @@ void Mesh::compute_corner_geometry(const Entity_ID cornerid,
   Entity_ID_List::iterator itw = cwedges.begin();
   while (itw != cwedges.end()) {
     Entity_ID w = *itw;
-    *volume += wedge_volume(w);
+    *volume += wedge_volume(w, recompute);
     ++itw;
   }
 }  // compute corner geometry
@@ -1610,7 +1620,7 @@ double Mesh::side_volume(const Entity_ID sideid, const bool recompute) const {
     double side_volume;
     JaliGeometry::Point outward_facet_normal, mid_facet_normal;
     compute_side_geometry(sideid, &side_volume, &outward_facet_normal,
-                          &mid_facet_normal);
+                          &mid_facet_normal, true);
     return side_volume;
   } else {
     return side_volumes[sideid];
@@ -1629,7 +1639,7 @@ double Mesh::wedge_volume(const Entity_ID wedgeid, const bool recompute) const {
     double side_volume;
     JaliGeometry::Point outward_facet_normal, mid_facet_normal;
     compute_side_geometry(sideid, &side_volume, &outward_facet_normal,
-                          &mid_facet_normal);
+                          &mid_facet_normal, true);
     return side_volume/2.0;
   } else {
     return side_volumes[sideid]/2.0;
@@ -1645,7 +1655,7 @@ double Mesh::corner_volume(const Entity_ID cornerid,
 
   if (recompute) {
     double volume;
-    compute_corner_geometry(cornerid, &volume);
+    compute_corner_geometry(cornerid, &volume, true);
     return volume;
   } else {
     return corner_volumes[cornerid];
@@ -1969,7 +1979,7 @@ JaliGeometry::Point Mesh::side_facet_normal(const int sideid,
         mid_facet_normal(space_dim_);
     
     compute_side_geometry(sideid, &volume, &outward_facet_normal,
-                          &mid_facet_normal);
+                          &mid_facet_normal, true);
     return outward_facet_normal;
   } else {
     return side_outward_facet_normal[sideid];
@@ -2003,7 +2013,7 @@ JaliGeometry::Point Mesh::wedge_facet_normal(const int wedgeid,
         mid_facet_normal(space_dim_);
         
     compute_side_geometry(sideid, &volume, &outward_facet_normal,
-                          &mid_facet_normal);
+                          &mid_facet_normal, true);
     if (which_facet == 0)
       return outward_facet_normal/2.0;  // wedge facet area = 1/2 side facet
     else
diff --git a/src/mesh/Mesh.hh b/src/mesh/Mesh.hh
index 8d04b11..62eb608 100644
--- a/src/mesh/Mesh.hh
+++ b/src/mesh/Mesh.hh
@@ -1293,10 +1293,12 @@ class Mesh {
   void compute_side_geometry(const Entity_ID sideid,
                              double *volume,
                              JaliGeometry::Point *outward_facet_normal,
-                             JaliGeometry::Point *mid_facet_normal) const;
+                             JaliGeometry::Point *mid_facet_normal,
+                             const bool recompute = false) const;
 
   void compute_corner_geometry(const Entity_ID cornerid,
-                              double *volume) const;
+                              double *volume,
+                              const bool recompute = false) const;
 
   void cache_type_info() const;
   void cache_cell2face_info() const;
-- 
2.43.0


From f459ac78689cf01ac930cfc501dcc1d7e6db6244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 12/52] fix: coordinates of 1D wedges and corners in positive
 volume order

---
 src/mesh/Mesh.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 65dbd4a..ec9f2f3 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1951,10 +1951,15 @@ void Mesh::wedge_get_coordinates(const Entity_ID wedgeid,
   // used for retrieving side coordinates and for the numbering of
   // wedges.
 
-  if (posvol_order && wedgeid%2) {
-    if (manifold_dim_ == 1)
-      std::swap((*wcoords)[0], (*wcoords)[1]);
-    else
+  // In 1D, both wedges of a side have the order of the side
+
+  if (posvol_order) {
+    if (manifold_dim_ == 1) {
+      Entity_ID_List cnodes;
+      cell_get_nodes(c, &cnodes);
+      if (n == cnodes[1])
+        std::swap((*wcoords)[0], (*wcoords)[1]);
+    } else if (wedgeid%2)
       std::swap((*wcoords)[1], (*wcoords)[2]);
   }
 }  // wedge_get_coordinates
-- 
2.43.0


From 44c0cb7b2b44519c97c568366d3c70e50d1bf3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 13/52] fix: face to cell edge map keeps stale entries of the
 given list

---
 src/mesh/Mesh.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index ec9f2f3..ee02d63 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -831,7 +831,7 @@ void Mesh::face_to_cell_edge_map(const Entity_ID faceid,
 
   assert(face2edge_info_cached && cell2edge_info_cached);
 
-  map->resize(face_edge_ids[faceid].size());
+  map->assign(face_edge_ids[faceid].size(), -1);
   for (int f = 0; f < face_edge_ids[faceid].size(); ++f) {
     Entity_ID fedge = face_edge_ids[faceid][f];
 
@@ -851,7 +851,7 @@ void Mesh::face_to_cell_edge_map(const Entity_ID faceid,
   face_get_edges_and_dirs(faceid, &fedgeids, &fedgedirs, true);
   cell_get_edges(cellid, &cedgeids);
 
-  map->resize(fedgeids.size(), -1);
+  map->assign(fedgeids.size(), -1);
   for (int f = 0; f < fedgeids.size(); ++f) {
     Entity_ID fedge = fedgeids[f];
 
-- 
2.43.0


From 94f95b5ff2343e7309b0334220944188e1de090b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 14/52] fix: facets of a 1D corner are appended to the given
 list

---
 src/mesh/Mesh.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index ee02d63..7ec0189 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2206,6 +2206,7 @@ Mesh::corner_get_facetization(const Entity_ID cornerid,
   // ordering is because wedge_get_coordinates comes back in (node, cell) order
   // and node is the facet external to the zone and cell is the facet between
   // the wedges of the side, which is consistent with 2/3D.
+  facetpoints->clear();
   facetpoints->push_back({{0}});
   facetpoints->push_back({{1}});
 }
-- 
2.43.0


From cb64611fd6f20ca01f1f1bbae1a805e462d88882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 15/52] fix: uninitialised edge2node_info_cached

---
 src/mesh/Mesh.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/Mesh.hh b/src/mesh/Mesh.hh
index 62eb608..8b725f8 100644
--- a/src/mesh/Mesh.hh
+++ b/src/mesh/Mesh.hh
@@ -177,6 +177,7 @@ class Mesh {
     partitioner_pref_(partitioner),
     cell2face_info_cached(false), face2cell_info_cached(false),
     cell2edge_info_cached(false), face2edge_info_cached(false),
+    edge2node_info_cached(false),
     side_info_cached(false), wedge_info_cached(false),
     corner_info_cached(false), type_info_cached(false),
     geometric_model_(NULL), comm(incomm),
-- 
2.43.0


From 5a26a8501e44d621ebcde1e660619d3dd2e24576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:04 +0000
Subject: [PATCH 16/52] fix: wedge_get_side is declared but not defined

---
 src/mesh/Mesh.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mesh/Mesh.hh b/src/mesh/Mesh.hh
index 8b725f8..8a8321a 100644
--- a/src/mesh/Mesh.hh
+++ b/src/mesh/Mesh.hh
@@ -2077,6 +2077,13 @@ Entity_ID Mesh::wedge_get_cell(const Entity_ID wedgeid) const {
   return side_get_cell(sideid);
 }
 
+inline
+Entity_ID Mesh::wedge_get_side(const Entity_ID wedgeid) const {
+  assert(sides_requested && wedges_requested);
+  assert(side_info_cached);
+  return static_cast<Entity_ID>(wedgeid/2);
+}
+
 inline
 Entity_ID Mesh::wedge_get_face(const Entity_ID wedgeid) const {
   assert(sides_requested && wedges_requested);
-- 
2.43.0


From 05567e9adeac690022c9abc7afae93671b3e715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 17/52] fix: order of the points of a 2D corner at a straight
 angle

---
 src/mesh/Mesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 7ec0189..633c0c8 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2249,7 +2249,7 @@ Mesh::corner_get_coordinates(const Entity_ID cornerid,
     // Make sure we got the coordinates in the right orientation
 
     JaliGeometry::Point vec0 = (*pointcoords)[1] - (*pointcoords)[0];
-    JaliGeometry::Point vec1 = (*pointcoords)[3] - (*pointcoords)[0];
+    JaliGeometry::Point vec1 = (*pointcoords)[2] - (*pointcoords)[0];
     JaliGeometry::Point cpvec = vec0^vec1;  // 2 times the vol of cwedges[0]
 
     // If the sign of cpvec[0] and wedge_volume(cwedges[0]) not the same, then
-- 
2.43.0


From 43b9dbe766936b0989bc9ff2888e3d10b0e322a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 18/52] fix: faces of a node in 3D simple meshes

---
 src/mesh/mesh_simple/Mesh_simple.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mesh/mesh_simple/Mesh_simple.cc b/src/mesh/mesh_simple/Mesh_simple.cc
index 34002e7..8e2c0ee 100644
--- a/src/mesh/mesh_simple/Mesh_simple.cc
+++ b/src/mesh/mesh_simple/Mesh_simple.cc
@@ -548,22 +548,22 @@ void Mesh_simple::update_internals_3d_() {
 
         jstart = faces_per_node_aug_*node_index_(ix, iy, iz);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = xzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix+1, iy, iz);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = xzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix+1, iy, iz+1);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = xzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix, iy, iz+1);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = xzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
       }
   // finally we do the yz faces
@@ -581,22 +581,22 @@ void Mesh_simple::update_internals_3d_() {
 
         jstart = faces_per_node_aug_*node_index_(ix, iy, iz);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = yzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix, iy+1, iz);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = yzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix, iy+1, iz+1);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = yzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix, iy, iz+1);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = yzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
       }
 
-- 
2.43.0


From 92ec5e0865874772d0acd63a0f4616a636bcd919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 19/52] fix: geometric model of 1D simple meshes is ignored

---
 src/mesh/mesh_simple/Mesh_simple.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/mesh_simple/Mesh_simple.cc b/src/mesh/mesh_simple/Mesh_simple.cc
index 8e2c0ee..c444e14 100644
--- a/src/mesh/mesh_simple/Mesh_simple.cc
+++ b/src/mesh/mesh_simple/Mesh_simple.cc
@@ -151,6 +151,9 @@ Mesh_simple::Mesh_simple(const std::vector<double>& x,
 
   assert(!boundary_ghosts_requested);  // Cannot yet make boundary ghosts
 
+  if (gm != (JaliGeometry::GeometricModelPtr) NULL)
+    Mesh::set_geometric_model(gm);
+
   clear_internals_1d_();
   update_internals_1d_();
 
-- 
2.43.0


From fbf1e11142f4031f2512c60b0e50736573e3487a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 20/52] fix: adjacency queries for ghosts of simple meshes
 return owned entities

---
 src/mesh/mesh_simple/Mesh_simple.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/mesh/mesh_simple/Mesh_simple.cc b/src/mesh/mesh_simple/Mesh_simple.cc
index c444e14..7b60b1d 100644
--- a/src/mesh/mesh_simple/Mesh_simple.cc
+++ b/src/mesh/mesh_simple/Mesh_simple.cc
@@ -797,6 +797,9 @@ void Mesh_simple::node_get_cells(const Jali::Entity_ID nodeid,
 
   cellids->clear();
 
+  if (ptype == Entity_type::PARALLEL_GHOST || ptype == Entity_type::BOUNDARY_GHOST)
+    return;  // all entities of a serial mesh are owned
+
   for (int i = 0; i < ncells; i++)
     cellids->push_back(node_to_cell_[offset+i+1]);
 }
@@ -811,6 +814,9 @@ void Mesh_simple::node_get_faces(const Jali::Entity_ID nodeid,
 
   faceids->clear();
 
+  if (ptype == Entity_type::PARALLEL_GHOST || ptype == Entity_type::BOUNDARY_GHOST)
+    return;  // all entities of a serial mesh are owned
+
   for (int i = 0; i < nfaces; i++)
     faceids->push_back(node_to_face_[offset+i+1]);
 }
@@ -827,6 +833,9 @@ void Mesh_simple::node_get_cell_faces(const Jali::Entity_ID nodeid,
 
   faceids->clear();
 
+  if (ptype == Entity_type::PARALLEL_GHOST || ptype == Entity_type::BOUNDARY_GHOST)
+    return;  // all entities of a serial mesh are owned
+
   for (int i = 0; i < faces_per_cell_; i++) {
     Entity_ID cellfaceid = cell_to_face_[offset+i];
 
@@ -852,6 +861,9 @@ void Mesh_simple::face_get_cells_internal(const Jali::Entity_ID faceid,
 
   cellids->clear();
 
+  if (ptype == Entity_type::PARALLEL_GHOST || ptype == Entity_type::BOUNDARY_GHOST)
+    return;  // all entities of a serial mesh are owned
+
   if (face_to_cell_[offset] != -1)
     cellids->push_back(face_to_cell_[offset]);
   if (face_to_cell_[offset+1] != -1)
@@ -878,6 +890,9 @@ void Mesh_simple::cell_get_face_adj_cells(const Jali::Entity_ID cellid,
 
   fadj_cellids->clear();
 
+  if (ptype == Entity_type::PARALLEL_GHOST || ptype == Entity_type::BOUNDARY_GHOST)
+    return;  // all entities of a serial mesh are owned
+
   for (int i = 0; i < faces_per_cell_; i++) {
     Entity_ID faceid = cell_to_face_[offset];
 
@@ -908,6 +923,9 @@ void Mesh_simple::cell_get_node_adj_cells(const Jali::Entity_ID cellid,
 
   nadj_cellids->clear();
 
+  if (ptype == Entity_type::PARALLEL_GHOST || ptype == Entity_type::BOUNDARY_GHOST)
+    return;  // all entities of a serial mesh are owned
+
   for (int i = 0; i < nodes_per_cell_; i++) {
     Entity_ID nodeid = cell_to_node_[offset+i];
 
-- 
2.43.0


From f0d869e68458e076a5b566ff0f74ee24a5db7961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 21/52] fix: lists and reverse map of mesh sets after adding
 and removing entities

---
 src/mesh/MeshSet.cc | 161 ++++++++++++--------------------------------
 src/mesh/MeshSet.hh |   5 ++
 2 files changed, 49 insertions(+), 117 deletions(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 6363aba..421e462 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -112,14 +112,15 @@ void MeshSet::add_entity(Entity_ID const& mesh_entity) {
     entityids_owned_.push_back(mesh_entity);
     entityids_all_.insert(entityids_all_.begin()+nowned_old, mesh_entity);
 
-    if (have_reverse_map_) mesh2subset_[mesh_entity] = nowned_old;
+    // the new entry also shifts the ghost entities
+    update_reverse_map(nowned_old);
 
   } else if (etype == Entity_type::PARALLEL_GHOST) {
 
     entityids_ghost_.push_back(mesh_entity);
 
     entityids_all_.push_back(mesh_entity);
-    if (have_reverse_map_) mesh2subset_[mesh_entity] = entityids_all_.size()-1;
+    update_reverse_map(entityids_all_.size()-1);
 
   } else
     return;  // Doesn't make sense to add any other type like BOUNDARY_GHOST
@@ -130,144 +131,70 @@ void MeshSet::add_entity(Entity_ID const& mesh_entity) {
 // Remove entity from meshset (PREFERABLY USE rem_entities)
 
 void MeshSet::rem_entity(Entity_ID const& mesh_entity) {
-  Entity_type etype = mesh_.entity_get_type(kind_, mesh_entity);
-    int size;
-    if (etype == Entity_type::PARALLEL_OWNED) {
-      size = entityids_owned_.size();
-      auto const& it = std::find(entityids_owned_.begin(),
-                                 entityids_owned_.end(), mesh_entity);
-      if (it != entityids_owned_.end()) {
-        *it = entityids_owned_[size-1];  // replace mesh_entity with last entry
-        entityids_owned_.resize(size-1);
-      }
-    } else if (etype == Entity_type::PARALLEL_GHOST) {
-      size = entityids_ghost_.size();
-      auto const& it = std::find(entityids_ghost_.begin(),
-                                 entityids_ghost_.end(), mesh_entity);
-      if (it != entityids_ghost_.end()) {
-        *it = entityids_ghost_[size-1];  // replace mesh_entity with last entry
-        entityids_ghost_.resize(size-1);
-      }
-    }
-    else
-      return;  // No other type like BOUNDARY_GHOST can be part of set
-
-    size = entityids_all_.size();
-    auto const& it = std::find(entityids_all_.begin(),
-                               entityids_all_.end(), mesh_entity);
-    if (it != entityids_all_.end()) {
-      *it = entityids_all_[size-1];  // replace mesh_entity with last entry
-      entityids_all_.resize(size-1);
-    }
-
-    if (have_reverse_map_) mesh2subset_[mesh_entity] = -1;
-  }
+  rem_entities(std::vector<Entity_ID>(1, mesh_entity));
+}
 
 
 // Add a group of entities to meshset (no check for duplicates)
 
 void MeshSet::add_entities(std::vector<Entity_ID> const& in_entities) {
   int nowned_old = entityids_owned_.size();
-  int nghost_old = entityids_ghost_.size();
-  int nall = in_entities.size();
-  int nowned = 0;
-  int nghost = 0;
+
   for (auto const& mesh_entity : in_entities) {
     Entity_type etype = mesh_.entity_get_type(kind_, mesh_entity);
     if (etype == Entity_type::PARALLEL_OWNED)
-      nowned++;
+      entityids_owned_.push_back(mesh_entity);
     else if (etype == Entity_type::PARALLEL_GHOST)
-      nghost++;
+      entityids_ghost_.push_back(mesh_entity);
   }
-  if (nall == nowned)
-    entityids_owned_.insert(entityids_owned_.end(), in_entities.begin(),
-                            in_entities.end());
-  else if (nall == nghost)
-    entityids_owned_.insert(entityids_ghost_.end(), in_entities.begin(),
-                            in_entities.end());
-  else
-    for (auto const& mesh_entity : in_entities)
-      add_entity(mesh_entity);
   
   // entityids_all should always have owned entities first and ghost
   // entities last - so we can't just put in entities at the end -
   // we have to make a new list with the updated owned and ghost
-  // entities and concatenate them (if there are any ghosts)
-  
-  if (entityids_ghost_.size()) {
-    std::vector<Entity_ID> tmp_list(entityids_owned_);
-    tmp_list.insert(tmp_list.end(), entityids_ghost_.begin(),
-                    entityids_ghost_.end());
-    entityids_all_.swap(tmp_list);
-  } else
-    entityids_all_.insert(entityids_all_.begin(), in_entities.begin(),
-                          in_entities.end());
+  // entities and concatenate them
 
-  if (have_reverse_map_) {  // have to update mesh to subset map
-    // new owned entities should have gone in after old owned entities
-    int start = nowned_old;
-    for (int i = start; i < start + nowned; i++)
-      mesh2subset_[entityids_all_[i]] = i;
-    
-    // new ghost entities should have gone in after old+new owned
-    // entities and old ghost entities
-    start = nowned_old + nowned + nghost_old;
-    for (int i = start; i < start + nghost; i++)
-      mesh2subset_[entityids_all_[i]] = i;
-  }
+  std::vector<Entity_ID> tmp_list(entityids_owned_);
+  tmp_list.insert(tmp_list.end(), entityids_ghost_.begin(),
+                  entityids_ghost_.end());
+  entityids_all_.swap(tmp_list);
+
+  // new owned entities should have gone in after old owned entities
+  update_reverse_map(nowned_old);
 }
 
 
 // Remove a group of entities from a subset
 
 void MeshSet::rem_entities(std::vector<Entity_ID> const& in_entities) {
-  // Replace each to-be-removed entry with an entry from the end of
-  // the list.  Then shrink the lists.
-  
-  int size = entityids_owned_.size();
-  int ndel = 0;
-  for (auto const& mesh_entity : in_entities) {
-    Entity_type etype = mesh_.entity_get_type(kind_, mesh_entity);
-    if (etype == Entity_type::PARALLEL_OWNED) {
-      auto const& it = std::find(entityids_owned_.begin(),
-                                 entityids_owned_.end(), mesh_entity);
-      if (it != entityids_owned_.end()) {
-        *it = entityids_owned_[size-ndel-1];
-        ndel++;
-      }
-    }
-  }
-  entityids_owned_.resize(size-ndel);
-  
-  size = entityids_ghost_.size();
-  ndel = 0;
-  for (auto const& mesh_entity : in_entities) {
-    auto const& it = std::find(entityids_ghost_.begin(),
-                               entityids_ghost_.end(), mesh_entity);
-    if (it != entityids_ghost_.end()) {
-      *it = entityids_ghost_[size-ndel-1];
-      ndel++;
-    }
-  }
-  entityids_ghost_.resize(size-ndel);
-  
-  size = entityids_all_.size();
-  ndel = 0;
-  for (auto const& mesh_entity : in_entities) {
-    auto const& it = std::find(entityids_all_.begin(),
-                               entityids_all_.end(), mesh_entity);
-    if (it != entityids_all_.end()) {
-      *it = entityids_all_[size-ndel-1];
-      ndel++;
-    }
-  }
-  entityids_all_.resize(size-ndel);
+  std::vector<Entity_ID> sorted_entities(in_entities);
+  std::sort(sorted_entities.begin(), sorted_entities.end());
 
-  if (have_reverse_map_) {
-    int nall = entityids_all_.size();
-    for (int i = 0; i < nall; i++)
-      mesh2subset_[entityids_all_[i]] = i;
-  }
+  auto to_be_removed = [&sorted_entities](Entity_ID const& mesh_entity) {
+    return std::binary_search(sorted_entities.begin(), sorted_entities.end(),
+                              mesh_entity);
+  };
+
+  if (have_reverse_map_)
+    for (auto const& mesh_entity : entityids_all_)
+      if (to_be_removed(mesh_entity)) mesh2subset_[mesh_entity] = -1;
+
+  for (auto list : {&entityids_owned_, &entityids_ghost_, &entityids_all_})
+    list->erase(std::remove_if(list->begin(), list->end(), to_be_removed),
+                list->end());
+
+  update_reverse_map(0);
+}
+
+
+// Update the map from mesh entities to indices in the set for the
+// entries of the set starting from 'start'
+
+void MeshSet::update_reverse_map(int start) {
+  if (!have_reverse_map_) return;
+
+  int nall = entityids_all_.size();
+  for (int i = start; i < nall; i++)
+    mesh2subset_[entityids_all_[i]] = i;
 }
 
 // Standalone function to make a set and return a pointer to it so
diff --git a/src/mesh/MeshSet.hh b/src/mesh/MeshSet.hh
index f64991f..1b98926 100644
--- a/src/mesh/MeshSet.hh
+++ b/src/mesh/MeshSet.hh
@@ -310,6 +310,11 @@ class MeshSet {
   bool have_reverse_map_;
   Entity_ID_List mesh2subset_;
 
+  // Update the map from mesh entities to indices in the set for the
+  // entries of the set starting from 'start'
+
+  void update_reverse_map(int start);
+
   // Make the State class a friend so that it can access protected
   // methods for retrieving and storing mesh fields
 
-- 
2.43.0


From f5b83dedbcb638c239494f4156bbcab4c02907b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 22/52] fix: union of one mesh set is a new set, subtraction of
 none, ghosts of complement

---
 src/mesh/MeshSet.cc | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 421e462..74a90df 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -232,9 +232,6 @@ merge(std::vector<std::shared_ptr<MeshSet>> const& inpsets, bool temporary) {
   assert(inpsets.size());
   std::shared_ptr<MeshSet> set0 = inpsets[0];
 
-  if (inpsets.size() == 1)
-    return set0;
-
   for (auto const& set : inpsets) {
     if (set == set0) continue;
     assert(&(set0->mesh_) == &(set->mesh_));
@@ -279,6 +276,8 @@ merge(std::vector<std::shared_ptr<MeshSet>> const& inpsets, bool temporary) {
     if (set == set0) continue;
     newname += "_PLUS_(" + set->name_ + ")";
   }
+  if (temporary && inpsets.size() == 1)
+    newname = set0->name_;
   
   // If either of these sets has the reverse map, then the result has it too
   bool build_reverse_map = set0->mesh2subset_.size() ? true : false;
@@ -307,8 +306,12 @@ subtract(std::shared_ptr<MeshSet> const& set0,
     assert(set0->kind_ == set->kind_);
   }
 
-  // Make a temporary union of all the sets to be subtracted
-  std::shared_ptr<MeshSet> setunion = merge(subtractsets, true);
+  // Make a temporary union of all the sets to be subtracted (nothing
+  // is subtracted if there are none)
+  std::shared_ptr<MeshSet> setunion = subtractsets.size() ?
+      merge(subtractsets, true) :
+      std::make_shared<MeshSet>("", set0->mesh_, set0->kind_, Entity_ID_List(),
+                                Entity_ID_List(), false);
 
   // Add elements that are in set0 and but not in the rest of the sets
   // to the result
@@ -423,6 +426,7 @@ intersect(std::vector<std::shared_ptr<MeshSet>> const& inpsets,
 std::shared_ptr<MeshSet>
 complement(std::vector<std::shared_ptr<MeshSet>> inpsets, bool temporary) {
   std::shared_ptr<MeshSet> set0 = inpsets[0];
+  int nent_all = set0->mesh_.num_entities(set0->kind_, Entity_type::ALL);
   int nent_owned = set0->mesh_.num_entities(set0->kind_,
                                             Entity_type::PARALLEL_OWNED);
   int nent_ghost = set0->mesh_.num_entities(set0->kind_,
@@ -434,16 +438,20 @@ complement(std::vector<std::shared_ptr<MeshSet>> inpsets, bool temporary) {
 
   Entity_ID_List owned_list;
   owned_list.reserve(nent_owned - setunion->entityids_owned_.size());
-  for (int ent = 0; ent < nent_owned; ent++)
-    if (std::find(setunion->entityids_owned_.begin(),
+  for (int ent = 0; ent < nent_all; ent++)
+    if (set0->mesh_.entity_get_type(set0->kind_, ent) ==
+        Entity_type::PARALLEL_OWNED &&
+        std::find(setunion->entityids_owned_.begin(),
                   setunion->entityids_owned_.end(),
                   ent) == setunion->entityids_owned_.end())
       owned_list.push_back(ent);
   
   Entity_ID_List ghost_list;
   ghost_list.reserve(nent_ghost - setunion->entityids_ghost_.size());
-  for (int ent = 0; ent < nent_ghost; ent++)
-    if (std::find(setunion->entityids_ghost_.begin(),
+  for (int ent = 0; ent < nent_all; ent++)
+    if (set0->mesh_.entity_get_type(set0->kind_, ent) ==
+        Entity_type::PARALLEL_GHOST &&
+        std::find(setunion->entityids_ghost_.begin(),
                   setunion->entityids_ghost_.end(),
                   ent) == setunion->entityids_ghost_.end())
       ghost_list.push_back(ent);
-- 
2.43.0


From 03d2b08a84e40094aea7182aa8ad1b396f4fd428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 23/52] fix: index in mesh sets without reverse map

---
 src/mesh/MeshSet.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mesh/MeshSet.hh b/src/mesh/MeshSet.hh
index 1b98926..ab6c669 100644
--- a/src/mesh/MeshSet.hh
+++ b/src/mesh/MeshSet.hh
@@ -223,7 +223,10 @@ class MeshSet {
   /// @brief check if mesh entity index is in meshset
 
   Entity_ID index_in_set(Entity_ID const& mesh_entity) const {
-    return (mesh2subset_.size() ? mesh2subset_[mesh_entity] : -1);
+    if (mesh2subset_.size()) return mesh2subset_[mesh_entity];
+    auto const& it = std::find(entityids_all_.begin(), entityids_all_.end(),
+                               mesh_entity);
+    return (it != entityids_all_.end() ? it - entityids_all_.begin() : -1);
   }
   
   /// @brief add entity to meshset (no check for duplicates)
-- 
2.43.0


From c605002f0538b3837cdf7c38b384aa45dba337aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 24/52] fix: point containment in polyhedra with triangular
 faces

---
 src/geometry/Geometry.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/Geometry.cc b/src/geometry/Geometry.cc
index d6092c2..4ade442 100644
--- a/src/geometry/Geometry.cc
+++ b/src/geometry/Geometry.cc
@@ -255,10 +255,10 @@
               return false;
 
           }  // for each edge of face
-
-          offset += nfnodes[i];
         }
 
+        offset += nfnodes[i];
+
       }  // for each face
 
       return true;
-- 
2.43.0


From d9a0e72bcac8796acb4267bffba8f8d0cf316abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 25/52] fix: copies of logical and labeled set regions lose
 their definition

---
 src/geometry/LabeledSetRegion.cc | 3 ++-
 src/geometry/LogicalRegion.cc    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geometry/LabeledSetRegion.cc b/src/geometry/LabeledSetRegion.cc
index 15cfdf8..46bb9f8 100644
--- a/src/geometry/LabeledSetRegion.cc
+++ b/src/geometry/LabeledSetRegion.cc
@@ -84,7 +84,8 @@ LabeledSetRegion::LabeledSetRegion(const std::string name,
 }
 
 LabeledSetRegion::LabeledSetRegion(const LabeledSetRegion& old)
-  : Region(old)
+  : Region(old), entity_str_(old.entity_str_), file_(old.file_),
+    format_(old.format_), label_(old.label_)
 {
   // empty
 }
diff --git a/src/geometry/LogicalRegion.cc b/src/geometry/LogicalRegion.cc
index 86e98f1..cc04708 100644
--- a/src/geometry/LogicalRegion.cc
+++ b/src/geometry/LogicalRegion.cc
@@ -105,7 +105,7 @@ LogicalRegion::LogicalRegion(const std::string name,
 }
 
 LogicalRegion::LogicalRegion(const LogicalRegion& old)
-  : Region(old)
+  : Region(old), operation_(old.operation_), region_names_(old.region_names_)
 {
   // empty
 }
-- 
2.43.0


From 681309e7b37753da49241d61ec292a6279fbc93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 26/52] fix: topological dimension of polygon regions

---
 src/geometry/PolygonRegion.cc | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/geometry/PolygonRegion.cc b/src/geometry/PolygonRegion.cc
index 237ed7e..6eba731 100644
--- a/src/geometry/PolygonRegion.cc
+++ b/src/geometry/PolygonRegion.cc
@@ -71,7 +71,7 @@ PolygonRegion::PolygonRegion(const std::string name, const unsigned int id,
                              const unsigned int num_points,
                              const std::vector<Point>& points,
                              const LifeCycle_type lifecycle)
-  : Region(name,id,points[0].dim(),lifecycle), num_points_(num_points),
+  : Region(name,id,points[0].dim()-1,lifecycle), num_points_(num_points),
     points_(points),normal_(points[0].dim()),elim_dir_(0)
 {
   init();
@@ -91,10 +91,12 @@ PolygonRegion::~PolygonRegion(void)
 
 void PolygonRegion::init() {
 
-  if (num_points_ < dimension()) {
+  const int spacedim = points_[0].dim();
+
+  if (num_points_ < spacedim) {
     std::stringstream tempstr;
-    tempstr << "\nDimension " << dimension() <<
-      " regions need to be specified by at least " << dimension() <<
+    tempstr << "\nPolygon regions in dimension " << spacedim <<
+      " need to be specified by at least " << spacedim <<
       " points\n";
     Errors::Message mesg(tempstr.str());
     Exceptions::Jali_throw(mesg);
@@ -107,14 +109,14 @@ void PolygonRegion::init() {
 //    }
 //  }
 
-  if (dimension() == 2) {
+  if (spacedim == 2) {
     Point vec = points_[1] - points_[0];
     vec /= norm(vec);
     normal_.set(vec[1],-vec[0]);
 
     elim_dir_ = (vec[0] < vec[1]) ? 0 : 1;
   }
-  else if (dimension() == 3) {
+  else if (spacedim == 3) {
     Point vec0 = points_[2]-points_[1];
     Point vec1 = points_[0]-points_[1];
     normal_ = vec0^vec1;
@@ -153,7 +155,7 @@ void PolygonRegion::init() {
   }
   else {
     std::stringstream tempstr;
-    tempstr << "Cannot handle regions of dimension " << dimension() << "\n";
+    tempstr << "Cannot handle polygon regions in dimension " << spacedim << "\n";
     Errors::Message mesg(tempstr.str());
     Exceptions::Jali_throw(mesg);
   }
@@ -190,7 +192,7 @@ PolygonRegion::inside(const Point& p) const
 
 
   bool result(false);
-  if (dimension() == 2) {
+  if (points_[0].dim() == 2) {
     // Now check if it lies in the line segment
 
     // vector from start of segment to point
-- 
2.43.0


From 95b4063f3d5aa52e85216045f1ae28275664add1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 27/52] fix: projection direction of polygon regions with
 negative normals

---
 src/geometry/PolygonRegion.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/PolygonRegion.cc b/src/geometry/PolygonRegion.cc
index 6eba731..60f2cdf 100644
--- a/src/geometry/PolygonRegion.cc
+++ b/src/geometry/PolygonRegion.cc
@@ -146,8 +146,8 @@ void PolygonRegion::init() {
     int dmax = -1;
     double maxlen = -1;
     for (int i = 0; i < 3; i++)
-      if (normal_[i] > maxlen) {
-        maxlen = normal_[i];
+      if (fabs(normal_[i]) > maxlen) {
+        maxlen = fabs(normal_[i]);
         dmax = i;
       }
 
-- 
2.43.0


From 70f275b3c0e0508c0621a72bd11b36e4db6c6fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 28/52] fix: logical and labeled set regions cannot be added to
 2D geometric models

---
 src/geometry/GeometricModel.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/geometry/GeometricModel.cc b/src/geometry/GeometricModel.cc
index 86ff6b4..f81e280 100644
--- a/src/geometry/GeometricModel.cc
+++ b/src/geometry/GeometricModel.cc
@@ -212,7 +212,12 @@ GeometricModel::GeometricModel(const unsigned int dim,
 
 void GeometricModel::Add_Region(const RegionPtr& regptr)
 {
-  if (topo_dimension_ < regptr->dimension()) {
+  // The dimension of logical and labeled set regions is not known here,
+  // it depends on the entities in the mesh
+
+  if (topo_dimension_ < regptr->dimension() &&
+      regptr->type() != Region_type::LOGICAL &&
+      regptr->type() != Region_type::LABELEDSET) {
     Errors::Message mesg("Topological dimension of geometric model less than that of the region");
     Exceptions::Jali_throw(mesg);
   }
-- 
2.43.0


From b5e6355232e5c5f89784dc18eb63c385b33a3152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 29/52] fix: initialization of mesh sets from geometric model,
 kinds of sets of logical regions, duplicate sets

---
 src/mesh/Mesh.cc | 154 +++++++++++++++++++++++++----------------------
 1 file changed, 83 insertions(+), 71 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 633c0c8..10adccb 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2371,6 +2371,77 @@ void Mesh::init_sets_from_geometric_model() {
 
 
 
+// Kind of entities in a labeled set region
+
+static
+Entity_kind labeled_set_kind(JaliGeometry::RegionPtr rgn) {
+  std::map<std::string, Entity_kind> str_to_kind = {
+      {"CELL", Entity_kind::CELL},
+      {"FACE", Entity_kind::FACE},
+      {"EDGE", Entity_kind::EDGE},
+      {"NODE", Entity_kind::NODE}};
+
+  JaliGeometry::LabeledSetRegionPtr lsrgn =
+      dynamic_cast<JaliGeometry::LabeledSetRegionPtr> (rgn);
+  std::string entity_type = lsrgn->entity_str();
+
+  std::size_t pos = entity_type.rfind("::");
+  if (pos != std::string::npos) pos += 2; else pos = 0;
+  return str_to_kind.at(entity_type.substr(pos));
+}
+
+// Kinds of entities which can be queried on a region unless specific
+// kinds are asked for. Logical regions can be queried for the kinds
+// their component regions allow. Returns true if the kinds are tied to
+// a labeled set
+
+static
+bool default_entity_kinds(JaliGeometry::GeometricModelPtr gm,
+                          JaliGeometry::RegionPtr rgn,
+                          bool faces_requested,
+                          std::vector<Entity_kind> *kinds) {
+  unsigned int gdim = gm->dimension();
+  kinds->clear();
+
+  if (rgn->type() == JaliGeometry::Region_type::LABELEDSET) {
+    kinds->push_back(labeled_set_kind(rgn));
+    return true;
+  }
+
+  if (rgn->type() == JaliGeometry::Region_type::LOGICAL) {
+    *kinds = {Entity_kind::CELL, Entity_kind::FACE, Entity_kind::NODE};
+
+    JaliGeometry::LogicalRegionPtr boolregion =
+        (JaliGeometry::LogicalRegionPtr) rgn;
+    for (auto const& regname : boolregion->component_regions()) {
+      JaliGeometry::RegionPtr rgn1 = gm->FindRegion(regname);
+      if (!rgn1) continue;  // building the set will report this
+
+      std::vector<Entity_kind> kinds1;
+      if (default_entity_kinds(gm, rgn1, faces_requested, &kinds1)) {
+        *kinds = kinds1;
+        return true;
+      }
+      kinds->erase(std::remove_if(kinds->begin(), kinds->end(),
+                                  [&kinds1](Entity_kind k) {
+                                    return std::find(kinds1.begin(),
+                                                     kinds1.end(),
+                                                     k) == kinds1.end();
+                                  }),
+                   kinds->end());
+    }
+    return false;
+  }
+
+  if (rgn->dimension() == gdim)
+    kinds->push_back(Entity_kind::CELL);
+  if (faces_requested && rgn->dimension() >= gdim-1)
+    kinds->push_back(Entity_kind::FACE);
+  kinds->push_back(Entity_kind::NODE);
+  return false;
+}
+
+
 // Initialize mesh sets from regions
 
 // @param region_entity_kinds_map    Map from region names to the kinds
@@ -2383,84 +2454,25 @@ void Mesh::init_sets_from_geometric_model(
                                           ) {
   if (!geometric_model_) return;
 
-  std::map<std::string, Entity_kind> str_to_kind = {
-      {"CELL", Entity_kind::CELL},
-      {"FACE", Entity_kind::FACE},
-      {"EDGE", Entity_kind::EDGE},
-      {"NODE", Entity_kind::NODE}};
-  
-  unsigned int gdim = geometric_model_->dimension();
-    
   unsigned int ngr = geometric_model_->Num_Regions();
   for (int i = 0; i < ngr; i++) {
     JaliGeometry::RegionPtr rgn = geometric_model_->Region_i(i);
 
-    if (rgn->type() == JaliGeometry::Region_type::LABELEDSET) {
-      // The entity type is predetermined
-      JaliGeometry::LabeledSetRegionPtr lsrgn =
-          dynamic_cast<JaliGeometry::LabeledSetRegionPtr> (rgn);
-      std::string entity_type = lsrgn->entity_str();
-
-      std::size_t pos = entity_type.rfind("::");
-      if (pos != std::string::npos) pos += 2; else pos = 0;
-      Entity_kind entity_kind = str_to_kind.at(entity_type.substr(pos));
-
-      auto mset = find_meshset(rgn->name(), entity_kind);
-      if (mset) continue;
-      
-      mset = build_set_from_region(rgn->name(), entity_kind, false);
-
-    } else {
-      // We have to account for users querying any type of entity on
-      // the region
-
-      auto mset = find_meshset(rgn->name(), Entity_kind::CELL);
-      if (mset) continue;
-
-      
-      std::vector<Entity_kind> entity_kinds;
-      auto it = region_to_entity_kinds_map.find(rgn->name());
-      if (it != region_to_entity_kinds_map.end())
-        entity_kinds = it->second;
-      else {
-        if (rgn->dimension() == gdim)
-          entity_kinds.push_back(Entity_kind::CELL);
-        if (faces_requested && rgn->dimension() >= gdim-1)
-          entity_kinds.push_back(Entity_kind::FACE);
-        entity_kinds.push_back(Entity_kind::NODE);
-      }
-
-      if (rgn->type() == JaliGeometry::Region_type::LOGICAL) {
-        // If the logical region combines a labeled set, then we can only
-        // make a set with the entity_kind the labeled set supports
-        
-        JaliGeometry::LogicalRegionPtr boolregion =
-            (JaliGeometry::LogicalRegionPtr) rgn;
-        std::vector<std::string> region_names = boolregion->component_regions();
-
-        for (std::string & regname : region_names) {
-          JaliGeometry::RegionPtr rgn1 = geometric_model_->FindRegion(regname);
-          assert(rgn1);
-          if (rgn1->type() == JaliGeometry::Region_type::LABELEDSET) {
-            entity_kinds.clear();
-            
-            JaliGeometry::LabeledSetRegionPtr lsrgn =
-                dynamic_cast<JaliGeometry::LabeledSetRegionPtr>(rgn1);
-            std::string entity_type = lsrgn->entity_str();
+    // Labeled sets, and logical regions combining them, are tied to the
+    // kind of entity of the labeled set. For other regions we have to
+    // account for users querying any type of entity on the region
 
-            std::size_t pos = entity_type.rfind("::");
-            if (pos != std::string::npos) pos += 2; else pos = 0;
-            Entity_kind entity_kind = str_to_kind.at(entity_type.substr(pos));
-            entity_kinds.push_back(entity_kind);
+    std::vector<Entity_kind> entity_kinds;
+    bool predetermined = default_entity_kinds(geometric_model_, rgn,
+                                              faces_requested, &entity_kinds);
 
-            break;
-          }
-        }
-      }
+    auto it = region_to_entity_kinds_map.find(rgn->name());
+    if (!predetermined && it != region_to_entity_kinds_map.end())
+      entity_kinds = it->second;
 
-      for (Entity_kind entity_kind : entity_kinds)
-        mset = build_set_from_region(rgn->name(), entity_kind, false);
-    }
+    for (Entity_kind entity_kind : entity_kinds)
+      if (!find_meshset(rgn->name(), entity_kind))
+        build_set_from_region(rgn->name(), entity_kind, false);
   }
 }  // init_sets_from_geometric_model (must be called before querying sets from regions)
 
-- 
2.43.0


From a3dae8f5ba719dd0dd840540a48ffca7787e7b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 30/52] fix: valid_region_name for labeled sets of
 Entity_kind::X

---
 src/mesh/Mesh.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 10adccb..0283388 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2544,6 +2544,9 @@ bool Mesh::valid_region_name(std::string name, Entity_kind kind) const {
             dynamic_cast<JaliGeometry::LabeledSetRegionPtr> (rgn);
         std::string entity_type = lsrgn->entity_str();
 
+        std::size_t pos = entity_type.rfind("::");
+        if (pos != std::string::npos) entity_type.erase(0, pos+2);
+
         if ((kind == Entity_kind::CELL && entity_type == "CELL") ||
             (kind == Entity_kind::FACE && entity_type == "FACE") ||
             (kind == Entity_kind::EDGE && entity_type == "EDGE") ||
-- 
2.43.0


From 323283fc459392f768266f808b3a4583ad12b12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 31/52] fix: subtraction of a region from itself, sets of
 logical regions under other names

---
 src/mesh/Mesh.cc | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 0283388..14d1275 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -3004,7 +3004,10 @@ std::shared_ptr<MeshSet> Mesh::build_set_from_region(const std::string setname,
           Mesh::find_meshset(region_names[r], kind);
       if (!mset1)
         mset1 = build_set_from_region(region_names[r], kind, with_reverse_map);
-      assert(mset1);
+      if (!mset1) {
+        Errors::Message mesg("Kind of entity not supported for sets of regions");
+        Exceptions::Jali_throw(mesg);
+      }
       msets.push_back(mset1);
     }
 
@@ -3025,23 +3028,24 @@ std::shared_ptr<MeshSet> Mesh::build_set_from_region(const std::string setname,
         false;
 
     if (boolregion->operation() == JaliGeometry::Bool_type::COMPLEMENT)
-      mset = complement(msets, temporary);
+      mset = complement(msets, true);
     else if (boolregion->operation() == JaliGeometry::Bool_type::UNION)
-      mset = merge(msets, temporary);
+      mset = merge(msets, true);
     else if (boolregion->operation() == JaliGeometry::Bool_type::INTERSECT)
-      mset = intersect(msets, temporary);
+      mset = intersect(msets, true);
     else if (boolregion->operation() == JaliGeometry::Bool_type::SUBTRACT) {
-      std::vector<std::shared_ptr<MeshSet>> msets1;
-      for (auto const& set : msets)
-        if (set != msets[0]) msets1.push_back(set);
-      mset = subtract(msets[0], msets1, temporary);      
+      std::vector<std::shared_ptr<MeshSet>> msets1(msets.begin()+1,
+                                                   msets.end());
+      mset = subtract(msets[0], msets1, true);
     }
 
     // While building logical meshsets, the resulting meshset name reflects
     // the operation but we need it to have the original region name so
-    // we can find it later
+    // we can find it later - it is added to the mesh under that name only
     
     mset->set_name(setname);
+    if (!temporary)
+      add_set(mset);
   }
    
   return mset;
-- 
2.43.0


From 6897310409993c9c0c7970529f0ee42de5a3c5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 32/52] fix: point containment in cells of 3D meshes without
 requested faces

---
 src/mesh/Mesh.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 14d1275..0bae74d 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -3070,7 +3070,9 @@ bool Mesh::point_in_cell(const JaliGeometry::Point &p,
     std::vector<dir_t> fdirs;
     std::vector<JaliGeometry::Point> cfcoords;
 
-    cell_get_faces_and_dirs(cellid, &cfaces, &fdirs);
+    // see compute_cell_geometry - faces may not have been requested
+
+    cell_get_faces_and_dirs_internal(cellid, &cfaces, &fdirs, false);
 
     nf = cfaces.size();
     nfnodes.resize(nf);
-- 
2.43.0


From c1445b3f00db633eea7c49d1ee2558f86ad23bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 33/52] fix: cell containing a point region need not touch the
 node closest to the point

---
 src/mesh/Mesh.cc | 27 +++++----------------------
 1 file changed, 5 insertions(+), 22 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 0bae74d..06bd0a2 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2720,34 +2720,17 @@ std::shared_ptr<MeshSet> Mesh::build_set_from_region(const std::string setname,
                             owned_cells, ghost_cells, with_reverse_map);
 
       } else if (region->type() == JaliGeometry::Region_type::POINT) {
-        JaliGeometry::Point vpnt(spacedim);
         JaliGeometry::Point rgnpnt(spacedim);
 
         rgnpnt = ((JaliGeometry::PointRegionPtr)region)->point();
 
-        int nnode = Mesh::num_entities(Entity_kind::NODE,
-                                       Entity_type::ALL);
-
-        double mindist2 = 1.e+16;
-        int minnode = -1;
-        for (int inode = 0; inode < nnode; inode++) {
-          node_get_coordinates(inode, &vpnt);
-
-          double dist2 = (vpnt-rgnpnt)*(vpnt-rgnpnt);
-          if (dist2 < mindist2) {
-            mindist2 = dist2;
-            minnode = inode;
-            if (mindist2 <= 1.0e-32)
-              break;
-          }
-        }
+        // The node closest to the point does not have to be a node of
+        // the cell containing the point, so check all cells
 
-        Entity_ID_List cells1;
-        node_get_cells(minnode, Entity_type::ALL, &cells1);
+        int ncells = Mesh::num_entities(Entity_kind::CELL,
+                                        Entity_type::ALL);
 
-        int ncells = cells1.size();
-        for (int ic = 0; ic < ncells; ic++) {
-          Entity_ID icell = cells1[ic];
+        for (int icell = 0; icell < ncells; icell++) {
 
           // Check if point is contained in cell
           if (point_in_cell(rgnpnt, icell)) {
-- 
2.43.0


From 534fd88e5e52a1c611d9633f0aab3f8c0d6e65ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:03 +0000
Subject: [PATCH 34/52] fix: iteration over state vectors of an entity kind
 skips or repeats vectors

The index of vectors without data, with array data or with multi-material
data was recorded before the vector was added, so it was off by one; a
failing construction left names and indices without a vector.
---
 src/statemanager/JaliState.h | 71 +++++++++++++-----------------------
 1 file changed, 26 insertions(+), 45 deletions(-)

diff --git a/src/statemanager/JaliState.h b/src/statemanager/JaliState.h
index d3ee913..1828c7b 100644
--- a/src/statemanager/JaliState.h
+++ b/src/statemanager/JaliState.h
@@ -1112,19 +1112,11 @@ class State : public std::enable_shared_from_this<State> {
       // empty, so add the vector to the list; if not, warn about duplicate
       // state data
 
-      // add the index of this vector in state_vectors_ to the vector of
-      // indexes for this entity type, to allow iteration over state
-      // vectors on this entity type with a permutation iterator
-
-      int ikind = static_cast<int>(kind);
-      entity_indexes_[ikind].emplace_back(state_vectors_.size()-1);
-      names_.emplace_back(name);
-
       auto vector =
           std::make_shared<StateVecType<T, DomainType>>(name, domain,
                                                         shared_from_this(),
                                                         kind, type);
-      state_vectors_.emplace_back(vector);
+      register_vector(vector);
       return (*vector);
     } else {
       // found a state vector by same name
@@ -1166,20 +1158,12 @@ class State : public std::enable_shared_from_this<State> {
       // empty, so add the vector to the list; if not, warn about duplicate
       // state data
 
-      // add the index of this vector in state_vectors_ to the vector of
-      // indexes for this entity type, to allow iteration over state
-      // vectors on this entity type with a permutation iterator
-
-      int ikind = static_cast<int>(kind);
-      entity_indexes_[ikind].emplace_back(state_vectors_.size()-1);
-      names_.emplace_back(name);
-
       auto vector =
           std::make_shared<UniStateVector<T, DomainType>>(name, domain,
                                                        shared_from_this(),
                                                        kind, type,
                                                        data);
-      state_vectors_.emplace_back(vector);
+      register_vector(vector);
       return (*vector);
     } else {  // found a state vector by same name
       std::cerr << "Attempted to add duplicate state vector. Ignoring\n";
@@ -1219,20 +1203,12 @@ class State : public std::enable_shared_from_this<State> {
       // empty, so add the vector to the list; if not, warn about duplicate
       // state data
 
-      // add the index of this vector in state_vectors_ to the vector of
-      // indexes for this entity type, to allow iteration over state
-      // vectors on this entity type with a permutation iterator
-
-      int ikind = static_cast<int>(kind);
-      entity_indexes_[ikind].emplace_back(state_vectors_.size()-1);
-      names_.emplace_back(name);
-
       auto vector =
           std::make_shared<MultiStateVector<T, DomainType>>(name, domain,
                                                          shared_from_this(),
                                                          kind, type, layout,
                                                          data);
-      state_vectors_.emplace_back(vector);
+      register_vector(vector);
       return (*vector);
     } else {  // found a state vector by same name
       std::cerr << "Attempted to add duplicate state vector. Ignoring\n";
@@ -1308,15 +1284,7 @@ class State : public std::enable_shared_from_this<State> {
           std::make_shared<StateVecType<T, DomainType>>(name, domain,
                                                         shared_from_this(),
                                                         kind, type, data);
-      state_vectors_.emplace_back(vector);
-
-      // add the index of this vector in state_vectors_ to the vector of
-      // indexes for this entity type, to allow iteration over state
-      // vectors on this entity type with a permutation iterator
-
-      int ikind = static_cast<int>(kind);
-      entity_indexes_[ikind].emplace_back(state_vectors_.size()-1);
-      names_.emplace_back(name);
+      register_vector(vector);
 
       // emplace back may cause reallocation of the vector so the iterator
       // may not be valid. Use [] operator to get reference to vector
@@ -1382,16 +1350,8 @@ class State : public std::enable_shared_from_this<State> {
       } else {
         vector_copy = std::make_shared<StateVecType<T, DomainType>>(in_vec);
       }
-      state_vectors_.emplace_back(vector_copy);
-
-      // add the index of this vector in state_vectors_ to the vector of
-      // indexes for this entity type, to allow iteration over state
-      // vectors on this entity type with a permutation iterator
-
+      register_vector(vector_copy);
       int nvec = state_vectors_.size();
-      int ikind = static_cast<int>(kind);
-      entity_indexes_[ikind].emplace_back(nvec-1);
-      names_.emplace_back(in_vec.name());
 
       // emplace back may cause reallocation of the vector so the iterator
       // may not be valid. Use [] operator to get reference to vector
@@ -1433,6 +1393,27 @@ class State : public std::enable_shared_from_this<State> {
 
  private:
 
+  // Make a new vector known to the state (only once it is completely
+  // built, and completely or not at all)
+
+  void register_vector(std::shared_ptr<StateVectorBase> vector) {
+    state_vectors_.emplace_back(vector);
+    try {
+      names_.emplace_back(vector->name());
+
+      // add the index of this vector in state_vectors_ to the vector of
+      // indexes for this entity type, to allow iteration over state
+      // vectors on this entity type with a permutation iterator
+
+      int ikind = static_cast<int>(vector->entity_kind());
+      entity_indexes_[ikind].emplace_back(state_vectors_.size()-1);
+    } catch (...) {
+      state_vectors_.pop_back();
+      names_.resize(state_vectors_.size());
+      throw;
+    }
+  }
+
   // Constant pointer to the mesh associated with this state
   const std::shared_ptr<Mesh> mymesh_;
 
-- 
2.43.0


From 7438c95d941b424394231596463154e8b13fa400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:04 +0000
Subject: [PATCH 35/52] fix: copies of state vectors from other states and
 meshes

The copy was tied to the state of the original, an existing vector on the
mesh of the state was not found, data were read beyond the end of the
original and vectors on tiles or with several materials did not compile.
---
 src/statemanager/JaliState.h       | 71 ++++++++++++++++++++----------
 src/statemanager/JaliStateVector.h |  2 +-
 2 files changed, 49 insertions(+), 24 deletions(-)

diff --git a/src/statemanager/JaliState.h b/src/statemanager/JaliState.h
index 1828c7b..5248be2 100644
--- a/src/statemanager/JaliState.h
+++ b/src/statemanager/JaliState.h
@@ -65,6 +65,7 @@
 #include <string>
 #include <memory>
 #include <cassert>
+#include <algorithm>
 #include <boost/iterator/permutation_iterator.hpp>
 
 #include "Mesh.hh"    // Jali mesh header
@@ -1318,17 +1319,19 @@ class State : public std::enable_shared_from_this<State> {
     Entity_kind kind = in_vec.entity_kind();
     Entity_type type = in_vec.entity_type();
 
-    iterator it = find<T, DomainType, StateVecType>(in_vec.name(),
-                                                    in_vec.domain(), kind,
-                                                    type);
-    if (it == end()) {
+    // If the input vector is defined on a different mesh, the vector is
+    // copied onto a vector defined on the mesh of this state
+
+    std::shared_ptr<DomainType> domain = domain_of_copy(in_vec.domain());
 
-      std::shared_ptr<StateVecType<T, DomainType>> vector_copy;
+    iterator it = find<T, DomainType, StateVecType>(in_vec.name(), domain,
+                                                    kind, type);
+    if (it == end()) {
 
       // a search of the state vectors by name and kind of entity turned up
       // empty, so add the vector to the list
 
-      if (mymesh_.get() != &(in_vec.mesh())) {
+      if (domain != in_vec.domain()) {
 
         // IT HAS BEEN SUGGESTED THAT THIS IS A BAD IDEA TO DO UNDER
         // THE THE HOOD SINCE SOMEONE MIGHT DO IT INADVERTENTLY AND
@@ -1336,27 +1339,20 @@ class State : public std::enable_shared_from_this<State> {
         // WE RETURN?  WE CANNOT THROW AN EXCEPTION EITHER (SINCE GPUs
         // DON'T HANDLE THOSE)
 
-        // the input vector is defined on a different mesh? copy the
-        // vector data onto a vector defined on mesh and then add
-
         std::cerr << "Copying data from one mesh to another???\n";
-
-        vector_copy =
-            std::make_shared<StateVecType<T, DomainType>>(in_vec.name(),
-                                                          mymesh_,
-                                                          shared_from_this(),
-                                                          kind, type,
-                                                          &(in_vec[0]));
-      } else {
-        vector_copy = std::make_shared<StateVecType<T, DomainType>>(in_vec);
       }
-      register_vector(vector_copy);
-      int nvec = state_vectors_.size();
 
-      // emplace back may cause reallocation of the vector so the iterator
-      // may not be valid. Use [] operator to get reference to vector
+      // The copy belongs to this state, whichever state holds the
+      // input vector, and its size is that of the domain it is on
+
+      auto vector_copy =
+          std::make_shared<StateVecType<T, DomainType>>(in_vec.name(), domain,
+                                                        shared_from_this(),
+                                                        kind, type);
+      copy_data(in_vec, vector_copy.get());
 
-      return (*(std::dynamic_pointer_cast<StateVecType<T, DomainType>>(state_vectors_[nvec-1])));
+      register_vector(vector_copy);
+      return (*vector_copy);
     } else {
       // found a state vector by same name
       std::cerr << "Attempted to add duplicate state vector. Ignoring\n" <<
@@ -1414,6 +1410,35 @@ class State : public std::enable_shared_from_this<State> {
     }
   }
 
+  // Domain on which a copy of a vector defined on 'domain' should be
+
+  std::shared_ptr<Mesh> domain_of_copy(std::shared_ptr<Mesh> domain) const {
+    return mymesh_;
+  }
+  std::shared_ptr<MeshTile>
+  domain_of_copy(std::shared_ptr<MeshTile> domain) const {
+    return domain;
+  }
+
+  // Copy the values of one vector to another, as far as both have them
+
+  template <class T, class DomainType>
+  static void copy_data(UniStateVector<T, DomainType> const& in_vec,
+                        UniStateVector<T, DomainType> *out_vec) {
+    auto num = std::min(in_vec.size(), out_vec->size());
+    std::copy(in_vec.cbegin(), in_vec.cbegin() + num, out_vec->begin());
+  }
+
+  template <class T, class DomainType>
+  static void copy_data(MultiStateVector<T, DomainType> const& in_vec,
+                        MultiStateVector<T, DomainType> *out_vec) {
+    int nmats = std::min(in_vec.size(), out_vec->size());
+    for (int m = 0; m < nmats; m++) {
+      auto num = std::min(in_vec.size(m), out_vec->size(m));
+      std::copy(in_vec.cbegin(m), in_vec.cbegin(m) + num, out_vec->begin(m));
+    }
+  }
+
   // Constant pointer to the mesh associated with this state
   const std::shared_ptr<Mesh> mymesh_;
 
diff --git a/src/statemanager/JaliStateVector.h b/src/statemanager/JaliStateVector.h
index 87936c8..add6000 100644
--- a/src/statemanager/JaliStateVector.h
+++ b/src/statemanager/JaliStateVector.h
@@ -392,7 +392,7 @@ class UniStateVector : public UniStateVectorBase<DomainType> {
 
   /// Get a shared pointer to the data
 
-  std::shared_ptr<T> get_data() { return mydata_; }
+  std::shared_ptr<std::vector<T>> get_data() { return mydata_; }
 
   /// Type of data
 
-- 
2.43.0


From 527b4259463195f453433515db3c096c593ccf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:33 +0000
Subject: [PATCH 36/52] fix: materials of cells and multi-material data after
 adding and removing materials and cells

Removing a material left stale material numbers in cells; cells listed twice
or already in the material were counted twice; entries of new owned cells
were appended after those of ghost cells, shifting the values of the latter;
vectors on tiles were not updated on adding or removing a material and were
dereferenced as null on adding cells.
---
 src/statemanager/JaliState.cc      | 90 ++++++++++++++++++++----------
 src/statemanager/JaliState.h       |  5 ++
 src/statemanager/JaliStateVector.h | 69 +++++++++++++++++------
 3 files changed, 117 insertions(+), 47 deletions(-)

diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index 2b3ef75..31e5f5c 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -46,14 +46,41 @@
 
 */
 
+#include <algorithm>
 #include <cassert>
 #include <memory>
+#include <unordered_set>
 
 #include "JaliState.h"
 #include "JaliStateVector.h"
 
 namespace Jali {
 
+namespace {
+
+// Cells of the list that are not in the set, each listed once
+
+std::vector<int> cells_not_in_set(MeshSet const& set,
+                                  std::vector<int> const& cells) {
+  std::vector<int> newcells;
+  std::unordered_set<int> found;
+  for (auto const& c : cells)
+    if (set.index_in_set(c) == -1 && found.insert(c).second)
+      newcells.push_back(c);
+  return newcells;
+}
+
+}  // namespace
+
+// Call a function with each multi-material vector of the state
+
+template <class Func>
+void State::for_each_multivector(Func const& func) {
+  for (auto &sv : state_vectors_)
+    if (sv->type() == StateVector_type::MULTIVAL)
+      func(dynamic_cast<MaterialEntries&>(*sv));
+}
+
 // Add new material to the state
 
 void State::add_material(std::string const& matname,
@@ -75,7 +102,7 @@ void State::add_material(std::string const& matname,
                           owned_entities, ghost_entities, with_reverse_map);
   }
 
-  matset->add_entities(matcells);
+  matset->add_entities(cells_not_in_set(*matset, matcells));
 
   material_cellsets_.push_back(matset);
 
@@ -83,16 +110,12 @@ void State::add_material(std::string const& matname,
   if (cell_materials_.size() == 0)
     cell_materials_.resize(mymesh_->num_entities(Jali::Entity_kind::CELL,
                                                  Jali::Entity_type::ALL));
-  for (auto const& c : matcells)
+  for (auto const& c : matset->entities())
     cell_materials_[c].push_back(matid);
 
   // GO TO EACH MMStateVector AND ADD ENTRIES FOR THIS MATERIAL
-  for (auto &sv : state_vectors_) {
-    if (sv->type() == StateVector_type::MULTIVAL) {
-      auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
-      if (mv) mv->add_material(matcells.size());
-    }
-  }
+  int nmatcells = matset->entities().size();
+  for_each_multivector([nmatcells](MaterialEntries& mv) { mv.add_material(nmatcells); });
 }
 
 // Remove material from the state -- EXPENSIVE (CAN JUST MAKE SET EMPTY)
@@ -103,40 +126,45 @@ void State::rem_material(int m) {
   std::shared_ptr<MeshSet> matset = material_cellsets_[m];
   if (!matset) return;
 
-  for (auto const& c : material_cellsets_[m]->entities()) {
-    int nmats = cell_materials_[c].size();
-    for (int i = 0; i < nmats; i++)
-      if (m == cell_materials_[c][i])
-        cell_materials_[c].erase(cell_materials_[c].begin()+i);
+  // The materials following this one are renumbered
+  for (auto& cellmats : cell_materials_) {
+    cellmats.erase(std::remove(cellmats.begin(), cellmats.end(), m),
+                   cellmats.end());
+    for (auto& m2 : cellmats)
+      if (m2 > m) m2--;
   }
 
   material_cellsets_.erase(material_cellsets_.begin()+m);
 
   // GO TO EACH MMStateVector AND REMOVE ENTRIES FOR THIS MATERIAL
-  for (auto &sv : state_vectors_) {
-    if (sv->type() == StateVector_type::MULTIVAL) {
-      auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
-      if (mv) mv->rem_material(m);
-    }
-  }
+  for_each_multivector([m](MaterialEntries& mv) { mv.rem_material(m); });
 }
 
 /// Add cells to a material
 
 void State::add_cells_to_material(int m, std::vector<int> const& cells) {
   assert(m < material_cellsets_.size());
-  material_cellsets_[m]->add_entities(cells);
-
-  for (auto const& c : cells)
-    cell_materials_[c].push_back(m);
-
-  for (auto & sv : state_vectors_) {
-    if (sv->type() == StateVector_type::MULTIVAL) {
-      auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
-      int size = mv->size(m);
-      mv->resize(m, size+cells.size());
-    }
-  }
+  std::shared_ptr<MeshSet> matset = material_cellsets_[m];
+  int nowned_old = matset->entities<Entity_type::PARALLEL_OWNED>().size();
+  int nall_old = matset->entities().size();
+
+  std::vector<int> newcells = cells_not_in_set(*matset, cells);
+  matset->add_entities(newcells);
+
+  int nowned_new =
+      matset->entities<Entity_type::PARALLEL_OWNED>().size() - nowned_old;
+  int nall_new = matset->entities().size() - nall_old;
+
+  for (auto const& c : newcells)
+    if (matset->index_in_set(c) != -1)
+      cell_materials_[c].push_back(m);
+
+  // Owned cells are listed before ghost cells in the set; so the
+  // entries of new owned cells go in ahead of those of old ghost cells
+  for_each_multivector([=](MaterialEntries& mv) {
+      mv.insert(m, nowned_old, nowned_new);
+      mv.insert(m, nall_old + nowned_new, nall_new - nowned_new);
+    });
 }
 
 /// Remove cells from a material
diff --git a/src/statemanager/JaliState.h b/src/statemanager/JaliState.h
index 5248be2..f99d300 100644
--- a/src/statemanager/JaliState.h
+++ b/src/statemanager/JaliState.h
@@ -1389,6 +1389,11 @@ class State : public std::enable_shared_from_this<State> {
 
  private:
 
+  // Call a function with each multi-material vector of the state
+
+  template <class Func>
+  void for_each_multivector(Func const& func);
+
   // Make a new vector known to the state (only once it is completely
   // built, and completely or not at all)
 
diff --git a/src/statemanager/JaliStateVector.h b/src/statemanager/JaliStateVector.h
index add6000..593befa 100644
--- a/src/statemanager/JaliStateVector.h
+++ b/src/statemanager/JaliStateVector.h
@@ -55,6 +55,7 @@
 #include <string>
 #include <algorithm>
 #include <typeinfo>
+#include <type_traits>
 #include <cassert>
 
 #include "Mesh.hh"    // jali mesh header
@@ -235,7 +236,9 @@ class UniStateVectorBase : public StateVectorBase {
   /// than a shared pointer because if the DomainType is a MeshTile,
   /// it only has a mesh reference not a pointer to the mesh
 
-  Mesh & mesh() const { return get_mesh_of_domain(mydomain_); }
+  typename std::conditional<std::is_same<DomainType, Mesh>::value,
+                            Mesh &, Mesh const &>::type
+  mesh() const { return get_mesh_of_domain(mydomain_); }
 
   /// Get the type of state vector
 
@@ -451,6 +454,44 @@ std::ostream & operator<<(std::ostream & os,
 
 
 
+///////////////////////////////////////////////////////////////////////////////
+
+
+/*!
+  @class MaterialEntries jali_state_vector.h
+
+  @brief MaterialEntries Interface to the entries of each material in a
+  multi-material vector, regardless of the type of data stored and the
+  domain it is defined on
+*/
+
+class MaterialEntries {
+ public:
+
+  /// Destructor
+
+  virtual ~MaterialEntries() {}
+
+  /// Size of a particular material array
+  virtual size_t size(int m) const = 0;
+
+  /// Resize a particular material array
+  virtual void resize(int m, size_t newsize) = 0;
+
+  /// Insert 'num' new entries before entry 'pos' of a particular material array
+  virtual void insert(int m, size_t pos, size_t num) = 0;
+
+  /// Clear out data for a material
+  virtual void clear(int m) = 0;
+
+  /// Add a material and its entries to the vector
+  virtual void add_material(int ncells) = 0;
+
+  // Remove a material and its entries from the vector
+  virtual void rem_material(int m) = 0;
+};  // MaterialEntries
+
+
 ///////////////////////////////////////////////////////////////////////////////
 
 
@@ -465,7 +506,7 @@ std::ostream & operator<<(std::ostream & os,
 */
 
 template <class DomainType = Mesh>
-class MultiStateVectorBase : public StateVectorBase {
+class MultiStateVectorBase : public StateVectorBase, public MaterialEntries {
   // Clearly we cannot have a MultiStateVector comprised of StateVectors
   // defined on MeshSets to itself be defined on MeshSets!
   // Valid types for DomainType are Mesh and MeshTile
@@ -545,7 +586,9 @@ class MultiStateVectorBase : public StateVectorBase {
   /// than a shared pointer because if the DomainType is a MeshTile,
   /// it only has a mesh reference not a pointer to the mesh
 
-  Mesh & mesh() const { return get_mesh_of_domain(mydomain_); }
+  typename std::conditional<std::is_same<DomainType, Mesh>::value,
+                            Mesh &, Mesh const &>::type
+  mesh() const { return get_mesh_of_domain(mydomain_); }
 
   /// Get the type of state vector
 
@@ -554,23 +597,12 @@ class MultiStateVectorBase : public StateVectorBase {
   /// Size (Number of materials) of a multi-material vector
   virtual size_t size() const = 0;
 
-  /// Size of a particular material array
-  virtual size_t size(int m) const = 0;
-
-  /// Resize a particular material array
-  virtual void resize(int m, size_t newsize) = 0;
+  using MaterialEntries::size;
 
   /// Clear out all the data
   virtual void clear() = 0;
 
-  /// Clear out data for a material
-  virtual void clear(int m) = 0;
-
-  /// Add a material and its entries to the vector
-  virtual void add_material(int ncells) = 0;
-
-  // Remove a material and its entries from the vector
-  virtual void rem_material(int m) = 0;
+  using MaterialEntries::clear;
 
   //! Output the data (but only if it is arithmetic type)
   // DISABLED UNTIL WE CAN ENABLE IT ONLY FOR THOSE TYPES THAT CAN BE STREAMED
@@ -942,6 +974,11 @@ class MultiStateVector : public MultiStateVectorBase<DomainType> {
     (*mydata_)[m].resize(newsize, val);
   }
 
+  /// Insert 'num' new entries before entry 'pos' of a particular material array
+  void insert(int m, size_t pos, size_t num) {
+    (*mydata_)[m].insert((*mydata_)[m].begin()+pos, num, T());
+  }
+
   /// Clear out all the data
   void clear() { mydata_->clear(); }
 
-- 
2.43.0


From 00607f739f36385c68701f6fd4f02fbcb527a212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:06 +0000
Subject: [PATCH 37/52] fix: import and export of fields

Import leaked its buffers and presented the contents of an unset buffer as
data when a field could not be read; export dereferenced vectors on tiles as
null and read beyond the end of vectors on part of the entities.
---
 src/statemanager/JaliState.cc      | 110 ++++++++++++++---------------
 src/statemanager/JaliState.h       |   7 ++
 src/statemanager/JaliStateVector.h |   4 +-
 3 files changed, 64 insertions(+), 57 deletions(-)

diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index 31e5f5c..9b601b3 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -183,6 +183,33 @@ void State::rem_cells_from_material(int m, std::vector<int> const& cells) {
 }
 
 
+// Import one field from the mesh, if the mesh can provide its data
+
+template <class T>
+bool State::import_field(std::string const& name, Entity_kind kind) {
+  std::vector<T> data(mymesh_->num_entities(kind, Entity_type::ALL));
+  if (!mymesh_->get_field(name, kind, data.data())) return false;
+  T const * const data_ptr = data.data();
+  add(name, mymesh_, kind, Entity_type::ALL, data_ptr);
+  return true;
+}
+
+
+// Export one vector to the mesh. The mesh stores data of all its
+// entities, so vectors on tiles, on other meshes or on a part of the
+// entities of a kind cannot be exported
+
+template <class T>
+bool State::export_field(std::shared_ptr<StateVectorBase> const& vec) {
+  auto svec = std::dynamic_pointer_cast<UniStateVector<T>>(vec);
+  if (!svec || svec->domain() != mymesh_ ||
+      svec->size() != mymesh_->num_entities(vec->entity_kind(),
+                                            Entity_type::ALL))
+    return false;
+  return mymesh_->store_field(vec->name(), vec->entity_kind(),
+                              svec->get_raw_data());
+}
+
 
 //! \brief Add a state vectors from the mesh
 //! Initialize a state vectors in the statemanager from mesh field data
@@ -202,44 +229,27 @@ void State::init_from_mesh() {
 
     int spacedim = mymesh_->space_dimension();
 
-    int nent = mymesh_->num_entities(kind, Entity_type::ALL);
-
     for (int i = 0; i < num; i++) {
-      if (vartypes[i] == "INT") {
-        int *data = new int[nent];
-        mymesh_->get_field(varnames[i], kind, data);
-        // UniStateVector<int, Mesh> & sv =
-        add(varnames[i], mymesh_, kind, Entity_type::ALL, data);
-      } else if (vartypes[i] == "DOUBLE") {
-        double *data = new double[nent];
-        mymesh_->get_field(varnames[i], kind, data);
-        // UniStateVector<double, Mesh> & sv =
-        add(varnames[i], mymesh_, kind, Entity_type::ALL, data);
-      } else if (vartypes[i] == "VECTOR") {
-        if (spacedim == 2) {
-          std::array<double, 2> *data = new std::array<double, 2>[nent];
-          mymesh_->get_field(varnames[i], kind, data);
-          // UniStateVector<std::array<double, 2>, Mesh> & sv =
-          add(varnames[i], mymesh_, kind, Entity_type::ALL, data);
-        } else if (spacedim == 3) {
-          std::array<double, 3> *data = new std::array<double, 3>[nent];
-          mymesh_->get_field(varnames[i], kind, data);
-          // UniStateVector<std::array<double, 3>, Mesh> & sv =
-          add(varnames[i], mymesh_, kind, Entity_type::ALL, data);
-        }
+      bool status = false;
+      if (vartypes[i] == "INT")
+        status = import_field<int>(varnames[i], kind);
+      else if (vartypes[i] == "DOUBLE")
+        status = import_field<double>(varnames[i], kind);
+      else if (vartypes[i] == "VECTOR") {
+        if (spacedim == 2)
+          status = import_field<std::array<double, 2>>(varnames[i], kind);
+        else if (spacedim == 3)
+          status = import_field<std::array<double, 3>>(varnames[i], kind);
       } else if (vartypes[i] == "TENSOR") {  // assumes symmetric tensors
-        if (spacedim == 2) {  // lower half & diagonal of 2x2 tensor
-          std::array<double, 3> *data = new std::array<double, 3>[nent];
-          mymesh_->get_field(varnames[i], kind, data);
-          // UniStateVector<std::array<double, 3>, Mesh> & sv =
-          add(varnames[i], mymesh_, kind, Entity_type::ALL, data);
-        } else if (spacedim == 3) {  // lower half & diagonal of 3x3 tensor
-          std::array<double, 6> *data = new std::array<double, 6>[nent];
-          mymesh_->get_field(varnames[i], kind, data);
-          // UniStateVector<std::array<double, 6>, Mesh> & sv =
-          add(varnames[i], mymesh_, kind, Entity_type::ALL, data);
-        }
+        if (spacedim == 2)       // lower half & diagonal of 2x2 tensor
+          status = import_field<std::array<double, 3>>(varnames[i], kind);
+        else if (spacedim == 3)  // lower half & diagonal of 3x3 tensor
+          status = import_field<std::array<double, 6>>(varnames[i], kind);
       }  // TENSOR
+
+      if (!status)
+        std::cerr << "Could not import field " << varnames[i] <<
+            " from mesh\n";
     }  // for each field on entity kind
   }  // for each entity kind
 
@@ -258,30 +268,20 @@ void State::export_to_mesh() {
   while (it != cend()) {
     const std::shared_ptr<StateVectorBase> vec = *it;
     std::string name = vec->name();
-    Entity_kind entity_kind = vec->entity_kind();
     bool status = false;
 
     // We only know how to store univalued data with the mesh
     if (vec->type() == StateVector_type::UNIVAL) {
-      if (vec->data_type() == typeid(double)) {
-        auto svec = std::dynamic_pointer_cast<UniStateVector<double>>(vec);
-        status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
-      } else if (vec->data_type() == typeid(int)) {
-        auto svec = std::dynamic_pointer_cast<UniStateVector<int>>(vec);
-        status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
-      } else if (vec->data_type() == typeid(std::array<double, 2>)) {
-        auto svec =
-            std::dynamic_pointer_cast<UniStateVector<std::array<double, 2>>>(vec);
-        status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
-      } else if (vec->data_type() == typeid(std::array<double, 3>)) {
-        auto svec =
-            std::dynamic_pointer_cast<UniStateVector<std::array<double, 3>>>(vec);
-        status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
-      } else if (vec->data_type() == typeid(std::array<double, 6>)) {
-        auto svec =
-            std::dynamic_pointer_cast<UniStateVector<std::array<double, 6>>>(vec);
-        status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
-      }
+      if (vec->data_type() == typeid(double))
+        status = export_field<double>(vec);
+      else if (vec->data_type() == typeid(int))
+        status = export_field<int>(vec);
+      else if (vec->data_type() == typeid(std::array<double, 2>))
+        status = export_field<std::array<double, 2>>(vec);
+      else if (vec->data_type() == typeid(std::array<double, 3>))
+        status = export_field<std::array<double, 3>>(vec);
+      else if (vec->data_type() == typeid(std::array<double, 6>))
+        status = export_field<std::array<double, 6>>(vec);
     }
 
     if (!status)
diff --git a/src/statemanager/JaliState.h b/src/statemanager/JaliState.h
index f99d300..7ad5891 100644
--- a/src/statemanager/JaliState.h
+++ b/src/statemanager/JaliState.h
@@ -1389,6 +1389,13 @@ class State : public std::enable_shared_from_this<State> {
 
  private:
 
+  // Import a field from the mesh, export a vector to the mesh
+
+  template <class T>
+  bool import_field(std::string const& name, Entity_kind kind);
+  template <class T>
+  bool export_field(std::shared_ptr<StateVectorBase> const& vec);
+
   // Call a function with each multi-material vector of the state
 
   template <class Func>
diff --git a/src/statemanager/JaliStateVector.h b/src/statemanager/JaliStateVector.h
index 593befa..6b36a90 100644
--- a/src/statemanager/JaliStateVector.h
+++ b/src/statemanager/JaliStateVector.h
@@ -387,11 +387,11 @@ class UniStateVector : public UniStateVectorBase<DomainType> {
 
   /// Get the raw data
 
-  T *get_raw_data() { return &((*mydata_)[0]); }
+  T *get_raw_data() { return mydata_->data(); }
 
   /// Get the raw data
 
-  T const *get_raw_data() const { return &((*mydata_)[0]); }
+  T const *get_raw_data() const { return mydata_->data(); }
 
   /// Get a shared pointer to the data
 
-- 
2.43.0


From 69a01a2158c81a701d71503d52faf4e97c91ef07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 38/52] fix: all ranks agree on the outcome of every mesh
 factory request

A geometric model of the wrong dimension threw on one rank before the
other ranks' reductions, a rank that had built its mesh returned without
entering the final reduction, and an unsupported 2D request or a file
with a mismatching model was reported as a null mesh or on one rank only.
---
 src/mesh/mesh_factory/MeshFactory.cc | 35 ++++++++++++++--------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/mesh/mesh_factory/MeshFactory.cc b/src/mesh/mesh_factory/MeshFactory.cc
index e11fb87..56edb0c 100644
--- a/src/mesh/mesh_factory/MeshFactory.cc
+++ b/src/mesh/mesh_factory/MeshFactory.cc
@@ -208,10 +208,9 @@ MeshFactory::create(std::string const& filename) {
                                         geom_type_);
         if (geometric_model_ &&
             (geometric_model_->dimension() != result->space_dimension())) {
+          ierr = 1;
           errmsg.add_data("Geometric model and mesh dimension do not match");
-          Exceptions::Jali_throw(errmsg);
         }
-        return result;
         break;
       }
 #endif
@@ -230,7 +229,7 @@ MeshFactory::create(std::string const& filename) {
   }
   MPI_Allreduce(&ierr, &aerr, 1, MPI_INT, MPI_SUM, comm_);
   if (aerr > 0) Exceptions::Jali_throw(errmsg);
-  return nullptr;
+  return result;
 }
 
 /**
@@ -258,9 +257,11 @@ MeshFactory::create(double const x0, double const y0, double const z0,
   int ierr = 0, aerr = 0;
 
   if (geometric_model_ && (geometric_model_->dimension() != 3)) {
-    Errors::Message mesg("Geometric model and mesh dimension do not match");
-    Exceptions::Jali_throw(mesg);
+    ierr = 1;
+    errmsg.add_data("Geometric model and mesh dimension do not match");
   }
+  MPI_Allreduce(&ierr, &aerr, 1, MPI_INT, MPI_SUM, comm_);
+  if (aerr > 0) Exceptions::Jali_throw(errmsg);
 
   if (nx <= 0 || ny <= 0 || nz <= 0) {
     ierr = 1;
@@ -299,7 +300,6 @@ MeshFactory::create(double const x0, double const y0, double const z0,
                                             num_ghost_layers_distmesh_,
                                             request_boundary_ghosts_,
                                             partitioner_);
-          return result;
         }
         else {
           ierr = 1;
@@ -319,7 +319,7 @@ MeshFactory::create(double const x0, double const y0, double const z0,
                                         num_ghost_layers_distmesh_,
                                         request_boundary_ghosts_,
                                         partitioner_, contiguous_gids_);
-        return result;
+        break;
       }
 #endif
       default:
@@ -336,7 +336,7 @@ MeshFactory::create(double const x0, double const y0, double const z0,
   }
   MPI_Allreduce(&ierr, &aerr, 1, MPI_INT, MPI_SUM, comm_);
   if (aerr > 0) Exceptions::Jali_throw(errmsg);
-  return nullptr;
+  return result;
 }
 
 
@@ -362,9 +362,11 @@ MeshFactory::create(double const x0, double const y0,
   int ierr = 0, aerr = 0;
 
   if (geometric_model_ && (geometric_model_->dimension() != 2)) {
-    Errors::Message mesg("Geometric model and mesh dimension do not match");
-    Exceptions::Jali_throw(mesg);
+    ierr = 1;
+    errmsg.add_data("Geometric model and mesh dimension do not match");
   }
+  MPI_Allreduce(&ierr, &aerr, 1, MPI_INT, MPI_SUM, comm_);
+  if (aerr > 0) Exceptions::Jali_throw(errmsg);
 
   if (nx <= 0 || ny <= 0) {
     ierr = 1;
@@ -404,7 +406,6 @@ MeshFactory::create(double const x0, double const y0,
                                             num_ghost_layers_distmesh_,
                                             request_boundary_ghosts_,
                                             partitioner_, geom_type_);
-          return result;
         } else {
           ierr = 1;
           errmsg.add_data("Simple framework cannot generate mesh in parallel");
@@ -424,10 +425,11 @@ MeshFactory::create(double const x0, double const y0,
                                         request_boundary_ghosts_,
                                         partitioner_, contiguous_gids_,
                                         geom_type_);
-        return result;
+        break;
       }
 #endif
       default: {
+        ierr = 1;
         errmsg.add_data("Chosen framework cannnot generate meshes");        
       }
     }
@@ -441,7 +443,7 @@ MeshFactory::create(double const x0, double const y0,
   }
   MPI_Allreduce(&ierr, &aerr, 1, MPI_INT, MPI_SUM, comm_);
   if (aerr > 0) Exceptions::Jali_throw(errmsg);
-  return nullptr;
+  return result;
 }
 
 
@@ -500,7 +502,6 @@ MeshFactory::create(std::vector<double> const& x) {
                                             num_ghost_layers_distmesh_,
                                             request_boundary_ghosts_,
                                             partitioner_, geom_type_);
-          return result;
         } else {
           ierr = 1;
           errmsg.add_data("Simple framework cannot generate parallel 1D mesh");
@@ -522,7 +523,7 @@ MeshFactory::create(std::vector<double> const& x) {
   }
   MPI_Allreduce(&ierr, &aerr, 1, MPI_INT, MPI_SUM, comm_);
   if (aerr > 0) Exceptions::Jali_throw(errmsg);
-  return nullptr;
+  return result;
 }
 
 /**
@@ -569,7 +570,7 @@ MeshFactory::create(std::shared_ptr<Mesh> const inmesh,
                                         partitioner_,
                                         contiguous_gids_,
                                         geom_type_);
-        return result;
+        break;
       }
 #endif
       default: {
@@ -587,7 +588,7 @@ MeshFactory::create(std::shared_ptr<Mesh> const inmesh,
   }
   MPI_Allreduce(&ierr, &aerr, 1, MPI_INT, MPI_SUM, comm_);
   if (aerr > 0) Exceptions::Jali_throw(errmsg);
-  return nullptr;
+  return result;
 }
 
 }  // namespace Jali
-- 
2.43.0


From fc16920758758e4afd1ad4a8ffa82d636b80b820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 39/52] fix: resetting the mesh factory options did not reset
 the request for sides

---
 src/mesh/mesh_factory/MeshFactory.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/mesh_factory/MeshFactory.cc b/src/mesh/mesh_factory/MeshFactory.cc
index 56edb0c..a3942e2 100644
--- a/src/mesh/mesh_factory/MeshFactory.cc
+++ b/src/mesh/mesh_factory/MeshFactory.cc
@@ -151,6 +151,7 @@ void MeshFactory::reset_options(void) {
   request_edges_ = request_edges_default_;
   request_faces_ = request_faces_default_;
   request_cells_ = request_cells_default_;
+  request_sides_ = request_sides_default_;
   request_wedges_ = request_wedges_default_;
   request_corners_ = request_corners_default_;
 
-- 
2.43.0


From 0f5ccf2c54f8473499b2402bbbbbaff05436604c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 40/52] fix: 1D mesh over an interval had one cell too few and
 stopped short of the end point

---
 src/mesh/mesh_factory/MeshFactory.hh | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/mesh/mesh_factory/MeshFactory.hh b/src/mesh/mesh_factory/MeshFactory.hh
index 03df426..10e7a55 100644
--- a/src/mesh/mesh_factory/MeshFactory.hh
+++ b/src/mesh/mesh_factory/MeshFactory.hh
@@ -335,14 +335,10 @@ class MeshFactory {
   /// Create a 1d mesh -- operator
   std::shared_ptr<Mesh> operator() (double const x0, double const x1,
                                     int const nx) {
-    double dX = (x1-x0)/((double)nx);
-    double myX = x0;
-
-    std::vector<double> x(nx);
-    for (auto it = x.begin(); it != x.end(); it++) {
-      *it = myX;
-      myX += dX;
-    }
+    // nx cells have nx+1 nodes; an invalid nx is reported by create
+    std::vector<double> x(nx > 0 ? nx+1 : 0);
+    for (int i = 0; i < (int) x.size(); i++)
+      x[i] = (i < nx) ? x0 + i*((x1-x0)/nx) : x1;
 
     return create(x);
   }
-- 
2.43.0


From c224c698792ebc2333aadc1267c3eb5a88a644d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:53 +0000
Subject: [PATCH 41/52] fix: a tile that cannot be created leaves master tile
 IDs behind

---
 src/mesh/Mesh.cc     | 12 +++++++++++-
 src/mesh/Mesh.hh     |  1 +
 src/mesh/MeshTile.cc | 27 +++++++++++++++++----------
 3 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 06bd0a2..9f03e43 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -56,6 +56,7 @@
 #include "zoltan.h"
 #endif
 
+#include <algorithm>
 #include <cmath>
 #include <vector>
 #include <cassert>
@@ -619,11 +620,20 @@ void Mesh::build_tiles() {
 // other entities
 
 void Mesh::init_tiles() {
-  tiles_initialized_ = true;
   node_master_tile_ID_.resize(num_nodes(), -1);
   if (edges_requested) edge_master_tile_ID_.resize(num_edges(), -1);
   if (faces_requested) face_master_tile_ID_.resize(num_faces(), -1);
   cell_master_tile_ID_.resize(num_cells(), -1);
+  tiles_initialized_ = true;
+}
+
+
+// Entities of a tile that could not be created have no master tile
+
+void Mesh::unset_master_tile_ID(int const tileid) {
+  for (auto *ids : {&node_master_tile_ID_, &edge_master_tile_ID_,
+                    &face_master_tile_ID_, &cell_master_tile_ID_})
+    std::replace(ids->begin(), ids->end(), tileid, -1);
 }
 
 
diff --git a/src/mesh/Mesh.hh b/src/mesh/Mesh.hh
index 8a8321a..8fd9b83 100644
--- a/src/mesh/Mesh.hh
+++ b/src/mesh/Mesh.hh
@@ -1314,6 +1314,7 @@ class Mesh {
   void build_tiles();
   void add_tile(std::shared_ptr<MeshTile> tile2add);
   void init_tiles();
+  void unset_master_tile_ID(int const tileid);
   int get_new_tile_ID() const { return meshtiles.size(); }
 
   // Set master tile ID for entities
diff --git a/src/mesh/MeshTile.cc b/src/mesh/MeshTile.cc
index 27af9b1..8bcfbf6 100644
--- a/src/mesh/MeshTile.cc
+++ b/src/mesh/MeshTile.cc
@@ -333,16 +333,23 @@ std::shared_ptr<MeshTile> make_meshtile(Mesh& parent_mesh,
   // make the std::make_shared_ptr class a friend of MeshTile, it
   // complains that the constructor is private
 
-  auto tile =  std::make_shared<MeshTile>(parent_mesh, cells,
-                                          num_halo_layers,
-                                          request_faces,
-                                          request_edges,
-                                          request_sides,
-                                          request_wedges,
-                                          request_corners);
-  
-  parent_mesh.add_tile(tile);
-  return tile;
+  int const newtileid = parent_mesh.get_new_tile_ID();
+  try {
+    auto tile =  std::make_shared<MeshTile>(parent_mesh, cells,
+                                            num_halo_layers,
+                                            request_faces,
+                                            request_edges,
+                                            request_sides,
+                                            request_wedges,
+                                            request_corners);
+
+    parent_mesh.add_tile(tile);
+    return tile;
+  } catch (...) {
+    // entities cannot be left with a master tile that does not exist
+    parent_mesh.unset_master_tile_ID(newtileid);
+    throw;
+  }
 }
 
 
-- 
2.43.0


From fb5d683f916e2eb252c0ad3d7bf597c52de4cf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:40 +0000
Subject: [PATCH 42/52] fix: a failed geometry update leaves mesh without side
 facet normals

---
 src/mesh/Mesh.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 9f03e43..f1053ed 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1120,12 +1120,12 @@ int Mesh::compute_side_geometric_quantities() const {
   // It is also unclear that this is good to do because it will cause
   // a copy operator to be triggered for each element (?)
 
-  // Start over because the quantities may be getting updated
+  // Collect the normals in new lists because the quantities may be
+  // getting updated - the old ones stay until the update is complete
 
-  side_outward_facet_normal.clear();
-  side_mid_facet_normal.clear();
-  side_outward_facet_normal.reserve(num_sides());
-  side_mid_facet_normal.reserve(num_sides());
+  std::vector<JaliGeometry::Point> outward_facet_normals, mid_facet_normals;
+  outward_facet_normals.reserve(num_sides());
+  mid_facet_normals.reserve(num_sides());
 
   JaliGeometry::Point outward_facet_normal(space_dim_);
   JaliGeometry::Point mid_facet_normal(space_dim_);
@@ -1139,9 +1139,11 @@ int Mesh::compute_side_geometric_quantities() const {
                             &(outward_facet_normal),
                             &(mid_facet_normal));
     }
-    side_outward_facet_normal.push_back(outward_facet_normal);
-    side_mid_facet_normal.push_back(mid_facet_normal);
+    outward_facet_normals.push_back(outward_facet_normal);
+    mid_facet_normals.push_back(mid_facet_normal);
   }
+  side_outward_facet_normal.swap(outward_facet_normals);
+  side_mid_facet_normal.swap(mid_facet_normals);
 
   side_geometry_precomputed = true;
   return 1;
-- 
2.43.0


From 9d913c291773ddd8daeacaac4451880dc898d9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 43/52] fix: one exception behaviour for the whole program

The setting lived in an anonymous namespace in the header, so every
translation unit had a copy of its own and asking for abort() only
changed the one nobody throws from.
---
 src/error_handling/exceptions.cc |  5 +++++
 src/error_handling/exceptions.hh | 13 ++-----------
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/error_handling/exceptions.cc b/src/error_handling/exceptions.cc
index 45c6fba..91b9dff 100644
--- a/src/error_handling/exceptions.cc
+++ b/src/error_handling/exceptions.cc
@@ -50,6 +50,11 @@
 
 #include <sstream>
 
+namespace {
+// One setting for the whole program
+Exceptions::Exception_action behavior = Exceptions::RAISE;
+}
+
 namespace Exceptions {
 
 void set_exception_behavior_raise() { behavior = Exceptions::RAISE; }
diff --git a/src/error_handling/exceptions.hh b/src/error_handling/exceptions.hh
index ceaae86..da23b7b 100644
--- a/src/error_handling/exceptions.hh
+++ b/src/error_handling/exceptions.hh
@@ -71,21 +71,12 @@ void set_exception_behavior(Exception_action);
 Exception_action exception_behavior();
 
 template <typename E> void Jali_throw(const E& exception);
-}  // namespace Exceptions
 
-
-namespace {
-Exceptions::Exception_action behavior = Exceptions::RAISE;
-}
-
-
-namespace Exceptions {
-
-// Either raise the given exception or abort, depending on the value of behavior.
+// Either raise the given exception or abort, depending on the current exception behavior.
 template <typename E>
 void Jali_throw(const E& exception)
 {
-  if (behavior == Exceptions::RAISE)
+  if (exception_behavior() == Exceptions::RAISE)
       throw exception;
   else
       abort ();
-- 
2.43.0


From 36fe674b83d79a569a868404a9fc9b43df28f467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:16 +0000
Subject: [PATCH 44/52] fix: all errors of the library follow the configured
 exception action

GeometricModel, Domain and State threw standard exceptions directly, so
they ignored a request to abort; those of GeometricModel and Domain did
not carry their message either.
---
 src/geometry/Domain.cc             | 17 +++++++++--------
 src/geometry/GeometricModel.cc     |  4 ++--
 src/statemanager/JaliState.cc      |  3 ++-
 src/statemanager/JaliStateVector.h |  3 ++-
 4 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/geometry/Domain.cc b/src/geometry/Domain.cc
index a1d5a74..f78bdba 100644
--- a/src/geometry/Domain.cc
+++ b/src/geometry/Domain.cc
@@ -57,6 +57,7 @@
  */
 
 #include "Domain.hh"
+#include "errors.hh"
 
 namespace JaliGeometry {
 
@@ -73,8 +74,8 @@ namespace JaliGeometry {
 Domain::Domain(const unsigned int dim): spatial_dimension_(dim)
 {
   if (dim < 2u || dim > 3u) {
-    std::cerr << "Only 2D and 3D domains are supported" << std::endl;
-    throw std::exception();
+    Errors::Message mesg("Only 2D and 3D domains are supported");
+    Exceptions::Jali_throw(mesg);
   }
 
   GeometricModels.clear();
@@ -121,8 +122,8 @@ Domain::Domain(const unsigned int dim,
   FreeRegions(in_Regions)
 {
   if (dim != 2 || dim != 3) {
-    std::cerr << "Only 2D and 3D domains are supported" << std::endl;
-    throw std::exception();
+    Errors::Message mesg("Only 2D and 3D domains are supported");
+    Exceptions::Jali_throw(mesg);
   }
 }
 
@@ -135,8 +136,8 @@ void Domain::Add_Geometric_Model(const GeometricModelPtr& gm)
   // Make sure spatial dimension of domain and geometric model are the same
 
   if (spatial_dimension_ != gm->dimension()) {
-    std::cerr << "Spatial dimension of domain and geometric model mismatch" << std::endl;
-    throw std::exception();
+    Errors::Message mesg("Spatial dimension of domain and geometric model mismatch");
+    Exceptions::Jali_throw(mesg);
   }
 
   GeometricModels.push_back(gm);
@@ -148,8 +149,8 @@ void Domain::Add_Geometric_Model(const GeometricModelPtr& gm)
 void Domain::Add_Free_Region(const RegionPtr& regptr)
 {
   if (spatial_dimension_ < regptr->dimension()) {
-    std::cerr << "Spatial dimension of domain is less than that of the free region" << std::endl;
-    throw std::exception();
+    Errors::Message mesg("Spatial dimension of domain is less than that of the free region");
+    Exceptions::Jali_throw(mesg);
   }
 
   FreeRegions.push_back(regptr);
diff --git a/src/geometry/GeometricModel.cc b/src/geometry/GeometricModel.cc
index f81e280..e6e5c26 100644
--- a/src/geometry/GeometricModel.cc
+++ b/src/geometry/GeometricModel.cc
@@ -75,8 +75,8 @@ namespace JaliGeometry {
     topo_dimension_(dim)
 {
   if (dim != 2 && dim != 3) {
-    std::cerr << "Only 2D and 3D domains are supported" << std::endl;
-    throw std::exception();
+    Errors::Message mesg("Only 2D and 3D domains are supported");
+    Exceptions::Jali_throw(mesg);
   }
   Regions.clear();
 }
diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index 9b601b3..79188e6 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -53,6 +53,7 @@
 
 #include "JaliState.h"
 #include "JaliStateVector.h"
+#include "errors.hh"
 
 namespace Jali {
 
@@ -178,7 +179,7 @@ void State::rem_cells_from_material(int m, std::vector<int> const& cells) {
   // FUNKY THINGS WITH REMOVING CELLS AND THAT HAS TO BE TAKEN
   // INTO ACCOUNT (See MeshSet::rem_entities)
 
-  throw std::runtime_error("rem_cells_from_material NOT IMPLEMENTED");
+  Exceptions::Jali_throw(std::runtime_error("rem_cells_from_material NOT IMPLEMENTED"));
 
 }
 
diff --git a/src/statemanager/JaliStateVector.h b/src/statemanager/JaliStateVector.h
index 6b36a90..202cb36 100644
--- a/src/statemanager/JaliStateVector.h
+++ b/src/statemanager/JaliStateVector.h
@@ -59,6 +59,7 @@
 #include <cassert>
 
 #include "Mesh.hh"    // jali mesh header
+#include "errors.hh"
 
 namespace Jali {
 
@@ -955,7 +956,7 @@ class MultiStateVector : public MultiStateVectorBase<DomainType> {
         state_get_material_set(StateVectorBase::mystate_, m);
     int cloc = mset->index_in_set(c);
     if (cloc == -1)
-      throw std::runtime_error("Cell does not contain material. Add it in the statemanager");
+      Exceptions::Jali_throw(std::runtime_error("Cell does not contain material. Add it in the statemanager"));
     
     return (*mydata_)[m][cloc];
   }
-- 
2.43.0


From 2a1db0d34839c85ce009f1be28925b6167f4dcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:33 +0000
Subject: [PATCH 45/52] fix: Domain with given models and regions is accepted
 in 2D and 3D

---
 src/geometry/Domain.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/Domain.cc b/src/geometry/Domain.cc
index f78bdba..16af4e1 100644
--- a/src/geometry/Domain.cc
+++ b/src/geometry/Domain.cc
@@ -121,7 +121,7 @@ Domain::Domain(const unsigned int dim,
   spatial_dimension_(dim), GeometricModels(in_geometric_models),
   FreeRegions(in_Regions)
 {
-  if (dim != 2 || dim != 3) {
+  if (dim != 2 && dim != 3) {
     Errors::Message mesg("Only 2D and 3D domains are supported");
     Exceptions::Jali_throw(mesg);
   }
-- 
2.43.0


From 88a62a38a88e81828c5faf0626570d70bec1a67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:53 +0000
Subject: [PATCH 46/52] fix: face normals of surface meshes point out of the
 cell, not away from the origin

---
 src/mesh/Mesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index f1053ed..da38e6c 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1354,7 +1354,7 @@ int Mesh::compute_face_geometry(const Entity_ID faceid, double *area,
 
         assert(found);
 
-        JaliGeometry::Point cellcen;
+        JaliGeometry::Point cellcen(space_dim_);
         std::vector<JaliGeometry::Point> ccoords;
         cell_get_coordinates(cellids[i], &ccoords);
 
-- 
2.43.0


From 139a60b92599ffe1766e3ee281950af3e251208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:54 +0000
Subject: [PATCH 47/52] fix: edge directions of the cells of surface meshes are
 available

---
 src/mesh/Mesh.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index da38e6c..c7b4fd7 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -184,15 +184,15 @@ void Mesh::cache_cell2edge_info() const {
   int ncells = num_cells<Entity_type::ALL>();
   cell_edge_ids.resize(ncells);
 
-  if (space_dim_ == 1) {
+  if (manifold_dim_ == 1) {
     for (auto const& c : cells())
       cell_get_nodes(c, &(cell_edge_ids[c]));   // edges are same as nodes
-  } else if (space_dim_ == 2) {
+  } else if (manifold_dim_ == 2) {
     cell_2D_edge_dirs.resize(ncells);
     for (auto const& c : cells())
       cell_2D_get_edges_and_dirs_internal(c, &(cell_edge_ids[c]),
                                           &(cell_2D_edge_dirs[c]));
-  } else if (space_dim_ == 3) {
+  } else if (manifold_dim_ == 3) {
     for (auto const& c : cells())
       cell_get_edges_internal(c, &(cell_edge_ids[c]));
   }
-- 
2.43.0


From 98b7cb5aaf08d4af9d31e76e5288c1162577353e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:10 +0000
Subject: [PATCH 48/52] fix: sets of box regions use centroids of before nodes
 moved

When nodes were moved and the cached geometry was not updated yet, the
cells and faces of a box region were chosen by the old, cached centroids
while points, planes, polygons and all node sets were judged by the
present coordinates.  The centroids are computed from the present
coordinates now.
---
 src/mesh/Mesh.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index c7b4fd7..5ac7720 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2722,10 +2722,10 @@ std::shared_ptr<MeshSet> Mesh::build_set_from_region(const std::string setname,
                                              Entity_type::PARALLEL_GHOST);
 
         for (int icell = 0; icell < ncell_owned; icell++)
-          if (region->inside(cell_centroid(icell)))
+          if (region->inside(cell_centroid(icell, true)))
             owned_cells.push_back(icell);
         for (int icell = 0; icell < ncell_ghost; icell++)
-          if (region->inside(cell_centroid(ncell_owned+icell)))
+          if (region->inside(cell_centroid(ncell_owned+icell, true)))
             ghost_cells.push_back(ncell_owned+icell);
 
         mset = make_meshset(setname, *this, Entity_kind::CELL,
@@ -2838,8 +2838,7 @@ std::shared_ptr<MeshSet> Mesh::build_set_from_region(const std::string setname,
                                        Entity_type::ALL);
 
         for (int iface = 0; iface < nface; iface++) {
-          JaliGeometry::Point fcen = face_centroid(iface);
-          if (region->inside(face_centroid(iface))) {
+          if (region->inside(face_centroid(iface, true))) {
             Entity_type ftype = entity_get_type(Entity_kind::FACE, iface);
             if (ftype == Entity_type::PARALLEL_OWNED)
               owned_faces.push_back(iface);
-- 
2.43.0


From 51c6a95cd1962e30ea29be81a3349c87e3706d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:34 +0000
Subject: [PATCH 49/52] fix: mesh sets stay consistent when there is no memory
 for new entities

---
 src/mesh/MeshSet.cc | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 74a90df..18add4b 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -109,17 +109,21 @@ void MeshSet::add_entity(Entity_ID const& mesh_entity) {
   if (etype == Entity_type::PARALLEL_OWNED) {
     int nowned_old = entityids_owned_.size();
 
-    entityids_owned_.push_back(mesh_entity);
+    // make room first so that either both lists get the entry or none
+    if (entityids_owned_.size() == entityids_owned_.capacity())
+      entityids_owned_.reserve(2*nowned_old + 1);
     entityids_all_.insert(entityids_all_.begin()+nowned_old, mesh_entity);
+    entityids_owned_.push_back(mesh_entity);
 
     // the new entry also shifts the ghost entities
     update_reverse_map(nowned_old);
 
   } else if (etype == Entity_type::PARALLEL_GHOST) {
 
-    entityids_ghost_.push_back(mesh_entity);
-
+    if (entityids_ghost_.size() == entityids_ghost_.capacity())
+      entityids_ghost_.reserve(2*entityids_ghost_.size() + 1);
     entityids_all_.push_back(mesh_entity);
+    entityids_ghost_.push_back(mesh_entity);
     update_reverse_map(entityids_all_.size()-1);
 
   } else
@@ -140,12 +144,18 @@ void MeshSet::rem_entity(Entity_ID const& mesh_entity) {
 void MeshSet::add_entities(std::vector<Entity_ID> const& in_entities) {
   int nowned_old = entityids_owned_.size();
 
+  // collect the entities in new lists and put these in place together
+  // once they are complete
+
+  std::vector<Entity_ID> owned_list(entityids_owned_);
+  std::vector<Entity_ID> ghost_list(entityids_ghost_);
+
   for (auto const& mesh_entity : in_entities) {
     Entity_type etype = mesh_.entity_get_type(kind_, mesh_entity);
     if (etype == Entity_type::PARALLEL_OWNED)
-      entityids_owned_.push_back(mesh_entity);
+      owned_list.push_back(mesh_entity);
     else if (etype == Entity_type::PARALLEL_GHOST)
-      entityids_ghost_.push_back(mesh_entity);
+      ghost_list.push_back(mesh_entity);
   }
   
   // entityids_all should always have owned entities first and ghost
@@ -153,10 +163,12 @@ void MeshSet::add_entities(std::vector<Entity_ID> const& in_entities) {
   // we have to make a new list with the updated owned and ghost
   // entities and concatenate them
 
-  std::vector<Entity_ID> tmp_list(entityids_owned_);
-  tmp_list.insert(tmp_list.end(), entityids_ghost_.begin(),
-                  entityids_ghost_.end());
-  entityids_all_.swap(tmp_list);
+  std::vector<Entity_ID> all_list(owned_list);
+  all_list.insert(all_list.end(), ghost_list.begin(), ghost_list.end());
+
+  entityids_owned_.swap(owned_list);
+  entityids_ghost_.swap(ghost_list);
+  entityids_all_.swap(all_list);
 
   // new owned entities should have gone in after old owned entities
   update_reverse_map(nowned_old);
-- 
2.43.0


From 2a9f86f8afa58811cce930623f2e7e7a26a947ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:40 +0000
Subject: [PATCH 50/52] fix: report a METIS failure instead of using its
 undefined partitioning

METIS_PartGraphRecursive/Kway report e.g. a failing allocation through
their return value, which was ignored: every cell then ended up in the
first tile.
---
 src/mesh/Mesh.cc | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 5ac7720..40be7b8 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -3254,14 +3254,23 @@ void Mesh::get_partitioning_with_metis(int const num_parts,
   METIS_SetDefaultOptions(metisopts);  // Get default options from METIS
   metisopts[METIS_OPTION_NUMBERING] = 0;   // Indicate C style numbering
 
+  int status;
   if (num_parts <= 8)
-    METIS_PartGraphRecursive(&ngraphvtx, &ncons, xadj.data(), adjncy.data(),
-                             vwt, vsize, adjwt, &nparts, tpwts, ubvec,
-                             metisopts, &nedgecut, idxpart.data());
+    status =
+        METIS_PartGraphRecursive(&ngraphvtx, &ncons, xadj.data(), adjncy.data(),
+                                 vwt, vsize, adjwt, &nparts, tpwts, ubvec,
+                                 metisopts, &nedgecut, idxpart.data());
   else
-    METIS_PartGraphKway(&ngraphvtx, &ncons, xadj.data(), adjncy.data(),
-                        vwt, vsize, adjwt, &nparts, tpwts, ubvec, metisopts,
-                        &nedgecut, idxpart.data());
+    status =
+        METIS_PartGraphKway(&ngraphvtx, &ncons, xadj.data(), adjncy.data(),
+                            vwt, vsize, adjwt, &nparts, tpwts, ubvec, metisopts,
+                            &nedgecut, idxpart.data());
+
+  if (status != METIS_OK) {  // idxpart does not hold a partitioning
+    Errors::Message mesg("METIS could not partition the mesh");
+    if (status == METIS_ERROR_MEMORY) mesg << ": out of memory";
+    Exceptions::Jali_throw(mesg);
+  }
 
   for (int i = 0; i < ncells_owned; ++i) {
     int ipart = idxpart[i];
-- 
2.43.0


From 11332e551faec3a22dc8274b8ee28106f8a3a9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:54 +0000
Subject: [PATCH 51/52] fix: corner coordinates and facets in boundary ghost
 cells

In a two dimensional mesh, a corner of the degenerate cell behind a
boundary face has a single wedge; corner_get_coordinates and
corner_get_facetization read a second one past the end of the list.
---
 src/mesh/Mesh.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 40be7b8..747e617 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2178,7 +2178,8 @@ Mesh::corner_get_facetization(const Entity_ID cornerid,
 
   Entity_ID f0 = wedge_get_face(cwedges[0]);
   JaliGeometry::Point fcen0 = face_centroid(f0);
-  Entity_ID f1 = wedge_get_face(cwedges[1]);
+  Entity_ID f1 = wedge_get_face(cwedges.back());  // same as f0 in a
+  //                                              // boundary ghost
   JaliGeometry::Point fcen1 = face_centroid(f1);
 
   JaliGeometry::Point vec1 = fcen0-p;
@@ -2253,8 +2254,10 @@ Mesh::corner_get_coordinates(const Entity_ID cornerid,
 
     wedge_get_coordinates(cwedges[0], pointcoords);
 
+    // in the degenerate cell of a boundary ghost, a corner has one wedge only
+
     std::vector<JaliGeometry::Point> wpoints;
-    wedge_get_coordinates(cwedges[1], &wpoints);
+    wedge_get_coordinates(cwedges.back(), &wpoints);
 
     pointcoords->push_back(wpoints[1]);
 
-- 
2.43.0


From 44b05823f217109963efb062f883805c62c85ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:45 +0000
Subject: [PATCH 52/52] fix: names of parallel types were off by one

Entity_type_string used the value of the type, which starts at -1, as an
index into its table: PARALLEL_OWNED was printed as DELETED, and so on.
---
 src/mesh/MeshDefs.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/MeshDefs.hh b/src/mesh/MeshDefs.hh
index 0219930..be373ea 100644
--- a/src/mesh/MeshDefs.hh
+++ b/src/mesh/MeshDefs.hh
@@ -185,8 +185,8 @@ std::string Entity_type_string(Entity_type const type) {
        "Entity_type::PARALLEL_OWNED", "Entity_type::PARALLEL_GHOST",
        "Entity_type::BOUNDARY_GHOST", "Entity_type::ALL"};
 
-  int itype = static_cast<int>(type);
-  return valid_entity_type(type) ? type_str[itype] : "";
+  int itype = static_cast<int>(type) + 1;  // the first type has value -1
+  return (itype >= 0 && itype < NUM_ENTITY_TYPES) ? type_str[itype] : "";
 }
 
 
-- 
2.43.0

