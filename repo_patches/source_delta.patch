From f882f1807927636c4e064dfc1d22303457d468f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:23 +0000
Subject: [PATCH 01/27] fix: do not merge triangles to concave or degenerated
 quads

---
 src/algorithm/MeshCleanup.h          | 5 +++++
 src/algorithm/ModificationStrategy.h | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/algorithm/MeshCleanup.h b/src/algorithm/MeshCleanup.h
index a98a48e..d3fcefc 100644
--- a/src/algorithm/MeshCleanup.h
+++ b/src/algorithm/MeshCleanup.h
@@ -757,6 +757,11 @@ public:
       Vertex& q_l = f_l->vertex(i_l);
       Vertex& q_r = f_r->vertex(i_r);
 
+      // Do not create concave or degenerated quadrilaterals
+      if ( !is_left( q_l.xy(), v1.xy(), q_r.xy() ) || 
+           !is_left( q_r.xy(), v2.xy(), q_l.xy() ) )
+        continue;
+
       // Remove internal edge
       mesh.remove_interior_edge( *e );
 
diff --git a/src/algorithm/ModificationStrategy.h b/src/algorithm/ModificationStrategy.h
index bf1208c..7afc6da 100644
--- a/src/algorithm/ModificationStrategy.h
+++ b/src/algorithm/ModificationStrategy.h
@@ -165,6 +165,11 @@ private:
       Vertex& q_l = f_l->vertex(i_l);
       Vertex& q_r = f_r->vertex(i_r);
 
+      // Do not create concave or degenerated quadrilaterals
+      if ( !is_left( q_l.xy(), v1.xy(), q_r.xy() ) || 
+           !is_left( q_r.xy(), v2.xy(), q_l.xy() ) )
+        continue;
+
       // Remove internal edge
       mesh_->remove_interior_edge( *e );
 
-- 
2.43.0


From c73f37e09f1d2906aea83262c8f5523a44f1ccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:23 +0000
Subject: [PATCH 02/27] fix: check all corners of quads when smoothing vertices

---
 src/algorithm/SmoothingStrategy.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/algorithm/SmoothingStrategy.h b/src/algorithm/SmoothingStrategy.h
index ec3570a..0a8fc6e 100644
--- a/src/algorithm/SmoothingStrategy.h
+++ b/src/algorithm/SmoothingStrategy.h
@@ -244,6 +244,10 @@ protected:
           return false;
         if ( orientation(v2, v3, v4) != Orientation::CCW )
           return false;
+        if ( orientation(v3, v4, v1) != Orientation::CCW )
+          return false;
+        if ( orientation(v4, v1, v2) != Orientation::CCW )
+          return false;
       }
     }
 
-- 
2.43.0


From 701fbc601b41405682ab58d1c31ba253f7c13f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:23 +0000
Subject: [PATCH 03/27] fix: triangulation of an already complete mesh
 dereferenced a null base edge

---
 src/algorithm/Triangulation.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/algorithm/Triangulation.h b/src/algorithm/Triangulation.h
index 2c0db33..fb58a0e 100644
--- a/src/algorithm/Triangulation.h
+++ b/src/algorithm/Triangulation.h
@@ -85,6 +85,10 @@ public:
     // Initialize the advancing front and its base edge
     Edge* base_edge = init_advancing_front();
 
+    // There is nothing to do if the mesh is already complete
+    if ( !base_edge )
+      return true;
+
     // Remove invalid mesh edges that are no longer needed
     remove_invalid_mesh_edges();
 
@@ -136,6 +140,10 @@ public:
     // Initialize the advancing front and its base edge
     Edge* base_edge = init_advancing_front();
 
+    // There is nothing to do if the mesh is already complete
+    if ( !base_edge )
+      return true;
+
     // Remove invalid mesh edges that are no longer needed
     remove_invalid_mesh_edges();
 
-- 
2.43.0


From 9daa1cfe90194f635ab778dd3d6a27937a6c33e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:23 +0000
Subject: [PATCH 04/27] fix: keep edge markers of boundary shapes that are
 listed in opposite direction

---
 src/algorithm/Boundary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/Boundary.h b/src/algorithm/Boundary.h
index fb168cb..1c1035a 100644
--- a/src/algorithm/Boundary.h
+++ b/src/algorithm/Boundary.h
@@ -363,7 +363,7 @@ private:
       for (int i = N-1; i >= 0; --i)
       {
         int j = MOD(i+1, N);
-        add_edge( *new_verts[j], *new_verts[i], e_colors[j] );
+        add_edge( *new_verts[j], *new_verts[i], e_colors[i] );
       }
     }
   };
-- 
2.43.0


From 30d1de7059e694635606d14c4f09b3083704f521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:33 +0000
Subject: [PATCH 05/27] fix: quad layers along a single edge ran around the
 entire front

---
 src/algorithm/QuadLayering.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index 743eaf5..2603fda 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -65,15 +65,14 @@ public:
     // Initialize edges
     Edge* e_cur = e_start_;
 
-    do 
+    while ( e_cur != e_end_ )
     {
       ASSERT( e_cur, "QuadLayerVertices::QuadLayerVertices(): "
         "Advancing front data structure seems to be corrupted.");
 
       add_quadlayer_edge( *e_cur );
       e_cur = e_cur->get_next_edge();
-
-    } while ( e_cur != e_end_ );
+    }
 
     // Add also the ending edge
     add_quadlayer_edge( *e_end_ );
-- 
2.43.0


From 79fbddddf666ead6de7f85c7024346c9724fe286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:33 +0000
Subject: [PATCH 06/27] fix: quad layers must not move domain corners or split
 edges with adjacent elements

---
 src/algorithm/QuadLayering.h | 80 ++++++++++++++++++++++++++++++++++--
 1 file changed, 76 insertions(+), 4 deletions(-)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index 2603fda..760db66 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -289,8 +289,14 @@ private:
       Vec2d delta_2 = v1_proj_xy_[0] - v1_base_[0]->xy(); 
       double s = dot(delta_1, delta_2) / delta_1.norm_sqr();
       Vec2d v_prev_new = v1_base_[0]->xy() + delta_1 * s;
-      MeshCleanup::set_vertex_coordinates(v_prev, v_prev_new);
-      v1_proj_xy_[0] = v_prev_new;
+
+      // If v_prev must stay in place, it is directly used as v1_proj
+      if ( vertex_can_be_shifted(v_prev, v_prev_new, v_start, 
+                                 *e_prev, e_prev->get_prev_edge(),
+                                 mesh_bdry_edges) )
+        MeshCleanup::set_vertex_coordinates(v_prev, v_prev_new);
+
+      v1_proj_xy_[0] = v_prev.xy();
       return;
     }
 
@@ -303,16 +309,28 @@ private:
       Edge* e_bdry_rem 
         = mesh_bdry_edges.get_edge(e_prev->v1(), e_prev->v2());
 
+      // Only boundary edges without elements behind them can be split
+      if ( !e_bdry_rem || e_bdry_rem->twin_edge() )
+        return;
+
       // Split the adjacent front edge in two smaller edges
       const Vec2d d1 = v_prev.xy() - v_start.xy();
       const Vec2d d2 = v1_proj_xy_[0] - v_start.xy();
       const double alpha = angle( d1, d2 );
       const double ang_fac = cos(alpha); 
+
+      // Avoid tiny edges
+      if ( ang_fac < min_split_ratio_ )
+        return;
+
       double sf = (h * ang_fac) / e_prev->length();
 
       auto new_edges 
         = front.split_edge(*e_prev, mesh_vertices, sf);
 
+      if ( !new_edges.first )
+        return;
+
       // Remove the splitted edge in the mesh data structure
       if ( e_bdry_rem )
       {
@@ -414,8 +432,14 @@ private:
       Vec2d delta_2 = v2_proj_xy_.back() - v_end.xy(); 
       double s = dot(delta_1, delta_2) / delta_1.norm_sqr();
       Vec2d v_next_new = v_end.xy() + delta_1 * s;
-      MeshCleanup::set_vertex_coordinates(v_next, v_next_new);
-      v2_proj_xy_.back() = v_next_new;
+
+      // If v_next must stay in place, it is directly used as v2_proj
+      if ( vertex_can_be_shifted(v_next, v_next_new, v_end, 
+                                 *e_next, e_next->get_next_edge(),
+                                 bdry_edges) )
+        MeshCleanup::set_vertex_coordinates(v_next, v_next_new);
+
+      v2_proj_xy_.back() = v_next.xy();
       return;
     }
 
@@ -427,15 +451,27 @@ private:
       // since it will be removed later on
       Edge* e_bdry_rem = bdry_edges.get_edge(e_next->v1(), e_next->v2());
 
+      // Only boundary edges without elements behind them can be split
+      if ( !e_bdry_rem || e_bdry_rem->twin_edge() )
+        return;
+
       // Split the adjacent front edge in two smaller edges
       const Vec2d d1 = v_next.xy() - v_end.xy();
       const Vec2d d2 = v2_proj_xy_.back() - v_end.xy();
       const double alpha = angle( d1, d2 );
       const double ang_fac = cos(alpha); 
+
+      // Avoid tiny edges
+      if ( ang_fac < min_split_ratio_ )
+        return;
+
       double sf = 1.0 - (h * ang_fac) / e_next->length();
 
       auto new_edges = front.split_edge(*e_next, verts, sf);
 
+      if ( !new_edges.first )
+        return;
+
       // Remove the splitted edge in the mesh data structure
       if ( e_bdry_rem ) 
       {
@@ -474,6 +510,39 @@ private:
 
   } // QuadLayerVertices::place_end_vertex()
 
+  /*------------------------------------------------------------------
+  | Check if the vertex v at the end of the edge e, which is adjacent 
+  | to the quad layer's base vertex v_base, can be shifted to the 
+  | position xy. This is only possible for vertices that are located 
+  | between two aligned boundary edges (e and its successor e_far) and
+  | as long as the vertex remains in between of them.
+  ------------------------------------------------------------------*/
+  bool vertex_can_be_shifted(const Vertex& v, const Vec2d& xy, 
+                             const Vertex& v_base, 
+                             const Edge& e, const Edge* e_far,
+                             const EdgeList& bdry_edges) const
+  {
+    if ( !e_far || v.is_fixed() || v.facets().size() > 0 )
+      return false;
+
+    const Edge* b1 = bdry_edges.get_edge( e.v1(), e.v2() );
+    const Edge* b2 = bdry_edges.get_edge( e_far->v1(), e_far->v2() );
+
+    if ( !b1 || !b2 || b1->twin_edge() || b2->twin_edge() 
+      || b1->color() != b2->color() )
+      return false;
+
+    const Vec2d& p = v_base.xy();
+    const Vec2d& q = (e_far->v1() == v) ? e_far->v2().xy() 
+                                        : e_far->v1().xy();
+
+    if ( !in_segment(p, q, v.xy()) || !in_segment(p, q, xy) )
+      return false;
+
+    return (q-xy).norm() > min_split_ratio_ * (xy-p).norm();
+
+  } // QuadLayerVertices::vertex_can_be_shifted()
+
   /*------------------------------------------------------------------
   | Add a new edge to the quad layer structure
   ------------------------------------------------------------------*/
@@ -510,6 +579,9 @@ private:
   double       height_       {  0.0  };
   double       angle_factor_ {  0.5  };
 
+  // Smallest size ratio of edges that are split or shifted 
+  static constexpr double min_split_ratio_ { 0.05 };
+
   EdgeVector   base_edges_ {};
   VertexVector v1_base_    {};
   VertexVector v2_base_    {};
-- 
2.43.0


From 61d7cf1e209ce04de8b218f6d803407d9ec0833e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:33 +0000
Subject: [PATCH 07/27] fix: quad layers created concave quads

---
 src/algorithm/QuadLayering.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index 760db66..9f90f9b 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -865,6 +865,12 @@ private:
     if ( !e_rem ) 
       return v_proj;
 
+    // Keep the triangles if the resulting quad would be concave 
+    if ( !is_left( v_proj_p1.xy(), v1_base.xy(), v_proj_p2.xy() ) ||
+         !is_left( v1_base.xy(), v2_base.xy(), v_proj_p2.xy() ) ||
+         !is_left( v2_base.xy(), v_proj_p2.xy(), v_proj_p1.xy() ) )
+      return v_proj;
+
     mesh_.remove_interior_edge( *e_rem );
 
     // Remove old triangular elements
-- 
2.43.0


From 2e5030dd63944ca0329870f0a435e453e803f30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:33 +0000
Subject: [PATCH 08/27] fix: quad layer gaps were closed on edges that have
 left the front

---
 src/algorithm/QuadLayering.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index 9f90f9b..3fe0e3a 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -945,6 +945,10 @@ private:
   ------------------------------------------------------------------*/
   void close_quad_layer_gap(Vertex& v_a, Vertex& v_b, Vertex& v_c)
   {
+    // There is no gap if its edges are not on the advancing front 
+    if ( !front_.get_edge(v_a, v_b, true) || !front_.get_edge(v_b, v_c, true) )
+      return;
+
     const Vec2d l1 = v_a.xy()-v_b.xy();
     const Vec2d l2 = v_c.xy()-v_b.xy();
     const double alpha = angle(l1,l2);
@@ -958,6 +962,8 @@ private:
         return;
        
       Edge* base = front_.get_edge( v_b, v_c );
+      ASSERT( base, "QuadLayering::close_quad_layer_gabs(): "
+        "Front data structure seems to be corrupted.");
       front_update_.advance_front( *base, v_a, *t_new );
 
       return;
-- 
2.43.0


From 0e5ac866906a61c0cf8a40df3da8dd05ccb850b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:33 +0000
Subject: [PATCH 09/27] fix: quad layer generation crashed on an exhausted
 front

---
 src/algorithm/QuadLayering.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index 3fe0e3a..4d9a577 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -1005,6 +1005,10 @@ private:
   bool find_start_and_ending_edges(const Vec2d& xy_start,
                                    const Vec2d& xy_end)
   {
+    // No layer can be added if the advancing front is already closed
+    if ( front_.size() < 1 )
+      return false;
+
     // Find closest vertices in current front structure to  
     // current start and ending vertex coordinates
     Vertex& v_start = front_.get_closest_vertex( xy_start );
-- 
2.43.0


From 36f6099ed44d3f33a85a9411c1cfeaf756e756ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:51 +0000
Subject: [PATCH 10/27] fix: merging meshes reported success on failure and
 kept algorithms of the erased donor

---
 src/algorithm/MeshGenerator.h | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/MeshGenerator.h b/src/algorithm/MeshGenerator.h
index 8132eb1..095aebd 100644
--- a/src/algorithm/MeshGenerator.h
+++ b/src/algorithm/MeshGenerator.h
@@ -131,10 +131,13 @@ public:
       if ( !mesh_builder_.remove_mesh_and_domain(donor) )
         return false;
 
+      // Algorithms of the donor must not survive the donor itself
+      reset_algorithms( donor );
+
       meshes_.erase( it );
     }
 
-    return true;
+    return success;
 
   } // MeshGenerator::merge_meshes()
 
@@ -248,6 +251,36 @@ public:
 
 private:
 
+  /*------------------------------------------------------------------
+  | Discard all algorithms that are connected to a specified mesh
+  ------------------------------------------------------------------*/
+  void reset_algorithms(Mesh& mesh)
+  {
+    if ( meshing_algorithm_ && &meshing_algorithm_->mesh() == &mesh )
+    {
+      meshing_algorithm_.reset();
+      meshing_algorithm_type_ = MeshingAlgorithm::None;
+    }
+
+    if ( smoothing_algorithm_ && &smoothing_algorithm_->mesh() == &mesh )
+    {
+      smoothing_algorithm_.reset();
+      smoothing_algorithm_type_ = SmoothingAlgorithm::None;
+    }
+
+    if ( refinement_algorithm_ && &refinement_algorithm_->mesh() == &mesh )
+    {
+      refinement_algorithm_.reset();
+      refinement_algorithm_type_ = RefinementAlgorithm::None;
+    }
+
+    if ( modification_algorithm_ && &modification_algorithm_->mesh() == &mesh )
+    {
+      modification_algorithm_.reset();
+      modification_algorithm_type_ = ModificationAlgorithm::None;
+    }
+  }
+
   /*------------------------------------------------------------------
   | Set a mesh generation algorithm for a specified mesh.
   | Returns false if the mesh is not connected to this MeshGenerator
-- 
2.43.0


From 839c6a7e165771f1501d4c47efa6f3dfb5fdabe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:04 +0000
Subject: [PATCH 11/27] fix: report failed mesh exports instead of returning
 success

---
 src/algorithm/MeshWriter.h | 10 ++++------
 src/app/TQMeshApp.h        | 14 +++++++++++---
 src/utils/VtkIO.h          |  4 +++-
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/algorithm/MeshWriter.h b/src/algorithm/MeshWriter.h
index b382b83..e7a6272 100644
--- a/src/algorithm/MeshWriter.h
+++ b/src/algorithm/MeshWriter.h
@@ -57,8 +57,8 @@ public:
     switch (export_type)
     {
       case MeshExportType::COUT:
-        std::cout << (*mesh_);
-        return true;
+        std::cout << (*mesh_) << std::flush;
+        return std::cout.good();
 
       case MeshExportType::TXT:
         return write_to_txt( filename );
@@ -90,7 +90,7 @@ private:
 
     outfile.close();
 
-    return true;
+    return outfile.good();
 
   } // MeshWriter::write_to_txt()
 
@@ -184,9 +184,7 @@ private:
     writer.add_cell_data( max_angle, "max_angle", 1 );
     writer.add_cell_data( cell_quality, "cell_quality", 1 );
 
-    writer.write( fullpath );
-
-    return true;
+    return writer.write( fullpath );
 
   } // MeshWriter::write_to_vtu()
 
diff --git a/src/app/TQMeshApp.h b/src/app/TQMeshApp.h
index 59d0a18..372a3da 100644
--- a/src/app/TQMeshApp.h
+++ b/src/app/TQMeshApp.h
@@ -205,21 +205,29 @@ private:
     LOG(INFO) << "\n";
 
     // Export the mesh
+    bool written = false;
+
     if ( output_format_ == "VTU" || output_format_ == "vtu" )
     {
       std::string filename { output_prefix_ + ".vtu" };
       LOG(INFO) << "Write mesh file to " << filename;
-      mesh_generator_.write_mesh(mesh, filename, MeshExportType::VTU);
+      written = mesh_generator_.write_mesh(mesh, filename, MeshExportType::VTU);
     }
     else if ( output_format_ == "TXT" || output_format_ == "txt" )
     {
       std::string filename { output_prefix_ + ".txt" };
       LOG(INFO) << "Write mesh file to " << filename;
-      mesh_generator_.write_mesh(mesh, filename, MeshExportType::TXT);
+      written = mesh_generator_.write_mesh(mesh, filename, MeshExportType::TXT);
     }
     else
     {
-      mesh_generator_.write_mesh(mesh, "DUMMY", MeshExportType::COUT);
+      written = mesh_generator_.write_mesh(mesh, "DUMMY", MeshExportType::COUT);
+    }
+
+    if ( !written )
+    {
+      LOG(ERROR) << "Failed to write the mesh.";
+      return false;
     }
 
     // Check if meshing algorithm succeeded
diff --git a/src/utils/VtkIO.h b/src/utils/VtkIO.h
index 7add4a4..eaf8108 100644
--- a/src/utils/VtkIO.h
+++ b/src/utils/VtkIO.h
@@ -179,7 +179,7 @@ public:
   /*------------------------------------------------------------------
   | Write the VTU file
   ------------------------------------------------------------------*/
-  void write(const std::string& file_name)
+  bool write(const std::string& file_name)
   {
     std::ofstream outfile;
     outfile.open(file_name);
@@ -221,6 +221,8 @@ public:
 
     outfile.close();
 
+    return outfile.good();
+
   } // VtuWriter::write()
 
 private:
-- 
2.43.0


From a21a8d8d15fb975aa802279d28d98f494721061f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:04 +0000
Subject: [PATCH 12/27] fix: exterior boundary edges accepted an out of range
 vertex index

---
 src/app/TQMeshApp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/TQMeshApp.h b/src/app/TQMeshApp.h
index 372a3da..ad07eff 100644
--- a/src/app/TQMeshApp.h
+++ b/src/app/TQMeshApp.h
@@ -610,7 +610,7 @@ private:
         int    m  = para_extr_bdry.get_value(2, i);
 
         // Throw error if indices are larger than number of vertices
-        if ( i1 > n_vertices || i2 > n_vertices )
+        if ( i1 >= n_vertices || i2 >= n_vertices )
           throw_error("Invalid exterior boundary definition: " 
             "Some vertex index is larger that the number of "
             "provided input vertices.");
-- 
2.43.0


From ee4cbbefc3d4b9dabbbc1e3a192cc56af1326030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:04 +0000
Subject: [PATCH 13/27] fix: convert2foam assigned boundary faces to wrong
 patches

---
 scripts/convert2foam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/convert2foam.py b/scripts/convert2foam.py
index d8abfbe..ba5634e 100644
--- a/scripts/convert2foam.py
+++ b/scripts/convert2foam.py
@@ -247,6 +247,7 @@ class TQMesh:
         ids = np.argsort(self.bdry_elems)
         self.bdry_edges = self.bdry_edges[ids]
         self.bdry_elems = self.bdry_elems[ids]
+        self.bdry_marker = self.bdry_marker[ids]
 
 
     def _swap_intr_edges(self):
@@ -436,7 +437,7 @@ class OpenFOAMMesh:
         boundary_data = []
         for name, (start_face, n_faces) in self.boundaries.items():
             boundary_data.append([name, (start_face, n_faces)])
-        boundary_data.sort(key = lambda entry: entry[0])
+        boundary_data.sort(key = lambda entry: entry[1][0])
 
         for name, (start_face, n_faces) in boundary_data:
             boundary_str += '    {:}\n    {{\n'.format(name)
-- 
2.43.0


From 50176d43ae7129f75af5dd945f5492adb59ceba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:54 +0000
Subject: [PATCH 14/27] fix: comments, blank lines and row lengths in matrix
 parameters

---
 src/utils/ParaReader.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/utils/ParaReader.h b/src/utils/ParaReader.h
index b3d65e7..af3f988 100644
--- a/src/utils/ParaReader.h
+++ b/src/utils/ParaReader.h
@@ -762,7 +762,7 @@ private:
     // Check for correct shape of input data
     size_t n_rows = out.size() / para.columns();
 
-    if ( out.size() != para.columns()*n_rows ) 
+    if ( n_rows < 1 || out.size() != para.columns()*n_rows ) 
       return false;
 
     // Resize the parameter values to initial size 
@@ -853,6 +853,10 @@ private:
 
     for ( size_t i = 0; i < sub_strings.size(); ++i )
     {
+      // Ignore blank lines
+      if ( sub_strings[i].find_first_not_of(" \t\r") == string::npos )
+        continue;
+
       string s;
       std::stringstream ss( sub_strings[i] );
 
@@ -890,6 +894,13 @@ private:
       if ( use_default_value )
         for ( ; j < para.columns(); ++j)
           out.push_back( default_value );
+
+      // Rows with missing entries lead to an invalid matrix
+      if ( j < para.columns() )
+        return {};
+
+      // Consider only defined number of columns
+      out.resize( out.size() + para.columns() - j );
     }
 
     return std::move(out);
@@ -937,7 +948,8 @@ private:
         continue;
       
       // Add line to content, if it not a comment line
-      content->push_back(line);
+      // -> Remove everything behind the comment identifier
+      content->push_back( line.substr(0, line.find(ParaFileComment)) );
     }
 
     if (!ifs.eof()) 
-- 
2.43.0


From 98b8c5db8cc35b22e12cef14a4780eb4bdfdb887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:47 +0000
Subject: [PATCH 15/27] fix: moving an item onto a quad tree border corrupted
 the tree

---
 src/utils/Container.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/utils/Container.h b/src/utils/Container.h
index 1fc3946..2e6322b 100644
--- a/src/utils/Container.h
+++ b/src/utils/Container.h
@@ -192,9 +192,16 @@ public:
   ------------------------------------------------------------------*/
   bool update(T& item, const Vec2d& xy_new)
   {
-    auto quad = qtree_.get_leaf( item.xy() );
+    auto quad_old = qtree_.get_leaf( item.xy() );
+    auto quad_new = qtree_.get_leaf( xy_new );
 
-    if ( in_on_rect(xy_new, quad->lowleft(), quad->upright()) )
+    // Items must not leave the quad tree
+    if ( !quad_old || !quad_new )
+      return false;
+
+    // Note: Locations on the border between several leafs are assigned
+    // to a single leaf only
+    if ( quad_old == quad_new )
     {
       item.xy_ = xy_new;
       return true;
-- 
2.43.0


From 64af119d9749bb148e0ba075c39ba349ea0e44fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:47 +0000
Subject: [PATCH 16/27] fix: nearest item query missed distant items

---
 src/utils/QuadTree.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/utils/QuadTree.h b/src/utils/QuadTree.h
index 31cbb9f..6832da2 100644
--- a/src/utils/QuadTree.h
+++ b/src/utils/QuadTree.h
@@ -12,6 +12,7 @@
 #include <array>     // std::array
 #include <stdexcept> // std::runtime_error
 #include <iomanip>   // std::setprecision
+#include <limits>    // std::numeric_limits
 #include <iostream>  // std::to_string
 
 #include "VecND.h"
@@ -187,9 +188,26 @@ public:
                  NearestQuery qfun = &(quadtree_nearest_query_fun)) const
   {
     auto quad = get_leaf(query);
+    T* winner = nullptr;
 
-    V min_dist_sqr = 4 * quad->scale() * quad->scale();
-    T* winner      = nullptr;
+    // Queries outside of the tree must consider all items
+    if ( !quad )
+    {
+      Vector all {};
+      V min_dist_sqr = std::numeric_limits<V>::max();
+
+      get_items(lowleft_, upright_, all);
+
+      for ( auto item : all )
+        if ( qfun(item, query, min_dist_sqr ) )
+          winner = item;
+
+      return winner;
+    }
+
+    // Empty leafs feature siblings with items, which are located 
+    // within a distance of the parent's diagonal 
+    V min_dist_sqr = 9 * quad->scale() * quad->scale();
 
     for ( auto item : quad->items() )
       if ( qfun(item, query, min_dist_sqr ) )
-- 
2.43.0


From 68e10b3f5e62bd0c9138769872f07f9648e9f713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:16 +0000
Subject: [PATCH 17/27] fix: domain validation missed crossing boundaries and
 empty boundaries

---
 src/algorithm/EdgeList.h     | 24 ++++++++++++++++++++----
 src/algorithm/EntityChecks.h |  6 ++++++
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/algorithm/EdgeList.h b/src/algorithm/EdgeList.h
index 51085ab..e1b2f33 100644
--- a/src/algorithm/EdgeList.h
+++ b/src/algorithm/EdgeList.h
@@ -401,6 +401,12 @@ public:
   ------------------------------------------------------------------*/
   bool intersects_self(void) const
   {
+    // Edges are located through their midpoints, which might be placed
+    // outside of the bounding box of an intersecting edge
+    double delta = 0.0;
+    for ( const auto& e_ptr : edges_ )
+      delta = MAX(delta, 0.5 * e_ptr->length());
+
     for ( const auto& e_ptr : edges_ )
     {
       Edge* e_prev = e_ptr->get_prev_edge();
@@ -409,8 +415,10 @@ public:
       const Vec2d& xy_1 = e_ptr->v1().xy();
       const Vec2d& xy_2 = e_ptr->v2().xy();
 
-      const Vec2d ll = { MIN(xy_1.x, xy_2.x), MIN(xy_1.y, xy_2.y) };
-      const Vec2d ur = { MAX(xy_1.x, xy_2.x), MAX(xy_1.y, xy_2.y) };
+      const Vec2d ll = { MIN(xy_1.x, xy_2.x) - delta, 
+                         MIN(xy_1.y, xy_2.y) - delta };
+      const Vec2d ur = { MAX(xy_1.x, xy_2.x) + delta, 
+                         MAX(xy_1.y, xy_2.y) + delta };
 
       auto found_edges = edges_.get_items(ll, ur);
 
@@ -438,13 +446,21 @@ public:
   ------------------------------------------------------------------*/
   bool intersects_edgelist(const EdgeList& edge_list) const
   {
+    // Edges are located through their midpoints, which might be placed
+    // outside of the bounding box of an intersecting edge
+    double delta = 0.0;
+    for ( const auto& e_ptr : edge_list.edges() )
+      delta = MAX(delta, 0.5 * e_ptr->length());
+
     for ( const auto& e_ptr : edges_ )
     {
       const Vec2d& xy_1 = e_ptr->v1().xy();
       const Vec2d& xy_2 = e_ptr->v2().xy();
 
-      const Vec2d ll = { MIN(xy_1.x, xy_2.x), MIN(xy_1.y, xy_2.y) };
-      const Vec2d ur = { MAX(xy_1.x, xy_2.x), MAX(xy_1.y, xy_2.y) };
+      const Vec2d ll = { MIN(xy_1.x, xy_2.x) - delta, 
+                         MIN(xy_1.y, xy_2.y) - delta };
+      const Vec2d ur = { MAX(xy_1.x, xy_2.x) + delta, 
+                         MAX(xy_1.y, xy_2.y) + delta };
 
       auto found_edges = edge_list.edges().get_items(ll, ur);
 
diff --git a/src/algorithm/EntityChecks.h b/src/algorithm/EntityChecks.h
index 0df8450..41de6e4 100644
--- a/src/algorithm/EntityChecks.h
+++ b/src/algorithm/EntityChecks.h
@@ -62,6 +62,12 @@ public:
     // Check if domain boundaries are traversable
     for ( const auto& boundary : domain )
     {
+      if ( boundary->size() < 1 )
+      {
+        LOG(ERROR) << "Invalid domain: Boundary without edges.";
+        return false;
+      }
+
       Edge& e_start = boundary->edges()[0];
 
       if ( !boundary->is_traversable(e_start, e_start) )
-- 
2.43.0


From e9177abd7906ac5ac1fda68a58750d3134c61a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:10 +0000
Subject: [PATCH 18/27] fix: merging triangles to quads mixed elements of
 different colors

---
 src/algorithm/MeshCleanup.h          | 6 +++++-
 src/algorithm/ModificationStrategy.h | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/MeshCleanup.h b/src/algorithm/MeshCleanup.h
index d3fcefc..b229440 100644
--- a/src/algorithm/MeshCleanup.h
+++ b/src/algorithm/MeshCleanup.h
@@ -762,11 +762,15 @@ public:
            !is_left( q_r.xy(), v2.xy(), q_l.xy() ) )
         continue;
 
+      // Do not merge triangles of different colors
+      if ( f_l->color() != f_r->color() )
+        continue;
+
       // Remove internal edge
       mesh.remove_interior_edge( *e );
 
       // Create new quadrilateral element
-      Quad& q_new = mesh.add_quad( q_l, v1, q_r, v2 );
+      Quad& q_new = mesh.add_quad( q_l, v1, q_r, v2, f_l->color() );
       q_new.is_active( true );
 
       // Update internal edge connectivity to prevent bad memory 
diff --git a/src/algorithm/ModificationStrategy.h b/src/algorithm/ModificationStrategy.h
index 7afc6da..043b4af 100644
--- a/src/algorithm/ModificationStrategy.h
+++ b/src/algorithm/ModificationStrategy.h
@@ -170,6 +170,10 @@ private:
            !is_left( q_r.xy(), v2.xy(), q_l.xy() ) )
         continue;
 
+      // Do not merge triangles of different colors
+      if ( f_l->color() != f_r->color() )
+        continue;
+
       // Remove internal edge
       mesh_->remove_interior_edge( *e );
 
-- 
2.43.0


From c22831a78df8097ba9a6bda257db09661d550c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:20 +0000
Subject: [PATCH 19/27] fix: quad layer smoothing used boundary directions of
 wrong vertices

---
 src/algorithm/SmoothingStrategy.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/SmoothingStrategy.h b/src/algorithm/SmoothingStrategy.h
index 0a8fc6e..95586e0 100644
--- a/src/algorithm/SmoothingStrategy.h
+++ b/src/algorithm/SmoothingStrategy.h
@@ -78,8 +78,13 @@ protected:
     if ( !quad_layer_smoothing_ )
       return;
 
+    std::size_t i_v = 0;
+
     for ( auto& v_ptr : vertices )
     {
+      // Directions must be stored in the order of the mesh vertices
+      Vec2d& bdry_dir = bdry_direction_[i_v++];
+
       // Skip all vertices except those located in quad layers
       if ( !v_ptr->has_property(VertexProperty::in_quad_layer) )
         continue;
@@ -103,7 +108,7 @@ protected:
       const Vec2d p_xy = e1_xy + t * delta_e;
       const Vec2d delta_p = p_xy - v_xy;
 
-      bdry_direction_.push_back( delta_p / delta_p.norm() );
+      bdry_dir = delta_p / delta_p.norm();
     }
 
   } // collect_dispalcement_directions()
-- 
2.43.0


From e513dbbbb31cd5a57a81b3a2db394f112c838cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:52 +0000
Subject: [PATCH 20/27] fix: domain extent must not include the origin unless a
 vertex lies there

---
 src/algorithm/Domain.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/Domain.h b/src/algorithm/Domain.h
index 6a64271..6fac721 100644
--- a/src/algorithm/Domain.h
+++ b/src/algorithm/Domain.h
@@ -219,8 +219,11 @@ public:
   ------------------------------------------------------------------*/
   std::pair<Vec2d,Vec2d> extent() const 
   {
-    Vec2d x_extent { 0.0, 0.0 };
-    Vec2d y_extent { 0.0, 0.0 };
+    if ( verts_.size() < 1 )
+      return { {0.0, 0.0}, {0.0, 0.0} };
+
+    Vec2d x_extent { verts_.front().x(), verts_.front().x() };
+    Vec2d y_extent { verts_.front().y(), verts_.front().y() };
 
     for ( const auto& v : verts_ )
     {
-- 
2.43.0


From aec48d5253aa5a7a1cd2651f5b59be7b56ba89b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:57 +0000
Subject: [PATCH 21/27] fix: merging unfinished meshes left dangling twin edges

---
 src/algorithm/MeshMerger.h | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/algorithm/MeshMerger.h b/src/algorithm/MeshMerger.h
index 492fd5d..21acde4 100644
--- a/src/algorithm/MeshMerger.h
+++ b/src/algorithm/MeshMerger.h
@@ -109,11 +109,9 @@ private:
       if ( !e_twin )
         continue;
 
-      Facet* f_twin = e_twin->facet_l();
-      ASSERT( f_twin, "MeshBuilder::merge_meshes(): "
-        "Invalid boundary edge connectivity." );
-
-      if ( f_twin->mesh() != donor_ )
+      // Note that twin edges might not be connected to a facet, if
+      // the meshes are not completed
+      if ( &e_twin->edgelist() != &donor_->boundary_edges() )
         continue;
 
       auto v1_index = e_twin->v1().index();
@@ -240,9 +238,7 @@ private:
       Edge* e_twin = e_ptr->twin_edge();
 
       // Skip if edge is an interface to this mesh
-      if ( e_twin && 
-           e_twin->facet_l() && 
-           e_twin->facet_l()->mesh() == receiver_ )
+      if ( e_twin && &e_twin->edgelist() == &receiver_->boundary_edges() )
         continue;
 
       auto v1_index = e_ptr->v1().index();
@@ -281,11 +277,7 @@ private:
       if ( !e_twin )
         continue;
 
-      Facet* f_twin = e_twin->facet_l();
-      ASSERT( f_twin, "MeshMerger::convert_boundary_interface_edges(): "
-          "Invalid boundary edge connectivity." );
-
-      if ( f_twin->mesh() != donor_ )
+      if ( &e_twin->edgelist() != &donor_->boundary_edges() )
         continue;
 
       auto v1_index = e_twin->v1().index();
-- 
2.43.0


From 3160d41934bb81ba67ac38a4c0e5eb0096291050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:13 +0000
Subject: [PATCH 22/27] fix: VTU data arrays were deleted through a base class
 without virtual destructor

---
 src/utils/VtkIO.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/VtkIO.h b/src/utils/VtkIO.h
index eaf8108..1b0ca31 100644
--- a/src/utils/VtkIO.h
+++ b/src/utils/VtkIO.h
@@ -76,6 +76,8 @@ inline const char* VtkIOTypeTraits<double>::name = "Float64";
 class VtkIODataInterface
 {
 public:
+  virtual ~VtkIODataInterface() = default;
+
   virtual const std::string& name() const = 0;
   virtual size_t dim() const = 0;
   virtual const char* type() const = 0;
-- 
2.43.0


From 07e805fd314fa187f89e88f10589715e2bc44474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:13 +0000
Subject: [PATCH 23/27] fix: application cut off the spatial index at the given
 boundary vertices

---
 src/app/TQMeshApp.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/app/TQMeshApp.h b/src/app/TQMeshApp.h
index ad07eff..5a7601d 100644
--- a/src/app/TQMeshApp.h
+++ b/src/app/TQMeshApp.h
@@ -845,8 +845,9 @@ private:
         domain_extent_ = MAX(domain_extent_, ABS(y));
       }
 
-      // Double extent and enlarge slightly
-      domain_extent_ *= 2.1;
+      // Double extent and enlarge slightly. Other boundaries and meshes 
+      // may exceed the given vertices -> use at least the default extent
+      domain_extent_ = MAX(2.1 * domain_extent_, ContainerQuadTreeScale);
     }
     // No input vertices given 
     // -> Set domain extent to large value
-- 
2.43.0


From 9eb8e2193325042aca42fc2af6e899ca37617074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:13 +0000
Subject: [PATCH 24/27] fix: an empty mesh of a self-crossing domain without
 net area counted as complete

---
 src/algorithm/MeshChecker.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/algorithm/MeshChecker.h b/src/algorithm/MeshChecker.h
index 7e09fca..6e1f417 100644
--- a/src/algorithm/MeshChecker.h
+++ b/src/algorithm/MeshChecker.h
@@ -57,6 +57,9 @@ public:
     // The mesh may not contain any advancing front edges
     complete &= ( mesh_->get_front_edges().size() == 0 );
 
+    // The mesh must contain elements
+    complete &= ( mesh_->n_elements() > 0 );
+
     // Check the mesh connectivity
     complete &= EntityChecks::check_mesh_validity( *mesh_ );
 
-- 
2.43.0


From 5a517c93ddc2a48de24fa136220074e2cd97c7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:13 +0000
Subject: [PATCH 25/27] fix: convert2foam wrote internal faces in wrong order

---
 scripts/convert2foam.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scripts/convert2foam.py b/scripts/convert2foam.py
index ba5634e..98a2d13 100644
--- a/scripts/convert2foam.py
+++ b/scripts/convert2foam.py
@@ -229,12 +229,13 @@ class TQMesh:
         self.bdry_elems = self.bdry_elems[bdry_ids]
 
     def _sort_intr_edges(self):
-        ''' Sort interior edges by indices of their left
-        neighbouring elements.
+        ''' Sort interior edges by the indices of their owner (right)
+        and their neighbour (left) elements, since OpenFOAM requires
+        faces in upper triangular order.
         '''
         if self.intr_elems.shape[0] < 1:
             return
-        ids = np.argsort(self.intr_elems[:,0])
+        ids = np.lexsort((self.intr_elems[:,0], self.intr_elems[:,1]))
         self.intr_edges = self.intr_edges[ids]
         self.intr_elems = self.intr_elems[ids]
 
-- 
2.43.0


From 5503084aa2a7b0fc3a858af3c15561463e20eca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:14 +0000
Subject: [PATCH 26/27] fix: invalid size functions made the application run
 forever

---
 src/algorithm/Domain.h    | 2 +-
 src/app/size_function.cpp | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/Domain.h b/src/algorithm/Domain.h
index 6fac721..6e83758 100644
--- a/src/algorithm/Domain.h
+++ b/src/algorithm/Domain.h
@@ -50,7 +50,7 @@ public:
     // The underlying size function
     const double h_fun = f_(xy);
 
-    if ( h_fun <= 0.0 )
+    if ( h_fun <= 0.0 || !std::isfinite(h_fun) )
       TERMINATE("SizeFunction::evaluate(): Encountered invalid value (<=0).");
 
     double h = h_fun;
diff --git a/src/app/size_function.cpp b/src/app/size_function.cpp
index e2c8831..f128aa8 100644
--- a/src/app/size_function.cpp
+++ b/src/app/size_function.cpp
@@ -33,7 +33,9 @@ UserSizeFunction init_size_function(const std::string& expr)
   symbol_table.add_variable("x", x_size_function);
   symbol_table.add_variable("y", y_size_function);
   expression.register_symbol_table(symbol_table);
-  parser.compile(expr, expression);
+
+  if ( !parser.compile(expr, expression) )
+    throw_error("Invalid size function definition: " + expr);
 
   UserSizeFunction f = [](const Vec2d& p) 
   { 
-- 
2.43.0


From 375e4092f6444bfc771d7f987b517eaf3662b412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:59 +0000
Subject: [PATCH 27/27] fix: consider long neighboring edges in the
 intersection checks of new triangles

The vicinity in which a new triangle is tested for intersections was
derived from its own size only. Next to a much longer edge the conflict
was overlooked and overlapping elements were generated.
---
 src/algorithm/FrontUpdate.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/FrontUpdate.h b/src/algorithm/FrontUpdate.h
index ec9f55c..85021df 100644
--- a/src/algorithm/FrontUpdate.h
+++ b/src/algorithm/FrontUpdate.h
@@ -132,6 +132,10 @@ public:
     // Mark new triangle as active
     t_new.is_active( true );
 
+    // Keep track of the largest edge length, such that elements next to
+    // long edges are considered in the intersection checks
+    max_edge_length_ = MAX( max_edge_length_, t_new.max_edge_length() );
+
     // Add element area to the total mesh area
     mesh_.add_area( t_new.area() );
 
@@ -330,7 +334,8 @@ private:
     Quads&         quads = mesh_.quads();
 
     const double rho   = domain_.size_function( tri.xy() );
-    const double range = MAX( 2.0 * rho, tri.max_edge_length() );
+    const double range = MAX( 2.0 * rho, tri.max_edge_length() 
+                                       + max_edge_length_ );
 
     DEBUG_LOG("CHECK NEW TRIANGLE: " << tri);
 
@@ -423,6 +428,7 @@ private:
 
   double          min_cell_quality_ = 0.0;
   double          max_cell_angle_   = M_PI;
+  double          max_edge_length_  = 0.0;
 
 }; // FrontUpdate
 
-- 
2.43.0

