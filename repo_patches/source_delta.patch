From e1ff418e0e12b2fa8f4e82eed2b54c3e1dea6b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 01/48] fix: size the contact outputs in shell::resize, and
 keep the shell on failure

The output vector was only reserved, so every access to it was out of its
bounds (and out of its storage with more than 200 ribs). A failing resize
also left the shell without ribs.
---
 src/shell.cc         | 21 +++++++++++----------
 toolbox/src/shell.cc | 21 +++++++++++----------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 0f17f9a..621f840 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -77,16 +77,14 @@ namespace enve
     ENVE_ASSERT(size > size_t(0),
       CMD "negative ribs number detected.");
 
-    // Resize the contact point, friction and normal vectors
-    for (size_t i = 0; i < this->m_candidates.size(); ++i)
-      {this->m_candidates[i].clear();}
-    this->m_ribs.clear();       this->m_ribs.reserve(200);
-    this->m_out.clear();        this->m_out.reserve(200);
-    this->m_candidates.clear(); this->m_candidates.reserve(200);
-
-    this->m_candidates.resize(size);
+    // Prepare the new ribs, contact parameters and candidates aside, so that
+    // a failure leaves the shell as it was
+    std::vector<rib>                    ribs;
+    std::vector<output>                 out(size);
+    std::vector<triangleground::vecptr> candidates(size);
+    ribs.reserve(size);
     for (size_t i = 0; i < size; ++i)
-      {this->m_candidates[i].reserve(200);}
+      {candidates[i].reserve(200);}
 
     // Locate the disks
     real shellWidth = this->m_shape->surfaceWidth();
@@ -104,8 +102,11 @@ namespace enve
         CMD "NaN rib radius detected.");
       ENVE_ASSERT(ribA == ribA,
         CMD "NaN rib angle detected.");
-      this->m_ribs.emplace_back(i, ribR, ribY, ribW, ribA);
+      ribs.emplace_back(i, ribR, ribY, ribW, ribA);
     }
+    this->m_ribs.swap(ribs);
+    this->m_out.swap(out);
+    this->m_candidates.swap(candidates);
 
     #undef CMD
   }
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 0f17f9a..621f840 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -77,16 +77,14 @@ namespace enve
     ENVE_ASSERT(size > size_t(0),
       CMD "negative ribs number detected.");
 
-    // Resize the contact point, friction and normal vectors
-    for (size_t i = 0; i < this->m_candidates.size(); ++i)
-      {this->m_candidates[i].clear();}
-    this->m_ribs.clear();       this->m_ribs.reserve(200);
-    this->m_out.clear();        this->m_out.reserve(200);
-    this->m_candidates.clear(); this->m_candidates.reserve(200);
-
-    this->m_candidates.resize(size);
+    // Prepare the new ribs, contact parameters and candidates aside, so that
+    // a failure leaves the shell as it was
+    std::vector<rib>                    ribs;
+    std::vector<output>                 out(size);
+    std::vector<triangleground::vecptr> candidates(size);
+    ribs.reserve(size);
     for (size_t i = 0; i < size; ++i)
-      {this->m_candidates[i].reserve(200);}
+      {candidates[i].reserve(200);}
 
     // Locate the disks
     real shellWidth = this->m_shape->surfaceWidth();
@@ -104,8 +102,11 @@ namespace enve
         CMD "NaN rib radius detected.");
       ENVE_ASSERT(ribA == ribA,
         CMD "NaN rib angle detected.");
-      this->m_ribs.emplace_back(i, ribR, ribY, ribW, ribA);
+      ribs.emplace_back(i, ribR, ribY, ribW, ribA);
     }
+    this->m_ribs.swap(ribs);
+    this->m_out.swap(out);
+    this->m_candidates.swap(candidates);
 
     #undef CMD
   }
-- 
2.43.0


From 075de7db04aac22c436f1d917bc009c18e1d054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 02/48] fix: refuse mesh files whose elements name missing
 nodes

The indices read from *.rdf and *.obj files were used without comparing them
with the number of nodes, reading memory out of bounds.
---
 src/mesh.cc         | 8 ++++++++
 toolbox/src/mesh.cc | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/mesh.cc b/src/mesh.cc
index db7bf1c..4bb3f11 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -308,6 +308,10 @@ namespace enve
             CMD "element 1 index cannot be negative.");
           ENVE_ASSERT(i_element[2] >= integer(0),
             CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[0]) < nodes.size() &&
+                      size_t(i_element[1]) < nodes.size() &&
+                      size_t(i_element[2]) < nodes.size(),
+            CMD "element index names no node.");
           ENVE_ASSERT(i_friction >= real(0.0),
             CMD "element friction cannot be negative.");
 
@@ -424,6 +428,10 @@ namespace enve
             CMD "element 1 index cannot be negative.");
           ENVE_ASSERT(i_element[2] >= integer(0),
             CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[0]) < nodes.size() &&
+                      size_t(i_element[1]) < nodes.size() &&
+                      size_t(i_element[2]) < nodes.size(),
+            CMD "element index names no node.");
 
           // Create a shared pointer for the last triangle
           this->m_triangles.push_back(
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index db7bf1c..4bb3f11 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -308,6 +308,10 @@ namespace enve
             CMD "element 1 index cannot be negative.");
           ENVE_ASSERT(i_element[2] >= integer(0),
             CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[0]) < nodes.size() &&
+                      size_t(i_element[1]) < nodes.size() &&
+                      size_t(i_element[2]) < nodes.size(),
+            CMD "element index names no node.");
           ENVE_ASSERT(i_friction >= real(0.0),
             CMD "element friction cannot be negative.");
 
@@ -424,6 +428,10 @@ namespace enve
             CMD "element 1 index cannot be negative.");
           ENVE_ASSERT(i_element[2] >= integer(0),
             CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[0]) < nodes.size() &&
+                      size_t(i_element[1]) < nodes.size() &&
+                      size_t(i_element[2]) < nodes.size(),
+            CMD "element index names no node.");
 
           // Create a shared pointer for the last triangle
           this->m_triangles.push_back(
-- 
2.43.0


From 2844c8d90b536bffdb934a0e87a7e20777710a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 03/48] fix: report read errors in mesh::load

A read error while loading ended the parsing loop like the end of the file
does, and the partial mesh was returned as loaded.
---
 src/mesh.cc         | 8 ++++++++
 toolbox/src/mesh.cc | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/mesh.cc b/src/mesh.cc
index 4bb3f11..af77479 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -328,6 +328,10 @@ namespace enve
       std::cout
         << "Done" << std::endl;
 
+      // Check that the whole file has been read
+      ENVE_ASSERT(!file.bad(),
+        CMD "error while reading file.");
+
       // Perform safety check
       ENVE_ASSERT(nodes.size() == nodes_count && this->m_triangles.size() == elements_count,
         CMD "safety check not passed.");
@@ -451,6 +455,10 @@ namespace enve
       std::cout
         << "Done" << std::endl;
 
+      // Check that the whole file has been read
+      ENVE_ASSERT(!file.bad(),
+        CMD "error while reading file.");
+
       // Perform safety check
       ENVE_ASSERT(nodes.size() == nodes_count && this->m_triangles.size() == elements_count,
         CMD "safety check not passed.");
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index 4bb3f11..af77479 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -328,6 +328,10 @@ namespace enve
       std::cout
         << "Done" << std::endl;
 
+      // Check that the whole file has been read
+      ENVE_ASSERT(!file.bad(),
+        CMD "error while reading file.");
+
       // Perform safety check
       ENVE_ASSERT(nodes.size() == nodes_count && this->m_triangles.size() == elements_count,
         CMD "safety check not passed.");
@@ -451,6 +455,10 @@ namespace enve
       std::cout
         << "Done" << std::endl;
 
+      // Check that the whole file has been read
+      ENVE_ASSERT(!file.bad(),
+        CMD "error while reading file.");
+
       // Perform safety check
       ENVE_ASSERT(nodes.size() == nodes_count && this->m_triangles.size() == elements_count,
         CMD "safety check not passed.");
-- 
2.43.0


From 483a5340171ce9c4eaf833b7f76cce3312a8e47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 04/48] fix: skip empty lines in *.rdf files

Empty lines are meant to be skipped, but the first token of an empty line is
empty, so that they were taken for malformed records.
---
 src/mesh.cc         | 2 +-
 toolbox/src/mesh.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh.cc b/src/mesh.cc
index af77479..dfd5632 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -273,7 +273,7 @@ namespace enve
           // Treated as a sigle-line comment
           continue;
         }
-        else if (token[0] == '%' || token[0] == '#' || token[0] == '\r')
+        else if (token.empty() || token[0] == '%' || token[0] == '#' || token[0] == '\r')
         {
           // Check comments or empty lines
           continue;
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index af77479..dfd5632 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -273,7 +273,7 @@ namespace enve
           // Treated as a sigle-line comment
           continue;
         }
-        else if (token[0] == '%' || token[0] == '#' || token[0] == '\r')
+        else if (token.empty() || token[0] == '%' || token[0] == '#' || token[0] == '\r')
         {
           // Check comments or empty lines
           continue;
-- 
2.43.0


From ebcfa720b4e9afd07c140f2c33b83e1d330c3204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 05/48] fix: let empty AABB trees intersect nothing

Querying an empty tree (e.g., the tree of a mesh without triangles)
dereferenced a null pointer.
---
 toolbox/src/AABBtree.cc       | 4 ++++
 toolbox/src/acme/AABBtree.hxx | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/toolbox/src/AABBtree.cc b/toolbox/src/AABBtree.cc
index a7aee91..be2e137 100644
--- a/toolbox/src/AABBtree.cc
+++ b/toolbox/src/AABBtree.cc
@@ -218,6 +218,10 @@ namespace acme
   )
     const
   {
+    // Empty trees have no box
+    if (this->isEmpty() || tree.isEmpty())
+      {return;}
+
     if (!tree.m_ptrbox->intersects(*this->m_ptrbox))
       return;
     integer icase = (this->m_children.empty() ? 0 : 1) +
diff --git a/toolbox/src/acme/AABBtree.hxx b/toolbox/src/acme/AABBtree.hxx
index 5a0dae1..6d9a386 100644
--- a/toolbox/src/acme/AABBtree.hxx
+++ b/toolbox/src/acme/AABBtree.hxx
@@ -106,6 +106,10 @@ namespace acme
       const
     {
 
+      // empty trees have no box
+      if (this->isEmpty() || tree.isEmpty())
+        {return false;}
+
       // check aabb with
       if (!tree.m_ptrbox->intersects(*this->m_ptrbox))
         {return false;}
-- 
2.43.0


From e91709e290934a86cb0c48822c4aa4a2ef616df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 06/48] fix: keep triangles, boxes and tree of a mesh in step

Copying a mesh copied its triangles only, and clearing it kept the tree, so
that later queries used boxes of other triangles (out of bounds when these
were fewer). Loading into a mesh in use appended to it, with element ids of
the new file, and a failing load left part of the file behind. Meshes made
from triangles whose ids are not their positions returned wrong triangles.
---
 src/enve/mesh.hxx         |  6 +++--
 src/mesh.cc               | 53 ++++++++++++++++++++++++---------------
 toolbox/src/enve/mesh.hxx |  6 +++--
 toolbox/src/mesh.cc       | 53 ++++++++++++++++++++++++---------------
 4 files changed, 74 insertions(+), 44 deletions(-)

diff --git a/src/enve/mesh.hxx b/src/enve/mesh.hxx
index 9195e6e..593d3d5 100755
--- a/src/enve/mesh.hxx
+++ b/src/enve/mesh.hxx
@@ -159,9 +159,11 @@ namespace enve
       buildAABBtree(void);
 
     private:
-      //! Update the mesh bounding boxes pointers
+      //! Assign the triangles together with their bounding boxes and AABB tree
       void
-      updateBBoxes(void);
+      assign(
+        triangleground::vecptr triangles //!< Ground triangles pointers vector
+      );
 
       //! Split a string into a string array at a given token
       void
diff --git a/src/mesh.cc b/src/mesh.cc
index dfd5632..e68f9c2 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -62,8 +62,7 @@ namespace enve
     )
       : mesh()
     {
-      this->m_triangles = triangles;
-      this->buildAABBtree();
+      this->assign(triangles);
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -106,7 +105,7 @@ namespace enve
       mesh const & mesh_obj
     )
     {
-      this->m_triangles = mesh_obj.m_triangles;
+      this->assign(mesh_obj.m_triangles);
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -120,6 +119,8 @@ namespace enve
           {this->m_triangles[i].reset();}
       }
       this->m_triangles.clear();
+      this->m_bboxes.clear();
+      this->m_AABBtree->clear();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -239,7 +240,8 @@ namespace enve
       // Vector for nodes coordinates
       std::vector<point> nodes;
       nodes.reserve(25000);
-      this->m_triangles.reserve(100000);
+      triangleground::vecptr triangles;
+      triangles.reserve(100000);
       size_t nodes_count    = size_t(0);
       size_t elements_count = size_t(0);
       bool   nodes_parse    = false;
@@ -316,7 +318,7 @@ namespace enve
             CMD "element friction cannot be negative.");
 
           // Create a shared pointer for the last triangle
-          this->m_triangles.push_back(
+          triangles.push_back(
             std::make_shared<triangleground const>(
               elements_count, i_friction,
               nodes[i_element[0]], nodes[i_element[1]], nodes[i_element[2]]
@@ -333,11 +335,11 @@ namespace enve
         CMD "error while reading file.");
 
       // Perform safety check
-      ENVE_ASSERT(nodes.size() == nodes_count && this->m_triangles.size() == elements_count,
+      ENVE_ASSERT(nodes.size() == nodes_count && triangles.size() == elements_count,
         CMD "safety check not passed.");
 
       file.close();
-      if (this->m_triangles.empty())
+      if (triangles.empty())
       {
         ENVE_ERROR(CMD "*.rdf loaded mesh is empty.");
         //return false;
@@ -347,7 +349,7 @@ namespace enve
         // Update the local intersected triangles list
         std::cout
           << "Building AABB tree... ";
-        this->buildAABBtree();
+        this->assign(triangles);
         std::cout
           << "Done" << std::endl
           << std::endl;
@@ -391,7 +393,8 @@ namespace enve
       // Vector for nodes coordinates
       std::vector<point> nodes;
       nodes.reserve(25000);
-      this->m_triangles.reserve(100000);
+      triangleground::vecptr triangles;
+      triangles.reserve(100000);
       size_t nodes_count    = size_t(0);
       size_t elements_count = size_t(0);
 
@@ -438,7 +441,7 @@ namespace enve
             CMD "element index names no node.");
 
           // Create a shared pointer for the last triangle
-          this->m_triangles.push_back(
+          triangles.push_back(
             std::make_shared<triangleground const>(
               elements_count, friction,
               nodes[i_element[0]], nodes[i_element[1]], nodes[i_element[2]]
@@ -460,11 +463,11 @@ namespace enve
         CMD "error while reading file.");
 
       // Perform safety check
-      ENVE_ASSERT(nodes.size() == nodes_count && this->m_triangles.size() == elements_count,
+      ENVE_ASSERT(nodes.size() == nodes_count && triangles.size() == elements_count,
         CMD "safety check not passed.");
 
       file.close();
-      if (this->m_triangles.empty())
+      if (triangles.empty())
       {
         ENVE_ERROR(CMD "*.obj loaded mesh is empty.");
         //return false;
@@ -473,7 +476,7 @@ namespace enve
       {
         // Update the local intersected triangles list
         std::cout << "Building AABB tree... ";
-        this->buildAABBtree();
+        this->assign(triangles);
         std::cout
           << "Done" << std::endl
           << std::endl;
@@ -519,8 +522,7 @@ namespace enve
     {
       #define CMD "enve::mesh::buildAABBtree(...): "
 
-      this->updateBBoxes();
-      this->m_AABBtree->build(this->m_bboxes);
+      this->assign(this->m_triangles);
 
       #undef CMD
     }
@@ -528,15 +530,26 @@ namespace enve
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
     void
-    mesh::updateBBoxes(void)
+    mesh::assign(
+      triangleground::vecptr triangles
+    )
     {
-      this->m_bboxes.clear();
-      for (size_t i = 0; i < this->m_triangles.size(); ++i)
+      // Prepare everything aside, so that a failure leaves the mesh as it was
+      aabb::vecptr bboxes;
+      bboxes.reserve(triangles.size());
+      for (size_t i = 0; i < triangles.size(); ++i)
       {
-        this->m_bboxes.push_back(
-          std::make_shared<aabb const>(this->m_triangles[i]->bbox())
+        // The id of a box is the position of its triangle
+        aabb const & bbox = triangles[i]->bbox();
+        bboxes.push_back(
+          std::make_shared<aabb const>(bbox.min(), bbox.max(), integer(i))
         );
       }
+      AABBtree::ptr tree = std::make_shared<AABBtree>();
+      tree->build(bboxes);
+      this->m_triangles.swap(triangles);
+      this->m_bboxes.swap(bboxes);
+      this->m_AABBtree.swap(tree);
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
diff --git a/toolbox/src/enve/mesh.hxx b/toolbox/src/enve/mesh.hxx
index 9195e6e..593d3d5 100755
--- a/toolbox/src/enve/mesh.hxx
+++ b/toolbox/src/enve/mesh.hxx
@@ -159,9 +159,11 @@ namespace enve
       buildAABBtree(void);
 
     private:
-      //! Update the mesh bounding boxes pointers
+      //! Assign the triangles together with their bounding boxes and AABB tree
       void
-      updateBBoxes(void);
+      assign(
+        triangleground::vecptr triangles //!< Ground triangles pointers vector
+      );
 
       //! Split a string into a string array at a given token
       void
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index dfd5632..e68f9c2 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -62,8 +62,7 @@ namespace enve
     )
       : mesh()
     {
-      this->m_triangles = triangles;
-      this->buildAABBtree();
+      this->assign(triangles);
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -106,7 +105,7 @@ namespace enve
       mesh const & mesh_obj
     )
     {
-      this->m_triangles = mesh_obj.m_triangles;
+      this->assign(mesh_obj.m_triangles);
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -120,6 +119,8 @@ namespace enve
           {this->m_triangles[i].reset();}
       }
       this->m_triangles.clear();
+      this->m_bboxes.clear();
+      this->m_AABBtree->clear();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -239,7 +240,8 @@ namespace enve
       // Vector for nodes coordinates
       std::vector<point> nodes;
       nodes.reserve(25000);
-      this->m_triangles.reserve(100000);
+      triangleground::vecptr triangles;
+      triangles.reserve(100000);
       size_t nodes_count    = size_t(0);
       size_t elements_count = size_t(0);
       bool   nodes_parse    = false;
@@ -316,7 +318,7 @@ namespace enve
             CMD "element friction cannot be negative.");
 
           // Create a shared pointer for the last triangle
-          this->m_triangles.push_back(
+          triangles.push_back(
             std::make_shared<triangleground const>(
               elements_count, i_friction,
               nodes[i_element[0]], nodes[i_element[1]], nodes[i_element[2]]
@@ -333,11 +335,11 @@ namespace enve
         CMD "error while reading file.");
 
       // Perform safety check
-      ENVE_ASSERT(nodes.size() == nodes_count && this->m_triangles.size() == elements_count,
+      ENVE_ASSERT(nodes.size() == nodes_count && triangles.size() == elements_count,
         CMD "safety check not passed.");
 
       file.close();
-      if (this->m_triangles.empty())
+      if (triangles.empty())
       {
         ENVE_ERROR(CMD "*.rdf loaded mesh is empty.");
         //return false;
@@ -347,7 +349,7 @@ namespace enve
         // Update the local intersected triangles list
         std::cout
           << "Building AABB tree... ";
-        this->buildAABBtree();
+        this->assign(triangles);
         std::cout
           << "Done" << std::endl
           << std::endl;
@@ -391,7 +393,8 @@ namespace enve
       // Vector for nodes coordinates
       std::vector<point> nodes;
       nodes.reserve(25000);
-      this->m_triangles.reserve(100000);
+      triangleground::vecptr triangles;
+      triangles.reserve(100000);
       size_t nodes_count    = size_t(0);
       size_t elements_count = size_t(0);
 
@@ -438,7 +441,7 @@ namespace enve
             CMD "element index names no node.");
 
           // Create a shared pointer for the last triangle
-          this->m_triangles.push_back(
+          triangles.push_back(
             std::make_shared<triangleground const>(
               elements_count, friction,
               nodes[i_element[0]], nodes[i_element[1]], nodes[i_element[2]]
@@ -460,11 +463,11 @@ namespace enve
         CMD "error while reading file.");
 
       // Perform safety check
-      ENVE_ASSERT(nodes.size() == nodes_count && this->m_triangles.size() == elements_count,
+      ENVE_ASSERT(nodes.size() == nodes_count && triangles.size() == elements_count,
         CMD "safety check not passed.");
 
       file.close();
-      if (this->m_triangles.empty())
+      if (triangles.empty())
       {
         ENVE_ERROR(CMD "*.obj loaded mesh is empty.");
         //return false;
@@ -473,7 +476,7 @@ namespace enve
       {
         // Update the local intersected triangles list
         std::cout << "Building AABB tree... ";
-        this->buildAABBtree();
+        this->assign(triangles);
         std::cout
           << "Done" << std::endl
           << std::endl;
@@ -519,8 +522,7 @@ namespace enve
     {
       #define CMD "enve::mesh::buildAABBtree(...): "
 
-      this->updateBBoxes();
-      this->m_AABBtree->build(this->m_bboxes);
+      this->assign(this->m_triangles);
 
       #undef CMD
     }
@@ -528,15 +530,26 @@ namespace enve
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
     void
-    mesh::updateBBoxes(void)
+    mesh::assign(
+      triangleground::vecptr triangles
+    )
     {
-      this->m_bboxes.clear();
-      for (size_t i = 0; i < this->m_triangles.size(); ++i)
+      // Prepare everything aside, so that a failure leaves the mesh as it was
+      aabb::vecptr bboxes;
+      bboxes.reserve(triangles.size());
+      for (size_t i = 0; i < triangles.size(); ++i)
       {
-        this->m_bboxes.push_back(
-          std::make_shared<aabb const>(this->m_triangles[i]->bbox())
+        // The id of a box is the position of its triangle
+        aabb const & bbox = triangles[i]->bbox();
+        bboxes.push_back(
+          std::make_shared<aabb const>(bbox.min(), bbox.max(), integer(i))
         );
       }
+      AABBtree::ptr tree = std::make_shared<AABBtree>();
+      tree->build(bboxes);
+      this->m_triangles.swap(triangles);
+      this->m_bboxes.swap(bboxes);
+      this->m_AABBtree.swap(tree);
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 25d9d7b66aeeb2d43f3a0a825631d78e32c3ff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 07/48] fix: sum areas, not frictions, in shell::contactArea

---
 src/shell.cc         | 2 +-
 toolbox/src/shell.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 621f840..fff81a7 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -731,7 +731,7 @@ namespace enve
   {
     area = 0.0;
     for (size_t i = 0; i < this->size(); ++i)
-      {area += this->m_out[i].friction;}
+      {area += this->m_out[i].area;}
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 621f840..fff81a7 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -731,7 +731,7 @@ namespace enve
   {
     area = 0.0;
     for (size_t i = 0; i < this->size(); ++i)
-      {area += this->m_out[i].friction;}
+      {area += this->m_out[i].area;}
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 853c93a0d7b6a081ed7417a363642f09313e00ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 08/48] fix: report contact on a flat ground if any rib is in
 contact

Only the result of the last rib was returned.
---
 src/shell.cc         | 2 +-
 toolbox/src/shell.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index fff81a7..0fab5a5 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -496,7 +496,7 @@ namespace enve
     // Perform intersection on all ribs
     bool out = false;
     for (size_t i = 0; i < this->size(); ++i)
-      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]);}
+      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]) || out;}
     return out;
 
     #undef CMD
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index fff81a7..0fab5a5 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -496,7 +496,7 @@ namespace enve
     // Perform intersection on all ribs
     bool out = false;
     for (size_t i = 0; i < this->size(); ++i)
-      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]);}
+      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]) || out;}
     return out;
 
     #undef CMD
-- 
2.43.0


From 6666e61406c2353d460f3e7a092d066abe1aade3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 09/48] fix: resize the lists of contact frames and relative
 angles

Unlike the other lists they were written out of bounds when the caller did
not size them.
---
 src/shell.cc         | 8 ++++++--
 toolbox/src/shell.cc | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 0fab5a5..76fc10f 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -842,7 +842,9 @@ namespace enve
   )
     const
   {
-    for (size_t i = 0; i < this->size(); ++i)
+    size_t size = this->size();
+    pose.resize(size);
+    for (size_t i = 0; i < size; ++i)
       {this->contactPointAffine(i, pose[i]);}
   }
 
@@ -884,7 +886,9 @@ namespace enve
   )
     const
   {
-    for (size_t i = 0; i < this->size(); ++i)
+    size_t size = this->size();
+    angles.resize(size);
+    for (size_t i = 0; i < size; ++i)
       {this->relativeAngles(i, angles[i]);}
   }
 
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 0fab5a5..76fc10f 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -842,7 +842,9 @@ namespace enve
   )
     const
   {
-    for (size_t i = 0; i < this->size(); ++i)
+    size_t size = this->size();
+    pose.resize(size);
+    for (size_t i = 0; i < size; ++i)
       {this->contactPointAffine(i, pose[i]);}
   }
 
@@ -884,7 +886,9 @@ namespace enve
   )
     const
   {
-    for (size_t i = 0; i < this->size(); ++i)
+    size_t size = this->size();
+    angles.resize(size);
+    for (size_t i = 0; i < size; ++i)
       {this->relativeAngles(i, angles[i]);}
   }
 
-- 
2.43.0


From 869336d9d918af3ec369da9314f998c6873afd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 10/48] fix: skip only the triangle a rib barely touches

A triangle touched in a point ended the evaluation of the rib, so that the
following triangles were ignored and the result depended on their order.
---
 src/rib.cc         | 2 +-
 toolbox/src/rib.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index d3ecc4e..e2333d3 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -271,7 +271,7 @@ namespace enve
         // Check intersection
         segment_length_tmp = segment_tmp.length();
         if (t_b - t_a < EPSILON_ENVE && segment_length_tmp < EPSILON_ENVE)
-          {break;}
+          {continue;}
         else
           {int_bool = true;}
 
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index d3ecc4e..e2333d3 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -271,7 +271,7 @@ namespace enve
         // Check intersection
         segment_length_tmp = segment_tmp.length();
         if (t_b - t_a < EPSILON_ENVE && segment_length_tmp < EPSILON_ENVE)
-          {break;}
+          {continue;}
         else
           {int_bool = true;}
 
-- 
2.43.0


From 4893fc50e92b961c17575ebcba3912135be387a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 11/48] fix: measure the shorter arc of a rib segment

The arc of a segment crossing the negative x-axis of the rib was measured on
the other side, with a contact point opposite to the segment and a wrong
(even negative) volume.
---
 src/rib.cc         | 6 ++++++
 toolbox/src/rib.cc | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/rib.cc b/src/rib.cc
index e2333d3..4787f3d 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -265,6 +265,12 @@ namespace enve
           std::swap(t_a, t_b);
           std::swap(r_a, r_b);
         }
+        // Take the shorter arc, which may cross the negative x-axis
+        if (t_b - t_a > PI)
+        {
+          t_a += real(2.0) * PI;
+          std::swap(t_a, t_b);
+        }
         t_c = (t_a + t_b) / real(2.0);
         t_d = (t_b - t_a) / real(2.0);
 
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index e2333d3..4787f3d 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -265,6 +265,12 @@ namespace enve
           std::swap(t_a, t_b);
           std::swap(r_a, r_b);
         }
+        // Take the shorter arc, which may cross the negative x-axis
+        if (t_b - t_a > PI)
+        {
+          t_a += real(2.0) * PI;
+          std::swap(t_a, t_b);
+        }
         t_c = (t_a + t_b) / real(2.0);
         t_d = (t_b - t_a) / real(2.0);
 
-- 
2.43.0


From 10d9eb649e8dc2d1377fb27c5fdb80b5409baf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 12/48] fix: do not divide by the null volume of a grazing rib

The volume of a rib grazing the ground may vanish, or be slightly negative
because of rounding, while its area does not: the means weighted by it were
not finite or out of the range of the averaged values.
---
 src/rib.cc         | 4 +++-
 toolbox/src/rib.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index 4787f3d..9430888 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -290,6 +290,7 @@ namespace enve
 
         // Find area
         section_area = radius * radius * t_d - r_a * r_b * std::sin(t_b - t_a) / real(2.0);
+        section_area = std::max(real(0.0), section_area);
 
         // Store temporary results
         cos_t_c = std::cos(t_c);
@@ -311,7 +312,8 @@ namespace enve
     }
 
     // Store output
-    if (int_bool && (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE))
+    if (int_bool && segment_volume_tot > real(0.0) &&
+        (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE))
     {
       out.point    = contact_point_tot    / segment_volume_tot;
       out.normal   = (contact_normal_tot  / segment_volume_tot).normalized();
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index 4787f3d..9430888 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -290,6 +290,7 @@ namespace enve
 
         // Find area
         section_area = radius * radius * t_d - r_a * r_b * std::sin(t_b - t_a) / real(2.0);
+        section_area = std::max(real(0.0), section_area);
 
         // Store temporary results
         cos_t_c = std::cos(t_c);
@@ -311,7 +312,8 @@ namespace enve
     }
 
     // Store output
-    if (int_bool && (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE))
+    if (int_bool && segment_volume_tot > real(0.0) &&
+        (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE))
     {
       out.point    = contact_point_tot    / segment_volume_tot;
       out.normal   = (contact_normal_tot  / segment_volume_tot).normalized();
-- 
2.43.0


From 121e8d0ebbb828883d28f07cbf3c7a65230b5042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:05 +0000
Subject: [PATCH 13/48] fix: enclose the whole shell in its bounding box

The box had the shell radius as half side, whatever its width and camber, so
that the ground under the outer ribs of a wide or cambered shell was missed.
---
 src/shell.cc         | 10 +++++++++-
 toolbox/src/shell.cc | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 76fc10f..6ca8126 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -418,8 +418,16 @@ namespace enve
   shell::updateBBox(void)
   {
     real  radius = this->m_shape->surfaceMaxRadius();
+    real  width  = this->m_shape->surfaceWidth();
     point origin(this->m_affine.translation());
-    point extrema(radius, radius, radius);
+    vec3  axis(this->y());
+    point extrema;
+    for (integer i = 0; i < integer(3); ++i)
+    {
+      // Extent of the cylinder enclosing the shell
+      extrema[i] = radius * std::sqrt(std::max(real(0.0), real(1.0) - axis[i] * axis[i])) +
+                   width * std::abs(axis[i]);
+    }
     this->m_bbox->min() = origin - extrema;
     this->m_bbox->max() = origin + extrema;
     this->m_bbox->updateMaxMin();
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 76fc10f..6ca8126 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -418,8 +418,16 @@ namespace enve
   shell::updateBBox(void)
   {
     real  radius = this->m_shape->surfaceMaxRadius();
+    real  width  = this->m_shape->surfaceWidth();
     point origin(this->m_affine.translation());
-    point extrema(radius, radius, radius);
+    vec3  axis(this->y());
+    point extrema;
+    for (integer i = 0; i < integer(3); ++i)
+    {
+      // Extent of the cylinder enclosing the shell
+      extrema[i] = radius * std::sqrt(std::max(real(0.0), real(1.0) - axis[i] * axis[i])) +
+                   width * std::abs(axis[i]);
+    }
     this->m_bbox->min() = origin - extrema;
     this->m_bbox->max() = origin + extrema;
     this->m_bbox->updateMaxMin();
-- 
2.43.0


From 8ffe30d7c95eb9b14f47e5ec8d302582926e49f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 14/48] fix: keep a unit normal when the center of a rib lies
 on the flat ground

The direction of the contact segment was taken from the vector between the
contact point and the rib center. This is rounding noise when they coincide,
and the contact normal could vanish.
---
 src/rib.cc         | 2 +-
 toolbox/src/rib.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index 9430888..93c5ae5 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -362,7 +362,7 @@ namespace enve
     if (int_bool && segment_tmp.length() > EPSILON_ENVE)
     {
       out.point    = segment_tmp.centroid();
-      normal_tmp   = (normal_grd.cross(center_grd - out.point)).normalized();
+      normal_tmp   = (segment_tmp.vertex(1) - segment_tmp.vertex(0)).normalized();
       out.normal   = (ground.normal() - normal_tmp * ground.normal().dot(normal_tmp)).normalized();
       out.friction = ground.friction();
       out.depth    = radius - (out.point - center_grd).norm();
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index 9430888..93c5ae5 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -362,7 +362,7 @@ namespace enve
     if (int_bool && segment_tmp.length() > EPSILON_ENVE)
     {
       out.point    = segment_tmp.centroid();
-      normal_tmp   = (normal_grd.cross(center_grd - out.point)).normalized();
+      normal_tmp   = (segment_tmp.vertex(1) - segment_tmp.vertex(0)).normalized();
       out.normal   = (ground.normal() - normal_tmp * ground.normal().dot(normal_tmp)).normalized();
       out.friction = ground.friction();
       out.depth    = radius - (out.point - center_grd).norm();
-- 
2.43.0


From f096a4f5cf5ab10803ad52a7b5d1c55922adeabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:21 +0000
Subject: [PATCH 15/48] fix: intersect a line with a triangle whose edge it
 almost runs along

---
 toolbox/src/intersection.cc | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 01aa3d3..6e8e26b 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -1979,7 +1979,27 @@ namespace acme
       }
       else
       {
-        ACME_ERROR(CMD "exception not handled.")
+        // The line runs so close to an edge that it meets all three edges at
+        // distinct points within the tolerance: keep the two farthest points
+        real dist01 = (point1 - point0).squaredNorm();
+        real dist12 = (point2 - point1).squaredNorm();
+        real dist20 = (point0 - point2).squaredNorm();
+        if (dist01 >= dist12 && dist01 >= dist20)
+        {
+          segment_out.vertex(0) = point0;
+          segment_out.vertex(1) = point1;
+        }
+        else if (dist12 >= dist20)
+        {
+          segment_out.vertex(0) = point1;
+          segment_out.vertex(1) = point2;
+        }
+        else
+        {
+          segment_out.vertex(0) = point2;
+          segment_out.vertex(1) = point0;
+        }
+        return true;
       }
     }
     else
-- 
2.43.0


From 98cf2bed7b987c2c363f2e01809ec115e917e686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:22 +0000
Subject: [PATCH 16/48] fix: report a mesh export that fails

---
 src/mesh.cc         | 8 ++++++++
 toolbox/src/mesh.cc | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/mesh.cc b/src/mesh.cc
index e68f9c2..9879d8d 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -162,8 +162,12 @@ namespace enve
     )
       const
     {
+      #define CMD "enve::ground::print(...): "
+
       // Create Out.txt
       std::ofstream file(path);
+      ENVE_ASSERT(file.is_open(),
+        CMD "output file not opened.");
       // Print introduction
       file
         << "MESH DATA" << std::endl
@@ -196,6 +200,10 @@ namespace enve
       }
       // Close File
       file.close();
+      ENVE_ASSERT(!file.fail(),
+        CMD "error while writing file.");
+
+      #undef CMD
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index e68f9c2..9879d8d 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -162,8 +162,12 @@ namespace enve
     )
       const
     {
+      #define CMD "enve::ground::print(...): "
+
       // Create Out.txt
       std::ofstream file(path);
+      ENVE_ASSERT(file.is_open(),
+        CMD "output file not opened.");
       // Print introduction
       file
         << "MESH DATA" << std::endl
@@ -196,6 +200,10 @@ namespace enve
       }
       // Close File
       file.close();
+      ENVE_ASSERT(!file.fail(),
+        CMD "error while writing file.");
+
+      #undef CMD
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 015c357a23d55fe0210d79509fc260d99c8aac19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:14 +0000
Subject: [PATCH 17/48] fix: refuse mesh files with non-finite values

---
 src/mesh.cc         | 6 ++++++
 toolbox/src/mesh.cc | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/mesh.cc b/src/mesh.cc
index 9879d8d..330fce9 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -298,6 +298,8 @@ namespace enve
           p_node[0] = real(std::stod(s_node[0]));
           p_node[1] = real(std::stod(s_node[1]));
           p_node[2] = real(std::stod(s_node[2]));
+          ENVE_ASSERT(p_node.allFinite(),
+            CMD "node coordinates must be finite.");
           nodes.push_back(pose * p_node);
           ++nodes_count;
         }
@@ -324,6 +326,8 @@ namespace enve
             CMD "element index names no node.");
           ENVE_ASSERT(i_friction >= real(0.0),
             CMD "element friction cannot be negative.");
+          ENVE_ASSERT(std::isfinite(i_friction),
+            CMD "element friction must be finite.");
 
           // Create a shared pointer for the last triangle
           triangles.push_back(
@@ -424,6 +428,8 @@ namespace enve
           p_node[0] = std::stod(s_node[0]);
           p_node[1] = std::stod(s_node[1]);
           p_node[2] = std::stod(s_node[2]);
+          ENVE_ASSERT(p_node.allFinite(),
+            CMD "node coordinates must be finite.");
           nodes.push_back(pose * p_node);
           ++nodes_count;
           continue;
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index 9879d8d..330fce9 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -298,6 +298,8 @@ namespace enve
           p_node[0] = real(std::stod(s_node[0]));
           p_node[1] = real(std::stod(s_node[1]));
           p_node[2] = real(std::stod(s_node[2]));
+          ENVE_ASSERT(p_node.allFinite(),
+            CMD "node coordinates must be finite.");
           nodes.push_back(pose * p_node);
           ++nodes_count;
         }
@@ -324,6 +326,8 @@ namespace enve
             CMD "element index names no node.");
           ENVE_ASSERT(i_friction >= real(0.0),
             CMD "element friction cannot be negative.");
+          ENVE_ASSERT(std::isfinite(i_friction),
+            CMD "element friction must be finite.");
 
           // Create a shared pointer for the last triangle
           triangles.push_back(
@@ -424,6 +428,8 @@ namespace enve
           p_node[0] = std::stod(s_node[0]);
           p_node[1] = std::stod(s_node[1]);
           p_node[2] = std::stod(s_node[2]);
+          ENVE_ASSERT(p_node.allFinite(),
+            CMD "node coordinates must be finite.");
           nodes.push_back(pose * p_node);
           ++nodes_count;
           continue;
-- 
2.43.0


From 7c18d3afeb5acda789f165f56359b2d88a068c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 18/48] fix: release the objects of an S-function session

---
 sfun/src_sfun/enve_sfun_interface.cc | 45 +++++++++++++++++-----------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/sfun/src_sfun/enve_sfun_interface.cc b/sfun/src_sfun/enve_sfun_interface.cc
index 023b99d..62976ac 100755
--- a/sfun/src_sfun/enve_sfun_interface.cc
+++ b/sfun/src_sfun/enve_sfun_interface.cc
@@ -38,14 +38,19 @@
 #include "enve_sfun_interface.h"
 #include "enve.hh"
 
+#include <memory>
+
 #ifdef __cplusplus
 extern "C"
 {
 #endif
 
-  void *MeshPtr;
-  void *FlatPtr;
-  void *ShellPtr;
+  void *MeshPtr  = nullptr;
+  void *FlatPtr  = nullptr;
+  void *ShellPtr = nullptr;
+
+  void
+  enve_sfun_end(void);
 
   void
   enve_sfun_init(
@@ -73,33 +78,34 @@ extern "C"
 
     // Build mesh
     std::string extension = mesh_path.substr(mesh_path.size() - 4, 4);
-    enve::ground::mesh *mesh = nullptr;
+    std::unique_ptr<enve::ground::mesh> mesh;
     if (extension == ".rdf")
-      {mesh = new enve::ground::mesh(mesh_path, pose);}
+      {mesh.reset(new enve::ground::mesh(mesh_path, pose));}
     else if (extension == ".obj")
-      {mesh = new enve::ground::mesh(mesh_path, 1.0, pose);}
+      {mesh.reset(new enve::ground::mesh(mesh_path, 1.0, pose));}
     else
       {ENVE_ERROR(CMD "not a *.rdf or *.obj file.");}
 
     // Build flat
-    enve::ground::flat *flat = new enve::ground::flat(
+    std::unique_ptr<enve::ground::flat> flat(new enve::ground::flat(
       *FlatFrictionPar, acme::point(0.0, 0.0, *FlatHeightPar), acme::vec3(0.0, 0.0, 1.0)
-    );
+    ));
 
     // Build shell
-    enve::shell *shell = new enve::shell(
+    std::unique_ptr<enve::shell> shell(new enve::shell(
       *SizePar,
       *Rx,
       *Mx,
       *Ry,
       *My,
       *Ly
-    );
+    ));
 
-    // Store pointers
-    MeshPtr  = static_cast<void *>(mesh);
-    FlatPtr  = static_cast<void *>(flat);
-    ShellPtr = static_cast<void *>(shell);
+    // Release a previous session and store pointers
+    enve_sfun_end();
+    MeshPtr  = static_cast<void *>(mesh.release());
+    FlatPtr  = static_cast<void *>(flat.release());
+    ShellPtr = static_cast<void *>(shell.release());
 
     #undef CMD
   }
@@ -117,6 +123,8 @@ extern "C"
     enve::ground::mesh *mesh  = static_cast<enve::ground::mesh *>(MeshPtr);
     enve::ground::flat *flat  = static_cast<enve::ground::flat *>(FlatPtr);
     enve::shell        *shell = static_cast<enve::shell *>(ShellPtr);
+    ENVE_ASSERT(mesh != nullptr && flat != nullptr && shell != nullptr,
+      CMD "not initialized.");
 
     // Store temporaries
     int size = shell->size();
@@ -215,9 +223,12 @@ extern "C"
   {
     #define CMD "enve_sfun_end(...): "
 
-    //delete static_cast<enve::ground::mesh *>(MeshPtr);
-    //delete static_cast<enve::ground::flat *>(FlatPtr);
-    //delete static_cast<enve::flat *>(ShellPtr);
+    delete static_cast<enve::ground::mesh *>(MeshPtr);
+    delete static_cast<enve::ground::flat *>(FlatPtr);
+    delete static_cast<enve::shell *>(ShellPtr);
+    MeshPtr  = nullptr;
+    FlatPtr  = nullptr;
+    ShellPtr = nullptr;
 
     #undef CMD
   }
-- 
2.43.0


From 3cd432cf40e429d5d441872249177351e1aec013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:45 +0000
Subject: [PATCH 19/48] fix: keep an AABB tree that cannot be rebuilt

---
 toolbox/src/AABBtree.cc | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/toolbox/src/AABBtree.cc b/toolbox/src/AABBtree.cc
index be2e137..4852ab3 100644
--- a/toolbox/src/AABBtree.cc
+++ b/toolbox/src/AABBtree.cc
@@ -86,27 +86,30 @@ namespace acme
     aabb::vecptr const & boxes
   )
   {
-    clear();
-
     if (boxes.empty())
-      {return;}
+    {
+      clear();
+      return;
+    }
 
     integer size = boxes.size();
 
     if (size == 1)
     {
+      this->m_children.clear();
       this->m_ptrbox = boxes.front();
       return;
     }
 
-    this->m_ptrbox = std::make_shared<aabb const>(boxes);
+    // The tree is left as it is until the new one is complete
+    aabb::ptr ptrbox = std::make_shared<aabb const>(boxes);
 
-    real xmin = this->m_ptrbox->min(0);
-    real ymin = this->m_ptrbox->min(1);
-    real zmin = this->m_ptrbox->min(2);
-    real xmax = this->m_ptrbox->max(0);
-    real ymax = this->m_ptrbox->max(1);
-    real zmax = this->m_ptrbox->max(2);
+    real xmin = ptrbox->min(0);
+    real ymin = ptrbox->min(1);
+    real zmin = ptrbox->min(2);
+    real xmax = ptrbox->max(0);
+    real ymax = ptrbox->max(1);
+    real zmax = ptrbox->max(2);
 
     aabb::vecptr pos_boxes;
     aabb::vecptr neg_boxes;
@@ -169,13 +172,18 @@ namespace acme
     AABBtree::ptr neg = std::make_shared<AABBtree>();
     AABBtree::ptr pos = std::make_shared<AABBtree>();
 
+    AABBtree::vecptr children;
+
     neg->build(neg_boxes);
     if (!neg->isEmpty())
-      {this->m_children.push_back(neg);}
+      {children.push_back(neg);}
 
     pos->build(pos_boxes);
     if (!pos->isEmpty())
-      {this->m_children.push_back(pos);}
+      {children.push_back(pos);}
+
+    this->m_ptrbox = ptrbox;
+    this->m_children.swap(children);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 6dcb3f75ecfe0245b9afa3d1fea931dda71213d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:55 +0000
Subject: [PATCH 20/48] fix: remove, count and recognise the members of a
 collection by kind

---
 toolbox/src/collection.cc | 98 ++++++++++++++++++++++++++-------------
 1 file changed, 67 insertions(+), 31 deletions(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index d1efa19..f857470 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -195,10 +195,13 @@ namespace acme
   void
   collection::removeNone(void)
   {
-    std::remove_if(
-      this->m_entities.begin(),
-      this->m_entities.end(),
-      [] (entity::ptr & entity) {return entity->isNone();}
+    this->m_entities.erase(
+      std::remove_if(
+        this->m_entities.begin(),
+        this->m_entities.end(),
+        [] (entity::ptr & entity) {return entity->isNone();}
+      ),
+      this->m_entities.end()
     );
   }
 
@@ -261,11 +264,14 @@ namespace acme
   void
   collection::removePoint(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isPoint();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -327,11 +333,14 @@ namespace acme
   void
   collection::removeLine(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isLine();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -393,11 +402,14 @@ namespace acme
   void
   collection::removeRay(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isRay();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -458,11 +470,14 @@ namespace acme
   void
   collection::removePlane(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isPlane();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -502,7 +517,7 @@ namespace acme
   {
     for (size_t i = 0; i < this->m_entities.size(); ++i)
     {
-      if (!this->m_entities[i]->isBall())
+      if (!this->m_entities[i]->isSegment())
         {return false;}
     }
     return true;
@@ -524,11 +539,14 @@ namespace acme
   void
   collection::removeSegment(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isSegment();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -590,11 +608,14 @@ namespace acme
   void
   collection::removeTriangle(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isTriangle();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -656,11 +677,14 @@ namespace acme
   void
   collection::removeDisk(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isDisk();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -722,11 +746,14 @@ namespace acme
   void
   collection::removeBall(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isBall();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -754,10 +781,10 @@ namespace acme
   {
     for (size_t i = 0; i < this->m_entities.size(); ++i)
     {
-      if (!this->m_entities[i]->isDegenerated(tolerance))
-        {return false;}
+      if (this->m_entities[i]->isDegenerated(tolerance))
+        {return true;}
     }
-    return true;
+    return false;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -795,11 +822,14 @@ namespace acme
     real tolerance
   )
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [tolerance](entity::ptr & entity){return entity->isDegenerated(tolerance);}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -863,11 +893,14 @@ namespace acme
   void
   collection::removeClampable(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isClampable();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -929,11 +962,14 @@ namespace acme
   void
   collection::removeNonClampable(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isNonClampable();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -945,7 +981,7 @@ namespace acme
     integer count = 0;
     for (size_t i = 0; i < this->m_entities.size(); ++i)
     {
-      if (!this->m_entities[i]->isNonClampable())
+      if (this->m_entities[i]->isNonClampable())
         {++count;}
     }
     return count;
-- 
2.43.0


From d1fce6857f3b7365e90d87c2c0056dc07d2d05ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:15 +0000
Subject: [PATCH 21/48] fix: do not build the AABB tree of a collection into
 its copies

---
 toolbox/src/collection.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index f857470..4eeb37e 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -1052,7 +1052,10 @@ namespace acme
   {
     aabb::vecptr ptrVecbox;
     this->clamp(ptrVecbox);
-    this->m_AABBtree->build(ptrVecbox);
+    // A copy of the collection may still use the old tree
+    AABBtree::ptr tree(std::make_shared<AABBtree>());
+    tree->build(ptrVecbox);
+    this->m_AABBtree = tree;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 6cfeb43ee439373c87d1f2015a2fcbbf369facf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 22/48] fix: check both dimensions and the class of the arrays
 given to the MEX gateways

---
 toolbox/src_mex/mex_flat.cc           |  8 ++++----
 toolbox/src_mex/mex_mesh.cc           |  2 +-
 toolbox/src_mex/mex_shell.cc          | 12 ++++++------
 toolbox/src_mex/mex_triangleground.cc |  6 +++---
 toolbox/src_mex/mex_utils.hh          |  8 ++++++++
 5 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/toolbox/src_mex/mex_flat.cc b/toolbox/src_mex/mex_flat.cc
index 86c4b53..81344ee 100644
--- a/toolbox/src_mex/mex_flat.cc
+++ b/toolbox/src_mex/mex_flat.cc
@@ -146,14 +146,14 @@ do_new(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
     real_type const *matrix1_ptr;
     mwSize           rows1, cols1;
     matrix1_ptr = utils::mex_matrix_pointer(arg_in_2, rows1, cols1, CMD "error in first input matrix");
-    UTILS_MEX_ASSERT(rows1 == 3 || cols1 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows1 << ", cols = " << cols1 << "\n");
+    UTILS_MEX_ASSERT(rows1 == 3 && cols1 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows1 << ", cols = " << cols1 << "\n");
     ox = matrix1_ptr[0];
     oy = matrix1_ptr[1];
     oz = matrix1_ptr[2];
     real_type const *matrix2_ptr;
     mwSize           rows2, cols2;
     matrix2_ptr = utils::mex_matrix_pointer(arg_in_3, rows2, cols2, CMD "error in second input matrix");
-    UTILS_MEX_ASSERT(rows2 == 3 || cols2 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows2 << ", cols = " << cols2 << "\n");
+    UTILS_MEX_ASSERT(rows2 == 3 && cols2 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows2 << ", cols = " << cols2 << "\n");
     nx = matrix2_ptr[0];
     ny = matrix2_ptr[1];
     nz = matrix2_ptr[2];
@@ -203,7 +203,7 @@ do_setOrigin(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const    *matrix_ptr;
   mwSize              rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in first input matrix");
-  UTILS_MEX_ASSERT(rows == 3 || cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 3 && cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
   self->origin() = acme::point(matrix_ptr[0], matrix_ptr[1], matrix_ptr[2]);
 #undef CMD
 }
@@ -239,7 +239,7 @@ do_setNormal(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const    *matrix_ptr;
   mwSize              rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in first input matrix");
-  UTILS_MEX_ASSERT(rows == 3 || cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 3 && cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
   self->normal() = acme::vec3(matrix_ptr[0], matrix_ptr[1], matrix_ptr[2]);
 #undef CMD
 }
diff --git a/toolbox/src_mex/mex_mesh.cc b/toolbox/src_mex/mex_mesh.cc
index 23b77bc..79e4cfb 100644
--- a/toolbox/src_mex/mex_mesh.cc
+++ b/toolbox/src_mex/mex_mesh.cc
@@ -148,7 +148,7 @@ do_new(int nlhs, mxArray *plhs[],
       mwSize rows, cols;
       real_type const *matrix_ptr;
       matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in reading affine transformation matrix");
-      UTILS_MEX_ASSERT(rows == 4 || cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
+      UTILS_MEX_ASSERT(rows == 4 && cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
       acme::affine pose;
       pose.matrix() << matrix_ptr[0], matrix_ptr[4], matrix_ptr[8],  matrix_ptr[12],
                        matrix_ptr[1], matrix_ptr[5], matrix_ptr[9],  matrix_ptr[13],
diff --git a/toolbox/src_mex/mex_shell.cc b/toolbox/src_mex/mex_shell.cc
index 79df100..2d01a8d 100644
--- a/toolbox/src_mex/mex_shell.cc
+++ b/toolbox/src_mex/mex_shell.cc
@@ -403,7 +403,7 @@ do_translate(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const *matrix_ptr;
   mwSize           rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in first input matrix");
-  UTILS_MEX_ASSERT(rows == 3 || cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 3 && cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
   real_type x = matrix_ptr[0];
   real_type y = matrix_ptr[1];
   real_type z = matrix_ptr[2];
@@ -443,7 +443,7 @@ do_rotate(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const *vector_ptr;
   mwSize           rows, cols;
   vector_ptr = utils::mex_matrix_pointer(arg_in_3, rows, cols, CMD "error in reading axis vector");
-  UTILS_MEX_ASSERT(rows == 3 || cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 3 && cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
   acme::vec3 vector(vector_ptr[0], vector_ptr[1], vector_ptr[2]);
   self->rotate(angle, vector);
 #undef CMD
@@ -486,7 +486,7 @@ do_transform(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const *matrix_ptr;
   mwSize           rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in reading affine transformation matrix");
-  UTILS_MEX_ASSERT(rows == 4 || cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 4 && cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
   acme::affine matrix;
   matrix.matrix() << matrix_ptr[0], matrix_ptr[4], matrix_ptr[8],  matrix_ptr[12],
                      matrix_ptr[1], matrix_ptr[5], matrix_ptr[9],  matrix_ptr[13],
@@ -540,7 +540,7 @@ do_checkTransformation(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[
   real_type const *matrix_ptr;
   mwSize           rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in reading affine transformation matrix");
-  UTILS_MEX_ASSERT(rows == 4 || cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 4 && cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
   acme::affine matrix;
   matrix.matrix() << matrix_ptr[0], matrix_ptr[4], matrix_ptr[8],  matrix_ptr[12],
                      matrix_ptr[1], matrix_ptr[5], matrix_ptr[9],  matrix_ptr[13],
@@ -638,7 +638,7 @@ do_setupFlat(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const    *matrix_ptr;
   mwSize              rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_3, rows, cols, CMD "error in reading affine transformation matrix");
-  UTILS_MEX_ASSERT(rows == 4 || cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 4 && cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
   acme::affine matrix;
   matrix.matrix() << matrix_ptr[0], matrix_ptr[4], matrix_ptr[8],  matrix_ptr[12],
                      matrix_ptr[1], matrix_ptr[5], matrix_ptr[9],  matrix_ptr[13],
@@ -664,7 +664,7 @@ do_setupMesh(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const    *matrix_ptr;
   mwSize              rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_3, rows, cols, CMD "error in reading affine transformation matrix");
-  UTILS_MEX_ASSERT(rows == 4 || cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 4 && cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
   acme::affine matrix;
   matrix.matrix() << matrix_ptr[0], matrix_ptr[4], matrix_ptr[8],  matrix_ptr[12],
                      matrix_ptr[1], matrix_ptr[5], matrix_ptr[9],  matrix_ptr[13],
diff --git a/toolbox/src_mex/mex_triangleground.cc b/toolbox/src_mex/mex_triangleground.cc
index 7ed1d99..b5abb94 100644
--- a/toolbox/src_mex/mex_triangleground.cc
+++ b/toolbox/src_mex/mex_triangleground.cc
@@ -169,21 +169,21 @@ do_new(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
     real_type const *matrix1_ptr;
     mwSize           rows1, cols1;
     matrix1_ptr = utils::mex_matrix_pointer(arg_in_3, rows1, cols1, CMD "error in reading 3rd input matrix");
-    UTILS_MEX_ASSERT(rows1 == 3 || cols1 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows1 << ", cols = " << cols1 << "\n");
+    UTILS_MEX_ASSERT(rows1 == 3 && cols1 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows1 << ", cols = " << cols1 << "\n");
     x1 = matrix1_ptr[0];
     y1 = matrix1_ptr[1];
     z1 = matrix1_ptr[2];
     real_type const *matrix2_ptr;
     mwSize           rows2, cols2;
     matrix2_ptr = utils::mex_matrix_pointer(arg_in_4, rows2, cols2, CMD "error in reading 4th input matrix");
-    UTILS_MEX_ASSERT(rows2 == 3 || cols2 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows2 << ", cols = " << cols2 << "\n");
+    UTILS_MEX_ASSERT(rows2 == 3 && cols2 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows2 << ", cols = " << cols2 << "\n");
     x2 = matrix2_ptr[0];
     y2 = matrix2_ptr[1];
     z2 = matrix2_ptr[2];
     real_type const *matrix3_ptr;
     mwSize           rows3, cols3;
     matrix3_ptr = utils::mex_matrix_pointer(arg_in_5, rows3, cols3, CMD "error in reading 5th input matrix");
-    UTILS_MEX_ASSERT(rows3 == 3 || cols3 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows3 << ", cols = " << cols3 << "\n");
+    UTILS_MEX_ASSERT(rows3 == 3 && cols3 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows3 << ", cols = " << cols3 << "\n");
     x3 = matrix3_ptr[0];
     y3 = matrix3_ptr[1];
     z3 = matrix3_ptr[2];
diff --git a/toolbox/src_mex/mex_utils.hh b/toolbox/src_mex/mex_utils.hh
index f1aa19a..4ef4979 100644
--- a/toolbox/src_mex/mex_utils.hh
+++ b/toolbox/src_mex/mex_utils.hh
@@ -254,6 +254,10 @@ namespace utils {
     mwSize        & sz,
     char const      msg[]
   ) {
+    UTILS_MEX_ASSERT(
+      mxIsDouble(arg) && !mxIsComplex(arg),
+      msg << " expected a real double array, found " << mxGetClassName(arg) << "\n"
+      );
     mwSize number_of_dimensions = mxGetNumberOfDimensions(arg);
     UTILS_MEX_ASSERT( number_of_dimensions == 2, msg );
     mwSize const * dims = mxGetDimensions(arg);
@@ -290,6 +294,10 @@ namespace utils {
     mwSize        & nc,
     char const    msg[]
   ) {
+    UTILS_MEX_ASSERT(
+      mxIsDouble(arg) && !mxIsComplex(arg),
+      msg << " expected a real double array, found " << mxGetClassName(arg) << "\n"
+      );
     mwSize number_of_dimensions = mxGetNumberOfDimensions(arg);
     UTILS_MEX_ASSERT(
       number_of_dimensions == 2,
-- 
2.43.0


From 122a0473ebbce473e5646170870f886843aebdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 23/48] fix: let mex_shell( 'checkTransformation' ) take the
 matrix it reads

---
 toolbox/src_mex/mex_shell.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toolbox/src_mex/mex_shell.cc b/toolbox/src_mex/mex_shell.cc
index 2d01a8d..50a97e0 100644
--- a/toolbox/src_mex/mex_shell.cc
+++ b/toolbox/src_mex/mex_shell.cc
@@ -80,7 +80,7 @@
   "%   OUT = mex_shell( 'rotation', OBJ );                               %\n" \
   "%         mex_shell( 'transform', OBJ, MATRIX );                      %\n" \
   "%   OUT = mex_shell( 'transformation', OBJ );                         %\n" \
-  "%   OUT = mex_shell( 'checkTransformation', OBJ );                    %\n" \
+  "%   OUT = mex_shell( 'checkTransformation', OBJ, MATRIX );            %\n" \
   "%   OUT = mex_shell( 'x', OBJ );                                      %\n" \
   "%   OUT = mex_shell( 'y', OBJ );                                      %\n" \
   "%   OUT = mex_shell( 'z', OBJ );                                      %\n" \
@@ -532,8 +532,8 @@ do_transformation(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 static void
 do_checkTransformation(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 {
-#define CMD "mex_shell( 'checkTransformation', OBJ ): "
-  UTILS_MEX_ASSERT(nrhs == 2, CMD "expected 2 inputs, nrhs = " << nrhs << "\n");
+#define CMD "mex_shell( 'checkTransformation', OBJ, MATRIX ): "
+  UTILS_MEX_ASSERT(nrhs == 3, CMD "expected 3 inputs, nrhs = " << nrhs << "\n");
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self   = DATA_GET(arg_in_1);
-- 
2.43.0


From 185b6afff2d7713e6313c84ac9ef3d7eb54c754a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 24/48] fix: return the rotation matrix of mex_shell by columns

---
 toolbox/src_mex/mex_shell.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/toolbox/src_mex/mex_shell.cc b/toolbox/src_mex/mex_shell.cc
index 50a97e0..873ea6a 100644
--- a/toolbox/src_mex/mex_shell.cc
+++ b/toolbox/src_mex/mex_shell.cc
@@ -462,13 +462,13 @@ do_rotation(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type   *output = utils::mex_create_matrix_value(arg_out_0, 3, 3);
   acme::mat3   outmat(self->rotation());
   output[0] = outmat(0,0);
-  output[1] = outmat(0,1);
-  output[2] = outmat(0,2);
-  output[3] = outmat(1,0);
+  output[1] = outmat(1,0);
+  output[2] = outmat(2,0);
+  output[3] = outmat(0,1);
   output[4] = outmat(1,1);
-  output[5] = outmat(1,2);
-  output[6] = outmat(2,0);
-  output[7] = outmat(2,1);
+  output[5] = outmat(2,1);
+  output[6] = outmat(0,2);
+  output[7] = outmat(1,2);
   output[8] = outmat(2,2);
 #undef CMD
 }
-- 
2.43.0


From 714fe98d0786aa72e3891b26a3b8dafe2f37fe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 25/48] fix: refuse rib and triangle numbers the object does
 not have in the MEX gateways

---
 toolbox/src_mex/mex_mesh.cc  |  4 ++--
 toolbox/src_mex/mex_shell.cc | 24 ++++++++++++------------
 toolbox/src_mex/mex_utils.hh | 14 ++++++++++++++
 3 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/toolbox/src_mex/mex_mesh.cc b/toolbox/src_mex/mex_mesh.cc
index 79e4cfb..ae94796 100644
--- a/toolbox/src_mex/mex_mesh.cc
+++ b/toolbox/src_mex/mex_mesh.cc
@@ -212,7 +212,7 @@ do_getTriangleground(int nlhs, mxArray *plhs[],
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::ground::mesh *self = DATA_GET(arg_in_1);
-  int i = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int64_t i = utils::mex_get_index(arg_in_2, self->size(), CMD "error in reading input value");
   enve::triangleground *out = new enve::triangleground();
   out->copy(*self->ptrTriangleground(i - 1));
   arg_out_0 = utils::mex_convert_ptr_to_mx<enve::triangleground>(out);
@@ -230,7 +230,7 @@ do_getTrianglegroundVertices(int nlhs, mxArray *plhs[],
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::ground::mesh *self = DATA_GET(arg_in_1);
-  int i = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int64_t i = utils::mex_get_index(arg_in_2, self->size(), CMD "error in reading input value");
   enve::triangleground *tmp = new enve::triangleground();
   tmp->copy(*self->ptrTriangleground(i - 1));
   real_type *output = utils::mex_create_matrix_value(arg_out_0, 3, 3);
diff --git a/toolbox/src_mex/mex_shell.cc b/toolbox/src_mex/mex_shell.cc
index 873ea6a..8c66c0a 100644
--- a/toolbox/src_mex/mex_shell.cc
+++ b/toolbox/src_mex/mex_shell.cc
@@ -339,7 +339,7 @@ do_ribRadius(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self = DATA_GET(arg_in_1);
-  int          i    = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int64_t      i    = utils::mex_get_index(arg_in_2, self->size(), CMD "error in reading input value");
   utils::mex_set_scalar_value(arg_out_0, self->ribRadius(i - 1));
 #undef CMD
 }
@@ -354,7 +354,7 @@ do_ribCenter(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self = DATA_GET(arg_in_1);
-  int          i    = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int64_t      i    = utils::mex_get_index(arg_in_2, self->size(), CMD "error in reading input value");
   acme::point *out  = new acme::point(self->ribCenter(i - 1));
   arg_out_0         = utils::mex_convert_ptr_to_mx<acme::point>(out);
 #undef CMD
@@ -370,7 +370,7 @@ do_ribWidth(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self = DATA_GET(arg_in_1);
-  int          i    = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int64_t      i    = utils::mex_get_index(arg_in_2, self->size(), CMD "error in reading input value");
   utils::mex_set_scalar_value(arg_out_0, self->ribWidth(i - 1));
 #undef CMD
 }
@@ -385,7 +385,7 @@ do_ribAngle(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self = DATA_GET(arg_in_1);
-  int          i    = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int64_t      i    = utils::mex_get_index(arg_in_2, self->size(), CMD "error in reading input value");
   utils::mex_set_scalar_value(arg_out_0, self->ribAngle(i - 1));
 #undef CMD
 }
@@ -702,7 +702,7 @@ do_contactPointRib(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self = DATA_GET(arg_in_1);
-  int          i    = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int64_t      i    = utils::mex_get_index(arg_in_2, self->size(), CMD "error in reading input value");
   acme::point *out  = new acme::point();
   self->contactPoint(i - 1, *out);
   arg_out_0 = utils::mex_convert_ptr_to_mx<acme::point>(out);
@@ -738,7 +738,7 @@ do_contactNormalRib(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self   = DATA_GET(arg_in_1);
-  int          i      = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int64_t      i      = utils::mex_get_index(arg_in_2, self->size(), CMD "error in reading input value");
   real_type   *output = utils::mex_create_matrix_value(arg_out_0, 3, 1);
   vec3         outvec;
   self->contactNormal(i - 1, outvec);
@@ -774,7 +774,7 @@ do_contactDepthRib(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self  = DATA_GET(arg_in_1);
-  int          i     = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int64_t      i     = utils::mex_get_index(arg_in_2, self->size(), CMD "error in reading input value");
   real_type    depth;
   self->contactDepth(i - 1, depth);
   utils::mex_set_scalar_value(arg_out_0, depth);
@@ -807,7 +807,7 @@ do_contactFrictionRib(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[]
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self = DATA_GET(arg_in_1);
-  int          i    = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int64_t      i    = utils::mex_get_index(arg_in_2, self->size(), CMD "error in reading input value");
   real_type    friction;
   self->contactFriction(i - 1, friction);
   utils::mex_set_scalar_value(arg_out_0, friction);
@@ -840,7 +840,7 @@ do_contactAreaRib(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self = DATA_GET(arg_in_1);
-  int          i    = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int64_t      i    = utils::mex_get_index(arg_in_2, self->size(), CMD "error in reading input value");
   real_type    area;
   self->contactArea(i - 1, area);
   utils::mex_set_scalar_value(arg_out_0, area);
@@ -873,7 +873,7 @@ do_contactVolumeRib(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self = DATA_GET(arg_in_1);
-  int          i    = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int64_t      i    = utils::mex_get_index(arg_in_2, self->size(), CMD "error in reading input value");
   real_type    volume;
   self->contactVolume(i - 1, volume);
   utils::mex_set_scalar_value(arg_out_0, volume);
@@ -922,7 +922,7 @@ do_contactPointAffineRib(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prh
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self   = DATA_GET(arg_in_1);
-  int          i      = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int64_t      i      = utils::mex_get_index(arg_in_2, self->size(), CMD "error in reading input value");
   real_type   *output = utils::mex_create_matrix_value(arg_out_0, 4, 4);
   acme::affine outmat;
   self->contactPointAffine(i - 1, outmat);
@@ -974,7 +974,7 @@ do_relativeAnglesRib(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self   = DATA_GET(arg_in_1);
-  int          i      = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int64_t      i      = utils::mex_get_index(arg_in_2, self->size(), CMD "error in reading input value");
   real_type   *output = utils::mex_create_matrix_value(arg_out_0, 3, 1);
   acme::vec3   outvec;
   self->relativeAngles(i - 1, outvec);
diff --git a/toolbox/src_mex/mex_utils.hh b/toolbox/src_mex/mex_utils.hh
index 4ef4979..0f5e5f9 100644
--- a/toolbox/src_mex/mex_utils.hh
+++ b/toolbox/src_mex/mex_utils.hh
@@ -246,6 +246,20 @@ namespace utils {
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+  static
+  inline
+  int64_t
+  mex_get_index( mxArray const * arg, int64_t size, char const msg[] ) {
+    int64_t res = mex_get_int64( arg, msg );
+    UTILS_MEX_ASSERT(
+      1 <= res && res <= size,
+      msg << ", index " << res << " is not in 1, ..., " << size << "\n"
+      );
+    return res;
+  }
+
+  // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
   static
   inline
   double const *
-- 
2.43.0


From 1834d943ff697ab16db4fe8aac93fa2722564159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 26/48] fix: do not leak the objects of MEX commands that fail

---
 toolbox/src_mex/mex_mesh.cc  | 26 +++++++++++++-------------
 toolbox/src_mex/mex_utils.hh | 10 ++++++----
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/toolbox/src_mex/mex_mesh.cc b/toolbox/src_mex/mex_mesh.cc
index ae94796..fdf2f12 100644
--- a/toolbox/src_mex/mex_mesh.cc
+++ b/toolbox/src_mex/mex_mesh.cc
@@ -125,7 +125,7 @@ do_new(int nlhs, mxArray *plhs[],
       mxIsChar(arg_in_0),
       CMD "first argument must be a string, found " << mxGetClassName(arg_in_0) << "\n");
 
-  enve::ground::mesh *self = new enve::ground::mesh();
+  std::unique_ptr<enve::ground::mesh> self(new enve::ground::mesh());
 
   if (nrhs == 2)
   {
@@ -183,7 +183,7 @@ do_new(int nlhs, mxArray *plhs[],
     }
   }
 
-  DATA_NEW(arg_out_0, self);
+  DATA_NEW(arg_out_0, self.release());
 #undef CMD
 }
 
@@ -231,18 +231,18 @@ do_getTrianglegroundVertices(int nlhs, mxArray *plhs[],
 
   enve::ground::mesh *self = DATA_GET(arg_in_1);
   int64_t i = utils::mex_get_index(arg_in_2, self->size(), CMD "error in reading input value");
-  enve::triangleground *tmp = new enve::triangleground();
-  tmp->copy(*self->ptrTriangleground(i - 1));
+  enve::triangleground tmp;
+  tmp.copy(*self->ptrTriangleground(i - 1));
   real_type *output = utils::mex_create_matrix_value(arg_out_0, 3, 3);
-  output[0] = tmp->triangle::vertex(0).x();
-  output[1] = tmp->triangle::vertex(0).y();
-  output[2] = tmp->triangle::vertex(0).z();
-  output[3] = tmp->triangle::vertex(1).x();
-  output[4] = tmp->triangle::vertex(1).y();
-  output[5] = tmp->triangle::vertex(1).z();
-  output[6] = tmp->triangle::vertex(2).x();
-  output[7] = tmp->triangle::vertex(2).y();
-  output[8] = tmp->triangle::vertex(2).z();
+  output[0] = tmp.triangle::vertex(0).x();
+  output[1] = tmp.triangle::vertex(0).y();
+  output[2] = tmp.triangle::vertex(0).z();
+  output[3] = tmp.triangle::vertex(1).x();
+  output[4] = tmp.triangle::vertex(1).y();
+  output[5] = tmp.triangle::vertex(1).z();
+  output[6] = tmp.triangle::vertex(2).x();
+  output[7] = tmp.triangle::vertex(2).y();
+  output[8] = tmp.triangle::vertex(2).z();
 #undef CMD
 }
 
diff --git a/toolbox/src_mex/mex_utils.hh b/toolbox/src_mex/mex_utils.hh
index 0f5e5f9..a1efc75 100644
--- a/toolbox/src_mex/mex_utils.hh
+++ b/toolbox/src_mex/mex_utils.hh
@@ -34,6 +34,7 @@
 
 #include "mex.h"
 #include <map>
+#include <memory>
 #include <string>
 #include <sstream>
 #include <iostream>
@@ -451,11 +452,12 @@ namespace utils {
   inline
   mxArray *
   mex_convert_ptr_to_mx( base * ptr ) {
-    mexLock();
+    std::unique_ptr<base> object(ptr);
+    std::unique_ptr<mex_class_handle<base>> handle(new mex_class_handle<base>(ptr));
+    object.release();
     mxArray *out = mxCreateNumericMatrix(1, 1, mxUINT64_CLASS, mxREAL);
-    *((uint64_t *)mxGetData(out)) = reinterpret_cast<uint64_t>(
-      new mex_class_handle<base>(ptr)
-    );
+    *((uint64_t *)mxGetData(out)) = reinterpret_cast<uint64_t>(handle.release());
+    mexLock();
     return out;
   }
 
-- 
2.43.0


From 79d5cf3acbeb6f84da7f0d2b55e408982ac0ee24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 27/48] fix: report the arguments mex_mesh cannot load from and
 let 'load' be called without an output

---
 toolbox/src_mex/mex_mesh.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/toolbox/src_mex/mex_mesh.cc b/toolbox/src_mex/mex_mesh.cc
index fdf2f12..ad86488 100644
--- a/toolbox/src_mex/mex_mesh.cc
+++ b/toolbox/src_mex/mex_mesh.cc
@@ -131,7 +131,7 @@ do_new(int nlhs, mxArray *plhs[],
   {
     string path = mxArrayToString(arg_in_1);
     if (path.substr(path.size() - 4, 4) != ".rdf")
-      std::cout << "Cannot load: not a *.rdf or *.obj file!" << std::endl;
+      mexErrMsgTxt(CMD "cannot load, not a *.rdf or *.obj file with its arguments\n");
     else
       self->load(path);
   }
@@ -158,7 +158,7 @@ do_new(int nlhs, mxArray *plhs[],
     }
     else
     {
-      std::cout << "Wrong input arguments!" << std::endl;
+      mexErrMsgTxt(CMD "wrong input arguments\n");
     }
   }
   else if (nrhs == 4)
@@ -179,7 +179,7 @@ do_new(int nlhs, mxArray *plhs[],
     }
     else
     {
-      std::cout << "Wrong input arguments!" << std::endl;
+      mexErrMsgTxt(CMD "wrong input arguments\n");
     }
   }
 
@@ -285,7 +285,7 @@ do_load(int nlhs, mxArray *plhs[],
 {
 #define CMD "mex_mesh( 'load', OBJ, PATH, [, FRICTION] ): "
   UTILS_MEX_ASSERT(nrhs == 3 || nrhs == 4, CMD "expected 3 or 4 inputs, nrhs = " << nrhs << "\n");
-  UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
+  UTILS_MEX_ASSERT(nlhs == 0, CMD "expected 0 output, nlhs = " << nlhs << "\n");
 
   enve::ground::mesh *self = DATA_GET(arg_in_1);
   string path = mxArrayToString(arg_in_2);
@@ -293,7 +293,7 @@ do_load(int nlhs, mxArray *plhs[],
   if (nrhs == 3)
   {
     if (path.substr(path.size() - 4, 4) != ".rdf")
-      std::cout << "Cannot load: not a *.rdf or *.obj file!" << std::endl;
+      mexErrMsgTxt(CMD "cannot load, not a *.rdf or *.obj file with its arguments\n");
     else
       self->load(path);
   }
@@ -301,7 +301,7 @@ do_load(int nlhs, mxArray *plhs[],
   {
     if (path.substr(path.size() - 4, 4) != ".obj")
     {
-      std::cout << "Cannot load: not a *.rdf or *.obj file!" << std::endl;
+      mexErrMsgTxt(CMD "cannot load, not a *.rdf or *.obj file with its arguments\n");
     }
     else
     {
-- 
2.43.0


From 91ea7ca0fc4c96d830c1eb3bd73f92f1168f6bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 28/48] fix: read int8 values with their sign and refuse
 numbers beyond int64 in the MEX gateways

---
 toolbox/src_mex/mex_utils.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toolbox/src_mex/mex_utils.hh b/toolbox/src_mex/mex_utils.hh
index a1efc75..e49a611 100644
--- a/toolbox/src_mex/mex_utils.hh
+++ b/toolbox/src_mex/mex_utils.hh
@@ -200,7 +200,7 @@ namespace utils {
     int64_t res = 0;
     void *ptr = mxGetData(arg);
     switch (category)  {
-      case mxINT8_CLASS:   res = *static_cast<uint8_t*>(ptr); break;
+      case mxINT8_CLASS:   res = *static_cast<int8_t*>(ptr);   break;
       case mxUINT8_CLASS:  res = *static_cast<uint8_t*>(ptr);  break;
       case mxINT16_CLASS:  res = *static_cast<int16_t*>(ptr);  break;
       case mxUINT16_CLASS: res = *static_cast<uint16_t*>(ptr); break;
@@ -211,7 +211,7 @@ namespace utils {
       case mxDOUBLE_CLASS:
         { double tmp = *static_cast<double*>(ptr);
           UTILS_MEX_ASSERT(
-            tmp == std::floor(tmp),
+            tmp == std::floor(tmp) && std::abs(tmp) < 9.2e18,
             msg << " expected int, found " << tmp << "\n"
             );
           res = static_cast<int64_t>(tmp);
@@ -220,7 +220,7 @@ namespace utils {
       case mxSINGLE_CLASS:
         { float tmp = *static_cast<float*>(ptr);
           UTILS_MEX_ASSERT(
-            tmp == std::floor(tmp),
+            tmp == std::floor(tmp) && std::abs(tmp) < 9.2e18,
             msg << " expected int, found " << tmp << "\n"
             );
           res = static_cast<int64_t>(tmp);
-- 
2.43.0


From ebe4ed3a45b8aa39cc9c4450284900a4e873c331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 29/48] fix: check the number of arguments of mex_flat(
 'setOrigin' )

---
 toolbox/src_mex/mex_flat.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toolbox/src_mex/mex_flat.cc b/toolbox/src_mex/mex_flat.cc
index 81344ee..25cd095 100644
--- a/toolbox/src_mex/mex_flat.cc
+++ b/toolbox/src_mex/mex_flat.cc
@@ -199,6 +199,10 @@ static void
 do_setOrigin(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 {
 #define CMD "mex_flat( 'setOrigin', OBJ, OTHER_OBJ ): "
+
+  UTILS_MEX_ASSERT(nrhs == 3, CMD "expected 3 inputs, nrhs = " << nrhs << "\n");
+  UTILS_MEX_ASSERT(nlhs == 0, CMD "expected 0 output, nlhs = " << nlhs << "\n");
+
   enve::ground::flat *self = DATA_GET(arg_in_1);
   real_type const    *matrix_ptr;
   mwSize              rows, cols;
-- 
2.43.0


From 367dce88d120f59fe886f7a4fc75ca879f2d1178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 30/48] fix: let mex_flat( 'setPlane' ) take a plane

---
 toolbox/src_mex/mex_flat.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src_mex/mex_flat.cc b/toolbox/src_mex/mex_flat.cc
index 25cd095..83f5a2b 100644
--- a/toolbox/src_mex/mex_flat.cc
+++ b/toolbox/src_mex/mex_flat.cc
@@ -273,7 +273,7 @@ do_setPlane(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   UTILS_MEX_ASSERT(nlhs == 0, CMD "expected 0 output, nlhs = " << nlhs << "\n");
 
   enve::ground::flat *self  = DATA_GET(arg_in_1);
-  acme::plane        *other = DATA_GET(arg_in_2);
+  acme::plane        *other = utils::mex_convert_mx_to_ptr<acme::plane>(arg_in_2);
   self->layingPlane()       = *other;
 #undef CMD
 }
-- 
2.43.0


From 813d2dbdcc4c798b692f41c6dcc07e0f59d56b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 31/48] fix: make the plane that mex_flat( 'new' ) offers
 without arguments

---
 toolbox/src_mex/mex_flat.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src_mex/mex_flat.cc b/toolbox/src_mex/mex_flat.cc
index 83f5a2b..d7a16d0 100644
--- a/toolbox/src_mex/mex_flat.cc
+++ b/toolbox/src_mex/mex_flat.cc
@@ -125,7 +125,7 @@ static void
 do_new(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 {
 #define CMD "mex_flat( 'new', [, args] ): "
-  UTILS_MEX_ASSERT(nrhs == 1 || nrhs == 4 || nrhs == 8, CMD "expected 1 or 4 inputs, nrhs = " << nrhs << "\n");
+  UTILS_MEX_ASSERT(nrhs == 1 || nrhs == 4, CMD "expected 1 or 4 inputs, nrhs = " << nrhs << "\n");
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   UTILS_MEX_ASSERT(
@@ -159,7 +159,7 @@ do_new(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
     nz = matrix2_ptr[2];
   }
 
-  enve::ground::flat *self = new enve::ground::flat(mu, ox, oy, oz, nx, ny, nz);
+  enve::ground::flat *self = nrhs == 1 ? new enve::ground::flat() : new enve::ground::flat(mu, ox, oy, oz, nx, ny, nz);
 
   DATA_NEW(arg_out_0, self);
 #undef CMD
-- 
2.43.0


From a0968ff98f3857f297b4ac33de86034581da435d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 32/48] fix: copy the identifier of a triangleground

---
 src/triangleground.cc         | 1 +
 toolbox/src/triangleground.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/triangleground.cc b/src/triangleground.cc
index 92846d4..84cf7f3 100644
--- a/src/triangleground.cc
+++ b/src/triangleground.cc
@@ -148,6 +148,7 @@ namespace enve
   )
   {
     this->triangle::operator=(triangleground_obj);
+    this->m_id       = triangleground_obj.m_id;
     this->m_friction = triangleground_obj.m_friction;
     this->m_normal   = triangleground_obj.m_normal;
     this->m_bbox     = triangleground_obj.m_bbox;
diff --git a/toolbox/src/triangleground.cc b/toolbox/src/triangleground.cc
index 92846d4..84cf7f3 100644
--- a/toolbox/src/triangleground.cc
+++ b/toolbox/src/triangleground.cc
@@ -148,6 +148,7 @@ namespace enve
   )
   {
     this->triangle::operator=(triangleground_obj);
+    this->m_id       = triangleground_obj.m_id;
     this->m_friction = triangleground_obj.m_friction;
     this->m_normal   = triangleground_obj.m_normal;
     this->m_bbox     = triangleground_obj.m_bbox;
-- 
2.43.0


From fc885721bb3e71a0140c0e7db1e93f9ee461ad75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 33/48] fix: refuse the null handle in the MEX gateways

---
 toolbox/src_mex/mex_utils.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src_mex/mex_utils.hh b/toolbox/src_mex/mex_utils.hh
index e49a611..e889a5f 100644
--- a/toolbox/src_mex/mex_utils.hh
+++ b/toolbox/src_mex/mex_utils.hh
@@ -474,7 +474,7 @@ namespace utils {
     mex_class_handle<base> * ptr = reinterpret_cast<mex_class_handle<base> *>(
       *((uint64_t *)mxGetData(in))
     );
-    if ( !ptr->is_valid() ) mexErrMsgTxt( "Handle not valid." );
+    if ( ptr == nullptr || !ptr->is_valid() ) mexErrMsgTxt( "Handle not valid." );
     return ptr;
   }
 
-- 
2.43.0


From 33ad6b58eed5daba6aaa715505a5c5846fbae2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 34/48] fix: keep the box and normal of a triangleground that
 is moved

---
 src/enve/triangleground.hxx         | 12 ++++++++++++
 src/triangleground.cc               | 24 ++++++++++++++++++++++++
 toolbox/src/enve/triangleground.hxx | 12 ++++++++++++
 toolbox/src/triangleground.cc       | 24 ++++++++++++++++++++++++
 4 files changed, 72 insertions(+)

diff --git a/src/enve/triangleground.hxx b/src/enve/triangleground.hxx
index 765d197..0a32cf4 100644
--- a/src/enve/triangleground.hxx
+++ b/src/enve/triangleground.hxx
@@ -152,6 +152,18 @@ namespace enve
       size_t i //!< Index
     ) const;
 
+    //! Translate triangleground by vector
+    void
+    translate(
+      vec3 const & vector //!< Input translation vector
+    ) override;
+
+    //! Transform triangleground with affine transformation matrix
+    void
+    transform(
+      affine const & matrix //!< 4x4 affine transformation matrix
+    ) override;
+
     //! Print data
     void
     print(
diff --git a/src/triangleground.cc b/src/triangleground.cc
index 84cf7f3..5ef3570 100644
--- a/src/triangleground.cc
+++ b/src/triangleground.cc
@@ -227,6 +227,30 @@ namespace enve
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+  void
+  triangleground::translate(
+    vec3 const & vector
+  )
+  {
+    this->triangle::translate(vector);
+    this->updateNormal();
+    this->updateBBox();
+  }
+
+  // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
+  void
+  triangleground::transform(
+    affine const & matrix
+  )
+  {
+    this->triangle::transform(matrix);
+    this->updateNormal();
+    this->updateBBox();
+  }
+
+  // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
   void
   triangleground::print(
     out_stream & os
diff --git a/toolbox/src/enve/triangleground.hxx b/toolbox/src/enve/triangleground.hxx
index 765d197..0a32cf4 100644
--- a/toolbox/src/enve/triangleground.hxx
+++ b/toolbox/src/enve/triangleground.hxx
@@ -152,6 +152,18 @@ namespace enve
       size_t i //!< Index
     ) const;
 
+    //! Translate triangleground by vector
+    void
+    translate(
+      vec3 const & vector //!< Input translation vector
+    ) override;
+
+    //! Transform triangleground with affine transformation matrix
+    void
+    transform(
+      affine const & matrix //!< 4x4 affine transformation matrix
+    ) override;
+
     //! Print data
     void
     print(
diff --git a/toolbox/src/triangleground.cc b/toolbox/src/triangleground.cc
index 84cf7f3..5ef3570 100644
--- a/toolbox/src/triangleground.cc
+++ b/toolbox/src/triangleground.cc
@@ -227,6 +227,30 @@ namespace enve
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+  void
+  triangleground::translate(
+    vec3 const & vector
+  )
+  {
+    this->triangle::translate(vector);
+    this->updateNormal();
+    this->updateBBox();
+  }
+
+  // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
+  void
+  triangleground::transform(
+    affine const & matrix
+  )
+  {
+    this->triangle::transform(matrix);
+    this->updateNormal();
+    this->updateBBox();
+  }
+
+  // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
   void
   triangleground::print(
     out_stream & os
-- 
2.43.0


From ebaba2fd07475c19a7fbbf589109459860ca88ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 35/48] fix: copy the lateral position of a rib

---
 src/rib.cc         | 1 +
 toolbox/src/rib.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/rib.cc b/src/rib.cc
index 93c5ae5..8538dac 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -84,6 +84,7 @@ namespace enve
   {
     this->disk::operator=(rib_obj);
     this->m_id    = rib_obj.m_id;
+    this->m_y     = rib_obj.m_y;
     this->m_width = rib_obj.m_width;
     this->m_angle = rib_obj.m_angle;
   }
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index 93c5ae5..8538dac 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -84,6 +84,7 @@ namespace enve
   {
     this->disk::operator=(rib_obj);
     this->m_id    = rib_obj.m_id;
+    this->m_y     = rib_obj.m_y;
     this->m_width = rib_obj.m_width;
     this->m_angle = rib_obj.m_angle;
   }
-- 
2.43.0


From 8d6e016b44c484e4075d22dbc3db0ac0b88b3444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 36/48] fix: let checkTransformation require an orthonormal
 frame

---
 src/shell.cc         | 4 +++-
 toolbox/src/shell.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 6ca8126..8c3e0c9 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -336,7 +336,9 @@ namespace enve
   )
     const
   {
-    if (std::abs(pose.determinant() - real(1.0)) < tolerance)
+    mat3 linear(pose.topLeftCorner(3, 3));
+    if (std::abs(pose.determinant() - real(1.0)) < tolerance &&
+        linear.isUnitary(tolerance))
       {return true;}
     else
       {return false;}
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 6ca8126..8c3e0c9 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -336,7 +336,9 @@ namespace enve
   )
     const
   {
-    if (std::abs(pose.determinant() - real(1.0)) < tolerance)
+    mat3 linear(pose.topLeftCorner(3, 3));
+    if (std::abs(pose.determinant() - real(1.0)) < tolerance &&
+        linear.isUnitary(tolerance))
       {return true;}
     else
       {return false;}
-- 
2.43.0


From 988903ad93aecbb670f8e169318d5a1a0795e010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:09 +0000
Subject: [PATCH 37/48] fix: refuse rib counts and identifiers out of range in
 the MATLAB gateways

---
 toolbox/src_mex/mex_shell.cc          |  4 ++--
 toolbox/src_mex/mex_triangleground.cc |  2 +-
 toolbox/src_mex/mex_utils.hh          | 15 +++++++++++++++
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/toolbox/src_mex/mex_shell.cc b/toolbox/src_mex/mex_shell.cc
index 8c66c0a..2a23617 100644
--- a/toolbox/src_mex/mex_shell.cc
+++ b/toolbox/src_mex/mex_shell.cc
@@ -173,7 +173,7 @@ do_new(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 
   if (nrhs == 7)
   {
-    int       size = utils::mex_get_int64(arg_in_1, CMD "error in reading ribs number input value");
+    int       size = utils::mex_get_int(arg_in_1, CMD "error in reading ribs number input value");
     real_type r_x  = utils::mex_get_scalar_value(arg_in_2, CMD "error in reading Rx input value");
     real_type m_x  = utils::mex_get_scalar_value(arg_in_3, CMD "error in reading Mx input value");
     real_type r_y  = utils::mex_get_scalar_value(arg_in_4, CMD "error in reading Ry input value");
@@ -208,7 +208,7 @@ do_resize(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   UTILS_MEX_ASSERT(nlhs == 0, CMD "expected 0 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self = DATA_GET(arg_in_1);
-  int          size = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
+  int          size = utils::mex_get_int(arg_in_2, CMD "error in reading input value");
   self->resize(size);
 #undef CMD
 }
diff --git a/toolbox/src_mex/mex_triangleground.cc b/toolbox/src_mex/mex_triangleground.cc
index b5abb94..89da7e2 100644
--- a/toolbox/src_mex/mex_triangleground.cc
+++ b/toolbox/src_mex/mex_triangleground.cc
@@ -164,7 +164,7 @@ do_new(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 
   if (nrhs == 6)
   {
-    id = utils::mex_get_int64(arg_in_1, CMD "error in reading 1st input value");
+    id = utils::mex_get_int(arg_in_1, CMD "error in reading 1st input value");
     mu = utils::mex_get_scalar_value(arg_in_2, CMD "error in reading 2nd input value");
     real_type const *matrix1_ptr;
     mwSize           rows1, cols1;
diff --git a/toolbox/src_mex/mex_utils.hh b/toolbox/src_mex/mex_utils.hh
index e889a5f..b1a33fd 100644
--- a/toolbox/src_mex/mex_utils.hh
+++ b/toolbox/src_mex/mex_utils.hh
@@ -41,6 +41,7 @@
 #include <cmath>
 #include <cstring>
 #include <cstdint>
+#include <limits>
 #include <typeinfo>
 
 #define CLASS_HANDLE_SIGNATURE 0xFF00F0A5
@@ -247,6 +248,20 @@ namespace utils {
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+  static
+  inline
+  int
+  mex_get_int( mxArray const * arg, char const msg[] ) {
+    int64_t res = mex_get_int64( arg, msg );
+    UTILS_MEX_ASSERT(
+      std::numeric_limits<int>::min() <= res && res <= std::numeric_limits<int>::max(),
+      msg << ", found " << res << " out of range\n"
+      );
+    return static_cast<int>(res);
+  }
+
+  // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
   static
   inline
   int64_t
-- 
2.43.0


From 3ea99f9f2c09c5de0b42476a9f3bd6d3fa529aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:09 +0000
Subject: [PATCH 38/48] fix: give contact normals a direction where the
 averaged normals cancel

---
 src/rib.cc           | 7 ++++++-
 src/shell.cc         | 3 +++
 toolbox/src/rib.cc   | 7 ++++++-
 toolbox/src/shell.cc | 3 +++
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index 8538dac..4f8192c 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -317,7 +317,12 @@ namespace enve
         (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE))
     {
       out.point    = contact_point_tot    / segment_volume_tot;
-      out.normal   = (contact_normal_tot  / segment_volume_tot).normalized();
+      out.normal   = contact_normal_tot   / segment_volume_tot;
+      // Normals cancelling each other out leave no direction, use the vertical axis
+      if (out.normal.norm() > EPSILON_ENVE)
+        {out.normal.normalize();}
+      else
+        {out.normal = rotation * UNITZ_VEC3;}
       out.friction = contact_friction_tot / segment_volume_tot;
       out.depth    = radius - (out.point - center_grd).norm();
       out.area     = segment_area_tot;
diff --git a/src/shell.cc b/src/shell.cc
index 8c3e0c9..4c9d202 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -601,6 +601,9 @@ namespace enve
       normal /= volume;
       normal.normalize();
     }
+    // Normals cancelling each other out leave no direction, use the vertical axis
+    if (normal.isZero())
+      {normal = this->z();}
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index 8538dac..4f8192c 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -317,7 +317,12 @@ namespace enve
         (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE))
     {
       out.point    = contact_point_tot    / segment_volume_tot;
-      out.normal   = (contact_normal_tot  / segment_volume_tot).normalized();
+      out.normal   = contact_normal_tot   / segment_volume_tot;
+      // Normals cancelling each other out leave no direction, use the vertical axis
+      if (out.normal.norm() > EPSILON_ENVE)
+        {out.normal.normalize();}
+      else
+        {out.normal = rotation * UNITZ_VEC3;}
       out.friction = contact_friction_tot / segment_volume_tot;
       out.depth    = radius - (out.point - center_grd).norm();
       out.area     = segment_area_tot;
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 8c3e0c9..4c9d202 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -601,6 +601,9 @@ namespace enve
       normal /= volume;
       normal.normalize();
     }
+    // Normals cancelling each other out leave no direction, use the vertical axis
+    if (normal.isZero())
+      {normal = this->z();}
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 6c6f18bb8a9719ac3387f38e74c7cc23545e83d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:29 +0000
Subject: [PATCH 39/48] fix: exchange the formulas of disk perimeter and area

---
 toolbox/src/disk.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src/disk.cc b/toolbox/src/disk.cc
index 8b78724..ee4b409 100644
--- a/toolbox/src/disk.cc
+++ b/toolbox/src/disk.cc
@@ -193,7 +193,7 @@ namespace acme
   disk::perimeter(void)
     const
   {
-    return PI * this->m_radius * this->m_radius;
+    return real(2.0) * PI * this->m_radius;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -202,7 +202,7 @@ namespace acme
   disk::area(void)
     const
   {
-    return real(2.0) * PI * this->m_radius;
+    return PI * this->m_radius * this->m_radius;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From b645e48c1679a997130d4a8509d0508553de14bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:29 +0000
Subject: [PATCH 40/48] fix: set a point made without coordinates to
 not-a-number

---
 toolbox/src/point.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/point.cc b/toolbox/src/point.cc
index b75f576..e8abcb5 100644
--- a/toolbox/src/point.cc
+++ b/toolbox/src/point.cc
@@ -49,7 +49,7 @@ namespace acme
 
   point::point(void)
   {
-    this->Constant(QUIET_NAN);
+    this->setConstant(QUIET_NAN);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From f28e8a71af06f5c5faf38bab26d62d4726a8063a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:19 +0000
Subject: [PATCH 41/48] fix: merge a box with others in place

aabb::merged overwrote the corners before it read them when the box itself is
one of the boxes to merge.
---
 toolbox/src/aabb.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/toolbox/src/aabb.cc b/toolbox/src/aabb.cc
index 5905b90..58f6c8d 100644
--- a/toolbox/src/aabb.cc
+++ b/toolbox/src/aabb.cc
@@ -288,6 +288,9 @@ namespace acme
     }
     else
     {
+      // This box may be one of those to merge
+      aabb const old_box(*this);
+
       std::vector<aabb::ptr>::const_iterator it = boxes.begin();
 
       this->m_min = (*it)->m_min;
@@ -295,7 +298,7 @@ namespace acme
 
       for (++it; it != boxes.end(); ++it)
       {
-        aabb const & cur_box = **it;
+        aabb const & cur_box = it->get() == this ? old_box : **it;
         if (cur_box.m_min.x() < this->m_min.x())
           {this->m_min.x() = cur_box.m_min.x();}
         if (cur_box.m_min.y() < this->m_min.y())
-- 
2.43.0


From 9e185d071d1968dae05ac5ff215434a78aac66bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:28 +0000
Subject: [PATCH 42/48] fix: move by a vector that is moved along

translate took its vector by reference; when the vector is a vertex of the
object itself, or an entity of the collection, the later vertices and entities
were moved by the vector already moved.
---
 toolbox/src/aabb.cc       | 5 +++--
 toolbox/src/collection.cc | 3 ++-
 toolbox/src/segment.cc    | 5 +++--
 toolbox/src/triangle.cc   | 7 ++++---
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/toolbox/src/aabb.cc b/toolbox/src/aabb.cc
index 58f6c8d..ec6ac35 100644
--- a/toolbox/src/aabb.cc
+++ b/toolbox/src/aabb.cc
@@ -422,8 +422,9 @@ namespace acme
     point const & vector_in
   )
   {
-    this->m_min = vector_in + this->m_min;
-    this->m_max = vector_in + this->m_max;
+    point const vector(vector_in); // it may be one of the corners
+    this->m_min = vector + this->m_min;
+    this->m_max = vector + this->m_max;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index 4eeb37e..c3a5005 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -118,9 +118,10 @@ namespace acme
     vec3 const & input
   )
   {
+    vec3 const vector(input); // it may be one of the entities
     for (size_t i = 0; i < this->m_entities.size(); ++i)
     {
-      this->m_entities[i]->translate(input);
+      this->m_entities[i]->translate(vector);
     }
   }
 
diff --git a/toolbox/src/segment.cc b/toolbox/src/segment.cc
index accc541..aa6504c 100644
--- a/toolbox/src/segment.cc
+++ b/toolbox/src/segment.cc
@@ -192,8 +192,9 @@ namespace acme
     vec3 const & vector_in
   )
   {
-    this->m_vertex[0] = vector_in + this->m_vertex[0];
-    this->m_vertex[1] = vector_in + this->m_vertex[1];
+    vec3 const vector(vector_in); // it may be one of the vertices
+    this->m_vertex[0] = vector + this->m_vertex[0];
+    this->m_vertex[1] = vector + this->m_vertex[1];
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
diff --git a/toolbox/src/triangle.cc b/toolbox/src/triangle.cc
index 9f4439c..883e60e 100644
--- a/toolbox/src/triangle.cc
+++ b/toolbox/src/triangle.cc
@@ -285,9 +285,10 @@ namespace acme
     vec3 const & vector_in
   )
   {
-    this->m_vertex[0] = vector_in + this->m_vertex[0];
-    this->m_vertex[1] = vector_in + this->m_vertex[1];
-    this->m_vertex[2] = vector_in + this->m_vertex[2];
+    vec3 const vector(vector_in); // it may be one of the vertices
+    this->m_vertex[0] = vector + this->m_vertex[0];
+    this->m_vertex[1] = vector + this->m_vertex[1];
+    this->m_vertex[2] = vector + this->m_vertex[2];
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From eb6c5468559907a8febed94de37b23872ebab715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:38 +0000
Subject: [PATCH 43/48] fix: ask for the width bound by the command that exists

The class method surfaceWidthBound issued 'surfaceWidthBound', which mex_shell
does not know: every call failed. The command is 'checkWidthBound'.
---
 toolbox/lib/enve_shell.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/lib/enve_shell.m b/toolbox/lib/enve_shell.m
index 3845205..2982065 100644
--- a/toolbox/lib/enve_shell.m
+++ b/toolbox/lib/enve_shell.m
@@ -77,7 +77,7 @@ classdef enve_shell < handle
     %
     %> Get shell surface maximum width on reference (m)
     function out = surfaceWidthBound( this, y )
-      out = mex_shell( 'surfaceWidthBound', this.objectHandle, y );
+      out = mex_shell( 'checkWidthBound', this.objectHandle, y );
     end
     %
     % - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 1f28e50f9d98cb9638e5ac74ed6630a4a684cb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:38 +0000
Subject: [PATCH 44/48] fix: copy flats from flats

enve_flat.copy wanted a mesh, whose handle mex_flat refuses, and refused flats:
no flat could be copied.
---
 toolbox/lib/enve_flat.m | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/lib/enve_flat.m b/toolbox/lib/enve_flat.m
index 066215c..f351a86 100644
--- a/toolbox/lib/enve_flat.m
+++ b/toolbox/lib/enve_flat.m
@@ -128,10 +128,10 @@ classdef enve_flat < handle
     %
     %> Copy mesh object from another mesh
     function copy( this, other_obj )
-      if (other_obj.type() == "mesh")
+      if (other_obj.type() == "flat")
         mex_flat( 'copy', this.objectHandle, other_obj.objectHandle );
       else
-        error('mex_flat::copy(): other_obj must be an ENVE mesh object type.');
+        error('mex_flat::copy(): other_obj must be an ENVE flat object type.');
       end
     end
     %
-- 
2.43.0


From 949c87c8d143baceb778bf35e7c5fc7a2c527892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:12 +0000
Subject: [PATCH 45/48] fix: refuse negative vertex and edge indices of
 triangles

The index check only bounded from above: a negative index read or gave out
memory before the vertices.
---
 toolbox/src/triangle.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/toolbox/src/triangle.cc b/toolbox/src/triangle.cc
index 883e60e..14b85aa 100644
--- a/toolbox/src/triangle.cc
+++ b/toolbox/src/triangle.cc
@@ -114,7 +114,7 @@ namespace acme
   {
     #define CMD "acme::triangle::vertex(): "
 
-    ACME_ASSERT(i < 3,
+    ACME_ASSERT(i >= 0 && i < 3,
       CMD "index out of bounds [0,2].")
     return this->m_vertex[i];
 
@@ -130,7 +130,7 @@ namespace acme
   {
     #define CMD "acme::triangle::vertex(): "
 
-    ACME_ASSERT(i < 3,
+    ACME_ASSERT(i >= 0 && i < 3,
       CMD "index out of bounds [0,2].")
     return this->m_vertex[i];
 
@@ -147,7 +147,7 @@ namespace acme
   {
     #define CMD "acme::triangle::operator[]: "
 
-    ACME_ASSERT(i < 3,
+    ACME_ASSERT(i >= 0 && i < 3,
       CMD "index out of bounds [0,2].")
     return this->m_vertex[i];
 
@@ -163,7 +163,7 @@ namespace acme
   {
     #define CMD "acme::triangle::operator[]: "
 
-    ACME_ASSERT(i < 3,
+    ACME_ASSERT(i >= 0 && i < 3,
       CMD "index out of bounds [0,2].")
     return this->m_vertex[i];
 
@@ -189,7 +189,7 @@ namespace acme
   {
     #define CMD "acme::triangle::edge(): "
 
-    ACME_ASSERT(i < 3,
+    ACME_ASSERT(i >= 0 && i < 3,
       CMD "index out of bounds [0,2].")
     if (i == 0)
       {return segment(this->m_vertex[0], this->m_vertex[1]);}
-- 
2.43.0


From fc248d195cced94394020b416232097b6f5d41d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:59 +0000
Subject: [PATCH 46/48] fix: refuse fields that are not numbers to their end

---
 src/mesh.cc         | 26 ++++++++++++++++++++++++++
 toolbox/src/mesh.cc | 26 ++++++++++++++++++++++++++
 2 files changed, 52 insertions(+)

diff --git a/src/mesh.cc b/src/mesh.cc
index 330fce9..c8923e5 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -33,11 +33,34 @@
 
 #include "enve.hh"
 
+#include <cstdlib>
+#include <cstring>
+
 namespace enve
 {
   namespace ground
   {
 
+    // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
+    // Check that the fields of a record are numbers and nothing else
+    static
+    void
+    checkNumbers(
+      std::string const & record
+    )
+    {
+      char const * field = record.c_str();
+      char       * end   = nullptr;
+      while (*(field += std::strspn(field, " \t\r")) != '\0')
+      {
+        std::strtod(field, &end);
+        ENVE_ASSERT(end != field && std::strchr(" \t\r", *end) != nullptr,
+          "enve::ground::load(...): field is not a number.");
+        field = end;
+      }
+    }
+
     /*\
      |                       _
      |   _ __ ___   ___  ___| |__
@@ -292,6 +315,7 @@ namespace enve
         // Generate a vertex position
         if (nodes_parse)
         {
+          checkNumbers(this->tail(curline));
           this->split(this->tail(curline), s_node, " ");
           ENVE_ASSERT(s_node.size() == size_t(3),
             CMD "wrong numbder of elements detected.");
@@ -307,6 +331,7 @@ namespace enve
         if (elements_parse)
         {
           // Generate the triangle vertices from the element
+          checkNumbers(curline);
           this->split(curline, s_node, " ");
           ENVE_ASSERT(s_node.size() == size_t(4),
             CMD "wrong numbder of elements detected.");
@@ -422,6 +447,7 @@ namespace enve
         if (token == "v")
         {
           // Generate a vertex position
+          checkNumbers(this->tail(curline));
           this->split(this->tail(curline), s_node, " ");
           ENVE_ASSERT(s_node.size() == size_t(3),
             CMD "wrong numbder of elements detected.");
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index 330fce9..c8923e5 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -33,11 +33,34 @@
 
 #include "enve.hh"
 
+#include <cstdlib>
+#include <cstring>
+
 namespace enve
 {
   namespace ground
   {
 
+    // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
+    // Check that the fields of a record are numbers and nothing else
+    static
+    void
+    checkNumbers(
+      std::string const & record
+    )
+    {
+      char const * field = record.c_str();
+      char       * end   = nullptr;
+      while (*(field += std::strspn(field, " \t\r")) != '\0')
+      {
+        std::strtod(field, &end);
+        ENVE_ASSERT(end != field && std::strchr(" \t\r", *end) != nullptr,
+          "enve::ground::load(...): field is not a number.");
+        field = end;
+      }
+    }
+
     /*\
      |                       _
      |   _ __ ___   ___  ___| |__
@@ -292,6 +315,7 @@ namespace enve
         // Generate a vertex position
         if (nodes_parse)
         {
+          checkNumbers(this->tail(curline));
           this->split(this->tail(curline), s_node, " ");
           ENVE_ASSERT(s_node.size() == size_t(3),
             CMD "wrong numbder of elements detected.");
@@ -307,6 +331,7 @@ namespace enve
         if (elements_parse)
         {
           // Generate the triangle vertices from the element
+          checkNumbers(curline);
           this->split(curline, s_node, " ");
           ENVE_ASSERT(s_node.size() == size_t(4),
             CMD "wrong numbder of elements detected.");
@@ -422,6 +447,7 @@ namespace enve
         if (token == "v")
         {
           // Generate a vertex position
+          checkNumbers(this->tail(curline));
           this->split(this->tail(curline), s_node, " ");
           ENVE_ASSERT(s_node.size() == size_t(3),
             CMD "wrong numbder of elements detected.");
-- 
2.43.0


From f195a0113b4147f6bfff063210ac0acc1baa6501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:37 +0000
Subject: [PATCH 47/48] fix: no negative depth on a plane that barely touches

---
 src/rib.cc         | 1 +
 toolbox/src/rib.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/rib.cc b/src/rib.cc
index 4f8192c..00d5e9e 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -372,6 +372,7 @@ namespace enve
       out.normal   = (ground.normal() - normal_tmp * ground.normal().dot(normal_tmp)).normalized();
       out.friction = ground.friction();
       out.depth    = radius - (out.point - center_grd).norm();
+      out.depth    = std::max(real(0.0), out.depth); // Barely touching
       out.area     = real(2.0) * std::sqrt(out.depth * (real(2.0) * radius - out.depth)) * width;
       out.volume   = (radius * radius * std::acos((radius - out.depth) / radius) -
                      (radius - out.depth) * std::sqrt(out.depth * (real(2.0) * radius - out.depth))) * width;
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index 4f8192c..00d5e9e 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -372,6 +372,7 @@ namespace enve
       out.normal   = (ground.normal() - normal_tmp * ground.normal().dot(normal_tmp)).normalized();
       out.friction = ground.friction();
       out.depth    = radius - (out.point - center_grd).norm();
+      out.depth    = std::max(real(0.0), out.depth); // Barely touching
       out.area     = real(2.0) * std::sqrt(out.depth * (real(2.0) * radius - out.depth)) * width;
       out.volume   = (radius * radius * std::acos((radius - out.depth) / radius) -
                      (radius - out.depth) * std::sqrt(out.depth * (real(2.0) * radius - out.depth))) * width;
-- 
2.43.0


From 3464df27bfa2116087969362c4b0f43ccd9ad95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:37 +0000
Subject: [PATCH 48/48] fix: no negative volume of ribs that barely touch

---
 src/rib.cc         | 3 +++
 toolbox/src/rib.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/rib.cc b/src/rib.cc
index 00d5e9e..00646eb 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -376,6 +376,7 @@ namespace enve
       out.area     = real(2.0) * std::sqrt(out.depth * (real(2.0) * radius - out.depth)) * width;
       out.volume   = (radius * radius * std::acos((radius - out.depth) / radius) -
                      (radius - out.depth) * std::sqrt(out.depth * (real(2.0) * radius - out.depth))) * width;
+      out.volume   = std::max(real(0.0), out.volume); // Barely touching
       return true;
     }
     else
@@ -446,6 +447,7 @@ namespace enve
       out.area     = real(2.0) * std::sqrt(out.depth * (real(2.0) * radius - out.depth)) * width;
       out.volume   = (radius * radius * std::acos((radius - out.depth) / radius) -
                      (radius - out.depth) * std::sqrt(out.depth * (real(2.0) * radius - out.depth))) * width;
+      out.volume   = std::max(real(0.0), out.volume); // Barely touching
       return true;
     }
     else
@@ -516,6 +518,7 @@ namespace enve
       out.area     = real(2.0) * std::sqrt(out.depth * (real(2.0) * radius - out.depth)) * width;
       out.volume   = (radius * radius * std::acos((radius - out.depth) / radius) -
                      (radius - out.depth) * std::sqrt(out.depth * (real(2.0) * radius - out.depth))) * width;
+      out.volume   = std::max(real(0.0), out.volume); // Barely touching
       return true;
     }
     else
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index 00d5e9e..00646eb 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -376,6 +376,7 @@ namespace enve
       out.area     = real(2.0) * std::sqrt(out.depth * (real(2.0) * radius - out.depth)) * width;
       out.volume   = (radius * radius * std::acos((radius - out.depth) / radius) -
                      (radius - out.depth) * std::sqrt(out.depth * (real(2.0) * radius - out.depth))) * width;
+      out.volume   = std::max(real(0.0), out.volume); // Barely touching
       return true;
     }
     else
@@ -446,6 +447,7 @@ namespace enve
       out.area     = real(2.0) * std::sqrt(out.depth * (real(2.0) * radius - out.depth)) * width;
       out.volume   = (radius * radius * std::acos((radius - out.depth) / radius) -
                      (radius - out.depth) * std::sqrt(out.depth * (real(2.0) * radius - out.depth))) * width;
+      out.volume   = std::max(real(0.0), out.volume); // Barely touching
       return true;
     }
     else
@@ -516,6 +518,7 @@ namespace enve
       out.area     = real(2.0) * std::sqrt(out.depth * (real(2.0) * radius - out.depth)) * width;
       out.volume   = (radius * radius * std::acos((radius - out.depth) / radius) -
                      (radius - out.depth) * std::sqrt(out.depth * (real(2.0) * radius - out.depth))) * width;
+      out.volume   = std::max(real(0.0), out.volume); // Barely touching
       return true;
     }
     else
-- 
2.43.0

