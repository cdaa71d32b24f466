From 40be65f78af433289a72d40b99094a61db296573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 01/54] fix: Tree::find_leaf read freed memory if coords has
 more than n_dim elements

Assigning a segment of a dynamically sized vector to the vector itself
resizes (frees) the source before it is read.
---
 src/Tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Tree.cpp b/src/Tree.cpp
index 3d3a5b4..53f7944 100644
--- a/src/Tree.cpp
+++ b/src/Tree.cpp
@@ -75,7 +75,7 @@ Tree* Tree::find_leaf(int rl, Eigen::VectorXi c, Eigen::VectorXi bias)
   HEXED_ASSERT(c.size() >= n_dim, "`coords` has too few elements");
   HEXED_ASSERT(bias.size() >= n_dim, "`bias` has too few elements");
   // find the relative coordinates in this element's ref level or the specified ref level, whichever is higher
-  c = c(Eigen::seqN(0, n_dim));
+  c = c(Eigen::seqN(0, n_dim)).eval(); // `eval` is required to avoid aliasing
   int max_level = std::max(ref_level, rl);
   int cell_size = math::pow(2, max_level - ref_level);
   Eigen::MatrixXi relative_coords = c*math::pow(2, max_level - rl) - bias(Eigen::seqN(0, n_dim)) - coords*cell_size;
-- 
2.43.0


From 4f66839ae297aa18ee85cea6dca65d4d2fed11a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 02/54] fix: Tree::find_leaf could return a non-leaf for points
 on the boundary between children

---
 src/Tree.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Tree.cpp b/src/Tree.cpp
index 53f7944..5a72515 100644
--- a/src/Tree.cpp
+++ b/src/Tree.cpp
@@ -100,11 +100,17 @@ Tree* Tree::find_leaf(Mat<> nom_pos)
   for (int i_dim = 0; i_dim < n_dim; ++i_dim) {
     if ((nom_pos(i_dim) < np(i_dim)) || (nom_pos(i_dim) > np(i_dim) + ns)) return nullptr;
   }
-  for (auto& child : children_storage) {
-    Tree* leaf = child->find_leaf(nom_pos);
-    if (leaf) return leaf;
+  // Descend by comparing to the center instead of checking the bounds of the children:
+  // because of rounding, the bounds of adjacent children are not guaranteed to match exactly,
+  // so a point inside this element might not be strictly inside any of its children.
+  Tree* leaf = this;
+  while (!leaf->is_leaf()) {
+    Mat<> c = leaf->center();
+    int i_child = 0;
+    for (int i_dim = 0; i_dim < n_dim; ++i_dim) i_child = 2*i_child + (nom_pos(i_dim) > c(i_dim));
+    leaf = leaf->children_storage[i_child].get();
   }
-  return this;
+  return leaf;
 }
 
 Tree* Tree::find_neighbor(Eigen::VectorXi direction)
-- 
2.43.0


From 462329278ba1c0f1c7ae3a421f79143a089f87f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 03/54] fix: Tree::flood_fill on a non-leaf also flooded the
 neighbors of that non-leaf

The fill is documented to start only from the leaf descendent with the
smallest coordinates.
---
 src/Tree.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Tree.cpp b/src/Tree.cpp
index 5a72515..49d737c 100644
--- a/src/Tree.cpp
+++ b/src/Tree.cpp
@@ -164,7 +164,10 @@ void Tree::set_status(int new_status)
 void Tree::flood_fill(int new_status)
 {
   HEXED_ASSERT(new_status != unprocessed, "`flood_fill` may not be used to set status to `unprocessed`");
-  if (!is_leaf()) children_storage[0]->flood_fill(new_status); // find a leaf element to start
+  if (!is_leaf()) { // find a leaf element to start
+    children_storage[0]->flood_fill(new_status);
+    return;
+  }
   std::queue<Tree*> to_process;
   to_process.push(this);
   while (!to_process.empty()) {
-- 
2.43.0


From da5d0b8ccdec6368b1b44608d5bc7d7a667bad44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:12 +0000
Subject: [PATCH 04/54] fix: stack overflow when matching hanging vertices in
 1D

---
 src/Hanging_vertex_matcher.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Hanging_vertex_matcher.cpp b/src/Hanging_vertex_matcher.cpp
index 8ad9a44..fb31068 100644
--- a/src/Hanging_vertex_matcher.cpp
+++ b/src/Hanging_vertex_matcher.cpp
@@ -12,6 +12,7 @@ Hanging_vertex_matcher::Hanging_vertex_matcher(std::vector<Element*> fine_elemen
 
 void Hanging_vertex_matcher::match(std::function<double&(Element&, int i_vertex)> access_func)
 {
+  if (n_dim == 1) return; // in 1D there is only one fine element, so its vertex is not hanging
   // extract the indices and values of the vertices on the desired face
   int inds [4]; // for `n_dim <= 3` the required size will be <= 4
   Eigen::VectorXd values (n_vert);
-- 
2.43.0


From 6190716cbc32d2462a263dd65fb5461452c1ae3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:12 +0000
Subject: [PATCH 05/54] fix: Accessible_mesh::update ignored unrefinement locks
 of siblings

---
 src/Accessible_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 1e52e0d..099d512 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -1181,7 +1181,7 @@ bool Accessible_mesh::update(std::function<bool(Element&)> refine_criterion, std
             for (Tree* child : parent->children()) {
               if (!child->is_leaf() && has_existent_children(child)) unref = false;
               else if (child->elem) if (child->elem->record != 2) {
-                unref = unref && child->elem->record == -1;
+                unref = unref && child->elem->record == -1 && !child->elem->unrefinement_locked;
                 is_def = is_def || child->elem->get_is_deformed();
               }
             }
-- 
2.43.0


From 592e7b7190f0955db301edb5487b71b14bd636d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:12 +0000
Subject: [PATCH 06/54] fix: Accessible_mesh::update kept unrefined elements
 that intersect the surface

---
 src/Accessible_mesh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 099d512..3f38c7f 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -1197,6 +1197,7 @@ bool Accessible_mesh::update(std::function<bool(Element&)> refine_criterion, std
               }
             }
             parent->unrefine();
+            parent->set_status(intersects_surface(parent) - 1); // its status is from before it was refined
             add_elem(is_def, *parent).record = 0;
           }
         }
@@ -1240,6 +1241,7 @@ bool Accessible_mesh::update(std::function<bool(Element&)> refine_criterion, std
                     }
                   }
                   p->unrefine();
+                  p->set_status(intersects_surface(p) - 1);
                 }
               } else if (neighbor->refinement_level() < elem.refinement_level() - 1) {
                 changed = true;
-- 
2.43.0


From a5ac9063fb6659cc3eb52e52a12f429a4299048f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:25 +0000
Subject: [PATCH 07/54] fix: Accessible_mesh formed 1D hanging connections with
 coarse and fine elements swapped

---
 src/Accessible_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 3f38c7f..c858b66 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -777,7 +777,7 @@ void Accessible_mesh::connect_new(int start_at)
             if (neighbors.empty()) m.bound_cons.emplace_back(new Typed_bound_connection<element_t>(elem, i_dim, sign, tree_bcs[2*i_dim + sign]));
             // otherwise, if the element has not only a tree neighbor but also an element neighbor...
             else if (neighbors[0]->elem) {
-              if (neighbors.size() == 1) {
+              if (neighbors[0]->refinement_level() <= elem.refinement_level()) { // checking number of neighbors would not work in 1D
                 auto& other = *neighbors[0]->elem;
                 // if ref levels are the same, make a conformal connection
                 if (other.refinement_level() == elem.refinement_level()) {
-- 
2.43.0


From 6139be0d18925be91b2dac1ad28ba48fc7fc4fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:45 +0000
Subject: [PATCH 08/54] fix: Accessible_mesh moved vertices of Cartesian
 elements on partially deformed 3D hanging edges

---
 src/Accessible_mesh.cpp | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index c858b66..292ecac 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -1052,7 +1052,7 @@ void Accessible_mesh::deform()
       }
     }
   }
-  // if any refined faces have some elements cartesian and some deformed, make them all deformed
+  // if any refined faces (or, in 3D, edges) have some elements cartesian and some deformed, make them all deformed
   bool changed;
   do {
     changed = false;
@@ -1061,21 +1061,27 @@ void Accessible_mesh::deform()
       auto& elem = elems[i_elem];
       if (elem.tree && is_def(elem)) {
         for (int i_face = 0; i_face < 2*nd; ++i_face) {
-          auto neighbors = elem.tree->find_neighbors(math::direction(nd, i_face));
-          bool any_deformed = false;
-          bool all_deformed = true;
-          for (Tree* neighbor : neighbors) {
-            if (neighbor->elem) {
-              any_deformed = any_deformed || is_def(*neighbor->elem);
-              all_deformed = all_deformed && is_def(*neighbor->elem);
-            }
+          std::vector<Eigen::VectorXi> directions {math::direction(nd, i_face)};
+          if (nd == 3) for (int j_face = 0; j_face < 2*(i_face/2); ++j_face) {
+            directions.push_back(directions[0] + math::direction(nd, j_face));
           }
-          if (any_deformed && !all_deformed) {
+          for (auto& direction : directions) {
+            auto neighbors = elem.tree->find_neighbors(direction);
+            bool any_deformed = false;
+            bool all_deformed = true;
             for (Tree* neighbor : neighbors) {
-              if (neighbor->elem) {
-                changed = true;
-                #pragma omp atomic write
-                neighbor->elem->record = 3*!neighbor->elem->get_is_deformed();
+              if (exists(neighbor)) {
+                any_deformed = any_deformed || is_def(*neighbor->elem);
+                all_deformed = all_deformed && is_def(*neighbor->elem);
+              }
+            }
+            if (any_deformed && !all_deformed) {
+              for (Tree* neighbor : neighbors) {
+                if (exists(neighbor)) {
+                  changed = true;
+                  #pragma omp atomic write
+                  neighbor->elem->record = 3*!neighbor->elem->get_is_deformed();
+                }
               }
             }
           }
-- 
2.43.0


From 95d608b139e42340f683fb57355326a1d301453b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:05 +0000
Subject: [PATCH 09/54] fix: Accessible_mesh::extrude left serial numbers in
 element records so that cleanup could delete elements

---
 src/Accessible_mesh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 292ecac..7ba61c9 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -614,6 +614,8 @@ void Accessible_mesh::extrude(bool collapse, double offset, bool force)
   for (auto con_plan : con_plans) {
     connect_deformed(con_plan.ref_level, con_plan.serial_ns, con_plan.dir);
   }
+  // don't leave serial numbers in the records where they could be mistaken for instructions (e.g. `purge` deletes elements with record 2)
+  for (int i_elem = 0; i_elem < elems.size(); ++i_elem) elems[i_elem].record = 0;
 }
 
 void Accessible_mesh::connect_rest(int bc_sn)
-- 
2.43.0


From 1eebad9d70909c25020f5a0f74f860af7bb786e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:18 +0000
Subject: [PATCH 10/54] fix: match the faces of hanging-node wall elements in
 3D when snapping to the surface

---
 src/Solver_snap_faces.cpp | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/Solver_snap_faces.cpp b/src/Solver_snap_faces.cpp
index 5e1aa8b..a9a6a88 100644
--- a/src/Solver_snap_faces.cpp
+++ b/src/Solver_snap_faces.cpp
@@ -60,18 +60,32 @@ void hexed::Solver::snap_faces()
       Lock::Acquire acq(con.element().lock);
       fake_bc.apply_state(con);
     }
-    if (sweep) {
-      auto& ref_cons = acc_mesh->deformed().refined_connections();
-      #pragma omp parallel for
-      for (int i_con = 0; i_con < ref_cons.size(); ++i_con) {
-        for (int i_fine = 0; i_fine < 2; ++i_fine) {
-          double* state = ref_cons[i_con].connection(i_fine).state(0, false);
-          for (int i_qpoint = 0; i_qpoint < nfq; ++i_qpoint) state[i_qpoint] *= 2;
-          state = ref_cons[i_con].connection(i_fine).state(1, false);
-          for (int i_qpoint = 0; i_qpoint < nfq; ++i_qpoint) state[nfq*params.n_var + i_qpoint] = 0;
-        }
+    // at hanging-node faces, the fine elements must conform to the coarse one,
+    // so weight the average such that it is always equal to the coarse value
+    auto& ref_cons = acc_mesh->deformed().refined_connections();
+    #pragma omp parallel for
+    for (int i_con = 0; i_con < ref_cons.size(); ++i_con) {
+      auto& ref = ref_cons[i_con];
+      bool rev = ref.order_reversed();
+      for (int i_fine = 0; i_fine < ref.n_fine_elements(); ++i_fine) {
+        double* state = ref.connection(i_fine).state(rev, false);
+        for (int i_qpoint = 0; i_qpoint < nfq; ++i_qpoint) state[i_qpoint] *= 2;
+        state = ref.connection(i_fine).state(!rev, false);
+        for (int i_qpoint = 0; i_qpoint < nfq; ++i_qpoint) state[i_qpoint] = 0;
       }
     }
+    // The first sweep makes all the edges match except that at the hanging vertices there may be a conflict between edges of the same element.
+    // The second sweep resolves it by enforcing only the edges where the element has to conform to a coarser one.
+    #pragma omp parallel for
+    for (int i_elem = 0; i_elem < elems.size(); ++i_elem) {
+      for (int i_face = 0; i_face < 2*nd; ++i_face) elems[i_elem].face_record[i_face] = !sweep;
+    }
+    for (int i_con = 0; i_con < ref_cons.size(); ++i_con) {
+      auto& ref = ref_cons[i_con];
+      int i_side = !ref.order_reversed();
+      int i_face = Con_dir<Deformed_element>(ref.direction()).i_face(i_side);
+      for (int i_fine = 0; i_fine < ref.n_fine_elements(); ++i_fine) ref.connection(i_fine).element(i_side).face_record[i_face] = 1;
+    }
     (*kernel_factory<Spatial<pde::Smooth_art_visc, false>::Neighbor>(params.n_dim, params.row_size, 0, 1., 1.))(acc_mesh->deformed().kernel_connections());
     compute_restrict(_kernel_mesh(), false, true);
     #pragma omp parallel for
@@ -92,7 +106,7 @@ void hexed::Solver::snap_faces()
               }
               Mat<> lrow = to_lob*row;
               for (int i_sign = 0; i_sign < 2; ++i_sign) {
-                lrow(i_sign*(lob.row_size - 1)) = con.element().face(2*j_dim + i_sign, true)[ind.i_face_qpoint()];
+                if (con.element().face_record[2*j_dim + i_sign]) lrow(i_sign*(lob.row_size - 1)) = con.element().face(2*j_dim + i_sign, true)[ind.i_face_qpoint()];
               }
               row = from_lob*lrow;
               for (int i_node = 0; i_node < params.row_size; ++i_node) {
-- 
2.43.0


From d59e3efba6b2de9175a49006560884ac6956db31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:59 +0000
Subject: [PATCH 11/54] fix: permute the face data when matching surface faces
 across connections between different dimensions

---
 src/Solver_snap_faces.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Solver_snap_faces.cpp b/src/Solver_snap_faces.cpp
index a9a6a88..1bd290f 100644
--- a/src/Solver_snap_faces.cpp
+++ b/src/Solver_snap_faces.cpp
@@ -86,7 +86,7 @@ void hexed::Solver::snap_faces()
       int i_face = Con_dir<Deformed_element>(ref.direction()).i_face(i_side);
       for (int i_fine = 0; i_fine < ref.n_fine_elements(); ++i_fine) ref.connection(i_fine).element(i_side).face_record[i_face] = 1;
     }
-    (*kernel_factory<Spatial<pde::Smooth_art_visc, false>::Neighbor>(params.n_dim, params.row_size, 0, 1., 1.))(acc_mesh->deformed().kernel_connections());
+    (*kernel_factory<Spatial<pde::Smooth_art_visc, true>::Neighbor>(params.n_dim, params.row_size, 0, 1., 1.))(acc_mesh->deformed().kernel_connections());
     compute_restrict(_kernel_mesh(), false, true);
     #pragma omp parallel for
     for (int i_con = 0; i_con < bc_cons.size(); ++i_con) {
-- 
2.43.0


From 32790c42f084a1cd46ea0dd1ae581147e3a50355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:38 +0000
Subject: [PATCH 12/54] fix: Simplex_geom::intersections missed intersections
 with geometries larger than the unit length

---
 include/Simplex_geom.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simplex_geom.hpp b/include/Simplex_geom.hpp
index 7d9d4ea..54b1f5a 100644
--- a/include/Simplex_geom.hpp
+++ b/include/Simplex_geom.hpp
@@ -81,7 +81,7 @@ class Simplex_geom : public Surface_geom
 
   void recursive_intersections(std::vector<double>& inters, Tree& tree, Mat<n_dim> point0, Mat<n_dim> point1)
   {
-    if (!math::intersects(math::Ball<n_dim>(tree.center(), tree.nominal_size()*n_dim/4.), point0, point1)) return;
+    if (!math::intersects(math::Ball<n_dim>(tree.center(), tree.nominal_size()*tree.nominal_size()*n_dim/4.), point0, point1)) return;
     Mat<n_dim> diff = point1 - point0;
     for (int i_simplex : tree.misc_data) {
       auto sim = _simplices[i_simplex];
-- 
2.43.0


From 71a8d1b03d7690d09305087a7515ce96937ede68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:30 +0000
Subject: [PATCH 13/54] fix: HIL statements starting with a unary operator were
 parsed as a continuation of the previous statement

---
 src/Interpreter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index da03e60..fce07c4 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -64,12 +64,16 @@ Interpreter::_Dynamic_value Interpreter::_eval(int precedence)
   while (_more())
   {
     _skip_spaces();
+    if (!_more()) break;
     // parse expression tokens by kind
     if (_text.front() == '$') {
       _substitute();
       continue;
     } else if (_text.front() == '\n' || _text.front() == ';') {
+      // end of statement, so what comes next can't be a binary operator acting on the value of this one
+      if (precedence < std::numeric_limits<int>::max() - 1) break;
       _pop();
+      continue;
     } else if (_text.front() == '(') {
       _pop();
       val = _eval(std::numeric_limits<int>::max());
-- 
2.43.0


From 90551b035aa6bfb4fee32f0bb53bf8f65f15c250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:00 +0000
Subject: [PATCH 14/54] fix: HIL operators crashed or read invalid memory if
 operands are missing, zero or out of range

---
 src/Interpreter.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index fce07c4..ef942e6 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -161,13 +161,25 @@ Interpreter::_Dynamic_value Interpreter::_eval(int precedence)
   return val;
 }
 
-template<> int Interpreter::_pow<int>(int op0, int op1) {return math::pow(op0, op1);}
+template<> int Interpreter::_pow<int>(int op0, int op1)
+{
+  HEXED_ASSERT(op0 || op1 >= 0, "integer division by zero", Hil_exception);
+  return math::pow(op0, op1);
+}
+
+template<> int Interpreter::_div<int>(int op0, int op1)
+{
+  HEXED_ASSERT(op1, "integer division by zero", Hil_exception);
+  HEXED_ASSERT(op1 != -1 || op0 != std::numeric_limits<int>::lowest(), "integer overflow in division", Hil_exception);
+  return op0/op1;
+}
 
 Interpreter::_Dynamic_value Interpreter::_mod(Interpreter::_Dynamic_value o0, Interpreter::_Dynamic_value o1)
 {
   HEXED_ASSERT(o0.i && o1.i, "binary operator `%` only accepts integers", Hil_exception);
   _Dynamic_value v;
-  v.i = *o0.i%*o1.i;
+  HEXED_ASSERT(*o1.i, "integer division by zero", Hil_exception);
+  v.i = (*o1.i == -1) ? 0 : *o0.i%*o1.i;
   return v;
 }
 
@@ -175,6 +187,7 @@ template<double (*dop)(double, double), int (*iop)(int, int)>
 Interpreter::_Dynamic_value Interpreter::_arithmetic_op(Interpreter::_Dynamic_value o0, Interpreter::_Dynamic_value o1)
 {
   HEXED_ASSERT(!o0.s && !o1.s, "numeric binary operator does not accept strings", Hil_exception);
+  HEXED_ASSERT((o0.i || o0.d) && (o1.i || o1.d), "numeric binary operator is missing an operand", Hil_exception);
   Interpreter::_Dynamic_value v;
   if (o0.i && o1.i) v.i = iop(*o0.i, *o1.i);
   else {
@@ -189,6 +202,7 @@ template<bool (*dop)(double, double), bool (*iop)(int, int)>
 Interpreter::_Dynamic_value Interpreter::_comparison_op(Interpreter::_Dynamic_value o0, Interpreter::_Dynamic_value o1)
 {
   HEXED_ASSERT(!o0.s && !o1.s, "numeric binary operator does not accept strings", Hil_exception);
+  HEXED_ASSERT((o0.i || o0.d) && (o1.i || o1.d), "numeric binary operator is missing an operand", Hil_exception);
   Interpreter::_Dynamic_value v;
   if (o0.i && o1.i) v.i = iop(*o0.i, *o1.i);
   else {
@@ -275,7 +289,7 @@ Interpreter::Interpreter(std::vector<std::string> preload) :
     {"abs", [](_Dynamic_value val) {
       if      (val.i) *val.i = std::abs(*val.i);
       else if (val.d) *val.d = std::abs(*val.d);
-      else HEXED_ASSERT(false, "unary operator `abs` requires numeric argument")
+      else HEXED_ASSERT(false, "unary operator `abs` requires numeric argument", Hil_exception)
       return val;
     }},
     {"read", [this](_Dynamic_value val) {
@@ -305,6 +319,7 @@ Interpreter::Interpreter(std::vector<std::string> preload) :
     {"^" , {1, _arithmetic_op<_pow<double>, _pow<int>>}}, // note: 0 is for unary ops
     {"#" , {1, [this](_Dynamic_value str, _Dynamic_value i) {
       HEXED_ASSERT(str.s && i.i, "firt operand of binary `#` must be `string` and second must be `int`", Hil_exception);
+      HEXED_ASSERT(*i.i >= 0 && *i.i < int(str.s->size()), "string index out of bounds in binary `#`", Hil_exception);
       return _Dynamic_value(std::string(1, (*str.s)[*i.i]));
     }}},
     {"%" , {2, _mod}},
@@ -333,7 +348,7 @@ Interpreter::Interpreter(std::vector<std::string> preload) :
     return input;
   }));
   variables->create("exit", new Namespace::Heisenberg<std::string>([this]() {
-    _text.clear();
+    _text.assign(1, '\0'); // keep the terminating null character, since the parser always looks at the next character
     return "";
   }));
   variables->create("throw", new Namespace::Heisenberg<std::string>([this]() {
-- 
2.43.0


From fe54389e3b547f41a960dc8a558093f0d28a93c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:00 +0000
Subject: [PATCH 15/54] fix: Namespace::exists_recursive did not find variables
 that lookup does

---
 include/Namespace.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Namespace.hpp b/include/Namespace.hpp
index e35b80b..1b5ee3f 100644
--- a/include/Namespace.hpp
+++ b/include/Namespace.hpp
@@ -85,8 +85,8 @@ inline bool Namespace::exists_recursive(std::string name)
 {
   if (exists(name)) return true;
   if (!supers.empty()) {
-    auto predicate = [name](std::shared_ptr<Namespace>& space) {return space->exists(name);};
-    return std::all_of(supers.begin(), supers.end(), predicate);
+    auto predicate = [name](std::shared_ptr<Namespace>& space) {return space->exists_recursive(name);};
+    return std::any_of(supers.begin(), supers.end(), predicate);
   }
   return false;
 }
-- 
2.43.0


From 66d2508012e34eff995042ee0fb39e3d1cc35bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 16/54] fix: Struct_expr read invalid memory if a side of an
 assignment is empty

---
 src/Struct_expr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Struct_expr.cpp b/src/Struct_expr.cpp
index 437dadc..65eaddc 100644
--- a/src/Struct_expr.cpp
+++ b/src/Struct_expr.cpp
@@ -14,8 +14,8 @@ std::vector<std::string> get_side(std::string code, bool right = false)
     if (equal < end) {
       if (right) sides.emplace_back(equal + 1, end);
       else       sides.emplace_back(start, equal);
-      while (std::isspace(sides.back().front())) sides.back().erase(0, 1);
-      while (std::isspace(sides.back().back())) sides.back().pop_back();
+      while (!sides.back().empty() && std::isspace(sides.back().front())) sides.back().erase(0, 1);
+      while (!sides.back().empty() && std::isspace(sides.back().back())) sides.back().pop_back();
     }
     start = end + 1;
   }
-- 
2.43.0


From f04a1636fe56578b5a8d6d76cf4ec5934b55b525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 17/54] fix: HIL passed any string assigned to format_double to
 snprintf

---
 include/Interpreter.hpp |  1 +
 src/Interpreter.cpp     | 24 +++++++++++++++++++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/Interpreter.hpp b/include/Interpreter.hpp
index 53e589c..b78bb60 100644
--- a/include/Interpreter.hpp
+++ b/include/Interpreter.hpp
@@ -57,6 +57,7 @@ class Interpreter
 
   static _Dynamic_value _print_str(_Dynamic_value);
   static _Dynamic_value _general_eq(_Dynamic_value, _Dynamic_value);
+  std::string _format_double(double);
   _Dynamic_value _general_add(_Dynamic_value, _Dynamic_value);
 
   struct _Binary_op {
diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index ef942e6..da936fb 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -225,20 +225,38 @@ Interpreter::_Dynamic_value Interpreter::_general_eq(Interpreter::_Dynamic_value
   }
 }
 
+std::string Interpreter::_format_double(double value)
+{
+  std::string format = variables->lookup<std::string>("format_double").value();
+  // the format is user input, so make sure that it actually takes exactly one `double`
+  int n_conversion = 0;
+  for (auto percent = format.find('%'); percent != std::string::npos; percent = format.find('%', percent + 1)) {
+    if (percent + 1 < format.size() && format[percent + 1] == '%') {
+      ++percent;
+      continue;
+    }
+    percent = format.find_first_not_of("-+ #0123456789.", percent + 1);
+    bool valid = percent != std::string::npos && std::string("aAeEfFgG").find(format[percent]) != std::string::npos;
+    HEXED_ASSERT(valid, "`format_double` contains a conversion specification which is not for a floating-point number", Hil_exception);
+    ++n_conversion;
+  }
+  HEXED_ASSERT(n_conversion <= 1, "`format_double` contains more than one conversion specification", Hil_exception);
+  return format_str(300, format, value);
+}
+
 Interpreter::_Dynamic_value Interpreter::_general_add(Interpreter::_Dynamic_value o0, Interpreter::_Dynamic_value o1)
 {
   if (!o0.s && !o1.s) return _arithmetic_op<_add<double>, _add<int>>(o0, o1);
   _Dynamic_value val;
-  std::string fd = variables->lookup<std::string>("format_double").value();
   if (o0.s) {
     val.s.emplace(*o0.s);
     if (o1.i) *val.s += std::to_string(*o1.i);
-    if (o1.d) *val.s += format_str(300, fd, *o1.d);
+    if (o1.d) *val.s += _format_double(*o1.d);
     if (o1.s) *val.s += *o1.s;
   } else {
     val.s.emplace(*o1.s);
     if (o0.i) *val.s = std::to_string(*o0.i) + *val.s;
-    if (o0.d) *val.s = format_str(300, fd, *o0.d) + *val.s;
+    if (o0.d) *val.s = _format_double(*o0.d) + *val.s;
   }
   return val;
 }
-- 
2.43.0


From e0883228663e6e5b7ae323be6cd8ce37b547a6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 18/54] fix: deeply nested HIL expressions overflowed the stack

---
 include/Interpreter.hpp | 2 ++
 src/Interpreter.cpp     | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/include/Interpreter.hpp b/include/Interpreter.hpp
index b78bb60..d2bb172 100644
--- a/include/Interpreter.hpp
+++ b/include/Interpreter.hpp
@@ -66,6 +66,8 @@ class Interpreter
   };
   static std::function<_Dynamic_value(_Dynamic_value)> _numeric_unary(double (*f)(double), std::string name);
 
+  static constexpr int _max_depth = 500;
+  int _depth = 0;
   std::list<char> _text;
   std::map<std::string, std::function<_Dynamic_value(_Dynamic_value)>> _un_ops;
   std::map<std::string, _Binary_op> _bin_ops;
diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index da936fb..75f91fe 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -60,6 +60,13 @@ void Interpreter::_substitute()
 
 Interpreter::_Dynamic_value Interpreter::_eval(int precedence)
 {
+  // don't let deeply nested input overflow the stack
+  struct Depth_counter {
+    int& depth;
+    Depth_counter(int& d) : depth{d} {++depth;}
+    ~Depth_counter() {--depth;}
+  } counter(_depth);
+  HEXED_ASSERT(_depth <= _max_depth, "expression is too deeply nested", Hil_exception);
   _Dynamic_value val;
   while (_more())
   {
-- 
2.43.0


From ac6cdda55c0aba5965f4775d357a0b432cd7f4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 19/54] fix: mesh files listed the fine elements of rotated
 hanging connections in the wrong order

---
 include/connection.hpp  | 4 ++++
 src/Accessible_mesh.cpp | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/connection.hpp b/include/connection.hpp
index b1ee26e..3ae4e3e 100644
--- a/include/connection.hpp
+++ b/include/connection.hpp
@@ -196,6 +196,7 @@ class Refined_connection
   Con_dir<Deformed_element> def_dir;
   bool rev;
   std::vector<std::unique_ptr<Fine_connection>> fine_cons;
+  std::vector<element_t*> fine_elems;
   std::array<bool, 2> str;
   int n_fine;
   Eigen::VectorXd coarse_normal;
@@ -229,6 +230,7 @@ class Refined_connection
     dir{con_dir},
     def_dir{Con_dir<Deformed_element>(dir)},
     rev{reverse_order},
+    fine_elems{fine},
     str{stretch_arg},
     coarse_state_data{3*params.n_dof()/params.row_size},
     matcher{to_elementstar(fine), def_dir.i_dim[!reverse_order], def_dir.face_sign[!reverse_order], str}
@@ -283,6 +285,8 @@ class Refined_connection
   int n_fine_elements() {return n_fine;}
   double* coarse_state() {return coarse_state_data.data();}
   element_t& coarse_element() {return c;}
+  //! fetch a fine element in the order they were passed to the constructor (which is not necessarily the order of the `connection`s)
+  element_t& fine_element(int i_fine) {return *fine_elems[i_fine];}
 };
 
 template <>
diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 7ba61c9..d4ee271 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -1587,7 +1587,7 @@ void Accessible_mesh::write(std::string name)
       int data[11] {}; \
       data[0] = con.coarse_element().record; \
       for (int i_fine = 0; i_fine < con.n_fine_elements(); ++i_fine) { \
-        data[1 + i_fine] = con.connection(i_fine).element(!con.order_reversed()).record; \
+        data[1 + i_fine] = con.fine_element(i_fine).record; \
       } \
       for (int i_fine = con.n_fine_elements(); i_fine < 4; ++i_fine) data[1 + i_fine] = -1; \
       for (int i_dim : {0, 1}) data[5 + i_dim] = con.stretch()[i_dim]; \
-- 
2.43.0


From b065d814de52bac7f3bd232ca960ba783ae89288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 20/54] fix: vertex spacing of Cartesian elements was never
 reset when the neighboring elements changed

---
 src/Element.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Element.cpp b/src/Element.cpp
index 663d738..6a67f63 100644
--- a/src/Element.cpp
+++ b/src/Element.cpp
@@ -109,6 +109,8 @@ void Element::set_jacobian(const Basis& basis)
       }
     }
   }
+  // reset the vertex spacing, which may have been reduced to match neighbors that no longer exist
+  for (int i_vert = 0; i_vert < n_vert; ++i_vert) vertex_time_step_scale(i_vert) = nom_sz/n_dim;
 }
 
 double* Element::stage(int i_stage)
-- 
2.43.0


From 348a18b515898ff52b0da0ea23b6b9891306e3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 21/54] fix: reading a state file did not update the face data
 and the boundary condition cache

---
 include/Solver.hpp | 1 +
 src/Solver.cpp     | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/include/Solver.hpp b/include/Solver.hpp
index 23e333f..e836644 100644
--- a/include/Solver.hpp
+++ b/include/Solver.hpp
@@ -49,6 +49,7 @@ class Solver
   void share_vertex_data(std::function<double&(Element&, int i_vertex)>, std::function<double(Mat<>)>);
   void share_vertex_data(std::function<double(Element&, int i_vertex)> get, std::function<double&(Element&, int i_vertex)> set, std::function<double(Mat<>)>);
   bool fix_admissibility(double stability_ratio);
+  void init_faces(); // set the face data based on the current state
   void apply_state_bcs();
   void apply_flux_bcs();
   void apply_avc_diff_bcs();
diff --git a/src/Solver.cpp b/src/Solver.cpp
index 996294d..2391c6f 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -247,6 +247,7 @@ void Solver::read_state(std::string file_name)
     dspace.selectHyperslab(H5S_SELECT_SET, elem_dims, offset, stride, block);
     dset.read(elems[i_elem].state(), dset.getDataType(), mspace, dspace);
   }
+  init_faces();
 }
 
 void Solver::write_state(std::string file_name)
@@ -397,6 +398,11 @@ void Solver::initialize(const Spacetime_func& func)
       }
     }
   }
+  init_faces();
+}
+
+void Solver::init_faces()
+{
   compute_write_face(_kernel_mesh());
   compute_prolong(_kernel_mesh());
   auto& bc_cons {acc_mesh->boundary_connections()};
-- 
2.43.0


From f8ce3a73ace77c47d5405421e95241eaacbcd94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 22/54] fix: exporting a 1D or 2D mesh to polyMesh read out of
 bounds

---
 src/Accessible_mesh.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index d4ee271..0d6e90d 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -1838,6 +1838,7 @@ void write_polymesh_file(std::string dir_name, std::string name, std::string cls
 
 void Accessible_mesh::export_polymesh(std::string dir_name)
 {
+  HEXED_ASSERT(params.n_dim == 3, "only 3D meshes can be exported in the polyMesh format");
   dir_name = dir_name + "polyMesh/";
   if (std::filesystem::exists(dir_name)) std::filesystem::remove_all(dir_name);
   std::filesystem::create_directory(dir_name);
-- 
2.43.0


From f21806e249bcd915f25f39f8f578a23c61c61b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 23/54] fix: initialise the shareable value of a copied vertex
 pointer

---
 src/Vertex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vertex.cpp b/src/Vertex.cpp
index 3636ab1..2b1e53d 100644
--- a/src/Vertex.cpp
+++ b/src/Vertex.cpp
@@ -97,7 +97,7 @@ Vertex::Transferable_ptr::Transferable_ptr(Mat<3> pos, bool mbl)
 }
 
 Vertex::Transferable_ptr::Transferable_ptr(const Vertex::Transferable_ptr& other)
-: ptr{other.ptr}, mobile{other.mobile}
+: ptr{other.ptr}, shareable_value{other.shareable_value}, mobile{other.mobile}
 {
   ptr->trbl_ptrs.insert(this);
 }
-- 
2.43.0


From 58fb70c097da58663fdfc1f0da58127b4befb830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 24/54] fix: let a non-transferable vertex pointer survive
 self-assignment

---
 src/Vertex.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Vertex.cpp b/src/Vertex.cpp
index 2b1e53d..b9eef91 100644
--- a/src/Vertex.cpp
+++ b/src/Vertex.cpp
@@ -154,6 +154,7 @@ Vertex::Non_transferable_ptr::~Non_transferable_ptr()
 
 Vertex::Non_transferable_ptr& Vertex::Non_transferable_ptr::operator=(const Vertex::Non_transferable_ptr& other)
 {
+  if (this == &other) return *this;
   nullify();
   ptr = other.ptr;
   if (ptr) ptr->nont_ptrs.insert(this);
-- 
2.43.0


From 45d074473c3735fcdc24a70e0885ebf713c4e55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:38 +0000
Subject: [PATCH 25/54] fix: nearest point on a sphere to its own center

---
 src/Surface_geom.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Surface_geom.cpp b/src/Surface_geom.cpp
index 32cfa83..a2c36da 100644
--- a/src/Surface_geom.cpp
+++ b/src/Surface_geom.cpp
@@ -31,7 +31,10 @@ Hypersphere::Hypersphere(Mat<> center, double radius)
 Nearest_point<dyn> Hypersphere::nearest_point(Mat<> point, double max_distance, double distance_guess)
 {
   Nearest_point<dyn> nearest(point, max_distance);
-  nearest.merge(c + r*(point - c).normalized());
+  Mat<> direction = (point - c).normalized();
+  // `normalized` leaves the zero vector alone, but all points on the sphere are equally close to the center, so any of them will do
+  if (direction.squaredNorm() < .5) direction = Mat<>::Unit(c.size(), 0);
+  nearest.merge(c + r*direction);
   return nearest;
 }
 
-- 
2.43.0


From 1ac1d3a9269154beba6d0edf5784bdcab7a43cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:38 +0000
Subject: [PATCH 26/54] fix: nearest point on nearly degenerate triangles

---
 src/Simplex_geom.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Simplex_geom.cpp b/src/Simplex_geom.cpp
index 7722cc2..2911ca2 100644
--- a/src/Simplex_geom.cpp
+++ b/src/Simplex_geom.cpp
@@ -17,12 +17,16 @@ void Simplex_geom<3>::merge(Nearest_point<3>& nearest, Mat<3, 3> sim, Mat<3> poi
   Mat<3, 2> lhs;
   lhs(all, 0) = sim(all, 1) - sim(all, 0);
   lhs(all, 1) = sim(all, 2) - sim(all, 0);
-  Mat<2> lstsq = (lhs.transpose()*lhs).inverse()*(lhs.transpose()*(point - sim(all, 0)));
-  if (lstsq(0) >= 0 && lstsq(1) >= 0 && lstsq.sum() <= 1) {
+  Mat<2, 2> gram = lhs.transpose()*lhs;
+  Mat<2> lstsq = gram.inverse()*(lhs.transpose()*(point - sim(all, 0)));
+  bool inside = lstsq(0) >= 0 && lstsq(1) >= 0 && lstsq.sum() <= 1;
+  if (inside) {
     // if the projected point is inside the triangle, evaluate it as the potential nearest point
     nearest.merge(sim(all, 0) + lhs*lstsq);
-  } else {
+  }
+  if (!inside || gram.determinant() < 1e-8*gram(0, 0)*gram(1, 1)) {
     // if the projected point is outside the triangle, fall back to finding the nearest point on all the edges of the triangle
+    // (also if the triangle is (almost) degenerate, since then the projection is dominated by roundoff)
     for (int i_edge = 0; i_edge < 3; ++i_edge) {
       nearest.merge(math::proj_to_segment({sim(all, i_edge), sim(all, (i_edge + 1)%3)}, point));
     }
-- 
2.43.0


From a8a935e959316c263f54f6d9e04280e0a267c6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:38 +0000
Subject: [PATCH 27/54] fix: restrict 2D CAD curves to the extent of their edge

---
 src/Occt.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Occt.cpp b/src/Occt.cpp
index 11b6127..af17b2d 100644
--- a/src/Occt.cpp
+++ b/src/Occt.cpp
@@ -14,6 +14,7 @@
 #include <GC_MakeLine.hxx>
 #include <GC_MakePlane.hxx>
 #include <GCE2d_MakeLine.hxx>
+#include <Geom2d_TrimmedCurve.hxx>
 // messages
 #include <Message.hxx>
 #include <Message_PrinterToReport.hxx>
@@ -64,10 +65,11 @@ void collect_curves(std::vector<opencascade::handle<Geom2d_Curve>>& curves, cons
 {
   opencascade::handle<Geom_Plane> plane = GC_MakePlane(0., 0., 1., 0.); // x_2 = 0 plane
   TopLoc_Location location;
-  double unused [2] {}; // used by `CurveOnPlane` to return values we don't care about
+  double bounds [2] {}; // parameter range that the edge occupies on the underlying curve
   iterate(shape, TopAbs_EDGE, [&](const TopoDS_Shape& s){
     TopoDS_Edge edge = TopoDS::Edge(s);
-    curves.push_back(BRep_Tool::CurveOnPlane(edge, plane, location, unused[0], unused[1]));
+    opencascade::handle<Geom2d_Curve> curve = BRep_Tool::CurveOnPlane(edge, plane, location, bounds[0], bounds[1]);
+    curves.push_back(new Geom2d_TrimmedCurve(curve, bounds[0], bounds[1]));
   });
 }
 
-- 
2.43.0


From f85af326dabc3a77c52dcd6ef826b56336e46395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:38 +0000
Subject: [PATCH 28/54] fix: apply the location of CAD faces to their
 triangulation

---
 src/Occt.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Occt.cpp b/src/Occt.cpp
index af17b2d..4d8289c 100644
--- a/src/Occt.cpp
+++ b/src/Occt.cpp
@@ -318,6 +318,16 @@ std::vector<Mat<3, 3>> Occt::triangles(TopoDS_Shape shape, double angle, double
     TopoDS_Face face = TopoDS::Face(s);
     TopLoc_Location location;
     auto face_tris = triangles(BRep_Tool::Triangulation(face, location));
+    // the triangulation is in the coordinate system of the face, which may have been moved (e.g. if it is part of an assembly)
+    if (!location.IsIdentity()) {
+      for (auto& tri : face_tris) {
+        for (int i_vert = 0; i_vert < 3; ++i_vert) {
+          gp_Pnt point(tri(0, i_vert)*1e3, tri(1, i_vert)*1e3, tri(2, i_vert)*1e3);
+          point.Transform(location.Transformation());
+          tri(all, i_vert) << point.X()*1e-3, point.Y()*1e-3, point.Z()*1e-3;
+        }
+      }
+    }
     tris.insert(tris.end(), face_tris.begin(), face_tris.end());
   });
   return tris;
-- 
2.43.0


From 708ebff35021561651c8baedb7f44a3c6d33fa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:39 +0000
Subject: [PATCH 29/54] fix: limit the depth of the facet sorting tree

---
 include/Simplex_geom.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Simplex_geom.hpp b/include/Simplex_geom.hpp
index 54b1f5a..5fcd9c7 100644
--- a/include/Simplex_geom.hpp
+++ b/include/Simplex_geom.hpp
@@ -63,7 +63,8 @@ class Simplex_geom : public Surface_geom
       if (!in_child[i_ind]) remaining.push_back(tree.misc_data[i_ind]);
     }
     tree.misc_data = std::move(remaining);
-    for (Tree* child : tree.children()) if (child->misc_data.size() > 100) sort_simplices(*child);
+    // limit the refinement level since a cluster of tiny simplices can't necessarily be separated by refining
+    for (Tree* child : tree.children()) if (child->misc_data.size() > 100 && child->refinement_level() < 20) sort_simplices(*child);
   }
 
   void recursive_nearest(Nearest_point<n_dim>& nearest, Tree& tree, Mat<n_dim> point, double limit)
-- 
2.43.0


From bbeefecb5ccacfc0fbbf51a4c2872358b91c6ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:39 +0000
Subject: [PATCH 30/54] fix: lines crossing a surface exactly at a vertex could
 be missed

---
 include/Simplex_geom.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/Simplex_geom.hpp b/include/Simplex_geom.hpp
index 5fcd9c7..90bea05 100644
--- a/include/Simplex_geom.hpp
+++ b/include/Simplex_geom.hpp
@@ -82,11 +82,15 @@ class Simplex_geom : public Surface_geom
 
   void recursive_intersections(std::vector<double>& inters, Tree& tree, Mat<n_dim> point0, Mat<n_dim> point1)
   {
-    if (!math::intersects(math::Ball<n_dim>(tree.center(), tree.nominal_size()*tree.nominal_size()*n_dim/4.), point0, point1)) return;
+    // vertices can be on the boundary of the bounding balls, so make the balls a little bigger to allow for roundoff
+    const double radius_sq_tol = 1 + 4*gap_tol;
+    if (!math::intersects(math::Ball<n_dim>(tree.center(), tree.nominal_size()*tree.nominal_size()*n_dim/4.*radius_sq_tol), point0, point1)) return;
     Mat<n_dim> diff = point1 - point0;
     for (int i_simplex : tree.misc_data) {
       auto sim = _simplices[i_simplex];
-      if (math::intersects<n_dim>(math::bounding_ball(sim), point0, point1)) { // if the line doesn't even intersect the bounding ball, don't bother
+      auto bball = math::bounding_ball(sim);
+      bball.radius_sq *= radius_sq_tol;
+      if (math::intersects<n_dim>(bball, point0, point1)) { // if the line doesn't even intersect the bounding ball, don't bother
         // compute intersection between line and plane of simplex
         Mat<n_dim, n_dim> lhs;
         lhs(all, 0) = -diff;
-- 
2.43.0


From ca722747097784b5773bdd2e0fdee856ecd3b502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:39 +0000
Subject: [PATCH 31/54] fix: make the line-facet intersection independent of
 the relative size of line and facet

---
 include/Simplex_geom.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/Simplex_geom.hpp b/include/Simplex_geom.hpp
index 90bea05..5d9720f 100644
--- a/include/Simplex_geom.hpp
+++ b/include/Simplex_geom.hpp
@@ -95,9 +95,11 @@ class Simplex_geom : public Surface_geom
         Mat<n_dim, n_dim> lhs;
         lhs(all, 0) = -diff;
         for (int col = 1; col < n_dim; ++col) lhs(all, col) = sim(all, col) - sim(all, 0);
-        auto fact = lhs.lu();
-        if (fact.rcond() > 1e-7) {
-          Mat<n_dim> soln = fact.solve(point0 - sim(all, 0));
+        // scale the columns so that whether the system is singular depends on the angles and not on the relative size of the line and the simplex
+        Mat<n_dim> scale = lhs.colwise().norm().transpose();
+        auto fact = (lhs*scale.cwiseInverse().asDiagonal()).eval().lu();
+        if (scale.minCoeff() > 0 && fact.rcond() > 1e-7) {
+          Mat<n_dim> soln = fact.solve(point0 - sim(all, 0)).cwiseQuotient(scale);
           // if intersection is inside simplex, add it to the list
           Eigen::Array<double, n_dim - 1, 1> arr = soln(Eigen::seqN(1, n_dim - 1)).array();
           if ((arr >= -gap_tol).all() && arr.sum() <= 1 + gap_tol) inters.push_back(soln(0));
-- 
2.43.0


From 57cd04f4cdec7b2b6cddd918ce47f06bcb34aaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:06 +0000
Subject: [PATCH 32/54] fix: reject ragged rows, trailing characters, and blank
 lines in CSV files

---
 src/read_csv.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/read_csv.cpp b/src/read_csv.cpp
index 9e2218d..5bf7698 100644
--- a/src/read_csv.cpp
+++ b/src/read_csv.cpp
@@ -16,19 +16,24 @@ Eigen::Matrix<double, dyn, dyn, Eigen::RowMajor> read_csv(std::string file_name)
   int rows = 0;
   while (!line.empty()) {
     ++rows;
+    HEXED_ASSERT(std::count(line.begin(), line.end(), ',') + 1 == cols, format_str(1000, "row %i does not have the same number of columns as the first row", rows));
     auto begin = line.begin();
     for (int i_col = 0; i_col < cols; ++i_col) {
       auto end = std::find(begin, line.end(), ',');
       std::string entry(begin, end);
+      std::size_t n_read = 0;
       try {
-        data.push_back(std::stod(entry));
+        data.push_back(std::stod(entry, &n_read));
       } catch (...) {
-        HEXED_ASSERT(false, format_str(1000, "could not convert `%s` to `double`", entry.c_str()))
+        HEXED_ASSERT(false, "could not convert `" + entry + "` to `double`");
       }
-      begin = end + 1;
+      HEXED_ASSERT(entry.find_first_not_of(" \t\r", n_read) == std::string::npos, "could not convert `" + entry + "` to `double`");
+      if (end != line.end()) begin = end + 1;
     }
     std::getline(file, line);
   }
+  // if the last line read is blank but it's not the end of the file, we would be ignoring some of the data
+  while (std::getline(file, line)) HEXED_ASSERT(line.empty(), "blank line in CSV file");
   Eigen::Matrix<double, dyn, dyn, Eigen::RowMajor> mat(rows, cols);
   for (unsigned i = 0; i < data.size(); ++i) mat(i) = data[i];
   return mat;
-- 
2.43.0


From ed25f7d98c4175afcd79ce2b221dddef6b9aeadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:06 +0000
Subject: [PATCH 33/54] fix: make the height of a layer sequence exactly 1

---
 src/Layer_sequence.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Layer_sequence.cpp b/src/Layer_sequence.cpp
index 1121d06..7e5a1d2 100644
--- a/src/Layer_sequence.cpp
+++ b/src/Layer_sequence.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cmath>
 #include <Layer_sequence.hpp>
 
@@ -7,7 +8,8 @@ namespace hexed
 Layer_sequence::Layer_sequence(double wall_spacing, int n_wall)
 : ws{wall_spacing},
   nw{n_wall},
-  n_grow{int(std::ceil(std::log(.5/ws)/std::log(2)))}
+  // if the wall layers don't already fill the height we need at least one growth layer
+  n_grow{(1 - ws*nw > 1e-12) ? std::max(1, int(std::ceil(std::log(.5/ws)/std::log(2)))) : 0}
 {}
 
 int Layer_sequence::n_layers()
@@ -18,7 +20,7 @@ int Layer_sequence::n_layers()
 double Layer_sequence::spacing(int i_layer)
 {
   double first_growth = std::pow(2., nw - n_layers());
-  return (i_layer < nw) ? ws : std::pow(2., i_layer - n_layers())*(1 - ws*nw + first_growth);
+  return (i_layer < nw) ? ws : std::pow(2., i_layer - n_layers())*(1 - ws*nw)/(1 - first_growth);
 }
 
 double Layer_sequence::cumulative_height(int i_layer)
-- 
2.43.0


From 023bcdea688a85c08bacd64d7804b4363904b25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:07 +0000
Subject: [PATCH 34/54] fix: reject history windows for which a monitor
 silently stops recording

---
 src/History_monitor.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/History_monitor.cpp b/src/History_monitor.cpp
index 4c71625..c7129ce 100644
--- a/src/History_monitor.cpp
+++ b/src/History_monitor.cpp
@@ -1,5 +1,6 @@
 #include <History_monitor.hpp>
 #include <math.hpp>
+#include <assert.hpp>
 
 namespace hexed
 {
@@ -8,7 +9,11 @@ History_monitor::History_monitor(double window_size, int max_samples)
 : _samples{max_samples}, _start{0}, _sz{0},
   _iterations(_samples, 0), _values(_samples, 0.),
   _win_sz{window_size}, _add_threshold{1.}, _min{-huge}, _max{huge}
-{}
+{
+  // otherwise the sampling interval would be infinite or zero
+  HEXED_ASSERT(_win_sz > 0 && _win_sz < 1, "window size must be strictly between 0 and 1");
+  HEXED_ASSERT(_samples > 0, "number of samples must be positive");
+}
 
 void History_monitor::add_sample(int iteration, double value)
 {
-- 
2.43.0


From 0ac409046b3440e7ac582a2d5459b0a58f11f0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:07 +0000
Subject: [PATCH 35/54] fix: GMRES used one more vector than it requires
 storage for

---
 src/iterative.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iterative.cpp b/src/iterative.cpp
index 436cf3d..ec96723 100644
--- a/src/iterative.cpp
+++ b/src/iterative.cpp
@@ -5,8 +5,8 @@ namespace hexed::iterative
 
 void gmres(Linear_equation& equation, int n_restart, int n_iters)
 {
-  const int krylov_start = 3;
-  HEXED_ASSERT(equation.n_vecs() >= krylov_start + n_restart, "`Linear_equation` object has insufficient storage for the GMRES algorithm");
+  const int krylov_start = 2; // the residual is also the (unnormalized) first Krylov vector
+  HEXED_ASSERT(equation.n_vecs() >= krylov_start + n_restart + 1, "`Linear_equation` object has insufficient storage for the GMRES algorithm");
   for (int restart = 0; restart < n_iters; ++restart) {
     equation.matvec(2, 0);
     equation.add(2, -1., 2, 1., 1);
-- 
2.43.0


From f27ee8c081e516fd5ca91482fdb54b3a529edd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:47 +0000
Subject: [PATCH 36/54] fix: reading a CSV file with no newline at the end
 never finished

---
 src/read_csv.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read_csv.cpp b/src/read_csv.cpp
index 5bf7698..b42a42c 100644
--- a/src/read_csv.cpp
+++ b/src/read_csv.cpp
@@ -30,7 +30,7 @@ Eigen::Matrix<double, dyn, dyn, Eigen::RowMajor> read_csv(std::string file_name)
       HEXED_ASSERT(entry.find_first_not_of(" \t\r", n_read) == std::string::npos, "could not convert `" + entry + "` to `double`");
       if (end != line.end()) begin = end + 1;
     }
-    std::getline(file, line);
+    if (!std::getline(file, line)) line.clear(); // if already at end of file, `getline` leaves `line` unchanged
   }
   // if the last line read is blank but it's not the end of the file, we would be ignoring some of the data
   while (std::getline(file, line)) HEXED_ASSERT(line.empty(), "blank line in CSV file");
-- 
2.43.0


From 9c36d9d6436272ef9d7d3b53408a54520a3ab4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:47 +0000
Subject: [PATCH 37/54] fix: stop the Krylov solvers when the exact solution is
 found instead of dividing by zero

---
 src/iterative.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/iterative.cpp b/src/iterative.cpp
index ec96723..c1eb6e3 100644
--- a/src/iterative.cpp
+++ b/src/iterative.cpp
@@ -11,9 +11,12 @@ void gmres(Linear_equation& equation, int n_restart, int n_iters)
     equation.matvec(2, 0);
     equation.add(2, -1., 2, 1., 1);
     double res_norm = equation.norm(2);
+    if (res_norm == 0) return; // already have the exact solution
     equation.scale(krylov_start, 2, 1./res_norm);
     Mat<dyn, dyn> hessenberg = Mat<dyn, dyn>::Zero(n_restart + 1, n_restart);
-    for (int iter = 0; iter < n_restart; ++iter) {
+    int n_used = 0;
+    while (n_used < n_restart) {
+      int iter = n_used++;
       int next = krylov_start + iter + 1;
       equation.matvec(next, krylov_start + iter);
       for (int col = 0; col < iter + 1; ++col) {
@@ -21,10 +24,11 @@ void gmres(Linear_equation& equation, int n_restart, int n_iters)
         equation.add(next, 1., next, -hessenberg(col, iter), krylov_start + col);
       }
       hessenberg(iter + 1, iter) = equation.norm(next);
+      if (hessenberg(iter + 1, iter) == 0) break; // Krylov space contains the exact solution (remaining vectors are not needed)
       equation.scale(next, next, 1./hessenberg(iter + 1, iter));
     }
     Mat<> coefs = hessenberg.fullPivHouseholderQr().solve(res_norm*Mat<>::Unit(n_restart + 1, 0));
-    for (int iter = 0; iter < n_restart; ++iter) {
+    for (int iter = 0; iter < n_used; ++iter) {
       equation.add(0, 1., 0, coefs(iter), krylov_start + iter);
     }
   }
@@ -46,11 +50,16 @@ void bicgstab(Linear_equation& equation, int n_iters)
   for (int iter = 0; iter < n_iters; ++iter) {
     double r_dot_ref = equation.inner(r, ref);
     equation.matvec(Ap, p);
-    double alpha = r_dot_ref/equation.inner(Ap, ref);
+    double Ap_dot_ref = equation.inner(Ap, ref);
+    if (r_dot_ref == 0 || Ap_dot_ref == 0) return; // either already have the exact solution or the method has broken down
+    double alpha = r_dot_ref/Ap_dot_ref;
     equation.add(s, 1., r, -alpha, Ap);
     equation.matvec(As, s);
-    double omega = equation.inner(As, s)/equation.inner(As, As);
     equation.add(0, 1., 0, alpha, p);
+    double As_sq = equation.inner(As, As);
+    if (As_sq == 0) return; // now have the exact solution
+    double omega = equation.inner(As, s)/As_sq;
+    if (omega == 0) return; // method has broken down
     equation.add(0, 1., 0, omega, s);
     equation.add(r, 1., s, -omega, As);
     double beta = equation.inner(r, ref)/r_dot_ref*alpha/omega;
-- 
2.43.0


From eb30cbac3958da8cdd8f711bb6d829d0777ce816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 38/54] fix: time step could exceed max_time_step when
 n_cheby_flow > 1

---
 src/Solver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index 2391c6f..3cfc24b 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -851,7 +851,8 @@ void Solver::update()
     // run chebyshev iterations
     for (int i_cheby = 0; i_cheby < n_cheby; ++i_cheby)
     {
-      double nominal_dt = std::min(max_dt(safety/max_cheby, safety), _namespace->lookup<double>("max_time_step").value());
+      // (the largest step of the chebyshev cycle, not the nominal one, is what must not exceed the maximum)
+      double nominal_dt = std::min(max_dt(safety/max_cheby, safety), _namespace->lookup<double>("max_time_step").value()/max_cheby);
       double dt = nominal_dt*math::chebyshev_step(n_cheby, i_cheby);
       // record reference state for residual calculation
       bool fixed = false;
-- 
2.43.0


From 35576db17301b02a3b0d54a2e508aae35e6defc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 39/54] fix: set_uncert_surface_rep left stale states on the
 refined faces

---
 src/Solver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index 3cfc24b..c544841 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -813,6 +813,7 @@ void Solver::set_uncert_surface_rep(int bc_sn)
     }
   }
   compute_write_face(_kernel_mesh());
+  compute_prolong(_kernel_mesh());
 }
 
 void Solver::synch_extruded_uncert()
-- 
2.43.0


From 32e108bc85352cb24844388e6e5a77eb8afe2d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 40/54] fix: resetting the vertices of a 2D mesh read past the
 end of the nominal position

---
 src/Accessible_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 0d6e90d..1235818 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -1395,7 +1395,7 @@ void Accessible_mesh::reset_verts()
       for (int i_vert = 0; i_vert < nv; ++i_vert) {
         auto& vert = elem.vertex(i_vert);
         Lock::Acquire a(vert.lock);
-        vert.pos = elem.tree->nominal_position();
+        vert.pos(Eigen::seqN(0, params.n_dim)) = elem.tree->nominal_position();
         for (int i_dim = 0; i_dim < params.n_dim; ++i_dim) {
           vert.pos(i_dim) += elem.tree->nominal_size()*((i_vert/math::pow(2, params.n_dim - 1 - i_dim))%2);
         }
-- 
2.43.0


From e3173c4ac60e62c8125a810990115b0ec2d66523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 41/54] fix: set_art_visc_off did not turn artificial viscosity
 off for viscous flows

---
 src/Solver.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index c544841..b2d736c 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -416,6 +416,17 @@ void Solver::init_faces()
 void Solver::set_art_visc_off()
 {
   use_art_visc = false;
+  // if there is molecular viscosity or heat conduction the coefficients will still be used
+  auto& elements = acc_mesh->elements();
+  #pragma omp parallel for
+  for (int i_elem = 0; i_elem < elements.size(); ++i_elem) {
+    double* bulk = elements[i_elem].bulk_av_coef();
+    double* laplacian = elements[i_elem].laplacian_av_coef();
+    for (int i_qpoint = 0; i_qpoint < params.n_qpoint(); ++i_qpoint) {
+      bulk[i_qpoint] = 0;
+      laplacian[i_qpoint] = 0;
+    }
+  }
 }
 
 void Solver::set_art_visc_constant(double value)
-- 
2.43.0


From 1f38a96ad62106165f07e4ab3a15ebe6317e2f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 42/54] fix: advection state was initialized before there were
 any elements, so artificial viscosity started from 0 instead of 1

---
 src/Solver.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index b2d736c..66e3bf3 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -199,17 +199,6 @@ Solver::Solver(int n_dim, int row_size, double root_mesh_size, bool local_time_s
     }
   }
   stopwatch.children.emplace("boundary conditions", "(boundary connection)*(time integration stage)");
-  // initialize advection state to 1
-  auto& elements = acc_mesh->elements();
-  const int nq = params.n_qpoint();
-  const int rs = params.row_size;
-  #pragma omp parallel for
-  for (int i_elem = 0; i_elem < elements.size(); ++i_elem) {
-    double* adv = elements[i_elem].advection_state();
-    for (int i_qpoint = 0; i_qpoint < nq; ++i_qpoint) {
-      for (int i_adv = 0; i_adv < rs; ++i_adv) adv[i_adv*nq + i_qpoint] = 1.;
-    }
-  }
 }
 
 Namespace& Solver::nspace() {return *_namespace;}
@@ -403,6 +392,17 @@ void Solver::initialize(const Spacetime_func& func)
 
 void Solver::init_faces()
 {
+  // initialize advection state to 1
+  auto& elements = acc_mesh->elements();
+  const int nq = params.n_qpoint();
+  const int rs = params.row_size;
+  #pragma omp parallel for
+  for (int i_elem = 0; i_elem < elements.size(); ++i_elem) {
+    double* adv = elements[i_elem].advection_state();
+    for (int i_qpoint = 0; i_qpoint < nq; ++i_qpoint) {
+      for (int i_adv = 0; i_adv < rs; ++i_adv) adv[i_adv*nq + i_qpoint] = 1.;
+    }
+  }
   compute_write_face(_kernel_mesh());
   compute_prolong(_kernel_mesh());
   auto& bc_cons {acc_mesh->boundary_connections()};
-- 
2.43.0


From 49b79041ab4a1f8de120a05e614805b54d4d2624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 43/54] fix: undershoots of the smoothing operator made
 artificial viscosity coefficients negative

---
 src/Solver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index 66e3bf3..af9ae60 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -578,7 +578,8 @@ void Solver::update_art_visc_smoothness(double advect_length)
     double* forcing = elements[i_elem].art_visc_forcing();
     double volume = math::pow(elements[i_elem].nominal_size(), nd);
     for (int i_qpoint = 0; i_qpoint < nq; ++i_qpoint) {
-      double f = mult*forcing[n_real*nq + i_qpoint];
+      // the diffusion operator is not strictly positive
+      double f = std::max(mult*forcing[n_real*nq + i_qpoint], 0.);
       double new_av = us_max*f/(us_max + f);
       resid += math::pow(av[i_qpoint] - new_av, 2)*qpoint_weights(i_qpoint)*volume;
       av[i_qpoint] = new_av;
@@ -632,7 +633,7 @@ void Solver::update_art_visc_elwise(double width, bool pde_based)
     for (int i_elem = 0; i_elem < elems.size(); ++i_elem) {
       double* av = elems[i_elem].laplacian_av_coef();
       double* forcing = elems[i_elem].art_visc_forcing();
-      for (int i_qpoint = 0; i_qpoint < params.n_qpoint(); ++i_qpoint) av[i_qpoint] = forcing[params.n_qpoint() + i_qpoint];
+      for (int i_qpoint = 0; i_qpoint < params.n_qpoint(); ++i_qpoint) av[i_qpoint] = std::max(forcing[params.n_qpoint() + i_qpoint], 0.);
     }
     compute_write_face(_kernel_mesh());
     compute_prolong(_kernel_mesh());
-- 
2.43.0


From 89fee21f426fbc8c178ffcdffdbc8af6303839f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 44/54] fix: fixing admissibility overwrote the laplacian
 artificial viscosity coefficient

---
 src/Solver.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index af9ae60..fdb57a9 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -990,6 +990,7 @@ bool Solver::fix_admissibility(double stability_ratio)
   const int nv = params.n_vertices();
   int iter;
   int n_iters = std::numeric_limits<int>::max();
+  std::vector<double> laplacian_av; // the artificial viscosity storage is borrowed below and must be given back
   for (iter = 0; iter < n_iters; ++iter) {
     HEXED_ASSERT(iter < 1e5, format_str(200, "failed to fix thermodynamic admissability in %i iterations", iter));
     #if HEXED_USE_XDMF
@@ -1016,6 +1017,12 @@ bool Solver::fix_admissibility(double stability_ratio)
     auto bounds = bounds_field(State_variables(), 2*rs);
     _printer->print(format_str(200, "    iteration %i: mass in [%e, %e]; energy in [%e, %e]\n", iter, bounds[nd][0], bounds[nd][1], bounds[nd + 1][0], bounds[nd + 1][1]));
     auto& elems = acc_mesh->elements();
+    if (laplacian_av.empty()) {
+      for (int i_elem = 0; i_elem < elems.size(); ++i_elem) {
+        double* av = elems[i_elem].laplacian_av_coef();
+        laplacian_av.insert(laplacian_av.end(), av, av + nq);
+      }
+    }
     #pragma omp parallel for
     for (int i_elem = 0; i_elem < elems.size(); ++i_elem) {
       auto& elem = elems[i_elem];
@@ -1105,6 +1112,12 @@ bool Solver::fix_admissibility(double stability_ratio)
       }
     }
   }
+  if (laplacian_av.size()) {
+    auto& elems = acc_mesh->elements();
+    for (int i_elem = 0; i_elem < elems.size(); ++i_elem) {
+      std::copy_n(laplacian_av.begin() + i_elem*nq, nq, elems[i_elem].laplacian_av_coef());
+    }
+  }
   --iter;
   if (iter) _printer->print("done\n");
   status.fix_admis_iters += iter;
-- 
2.43.0


From d557b81d72d231feb66394a8d9071d42de3d2072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 45/54] fix: Heat_flux had the sign of the flux out of the
 surface instead of into it

---
 src/Boundary_func.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Boundary_func.cpp b/src/Boundary_func.cpp
index 7b172f3..96feddc 100644
--- a/src/Boundary_func.cpp
+++ b/src/Boundary_func.cpp
@@ -51,7 +51,7 @@ std::vector<double> Heat_flux::operator()(Boundary_connection& con, int i_fqpoin
   }
   nrml_mag = std::sqrt(nrml_mag);
   // fetch flux in reference space
-  double ref_flux = con.flux_cache()[(params.n_dim + 1)*nfq + i_fqpoint];
+  double ref_flux = -con.flux_cache()[(params.n_dim + 1)*nfq + i_fqpoint];
   // compute flux in physical space
   return {(nrml_mag > 1e-3) ? ref_flux*nrml_sign/nrml_mag : 0.};
 }
-- 
2.43.0


From fd9b2ab572c9762b9cee7acec8425acf4c89b447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 46/54] fix: Random_func covered only half of its range, all of
 it above the mean

---
 src/Spacetime_func.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Spacetime_func.cpp b/src/Spacetime_func.cpp
index 2c544e1..136bcb5 100644
--- a/src/Spacetime_func.cpp
+++ b/src/Spacetime_func.cpp
@@ -41,7 +41,7 @@ std::vector<double> Random_func::operator()(std::vector<double> pos, double time
 {
   std::vector<double> result = m;
   for (unsigned i_var = 0; i_var < m.size(); ++i_var) {
-    result[i_var] += (rand()%gran)*v[i_var]/2./gran;
+    result[i_var] += ((rand()%gran)/double(gran) - .5)*v[i_var];
   }
   return result;
 }
-- 
2.43.0


From 7f08f4b4e9a293f5e77b9d4d4ef9bbd31a673551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 47/54] fix: Doublet took the kinetic energy of an axial
 freestream component for internal energy

---
 src/Spacetime_func.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/Spacetime_func.cpp b/src/Spacetime_func.cpp
index 136bcb5..d12e29f 100644
--- a/src/Spacetime_func.cpp
+++ b/src/Spacetime_func.cpp
@@ -62,18 +62,20 @@ std::vector<double> Doublet::operator()(std::vector<double> pos, double time) co
   // compute freestream properties
   double freestream_speed = 0.;
   std::vector<double> freestream_veloc (2);
-  for (int i_dim : {0, 1}) // ignore any axial (i_dim = 3) component of velocity as it does not affect the flowfield
+  for (int i_dim : {0, 1}) // ignore any axial (i_dim = 2) component of velocity as it does not affect the flowfield
   {
     freestream_veloc[i_dim] = freestream[i_dim]/freestream[n_v - 2];
     freestream_speed += freestream_veloc[i_dim]*freestream_veloc[i_dim];
   }
   freestream_speed = std::sqrt(freestream_speed);
   double angle_of_attack = std::atan2(freestream_veloc[1], freestream_veloc[0]);
-  double pres {(heat_rat - 1.)*(freestream[n_v - 1] - 0.5*freestream_speed*freestream_speed*freestream[n_v - 2])};
+  double axial_veloc = n_dim > 2 ? freestream[2]/freestream[n_v - 2] : 0.; // does contribute to the kinetic energy though
+  double free_kin_ener_per_mass = 0.5*(freestream_speed*freestream_speed + axial_veloc*axial_veloc);
+  double pres {(heat_rat - 1.)*(freestream[n_v - 1] - free_kin_ener_per_mass*freestream[n_v - 2])};
   double stag_enth_per_mass = (freestream[n_v - 1] + pres)/freestream[n_v - 2];
-  double free_enth_per_mass = stag_enth_per_mass - 0.5*freestream_speed*freestream_speed;
+  double free_enth_per_mass = stag_enth_per_mass - free_kin_ener_per_mass;
 
-  std::vector<double> state {freestream}; // init to freestream so that if 3D momentum2 matches freestream
+  std::vector<double> state {freestream};
 
   // compute velocity
   if (n_dim == 1) throw std::runtime_error("1D Doublet is not allowed.");
@@ -89,10 +91,11 @@ std::vector<double> Doublet::operator()(std::vector<double> pos, double time) co
                    veloc_radial*std::sin(pos_angle) + veloc_tangential*std::cos(pos_angle)};
 
   // compute thermodynamics
-  double kin_ener_per_mass {0.5*(veloc[0]*veloc[0] + veloc[1]*veloc[1])};
+  double kin_ener_per_mass {0.5*(veloc[0]*veloc[0] + veloc[1]*veloc[1] + axial_veloc*axial_veloc)};
   double enth_per_mass {stag_enth_per_mass - kin_ener_per_mass};
   double mass {freestream[n_v - 2]*std::pow(enth_per_mass/free_enth_per_mass, 1./(heat_rat - 1.))};
   for (int i_dim : {0, 1}) state[i_dim] = veloc[i_dim]*mass;
+  if (n_dim > 2) state[2] = axial_veloc*mass;
   state[n_v - 2] = mass;
   state[n_v - 1] = mass*(enth_per_mass/heat_rat + kin_ener_per_mass);
 
-- 
2.43.0


From 77a164cd8712e46226b630e60366dd9696bc706d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 48/54] fix: Record returned whether Element::record is nonzero
 instead of its value

---
 src/Element_func.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Element_func.cpp b/src/Element_func.cpp
index 8ac5243..e12ed11 100644
--- a/src/Element_func.cpp
+++ b/src/Element_func.cpp
@@ -144,6 +144,6 @@ std::vector<double> Equiangle_skewness::operator()(Element& elem, const Basis& b
 
 std::vector<double> Is_deformed::operator()(Element& elem) const {return {double(elem.get_is_deformed())};}
 std::vector<double> Has_tree::operator()(Element& elem) const {return {double(bool(elem.tree))};}
-std::vector<double> Record::operator()(Element& elem) const {return {double(bool(elem.record))};}
+std::vector<double> Record::operator()(Element& elem) const {return {double(elem.record)};}
 
 };
-- 
2.43.0


From 354c5a1d18bf332b9394b327302da4c4c576a5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 49/54] fix: position was not available to surface expressions

---
 src/hil_properties.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hil_properties.cpp b/src/hil_properties.cpp
index e60bc3c..072c48c 100644
--- a/src/hil_properties.cpp
+++ b/src/hil_properties.cpp
@@ -72,11 +72,13 @@ void surface(Namespace& space, Boundary_connection& con, int i_fqpoint)
     state.push_back(con.inside_face(false)[i_var*nfq + i_fqpoint]);
   }
   for (int i_dim = 0; i_dim < params.n_dim; ++i_dim) {
+    space.assign("pos" + std::to_string(i_dim), con.surface_position()[i_dim*nfq + i_fqpoint]);
     space.assign("normal" + std::to_string(i_dim), nrml(i_dim)*nrml_sign/nrml_mag);
     space.assign("visc_stress" + std::to_string(i_dim), flux[i_dim]);
     space.assign("momentum" + std::to_string(i_dim), state[i_dim]);
   }
   for (int i_dim = params.n_dim; i_dim < 3; ++i_dim) {
+    space.assign("pos" + std::to_string(i_dim), 0.);
     space.assign("normal" + std::to_string(i_dim), 0.);
     space.assign("visc_stress" + std::to_string(i_dim), 0.);
     space.assign("momentum" + std::to_string(i_dim), 0.);
-- 
2.43.0


From 08aea7d57a6c320dbb319fea4ae820904f0eb554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:40 +0000
Subject: [PATCH 50/54] fix: string variables were reported as garbage

---
 src/Case.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Case.cpp b/src/Case.cpp
index a7c4e02..5e7569a 100644
--- a/src/Case.cpp
+++ b/src/Case.cpp
@@ -235,7 +235,7 @@ Case::Case(std::string input_script)
         transport_models.emplace_back(Transport_model::sutherland(sub.variables->lookup<double>("ref_value").value(),
                                                                   sub.variables->lookup<double>("ref_temperature").value(),
                                                                   sub.variables->lookup<double>("offset").value()));
-      } else HEXED_ASSERT(false, format_str(200, "invalid transport model specification for %s", name));
+      } else HEXED_ASSERT(false, format_str(200, "invalid transport model specification for %s", name.c_str()));
     }
     _solver_ptr.reset(new Solver(*n_dim, *row_size, root_sz, true, transport_models[0], transport_models[1], _inter.variables, printer));
     _solver().mesh().add_tree(_make_extremal_bcs(), mesh_extremes(all, 0));
@@ -413,7 +413,7 @@ Case::Case(std::string input_script)
         report += format_str(1000, "%*.8e, ", width, vald.value());
         _inter.variables->assign(vars.names[i_var], vald.value());
       } else if ((vals = sub.variables->lookup<std::string>(vars.names[i_var]))) {
-        report += format_str(1000, "%*s, ", width, vals.value());
+        report += format_str(1000, "%*s, ", width, vals.value().c_str());
         _inter.variables->assign(vars.names[i_var], vals.value());
       }
     }
-- 
2.43.0


From b996eb2f837eba79dc2e0983b85025ccc729daa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:40 +0000
Subject: [PATCH 51/54] fix: freestream density and pressure were silently
 overwritten if altitude was also specified

---
 src/Case.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Case.cpp b/src/Case.cpp
index 5e7569a..ad853c1 100644
--- a/src/Case.cpp
+++ b/src/Case.cpp
@@ -170,6 +170,7 @@ Case::Case(std::string input_script)
     else {
       if (_vard("altitude")) {
         HEXED_ASSERT(!_vard("freestream_temperature"), "cannot specify both altitude and temperature (consider `temperature_offset`)");
+        HEXED_ASSERT(!_vard("freestream_density") && !_vard("freestream_pressure"), "cannot specify both altitude and density or pressure");
         auto dens_pres = standard_atmosphere(_vard("altitude").value(), _vard("temperature_offset").value());
         _inter.variables->assign<double>("freestream_density", dens_pres[0]);
         _inter.variables->assign<double>("freestream_pressure", dens_pres[1]);
-- 
2.43.0


From 2e9677df4c24eafca48756e25310da821fc1a1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:40 +0000
Subject: [PATCH 52/54] fix: columns of CSV geometry beyond n_dim overflowed
 the segments

---
 src/Case.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Case.cpp b/src/Case.cpp
index ad853c1..85c73c1 100644
--- a/src/Case.cpp
+++ b/src/Case.cpp
@@ -112,7 +112,7 @@ Surface_geom* Case::_make_geom()
       HEXED_ASSERT(nd == 2, "3D geometry in CSV format is not supported");
       auto data = read_csv(*geom);
       HEXED_ASSERT(data.cols() >= nd, "CSV geometry file must have at least n_dim columns");
-      geoms.emplace_back(new Simplex_geom<2>(segments(data.transpose())));
+      geoms.emplace_back(new Simplex_geom<2>(segments(data(all, Eigen::seqN(0, nd)).transpose())));
     #if HEXED_USE_OCCT
     } else if (ext == "igs" || ext == "iges" || ext == "stp" || ext == "step") {
       auto shape = Occt::read(*geom);
-- 
2.43.0


From 8b3c4cf252a1ea95aecd31b4cff38a2eb3490165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:40 +0000
Subject: [PATCH 53/54] fix: freestream speed, Mach number, etc. were undefined
 if velocity or state is specified

---
 src/Case.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/Case.cpp b/src/Case.cpp
index 85c73c1..43e4bff 100644
--- a/src/Case.cpp
+++ b/src/Case.cpp
@@ -166,8 +166,24 @@ Case::Case(std::string input_script)
                  format_str(300, "`row_size` must be between 2 and %i", config::max_row_size));
     // compute freestream
     Mat<> freestream(*n_dim + 2);
-    if (_vard("freestream0")) freestream = _get_vector("freestream", *n_dim + 2);
-    else {
+    if (_vard("freestream0")) {
+      freestream = _get_vector("freestream", *n_dim + 2);
+      // compute the variables that would otherwise be used to define the freestream
+      double density = freestream(*n_dim);
+      Mat<> veloc = freestream(Eigen::seqN(0, *n_dim))/density;
+      double pressure = (heat_rat - 1)*(freestream(*n_dim + 1) - .5*density*veloc.squaredNorm());
+      double sound_speed = std::sqrt(heat_rat*pressure/density);
+      Mat<> full_direction = Mat<>::Zero(3);
+      full_direction(Eigen::seqN(0, *n_dim)) = veloc.normalized();
+      _inter.variables->assign<double>("freestream_density", density);
+      _inter.variables->assign<double>("freestream_pressure", pressure);
+      _inter.variables->assign<double>("freestream_temperature", pressure/(constants::specific_gas_air*density));
+      _inter.variables->assign<double>("freestream_sound_speed", sound_speed);
+      _inter.variables->assign<double>("freestream_speed", veloc.norm());
+      _inter.variables->assign<double>("freestream_mach", veloc.norm()/sound_speed);
+      _set_vector("freestream_velocity", veloc);
+      _set_vector("freestream_direction", full_direction);
+    } else {
       if (_vard("altitude")) {
         HEXED_ASSERT(!_vard("freestream_temperature"), "cannot specify both altitude and temperature (consider `temperature_offset`)");
         HEXED_ASSERT(!_vard("freestream_density") && !_vard("freestream_pressure"), "cannot specify both altitude and density or pressure");
@@ -184,14 +200,16 @@ Case::Case(std::string input_script)
       } else _inter.variables->assign<double>("freestream_density", *_vard("freestream_pressure")/(constants::specific_gas_air**_vard("freestream_temperature")));
       HEXED_ASSERT(_vard("freestream_velocity0").has_value() + _vard("freestream_speed").has_value() + _vard("freestream_mach").has_value() == 1,
                    "exactly one of velocity, speed, and Mach number must be specified");
+      _inter.variables->assign<double>("freestream_sound_speed", std::sqrt(heat_rat*constants::specific_gas_air**_vard("freestream_temperature")));
       Mat<> veloc;
       Mat<> full_direction = Mat<>::Zero(3);
       auto direction = full_direction(Eigen::seqN(0, *n_dim));
       if (_vard("freestream_velocity0")) {
         veloc = _get_vector("freestream_velocity", *n_dim);
         direction = veloc.normalized();
+        _inter.variables->assign<double>("freestream_speed", veloc.norm());
+        _inter.variables->assign<double>("freestream_mach", veloc.norm()/ *_vard("freestream_sound_speed"));
       } else {
-        _inter.variables->assign<double>("freestream_sound_speed", std::sqrt(heat_rat*constants::specific_gas_air**_vard("freestream_temperature")));
         if (_vard("freestream_speed")) _inter.variables->assign<double>("freestream_mach", *_vard("freestream_speed")/ *_vard("freestream_sound_speed"));
         else _inter.variables->assign<double>("freestream_speed", *_vard("freestream_mach")**_vard("freestream_sound_speed"));
         if (_vard("freestream_direction0")) direction = _get_vector("freestream_direction", *n_dim).normalized();
-- 
2.43.0


From e060642b4599261958e172fc338204dbbbaf0f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:29 +0000
Subject: [PATCH 54/54] fix: default initial condition did not work if
 freestream state is specified in 1D or 2D

---
 src/Case.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Case.cpp b/src/Case.cpp
index 43e4bff..ec676eb 100644
--- a/src/Case.cpp
+++ b/src/Case.cpp
@@ -183,6 +183,7 @@ Case::Case(std::string input_script)
       _inter.variables->assign<double>("freestream_mach", veloc.norm()/sound_speed);
       _set_vector("freestream_velocity", veloc);
       _set_vector("freestream_direction", full_direction);
+      for (int i_var = *n_dim + 2; i_var < 5; ++i_var) _inter.variables->assign<double>("freestream" + std::to_string(i_var), 0.); // needed by default `init_cond`
     } else {
       if (_vard("altitude")) {
         HEXED_ASSERT(!_vard("freestream_temperature"), "cannot specify both altitude and temperature (consider `temperature_offset`)");
-- 
2.43.0

