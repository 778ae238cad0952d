From 03e6b9837bf2b985ae07357a454a24ab875aeb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 01/19] fix: shared pointers copy null handles and keep counts
 balanced on move assignment

---
 lib/mito/utilities/SharedPointer.icc | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lib/mito/utilities/SharedPointer.icc b/lib/mito/utilities/SharedPointer.icc
index 5e7bdda..9fc7ce2 100644
--- a/lib/mito/utilities/SharedPointer.icc
+++ b/lib/mito/utilities/SharedPointer.icc
@@ -152,17 +152,16 @@ constexpr mito::utilities::SharedPointer<resourceT> &
 mito::utilities::SharedPointer<resourceT>::operator=(
     mito::utilities::SharedPointer<resourceT> && other) noexcept
 {
-    // if {other} and I point to different handles
-    if (other._handle != _handle) {
+    // if {other} is not me
+    if (&other != this) {
         // release my current handle
         _release();
-        // adopt the new shareable
+        // take over the reference held by {other}
         _handle = std::move(other._handle);
+        // invalidate {other}
+        other._handle = nullptr;
     }
 
-    // invalidate {other}
-    other._handle = nullptr;
-
     // all done
     return *this;
 }
@@ -172,8 +171,12 @@ template <class resourceT>
 constexpr auto
 mito::utilities::SharedPointer<resourceT>::_acquire() const -> void
 {
-    // acquire resource (increment reference count)
-    _handle->_acquire();
+    // if the handle is in valid state
+    if (_handle != nullptr) {
+        // acquire resource (increment reference count)
+        _handle->_acquire();
+    }
+
     // all done
     return;
 }
-- 
2.43.0


From b40ecbdb8dc89f843c1d093c3cdbdbd1b5c4e9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 02/19] fix: post-increment of segmented container iterators
 skips invalid elements

---
 lib/mito/utilities/SegmentedContainerIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mito/utilities/SegmentedContainerIterator.h b/lib/mito/utilities/SegmentedContainerIterator.h
index 99304a0..ae93f44 100644
--- a/lib/mito/utilities/SegmentedContainerIterator.h
+++ b/lib/mito/utilities/SegmentedContainerIterator.h
@@ -104,7 +104,7 @@ namespace mito::utilities {
             // make a copy of me
             auto clone = *this;
             // increment me
-            ++_segmented_iterator;
+            ++(*this);
             // and return the clone
             return clone;
         }
-- 
2.43.0


From be4c7c44593067390139b0054d2757a32edb8e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 03/19] fix: repositories do not destroy erased resources a
 second time

---
 lib/mito/utilities/Repository.h         |  9 +++++++--
 lib/mito/utilities/SegmentedAllocator.h | 16 ++++++++++++++++
 lib/mito/utilities/externals.h          |  2 ++
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/lib/mito/utilities/Repository.h b/lib/mito/utilities/Repository.h
index 1fde5a3..f9bb4a9 100644
--- a/lib/mito/utilities/Repository.h
+++ b/lib/mito/utilities/Repository.h
@@ -70,9 +70,14 @@ namespace mito::utilities {
         // destructor
         ~Repository()
         {
-            // destroy all resources
+            // the locations of the resources that were already destroyed when they were erased
+            const auto erased = _resources.available_locations();
+
+            // destroy all other resources
             for (const auto & resource : _resources) {
-                resource.~resource_type();
+                if (!erased.contains(&resource)) {
+                    resource.~resource_type();
+                }
             }
         }
 
diff --git a/lib/mito/utilities/SegmentedAllocator.h b/lib/mito/utilities/SegmentedAllocator.h
index eb6264b..f63e8b8 100644
--- a/lib/mito/utilities/SegmentedAllocator.h
+++ b/lib/mito/utilities/SegmentedAllocator.h
@@ -130,6 +130,22 @@ namespace mito::utilities {
 
         inline auto segment_size() const noexcept -> int { return _segment_size; }
 
+        // returns the set of the locations that were erased and not yet reused
+        inline auto available_locations() const -> std::unordered_set<const resource_type *>
+        {
+            // make a copy of the queue of the available locations
+            auto queue = _available_locations;
+
+            // collect the available locations
+            std::unordered_set<const resource_type *> locations;
+            for (; !queue.empty(); queue.pop()) {
+                locations.insert(queue.front());
+            }
+
+            // all done
+            return locations;
+        }
+
       private:
         auto _allocate_new_segment() -> unqualified_pointer
         {
diff --git a/lib/mito/utilities/externals.h b/lib/mito/utilities/externals.h
index 53b64ec..e4c1d9b 100644
--- a/lib/mito/utilities/externals.h
+++ b/lib/mito/utilities/externals.h
@@ -10,6 +10,8 @@
 // externals
 #include <cassert>
 #include <queue>
+#include <unordered_map>
+#include <unordered_set>
 #include <vector>
 #include <utility>
 #include <memory>
-- 
2.43.0


From 7525129493872f752fead1fb0bdf7f247c25b1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 04/19] fix: Topology::exists finds segments whose footprint
 rides on the opposite tips

---
 lib/mito/topology/Topology.icc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/mito/topology/Topology.icc b/lib/mito/topology/Topology.icc
index c675660..260268d 100644
--- a/lib/mito/topology/Topology.icc
+++ b/lib/mito/topology/Topology.icc
@@ -265,9 +265,17 @@ mito::topology::Topology::exists(const simplex_composition_t<N> & simplices) con
 inline auto
 mito::topology::Topology::exists(const vertex_simplex_composition_t<1> & vertices) const -> bool
 {
+    // find an oriented simplex riding on {vertex} (preferably one with orientation {orientation}:
+    // the footprint of a segment may ride on its tips with either orientation)
+    auto find_tip = [this](const vertex_t & vertex, orientation_t orientation) -> simplex_t<0> {
+        auto tip = _get_factory<0>().findOrientedSimplex(vertex, orientation);
+        return !tip.is_nullptr() ? tip :
+                                   _get_factory<0>().findOrientedSimplex(vertex, -orientation);
+    };
+
     // find left and right tip simplices
-    auto simplex_left_tip = _get_factory<0>().findOrientedSimplex(vertices[0], -1);
-    auto simplex_right_tip = _get_factory<0>().findOrientedSimplex(vertices[1], +1);
+    auto simplex_left_tip = find_tip(vertices[0], -1);
+    auto simplex_right_tip = find_tip(vertices[1], +1);
 
     // if both are are found
     if (!simplex_left_tip.is_nullptr() && !simplex_right_tip.is_nullptr()) {
-- 
2.43.0


From 7621fce443b51aacf99f0aedd19dd253fe85707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 05/19] fix: building a simplex from vertices leaves no unused
 subsimplices behind

---
 lib/mito/topology/Topology.h   |  5 ++++
 lib/mito/topology/Topology.icc | 52 ++++++++++++++++++++++++++++------
 2 files changed, 49 insertions(+), 8 deletions(-)

diff --git a/lib/mito/topology/Topology.h b/lib/mito/topology/Topology.h
index 27afb40..32294c4 100644
--- a/lib/mito/topology/Topology.h
+++ b/lib/mito/topology/Topology.h
@@ -81,6 +81,11 @@ namespace mito::topology {
         inline auto _erase(simplex_t<N> & simplex) -> void
         requires(N > 0);
 
+        // erase the subsimplices in {composition} that no one else is using
+        template <int N>
+        inline auto _discard_unused(simplex_composition_t<N> & composition) -> void
+        requires(N > 0);
+
         // mutator for the simplex factory of dimension N
         template <int N>
         inline auto _get_factory() noexcept -> oriented_simplex_factory_t<N> &;
diff --git a/lib/mito/topology/Topology.icc b/lib/mito/topology/Topology.icc
index 260268d..4607bd8 100644
--- a/lib/mito/topology/Topology.icc
+++ b/lib/mito/topology/Topology.icc
@@ -135,8 +135,14 @@ mito::topology::Topology::tetrahedron(const simplex_composition_t<3> & simplices
 inline auto
 mito::topology::Topology::segment(const vertex_simplex_composition_t<1> & vertices) -> simplex_t<1>
 {
+    // the tips of the segment
+    auto tips = simplex_composition_t<1>{ simplex(vertices[0], -1), simplex(vertices[1], +1) };
+
     // instantiate a segment
-    const auto & segment = simplex<1>({ simplex(vertices[0], -1), simplex(vertices[1], +1) });
+    const auto & segment = simplex<1>(tips);
+
+    // discard the tips the segment does not ride on
+    _discard_unused<1>(tips);
 
     // assert that accessing the vertices of the segment returns a positive permutation of the
     // vertex composition used to instantiate it
@@ -149,10 +155,16 @@ mito::topology::Topology::segment(const vertex_simplex_composition_t<1> & vertic
 inline auto
 mito::topology::Topology::triangle(const vertex_simplex_composition_t<2> & vertices) -> simplex_t<2>
 {
+    // the edges of the triangle
+    auto edges = simplex_composition_t<2>{ segment({ vertices[0], vertices[1] }),
+                                           segment({ vertices[1], vertices[2] }),
+                                           segment({ vertices[2], vertices[0] }) };
+
     // instantiate a triangle
-    const auto & triangle =
-        simplex<2>({ segment({ vertices[0], vertices[1] }), segment({ vertices[1], vertices[2] }),
-                     segment({ vertices[2], vertices[0] }) });
+    const auto & triangle = simplex<2>(edges);
+
+    // discard the edges the triangle does not ride on
+    _discard_unused<2>(edges);
 
     // assert that accessing the vertices of the triangle returns a positive permutation of the
     // vertex composition used to instantiate it
@@ -166,11 +178,17 @@ inline auto
 mito::topology::Topology::tetrahedron(const vertex_simplex_composition_t<3> & vertices)
     -> simplex_t<3>
 {
+    // the faces of the tetrahedron
+    auto faces = simplex_composition_t<3>{ triangle({ vertices[0], vertices[1], vertices[2] }),
+                                           triangle({ vertices[1], vertices[3], vertices[2] }),
+                                           triangle({ vertices[3], vertices[1], vertices[0] }),
+                                           triangle({ vertices[3], vertices[0], vertices[2] }) };
+
     // instantiate a tetrahedron
-    const auto & tetrahedron = simplex<3>({ triangle({ vertices[0], vertices[1], vertices[2] }),
-                                            triangle({ vertices[1], vertices[3], vertices[2] }),
-                                            triangle({ vertices[3], vertices[1], vertices[0] }),
-                                            triangle({ vertices[3], vertices[0], vertices[2] }) });
+    const auto & tetrahedron = simplex<3>(faces);
+
+    // discard the faces the tetrahedron does not ride on
+    _discard_unused<3>(faces);
 
     // assert that accessing the vertices of the tetrahedron returns a positive permutation of the
     // vertex composition used to instantiate it
@@ -234,6 +252,24 @@ requires(N > 0)
     return;
 }
 
+template <int N>
+inline auto
+mito::topology::Topology::_discard_unused(simplex_composition_t<N> & composition) -> void
+requires(N > 0)
+{
+    // loop on the subsimplices in {composition}
+    for (auto & subsimplex : composition) {
+        // if no one else is using this subsimplex
+        if (subsimplex.references() == 1) {
+            // erase it (along with its own unused subsimplices)
+            _erase(subsimplex);
+        }
+    }
+
+    // all done
+    return;
+}
+
 template <int N>
 inline auto
 mito::topology::Topology::erase(simplex_t<N> & simplex) -> void
-- 
2.43.0


From d43346d5274ac70b601a4f6f8fbe27e58ea615d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:05 +0000
Subject: [PATCH 06/19] fix: flip_diagonal accepts triangles that ride on their
 footprint in reverse

---
 lib/mito/topology/FlipDiagonal.icc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/mito/topology/FlipDiagonal.icc b/lib/mito/topology/FlipDiagonal.icc
index 2f7b1ea..6b869aa 100644
--- a/lib/mito/topology/FlipDiagonal.icc
+++ b/lib/mito/topology/FlipDiagonal.icc
@@ -100,7 +100,9 @@ namespace mito::topology {
         for (const auto & subsimplex : simplex0->composition()) {
             // if it is not the shared simplex
             if (subsimplex->footprint().id() != shared_simplex.id()) {
-                boundary_simplices.insert(subsimplex);
+                // insert it with the orientation it has in the boundary of simplex0
+                boundary_simplices.insert(
+                    simplex0->orientation() == +1 ? subsimplex : topology.flip(subsimplex));
             }
         }
         assert(std::size(boundary_simplices) == 2);
@@ -108,7 +110,9 @@ namespace mito::topology {
         for (const auto & subsimplex : simplex1->composition()) {
             // if it is not the shared simplex
             if (subsimplex->footprint().id() != shared_simplex.id()) {
-                boundary_simplices.insert(subsimplex);
+                // insert it with the orientation it has in the boundary of simplex1
+                boundary_simplices.insert(
+                    simplex1->orientation() == +1 ? subsimplex : topology.flip(subsimplex));
             }
         }
         assert(std::size(boundary_simplices) == 4);
-- 
2.43.0


From b1886dd2085e4e88e3fce730fdd86fe0bc01d33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:12 +0000
Subject: [PATCH 07/19] fix: wedge of a one-form with a two-form is alternating

---
 lib/mito/tensor/wedge.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/mito/tensor/wedge.h b/lib/mito/tensor/wedge.h
index 9d62b50..a5c20d5 100644
--- a/lib/mito/tensor/wedge.h
+++ b/lib/mito/tensor/wedge.h
@@ -74,6 +74,12 @@ namespace mito::tensor {
                        const X & x, const Y & y, const Z & z) -> auto {
                        return wedge(b_tilda(x), a_tilda)(y, z);
                    })
+             - sign
+                   * form<P1 + P2>(
+                       [a_tilda, b_tilda]<class X, class Y, class Z>(
+                           const X & x, const Y & y, const Z & z) -> auto {
+                           return wedge(b_tilda(y), a_tilda)(x, z);
+                       })
              + sign
                    * form<P1 + P2>(
                        [a_tilda, b_tilda]<class X, class Y, class Z>(
-- 
2.43.0


From b42c9a24c8f13fc80eb34f01d765e5b5911109d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 08/19] fix: material consistency test owns its material and
 parameters

---
 lib/mito/materials/MaterialConsistencyTest.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/mito/materials/MaterialConsistencyTest.h b/lib/mito/materials/MaterialConsistencyTest.h
index 04f6f3c..30c54c3 100644
--- a/lib/mito/materials/MaterialConsistencyTest.h
+++ b/lib/mito/materials/MaterialConsistencyTest.h
@@ -152,11 +152,11 @@ class mito::materials::MaterialConsistencyTest {
 
   private:
     // the material
-    const material_type & _material;
+    const material_type _material;
     // the perturbation for the numerical derivatives
-    const real & _perturbation;
+    const real _perturbation;
     // the tolerance for passing the test
-    const real & _tolerance;
+    const real _tolerance;
 };
 
 
-- 
2.43.0


From 53455a8ea166e9cff4c79a1bb7c908563f6f3254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 09/19] fix: cartesian::x_2 extracts the third coordinate

---
 lib/mito/geometry/cartesian/api.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mito/geometry/cartesian/api.h b/lib/mito/geometry/cartesian/api.h
index 25e4626..94dec70 100644
--- a/lib/mito/geometry/cartesian/api.h
+++ b/lib/mito/geometry/cartesian/api.h
@@ -37,7 +37,7 @@ namespace mito::geometry::cartesian {
     // the function extracting the 2-nd coordinate from a cartesian coordinate set
     template <int D>
     requires(D > 2)
-    constexpr auto x_2 = functions::component<cartesian_coordinates_t<D>, 1>;
+    constexpr auto x_2 = functions::component<cartesian_coordinates_t<D>, 2>;
 
     // the basis for vector fields (e_0)
     template <int D>
-- 
2.43.0


From 8a353942d5304cbbd589ffff02e162863494ae08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:30 +0000
Subject: [PATCH 10/19] fix: metric equivalent one-form of a vector field is
 its inner product

---
 lib/mito/geometry/metric_space.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/mito/geometry/metric_space.h b/lib/mito/geometry/metric_space.h
index e6e5343..651f587 100644
--- a/lib/mito/geometry/metric_space.h
+++ b/lib/mito/geometry/metric_space.h
@@ -88,7 +88,12 @@ namespace mito::geometry {
         const fields::vector_field_c auto & vector)
     {
         // return a one form field that, once evaluated at {x}...
-        return _one_form(vector, g_inv);
+        return functions::function([vector](const coordinates_type & x) {
+            // returns the inner product with {vector(x)} (the components of {vector(x)} refer to an
+            // orthonormal frame, as those of the basis vectors {e<I>})
+            const auto v = vector(x);
+            return tensor::one_form(v);
+        });
     }
 
     template <coordinates_c coordsT>
-- 
2.43.0


From 77ea414fe7b66d82d362fabc8c1661f78db46956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 11/19] fix: point cloud iterators are returned by value

---
 lib/mito/geometry/PointCloud.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mito/geometry/PointCloud.h b/lib/mito/geometry/PointCloud.h
index 3d011a5..0af9a69 100644
--- a/lib/mito/geometry/PointCloud.h
+++ b/lib/mito/geometry/PointCloud.h
@@ -47,8 +47,8 @@ namespace mito::geometry {
         }
 
         // support for ranged for loops (wrapping grid)
-        inline auto begin() const -> const auto & { return std::begin(_cloud); }
-        inline auto end() const -> const auto & { return std::end(_cloud); }
+        inline auto begin() const { return std::begin(_cloud); }
+        inline auto end() const { return std::end(_cloud); }
 
         auto size() const noexcept -> int { return std::size(_cloud); }
 
-- 
2.43.0


From 3ad2457f3ea5f6551e486e5a89d26e544d960c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 12/19] fix: mesh boundary accounts for cells that ride on
 their footprint in reverse

---
 lib/mito/mesh/Boundary.icc | 19 +++++++++++++------
 lib/mito/mesh/Mesh.h       | 28 ++++++++++++++++++++--------
 2 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/lib/mito/mesh/Boundary.icc b/lib/mito/mesh/Boundary.icc
index 374cb47..e5705ac 100644
--- a/lib/mito/mesh/Boundary.icc
+++ b/lib/mito/mesh/Boundary.icc
@@ -21,8 +21,8 @@ mito::mesh::Boundary<meshT>::boundary_size(const mesh_type & mesh) -> int
         // loop on the topological composition of {cell} and
         // increment counter if {subcell} is on the boundary of the mesh
         count +=
-            std::ranges::count_if(cell.simplex()->composition(), [&mesh](const auto & subcell) {
-                return mesh.isOnBoundary(subcell);
+            std::ranges::count_if(cell.simplex()->composition(), [&](const auto & subcell) {
+                return mesh.isOnBoundary(subcell, cell.simplex()->orientation());
             });
     }
 
@@ -41,13 +41,20 @@ mito::mesh::Boundary<meshT>::boundary(const mesh_type & mesh) -> boundary_mesh_t
     for (const auto & cell : mesh.cells()) {
         // create view of {subcell}s on the boundary of the mesh
         auto subcellsOnBoundary =
-            cell.simplex()->composition() | std::views::filter([&mesh](const auto & subcell) {
-                return mesh.isOnBoundary(subcell);
+            cell.simplex()->composition() | std::views::filter([&](const auto & subcell) {
+                return mesh.isOnBoundary(subcell, cell.simplex()->orientation());
             });
         // loop on the {subcell} on the boundary
         for (const auto & subcell : subcellsOnBoundary) {
-            // add {cell} to the boundary mesh
-            boundary.insert(mito::geometry::geometric_simplex<D>(subcell, cell.nodes()));
+            // if {subcell} is a vertex or {cell} is oriented as its footprint
+            if (cell_type::order == 1 || cell.simplex()->orientation() == +1) {
+                // add {subcell} to the boundary mesh
+                boundary.insert(mito::geometry::geometric_simplex<D>(subcell, cell.nodes()));
+            } else {
+                // add {subcell} to the boundary mesh with the orientation induced by {cell}
+                boundary.insert(
+                    mito::geometry::geometric_simplex<D>(topology::flip(subcell), cell.nodes()));
+            }
         }
     }
 
diff --git a/lib/mito/mesh/Mesh.h b/lib/mito/mesh/Mesh.h
index 1c529b6..89a8d9d 100644
--- a/lib/mito/mesh/Mesh.h
+++ b/lib/mito/mesh/Mesh.h
@@ -69,12 +69,16 @@ namespace mito::mesh {
       private:
         inline auto _register_cell_orientation(const cell_type & cell) -> void
         {
+            // get the orientation of {cell} with respect to its footprint
+            const auto orientation = cell.simplex()->orientation();
+
             // loop on the subcells of {cell}
             for (const auto & subcell : cell.simplex()->composition()) {
                 // increment the orientations count for this cell footprint id, depending on the
-                // orientation
-                (subcell->orientation() == +1 ? _orientations[subcell->footprint().id()][0] += 1 :
-                                                _orientations[subcell->footprint().id()][1] += 1);
+                // orientation induced by {cell}
+                (subcell->orientation() == orientation ?
+                     _orientations[subcell->footprint().id()][0] += 1 :
+                     _orientations[subcell->footprint().id()][1] += 1);
             }
 
             // all done
@@ -107,11 +111,14 @@ namespace mito::mesh {
             bool cell_was_erased = _cells.erase(cell);
             // if the cell was in fact erased from the cell
             if (cell_was_erased) {
+                // get the orientation of {cell} with respect to its footprint
+                const auto orientation = cell.simplex()->orientation();
+
                 // loop on the subcells of {cell}
                 for (const auto & subcell : cell.simplex()->composition()) {
                     // decrement the orientations count for this cell footprint id, depending on
-                    // the orientation
-                    (subcell->orientation() == +1 ?
+                    // the orientation induced by {cell}
+                    (subcell->orientation() == orientation ?
                          _orientations[subcell->footprint().id()][0] -= 1 :
                          _orientations[subcell->footprint().id()][1] -= 1);
 
@@ -160,12 +167,17 @@ namespace mito::mesh {
             return;
         }
 
-        inline auto isOnBoundary(const cell_topological_family_type<N - 1> & cell) const -> bool
+        // returns whether {cell}, as a subcell of a mesh cell of orientation {orientation} with
+        // respect to its footprint, is on the boundary of the mesh
+        inline auto isOnBoundary(
+            const cell_topological_family_type<N - 1> & cell,
+            topology::orientation_t orientation = +1) const -> bool
         {
             // count how many times this oriented cell occurs in the mesh with opposite orientation
             int count = 0;
-            (cell->orientation() == -1 ? count = _orientations.at(cell->footprint().id())[0] :
-                                         count = _orientations.at(cell->footprint().id())[1]);
+            (cell->orientation() != orientation ?
+                 count = _orientations.at(cell->footprint().id())[0] :
+                 count = _orientations.at(cell->footprint().id())[1]);
 
             // the cell is on the boundary if it never occurs in the mesh with opposite
             // orientation
-- 
2.43.0


From 1c4ce3136a61a5d3ce2914f8c72a5210e3aa169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 13/19] fix: H1 norm uses the gradient in physical coordinates

---
 lib/mito/fem/norms.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/mito/fem/norms.h b/lib/mito/fem/norms.h
index 79ea71a..da1358e 100644
--- a/lib/mito/fem/norms.h
+++ b/lib/mito/fem/norms.h
@@ -58,15 +58,23 @@ namespace mito::fem {
             auto u1_local = localize(u1, element);
             // localize {u2} on this element
             auto u2_local = localize(u2, element);
-            // assemble the gradient of the solution field on this element
+            // the gradient of {u1} on this element with respect to the parametric coordinates
             auto u1_local_gradient = fields::gradient(u1_local);
-            // localize the gradient of the exact solution on this element
+            // the gradient of {u2} on this element with respect to the parametric coordinates
             auto u2_local_gradient = fields::gradient(u2_local);
+            // the jacobian of the mapping from parametric to physical coordinates
+            auto jacobian = element.jacobian();
+            // assemble the spatial gradient of the difference of the two fields on this element
+            auto gradient_difference = functions::function(
+                [&](const typename element_type::parametric_coordinates_type & xi)
+                    -> tensor::vector_t<element_type::dim> {
+                    return (u1_local_gradient(xi) - u2_local_gradient(xi))
+                         * tensor::inverse(jacobian(xi));
+                });
             // compute the elementary contributions to the H1 norm
             norm += blocks::l2_norm_block<element_type, quadratureRuleT>(u1_local - u2_local)
                         .compute(element)
-                  + blocks::l2_norm_block<element_type, quadratureRuleT>(
-                        u1_local_gradient - u2_local_gradient)
+                  + blocks::l2_norm_block<element_type, quadratureRuleT>(gradient_difference)
                         .compute(element);
         }
 
-- 
2.43.0


From 7059559c7602f01fa074ab328c102311f9bff1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:00 +0000
Subject: [PATCH 14/19] fix: quadrature field factory builds its entries from
 the simplices of the cells

---
 lib/mito/discrete/factories.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/mito/discrete/factories.h b/lib/mito/discrete/factories.h
index 4dffe31..01c17e2 100644
--- a/lib/mito/discrete/factories.h
+++ b/lib/mito/discrete/factories.h
@@ -13,10 +13,16 @@ namespace mito::discrete {
     template <class Y, int Q, mesh::mesh_c meshT>
     constexpr auto quadrature_field(const meshT & mesh, std::string name)
     {
-        // build a quadrature field on the cells collected from the mesh
-        // ({Q} quad points per cell)
-        return quadrature_field_t<typename meshT::cell_type::simplex_type, Q, Y>(
-            mesh.cells(), name);
+        // build an empty quadrature field ({Q} quad points per cell)
+        auto field = quadrature_field_t<typename meshT::cell_type::simplex_type, Q, Y>(name);
+
+        // insert an entry for each of the cells in the mesh
+        for (const auto & cell : mesh.cells()) {
+            field.insert(cell.simplex());
+        }
+
+        // return the quadrature field
+        return field;
     }
 
     // mesh field factory
-- 
2.43.0


From 2a381ee2e1c4d19675e343505b7458997b737479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:35 +0000
Subject: [PATCH 15/19] fix: assemble the right-hand side of PETSc linear
 systems before solving

---
 lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
index 3e96648..7c74cba 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
@@ -74,6 +74,10 @@ mito::matrix_solvers::petsc::PETScLinearSystem::assemble() -> void
     PetscCallVoid(MatAssemblyBegin(_matrix, MAT_FINAL_ASSEMBLY));
     PetscCallVoid(MatAssemblyEnd(_matrix, MAT_FINAL_ASSEMBLY));
 
+    // assemble the right-hand side
+    PetscCallVoid(VecAssemblyBegin(_rhs));
+    PetscCallVoid(VecAssemblyEnd(_rhs));
+
     // // show the matrix and the right-hand-side
     // PetscCallVoid(MatView(_matrix, PETSC_VIEWER_STDOUT_WORLD));
     // PetscCallVoid(VecView(_rhs, PETSC_VIEWER_STDOUT_WORLD));
-- 
2.43.0


From 6447f290c1241ba119bbe648325a17b0b7389c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:35 +0000
Subject: [PATCH 16/19] fix: read the whole solution of PETSc linear systems,
 not just the local part

---
 .../backend/petsc/PETScLinearSystem.icc       | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.icc b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.icc
index 37957a9..f5652ca 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.icc
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.icc
@@ -14,13 +14,20 @@ template <class solutionT>
 auto
 mito::matrix_solvers::petsc::PETScLinearSystem::get_solution(solutionT & solution) const -> void
 {
-    // get a pointer to the beginning of {_solution}
+    // gather the entries of {_solution} from all processes
+    vector_type all;
+    VecScatter scatter;
+    PetscCallVoid(VecScatterCreateToAll(_solution, &scatter, &all));
+    PetscCallVoid(VecScatterBegin(scatter, _solution, all, INSERT_VALUES, SCATTER_FORWARD));
+    PetscCallVoid(VecScatterEnd(scatter, _solution, all, INSERT_VALUES, SCATTER_FORWARD));
+
+    // get a pointer to the beginning of {all}
     const scalar_type * u;
-    PetscCallVoid(VecGetArrayRead(_solution, &u));
+    PetscCallVoid(VecGetArrayRead(all, &u));
 
     // get the size of the vector
     PetscInt size;
-    PetscCallVoid(VecGetSize(_solution, &size));
+    PetscCallVoid(VecGetSize(all, &size));
 
     // check that the size of {_solution} matches the size of {solution}
     assert(size == (int) std::size(solution));
@@ -29,7 +36,11 @@ mito::matrix_solvers::petsc::PETScLinearSystem::get_solution(solutionT & solutio
     std::copy(u, u + size, std::begin(solution));
 
     // restore the array after reading
-    PetscCallVoid(VecRestoreArrayRead(_solution, &u));
+    PetscCallVoid(VecRestoreArrayRead(all, &u));
+
+    // free the memory
+    PetscCallVoid(VecScatterDestroy(&scatter));
+    PetscCallVoid(VecDestroy(&all));
 
     // all done
     return;
-- 
2.43.0


From 86f69f3ad96754477710e82d6438e6450ac14a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:35 +0000
Subject: [PATCH 17/19] fix: negative option values are not prefixed when
 passed on to PETSc

---
 lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc | 6 +++---
 lib/mito/matrix_solvers/backend/petsc/externals.h          | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc b/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
index c054596..f16d0ba 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
@@ -65,10 +65,10 @@ namespace {
         std::string word_string = options.substr(pos_old, pos_new - pos_old);
         options_vector.push_back(word_string);
 
-        // for each word, if the leading character is '-', insert the {prefix} between '-' and the
-        // rest of the word
+        // for each word that is an option key (i.e. with a leading '-' followed by a letter, as
+        // opposed to a negative number), insert the {prefix} between '-' and the rest of the word
         for (auto & word : options_vector) {
-            if (word[0] == '-') {
+            if (word[0] == '-' && std::isalpha(static_cast<unsigned char>(word[1]))) {
                 word.erase(0, 1);
                 word = "-" + prefix + word;
             }
diff --git a/lib/mito/matrix_solvers/backend/petsc/externals.h b/lib/mito/matrix_solvers/backend/petsc/externals.h
index 08ed8f3..dcfff4b 100644
--- a/lib/mito/matrix_solvers/backend/petsc/externals.h
+++ b/lib/mito/matrix_solvers/backend/petsc/externals.h
@@ -11,6 +11,7 @@
 #include <string>
 #include <vector>
 #include <cassert>
+#include <cctype>
 
 // support
 #include "../../../journal.h"
-- 
2.43.0


From d367b1fa4974c8581a4c5a3ac57c9ab628c88f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:16 +0000
Subject: [PATCH 18/19] fix: summit reader skips everything that follows the
 connectivity of a cell

---
 lib/mito/io/summit/reader.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mito/io/summit/reader.h b/lib/mito/io/summit/reader.h
index 137387a..5997aa2 100644
--- a/lib/mito/io/summit/reader.h
+++ b/lib/mito/io/summit/reader.h
@@ -95,10 +95,10 @@ namespace mito::io::summit {
         }
 
         // QUESTION: Can the label be more than one?
-        // read label for cell
+        // read label for cell (together with the type of element, if present)
         // TOFIX: Ignored for now
         std::string cell_set_id;
-        fileStream >> cell_set_id;
+        std::getline(fileStream, cell_set_id);
 
         // all done
         return;
-- 
2.43.0


From b09b8fc6c0c2004f01c94c2d538d5954e1339917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:35 +0000
Subject: [PATCH 19/19] fix: keep alive what Python manifolds and integrators
 refer to

---
 extensions/mito/mito.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/extensions/mito/mito.cc b/extensions/mito/mito.cc
index 7c15abb..7377925 100644
--- a/extensions/mito/mito.cc
+++ b/extensions/mito/mito.cc
@@ -148,7 +148,9 @@ PYBIND11_MODULE(mito, m)
                 [](const mesh_triangle_2D_t & mesh, const coordinate_system_2D_t & coord_system) {
                     // create the manifold
                     return mito::manifolds::manifold(mesh, coord_system);
-                }))
+                }),
+            // the manifold refers to its mesh and coordinate system: keep them alive
+            mito::py::keep_alive<1, 2>(), mito::py::keep_alive<1, 3>())
         // done
         ;
 
@@ -160,7 +162,9 @@ PYBIND11_MODULE(mito, m)
         // the constructor
         .def(
             // the implementation
-            mito::py::init<const manifold_triangle_2D_t &>())
+            mito::py::init<const manifold_triangle_2D_t &>(),
+            // the integrator refers to its manifold: keep it alive
+            mito::py::keep_alive<1, 2>())
         // interface
         // integrate a scalar field
         .def(
-- 
2.43.0

