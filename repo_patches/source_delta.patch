From 9f957e458c17c94e05f36b6e5533c33a4b785e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 01/16] fix: triangulate overlaps of coplanar faces the same
 way in both meshes

The constrained Delaunay triangulation of an overlap polygon with cocircular
vertices is not unique, so the two meshes could get different faces on the
overlap. Such faces were not recognised as coincident, and valid operands gave
spurious warnings or the error "local classification must be performed before
global classification".
---
 include/kigumi/Corefine.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/kigumi/Corefine.h b/include/kigumi/Corefine.h
index cceb1bf..5bbd922 100644
--- a/include/kigumi/Corefine.h
+++ b/include/kigumi/Corefine.h
@@ -270,6 +270,7 @@ class Corefine {
     typename Triangulation::Vertex_handle null_vh;
     auto first = null_vh;
     auto prev = null_vh;
+    boost::container::static_vector<typename Triangulation::Vertex_handle, 6> vhs;
     for (std::size_t i = 0; i < info.intersections.size(); ++i) {
       auto id = info.intersections.at(i);
       auto sym = info.symbolic_intersections.at(i);
@@ -281,10 +282,17 @@ class Corefine {
         first = cur;
       }
       prev = cur;
+      vhs.push_back(cur);
     }
     if (info.intersections.size() > 2) {
       triangulation.insert_constraint(prev, first);
     }
+
+    // A Delaunay triangulation of cocircular points is not unique. Triangulate the overlap of
+    // coplanar faces from its first point so that both meshes get the same faces.
+    for (std::size_t i = 2; i + 1 < vhs.size(); ++i) {
+      triangulation.insert_constraint(first, vhs.at(i));
+    }
   }
 
   const Triangle_soup& left_;
-- 
2.43.0


From e9884c9cf24f34d5dee55d71a5c0dae3672fb33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 02/16] fix: reading a triangle soup replaces its contents
 instead of appending

Reading a binary region into a region that already has a boundary kept the old
vertices and faces, and the new faces referred to the old vertices.
---
 include/kigumi/Triangle_soup.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kigumi/Triangle_soup.h b/include/kigumi/Triangle_soup.h
index b07007f..697ea34 100644
--- a/include/kigumi/Triangle_soup.h
+++ b/include/kigumi/Triangle_soup.h
@@ -190,6 +190,8 @@ struct Read<Triangle_soup<K, FaceData>> {
     kigumi_read<std::int32_t>(in, num_vertices);
     kigumi_read<std::int32_t>(in, num_faces);
 
+    t = {};
+
     for (std::size_t i = 0; i < num_vertices; ++i) {
       bool is_exact{};
       kigumi_read<bool>(in, is_exact);
-- 
2.43.0


From 450cdd648e20561ea4250060a793b072ed4925e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:16 +0000
Subject: [PATCH 03/16] fix: fail instead of crashing on truncated or
 zero-denominator rational numbers

---
 include/kigumi/io.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/kigumi/io.h b/include/kigumi/io.h
index 6d64381..153a4f6 100644
--- a/include/kigumi/io.h
+++ b/include/kigumi/io.h
@@ -116,12 +116,20 @@ struct Read<boost::multiprecision::cpp_rational> {
     kigumi_read<std::int32_t>(in, count);
     buf.resize(count);
     in.read(reinterpret_cast<char*>(buf.data()), static_cast<std::streamsize>(count));
-    import_bits(num, buf.begin(), buf.end());
+    if (!buf.empty()) {
+      import_bits(num, buf.begin(), buf.end());
+    }
 
     kigumi_read<std::int32_t>(in, count);
     buf.resize(count);
     in.read(reinterpret_cast<char*>(buf.data()), static_cast<std::streamsize>(count));
-    import_bits(den, buf.begin(), buf.end());
+    if (!buf.empty()) {
+      import_bits(den, buf.begin(), buf.end());
+    }
+    if (!in || den == 0) {
+      in.setstate(std::ios::failbit);
+      return;
+    }
 
     t = boost::multiprecision::cpp_rational{std::move(num), std::move(den)};
     if (neg) {
@@ -178,6 +186,10 @@ struct Read<mpq_class> {
     buf.resize(count);
     in.read(reinterpret_cast<char*>(buf.data()), static_cast<std::streamsize>(count));
     mpz_import(den.get_mpz_t(), count, 1, 1, 0, 0, buf.data());
+    if (!in || den == 0) {
+      in.setstate(std::ios::failbit);
+      return;
+    }
 
     t = mpq_class{std::move(num)} / mpq_class{std::move(den)};
     if (neg) {
-- 
2.43.0


From e759b4b41cb5e34a99c7bf230ff76563a457964b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:16 +0000
Subject: [PATCH 04/16] fix: leave the region unchanged when reading it fails

---
 include/kigumi/Region_io.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/kigumi/Region_io.h b/include/kigumi/Region_io.h
index 3802d9d..a7ccb2a 100644
--- a/include/kigumi/Region_io.h
+++ b/include/kigumi/Region_io.h
@@ -6,6 +6,7 @@
 #include <fstream>
 #include <iostream>
 #include <string>
+#include <utility>
 
 namespace kigumi {
 
@@ -14,8 +15,13 @@ bool read_kigumi_region(std::istream& is, Region<K, FaceData>& region) {
   if (!is) {
     return false;
   }
-  kigumi_read<Region<K, FaceData>>(is, region);
-  return is.good();
+  Region<K, FaceData> result;
+  kigumi_read<Region<K, FaceData>>(is, result);
+  if (!is.good()) {
+    return false;
+  }
+  region = std::move(result);
+  return true;
 }
 
 template <class K, class FaceData>
-- 
2.43.0


From d64c586fd4356504fac5de14522a4f2ab3766e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:12 +0000
Subject: [PATCH 05/16] fix: do not visit the face itself first when iterating
 the faces around it

---
 include/kigumi/Mesh_iterators.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/kigumi/Mesh_iterators.h b/include/kigumi/Mesh_iterators.h
index 20e7dd7..6cde95a 100644
--- a/include/kigumi/Mesh_iterators.h
+++ b/include/kigumi/Mesh_iterators.h
@@ -129,7 +129,11 @@ class Face_around_face_iterator
                             Face_around_edge_iterator end1, Face_around_edge_iterator it2,
                             Face_around_edge_iterator end2, Face_around_edge_iterator it3,
                             Face_around_edge_iterator end3)
-      : fi_{fi}, it1_{it1}, end1_{end1}, it2_{it2}, end2_{end2}, it3_{it3}, end3_{end3} {}
+      : fi_{fi}, it1_{it1}, end1_{end1}, it2_{it2}, end2_{end2}, it3_{it3}, end3_{end3} {
+    if (dereference() == fi_) {
+      increment();
+    }
+  }
 
  private:
   friend boost::iterator_core_access;
-- 
2.43.0


From 5ed0246c127946382a6430d5cc31e381643591dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 06/16] fix: index unused vertices at the end of a finalized
 mesh

---
 include/kigumi/Triangle_mesh.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kigumi/Triangle_mesh.h b/include/kigumi/Triangle_mesh.h
index 10d6d56..1b30d2b 100644
--- a/include/kigumi/Triangle_mesh.h
+++ b/include/kigumi/Triangle_mesh.h
@@ -130,7 +130,8 @@ class Triangle_mesh {
       prev_v = v;
       ++index;
     }
-    indices_.push_back(index);
+    // Vertices after the last used one have no faces.
+    indices_.resize(points_.size() + 1, index);
   }
 
   std::size_t num_vertices() const { return points_.size(); }
-- 
2.43.0


From 1566e6630ec21bcb09e46d9d115969003e98d490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:41 +0000
Subject: [PATCH 07/16] fix: do not use a point list that was destroyed in an
 earlier call

---
 include/kigumi/Corefine.h     | 2 +-
 include/kigumi/Find_defects.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kigumi/Corefine.h b/include/kigumi/Corefine.h
index 5bbd922..4a89071 100644
--- a/include/kigumi/Corefine.h
+++ b/include/kigumi/Corefine.h
@@ -64,7 +64,7 @@ class Corefine {
     parallel_do(
         pairs.begin(), pairs.end(), std::pair<std::vector<Intersection_info>, std::size_t>{},
         [&](const auto& pair, auto& local_state) {
-          thread_local Face_face_intersection face_face_intersection{points_};
+          Face_face_intersection face_face_intersection{points_};
 
           auto [left_fi, right_fi] = pair;
           const auto& left_face = left_.face(left_fi);
diff --git a/include/kigumi/Find_defects.h b/include/kigumi/Find_defects.h
index a318df7..8bc6787 100644
--- a/include/kigumi/Find_defects.h
+++ b/include/kigumi/Find_defects.h
@@ -302,7 +302,7 @@ class Find_defects {
     parallel_do(
         m.faces_begin(), m.faces_end(), std::vector<Face_index>{},
         [&](auto fi, auto& local_fis) {
-          thread_local Face_face_intersection face_face_intersection{points};
+          Face_face_intersection face_face_intersection{points};
           thread_local std::vector<const Leaf*> leaves;
           thread_local std::vector<Vertex_index> shared_vertices;
 
-- 
2.43.0


From fc271fc33850a57c95f8ba0b5a7d40cc935e2645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:54 +0000
Subject: [PATCH 08/16] fix: do not read the exception of a parallel loop while
 another thread sets it

---
 include/kigumi/parallel_do.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/kigumi/parallel_do.h b/include/kigumi/parallel_do.h
index 149bb29..8a4cf28 100644
--- a/include/kigumi/parallel_do.h
+++ b/include/kigumi/parallel_do.h
@@ -33,6 +33,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, State st
   std::atomic<std::size_t> next_index{};
   std::mutex mutex;
   std::exception_ptr exception_ptr;
+  std::atomic<bool> failed{};
 
   threads.reserve(num_threads);
   for (std::size_t tid = 0; tid < num_threads; ++tid) {
@@ -48,7 +49,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, State st
 
           body(*(first + index), local_state);
 
-          if (exception_ptr) {
+          if (failed) {
             return;
           }
         }
@@ -59,6 +60,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, State st
         std::lock_guard lock{mutex};
         if (!exception_ptr) {
           exception_ptr = std::current_exception();
+          failed = true;
         }
       }
     });
@@ -93,6 +95,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, Body bod
   std::atomic<std::size_t> next_index{};
   std::mutex mutex;
   std::exception_ptr exception_ptr;
+  std::atomic<bool> failed{};
 
   threads.reserve(num_threads);
   for (std::size_t tid = 0; tid < num_threads; ++tid) {
@@ -106,7 +109,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, Body bod
 
           body(*(first + index));
 
-          if (exception_ptr) {
+          if (failed) {
             return;
           }
         }
@@ -114,6 +117,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, Body bod
         std::lock_guard lock{mutex};
         if (!exception_ptr) {
           exception_ptr = std::current_exception();
+          failed = true;
         }
       }
     });
-- 
2.43.0


From c83c31456e3cbe3267f5329434427c636f9f8ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:54 +0000
Subject: [PATCH 09/16] fix: respect the thread limit in parallel loops without
 state

---
 include/kigumi/parallel_do.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/kigumi/parallel_do.h b/include/kigumi/parallel_do.h
index 8a4cf28..c398a2f 100644
--- a/include/kigumi/parallel_do.h
+++ b/include/kigumi/parallel_do.h
@@ -82,8 +82,7 @@ void parallel_do(RandomAccessIterator first, RandomAccessIterator last, Body bod
     return;
   }
 
-  auto num_threads = std::clamp(static_cast<std::size_t>(std::thread::hardware_concurrency()),
-                                std::size_t{1}, size);
+  auto num_threads = std::min(Threading_context::current().num_threads(), size);
   if (num_threads == 1) {
     for (auto it = first; it != last; ++it) {
       body(*it);
-- 
2.43.0


From 1d4824999891629e4d73c2b828216b6327cb93a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:45 +0000
Subject: [PATCH 10/16] fix: report failure when written data does not reach
 the file

---
 include/kigumi/Region_io.h | 2 +-
 include/kigumi/io/obj.h    | 2 +-
 include/kigumi/io/off.h    | 2 +-
 include/kigumi/io/ply.h    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kigumi/Region_io.h b/include/kigumi/Region_io.h
index a7ccb2a..ef92f5b 100644
--- a/include/kigumi/Region_io.h
+++ b/include/kigumi/Region_io.h
@@ -50,7 +50,7 @@ bool write_kigumi_region(const std::string& filename, const Region<K, FaceData>&
     std::cerr << "failed to open file: " << filename << std::endl;
     return false;
   }
-  return write_kigumi_region<K, FaceData>(ofs, region);
+  return write_kigumi_region<K, FaceData>(ofs, region) && ofs.flush();
 }
 
 }  // namespace kigumi
diff --git a/include/kigumi/io/obj.h b/include/kigumi/io/obj.h
index 5b23abb..ab7dda7 100644
--- a/include/kigumi/io/obj.h
+++ b/include/kigumi/io/obj.h
@@ -140,7 +140,7 @@ bool write_obj(const std::string& filename, const Triangle_soup<K, FaceData>& so
     std::cerr << "failed to open file: " << filename << std::endl;
     return false;
   }
-  return write_obj<K, FaceData>(ofs, soup);
+  return write_obj<K, FaceData>(ofs, soup) && ofs.flush();
 }
 
 }  // namespace kigumi::io
diff --git a/include/kigumi/io/off.h b/include/kigumi/io/off.h
index 12525a0..1dd64e2 100644
--- a/include/kigumi/io/off.h
+++ b/include/kigumi/io/off.h
@@ -220,7 +220,7 @@ bool write_off(const std::string& filename, const Triangle_soup<K, FaceData>& so
     std::cerr << "failed to open file: " << filename << std::endl;
     return false;
   }
-  return write_off<K, FaceData>(ofs, soup);
+  return write_off<K, FaceData>(ofs, soup) && ofs.flush();
 }
 
 }  // namespace kigumi::io
diff --git a/include/kigumi/io/ply.h b/include/kigumi/io/ply.h
index f10563c..2537150 100644
--- a/include/kigumi/io/ply.h
+++ b/include/kigumi/io/ply.h
@@ -331,7 +331,7 @@ bool write_ply(const std::string& filename, const Triangle_soup<K, FaceData>& so
     std::cerr << "failed to open file: " << filename << std::endl;
     return false;
   }
-  return write_ply<K, FaceData>(ofs, soup);
+  return write_ply<K, FaceData>(ofs, soup) && ofs.flush();
 }
 
 }  // namespace kigumi::io
-- 
2.43.0


From 3f36c4573d431bb83ebf8871952a47968cd8479a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:45 +0000
Subject: [PATCH 11/16] fix: stop reading a list at the end of its line instead
 of exhausting the memory

---
 include/kigumi/io/off.h | 2 +-
 include/kigumi/io/ply.h | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kigumi/io/off.h b/include/kigumi/io/off.h
index 1dd64e2..3385ed2 100644
--- a/include/kigumi/io/off.h
+++ b/include/kigumi/io/off.h
@@ -140,7 +140,7 @@ bool read_off(std::istream& is, Triangle_soup<K, FaceData>& soup) {
         face.clear();
         std::size_t count{};
         iss >> count;
-        for (std::size_t i = 0; i < count; ++i) {
+        for (std::size_t i = 0; i < count && iss; ++i) {
           std::size_t v{};
           iss >> v;
           face.push_back(Vertex_index{v});
diff --git a/include/kigumi/io/ply.h b/include/kigumi/io/ply.h
index 2537150..cb54c1f 100644
--- a/include/kigumi/io/ply.h
+++ b/include/kigumi/io/ply.h
@@ -219,7 +219,7 @@ bool read_ply(std::istream& is, Triangle_soup<K, FaceData>& soup) {
         } else if (it->type == "list") {
           std::size_t count{};
           iss >> count;
-          for (std::size_t i = 0; i < count; ++i) {
+          for (std::size_t i = 0; i < count && iss; ++i) {
             iss >> s;
           }
         } else {
@@ -237,7 +237,7 @@ bool read_ply(std::istream& is, Triangle_soup<K, FaceData>& soup) {
         if (it == vertex_index_property_it) {
           std::size_t count{};
           iss >> count;
-          for (std::size_t i = 0; i < count; ++i) {
+          for (std::size_t i = 0; i < count && iss; ++i) {
             std::size_t v{};
             iss >> v;
             face.push_back(Vertex_index{v});
@@ -245,7 +245,7 @@ bool read_ply(std::istream& is, Triangle_soup<K, FaceData>& soup) {
         } else if (it->type == "list") {
           std::size_t count{};
           iss >> count;
-          for (std::size_t i = 0; i < count; ++i) {
+          for (std::size_t i = 0; i < count && iss; ++i) {
             iss >> s;
           }
         } else {
-- 
2.43.0


From 745b5df75ccc1c6df46870a7263f3b121d5e0e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:54 +0000
Subject: [PATCH 12/16] fix: reject OBJ face lines with invalid indices instead
 of truncating them

---
 include/kigumi/io/obj.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/kigumi/io/obj.h b/include/kigumi/io/obj.h
index ab7dda7..aba6f62 100644
--- a/include/kigumi/io/obj.h
+++ b/include/kigumi/io/obj.h
@@ -63,7 +63,13 @@ bool read_obj(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     } else if (s == "f") {
       face.clear();
       std::ptrdiff_t v{};
-      while (iss >> v) {
+      while (!(iss >> opt_hash_comment_eof)) {
+        iss.clear();
+        iss >> v;
+        if (!iss) {
+          std::cerr << "invalid face line: " << line << std::endl;
+          return false;
+        }
         if (v > 0) {
           face.push_back(Vertex_index{static_cast<std::size_t>(v) - 1});
         } else if (v < 0) {
-- 
2.43.0


From 42c7a06aafe64c4d866f7ab89da63cf17a338df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:54 +0000
Subject: [PATCH 13/16] fix: report read errors of OBJ files

---
 include/kigumi/io/obj.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/kigumi/io/obj.h b/include/kigumi/io/obj.h
index aba6f62..41b6d6f 100644
--- a/include/kigumi/io/obj.h
+++ b/include/kigumi/io/obj.h
@@ -93,6 +93,11 @@ bool read_obj(std::istream& is, Triangle_soup<K, FaceData>& soup) {
     }
   }
 
+  if (is.bad()) {
+    std::cerr << "failed to read file" << std::endl;
+    return false;
+  }
+
   soup = std::move(new_soup);
   return true;
 }
-- 
2.43.0


From 13a40537b03c7198178134c4ba3ed7cf03d13c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:26 +0000
Subject: [PATCH 14/16] fix: rebuild the search tree of a triangle soup after a
 face is added

---
 include/kigumi/Triangle_soup.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kigumi/Triangle_soup.h b/include/kigumi/Triangle_soup.h
index 697ea34..479edbc 100644
--- a/include/kigumi/Triangle_soup.h
+++ b/include/kigumi/Triangle_soup.h
@@ -84,6 +84,7 @@ class Triangle_soup {
   Face_index add_face(const Face& face) {
     faces_.push_back(face);
     face_data_.emplace_back();
+    aabb_tree_.reset();
     return Face_index{faces_.size() - 1};
   }
 
-- 
2.43.0


From 89e53dd7a3dad91be9f7acb3ec1f99351fdf6f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 15/16] fix: accept OBJ face lines that end right after an
 index

---
 include/kigumi/io/obj.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kigumi/io/obj.h b/include/kigumi/io/obj.h
index 41b6d6f..eaad762 100644
--- a/include/kigumi/io/obj.h
+++ b/include/kigumi/io/obj.h
@@ -79,7 +79,7 @@ bool read_obj(std::istream& is, Triangle_soup<K, FaceData>& soup) {
           return false;
         }
         // Ignore optional texture and normal indices.
-        auto c = iss.peek();
+        auto c = iss.eof() ? std::char_traits<char>::eof() : iss.peek();
         while (!std::isspace(c) && c != std::char_traits<char>::eof()) {
           iss.ignore();
           c = iss.peek();
-- 
2.43.0


From 3450e3413e2789cb803a2eafb402e60db99309e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:42 +0000
Subject: [PATCH 16/16] fix: reject coordinates that are not finite numbers

---
 include/kigumi/io/ascii.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kigumi/io/ascii.h b/include/kigumi/io/ascii.h
index 1482b3e..75774c5 100644
--- a/include/kigumi/io/ascii.h
+++ b/include/kigumi/io/ascii.h
@@ -4,6 +4,7 @@
 
 #include <array>
 #include <charconv>
+#include <cmath>
 #include <iostream>
 #include <limits>
 #include <string>
@@ -24,7 +25,7 @@ inline std::istream& operator>>(std::istream& in, Double& d) {
   const auto* first = s.front() == '+' ? s.data() + 1 : s.data();
   const auto* last = s.data() + s.size();
   auto [ptr, ec] = fast_float::from_chars(first, last, d.value);
-  if (ptr != last || ec != std::errc{}) {
+  if (ptr != last || ec != std::errc{} || !std::isfinite(d.value)) {
     in.setstate(std::ios::failbit);
   }
 
-- 
2.43.0

