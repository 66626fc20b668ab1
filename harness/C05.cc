// Box-tree queries against a scan of all boxes, for all sizes, several thread limits, boxes and rays.
#include "soups.h"
#include <CGAL/intersections.h>
using namespace kigumi; using soups::S;
int main() {
  return h::run("soups of 0-40 (sometimes up to 700) triangles on small integer grids (flat and coincident boxes included), trees built with 1-8 threads, queried with boxes, degenerate boxes and rays; non-trivial when a query meets some but not all boxes", 6000, 400000, [](long i, h::Rng& r) {
    int nf = i < 40 ? static_cast<int>(i) : r.coin(1, 8) ? r.below(700) : r.below(40);
    int span = r.pick(std::vector<int>{0, 1, 2, 5, 20});
    auto s = soups::random(r, 3 + r.below(40), nf, span, false, r.coin(1, 3));
    std::size_t th = 1 + r.below(8); h::note() = h::cat("threads ", th, "; ", soups::str(s));
    const AABB_tree<S::Leaf>* t; { soups::Threads c(th); t = &s.aabb_tree(); }
    auto check = [&](const auto& q, const std::string& what) {
      std::vector<const S::Leaf*> out; t->get_intersecting_leaves(std::back_inserter(out), q);
      std::vector<int> n(s.num_faces()); for (auto l : out) { H_CHECK(l->face_index().idx() < s.num_faces(), "leaf without a face"); ++n[l->face_index().idx()]; }
      std::size_t hits = 0;
      for (auto f : s.faces()) { bool m = CGAL::do_intersect(soups::box(s, f), q); hits += m; H_CHECK(n[f.idx()] == (m ? 1 : 0), "face ", f.idx(), " is returned ", n[f.idx()], " times, its box ", m ? "meets" : "does not meet", " the query ", what); }
      if (hits && hits < s.num_faces()) h::nontrivial();
    };
    for (int k = 0; k < 6; ++k) {
      double a[3], b[3]; for (int j = 0; j < 3; ++j) { a[j] = r.in(-1, span + 1); b[j] = r.coin(1, 3) ? a[j] : r.in(static_cast<int>(a[j]), span + 2); }
      CGAL::Bbox_3 q(a[0], a[1], a[2], b[0], b[1], b[2]); check(q, h::cat("box ", q));
      Point p(r.in(-2, span + 2), r.in(-2, span + 2), r.in(-2, span + 2)), o = p; while (o == p) o = Point(r.in(-2, span + 2), r.in(-2, span + 2), r.in(-2, span + 2));
      check(K::Ray_3(p, o), h::cat("ray ", p, " -> ", o));
    }
  });
}
