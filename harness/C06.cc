// Candidate pairs against all pairs with overlapping boxes.
#include "soups.h"
#include <CGAL/intersections.h>
#include <kigumi/Find_possibly_intersecting_faces.h>
using namespace kigumi; using soups::S;
int main() {
  return h::run("pairs of soups of 0-60 triangles (either larger, or equal), random unknown/coincident marks, 1-8 threads; non-trivial when some but not all pairs are expected", 6000, 400000, [](long, h::Rng& r) {
    int span = r.pick(std::vector<int>{1, 3, 6});
    auto a = soups::random(r, 3 + r.below(30), r.coin(1, 5) ? r.below(3) : r.below(60), span), b = soups::random(r, 3 + r.below(30), r.coin(1, 5) ? r.below(3) : r.coin(1, 5) ? static_cast<int>(a.num_faces()) : r.below(60), span);
    std::size_t th = 1 + r.below(8); h::note() = h::cat("threads ", th, "; ", soups::str(a), " | ", soups::str(b));
    std::vector<Face_tag> ta(a.num_faces()), tb(b.num_faces());
    int den = r.in(1, 4); auto mark = [&](auto& v) { for (auto& t : v) if (r.coin(1, den + 1)) t = r.pick(std::vector<Face_tag>{Face_tag::COPLANAR, Face_tag::OPPOSITE}); };
    if (r.coin(2, 3)) { mark(ta); mark(tb); }
    std::vector<std::pair<Face_index, Face_index>> got; { soups::Threads c(th); got = Find_possibly_intersecting_faces<K, FD>{}(a, b, ta, tb); }
    std::map<std::pair<std::size_t, std::size_t>, int> n; for (auto [x, y] : got) ++n[{x.idx(), y.idx()}];
    std::size_t want = 0;
    for (auto x : a.faces()) for (auto y : b.faces()) {
      bool w = ta[x.idx()] == Face_tag::UNKNOWN && tb[y.idx()] == Face_tag::UNKNOWN && CGAL::do_overlap(soups::box(a, x), soups::box(b, y)); want += w;
      auto it = n.find({x.idx(), y.idx()}); int g = it == n.end() ? 0 : it->second;
      H_CHECK(g == (w ? 1 : 0), "pair (", x.idx(), ", ", y.idx(), ") is listed ", g, " times, expected ", w);
    }
    H_CHECK(got.size() == want, got.size(), " pairs listed, ", want, " expected");
    if (want && want < a.num_faces() * b.num_faces()) h::nontrivial();
  });
}
