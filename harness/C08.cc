// Point merging against a linear scan with exact comparison.
#include "k.h"
#include <CGAL/Exact_rational.h>
#include <kigumi/Point_list.h>
using namespace kigumi;
static Point rnd(h::Rng& r) {
  auto c = [&]() -> FT { int n = r.in(-1, 1), d = r.in(1, 2);
    switch (r.below(6)) { case 0: return FT(n); case 1: return FT(n) / FT(d); case 2: return FT(n * 2) / FT(d * 2);
      case 3: return (FT(n) / FT(3) + FT(1)) - FT(1);                                  // equal value, different interval
      case 4: return FT(n) + FT(r.below(2)) / FT(1000000007) / FT(1000000009) / FT(998244353);   // distinct, same nearest double
      default: return FT(double(n) * 0.1); } };
  Point p(c(), c(), c()); if (r.coin()) p.exact(); return p;
}
int main() {
  return h::run("sequences of 1-60 insertions (copies and moves) of points with few distinct exact values (equal values reached by different computations, distinct values equal in double precision), uniqueness checking switched on and off; non-trivial when a point is merged", 6000, 400000, [](long, h::Rng& r) {
    Point_list<K> l; std::vector<Point> ref; bool on = false, merged = false; std::vector<std::size_t> seen; std::ostringstream desc; desc.precision(17);
    if (r.coin()) l.reserve(r.below(100));
    int n = r.in(1, 60), sw = r.below(60);
    bool first = r.coin(3, 4); if (first) { l.start_uniqueness_check(); on = true; }
    if (r.coin()) l.reserve(r.below(100));
    std::size_t from = 0;
    for (int k = 0; k < n; ++k) {
      if (on && k == sw) { l.stop_uniqueness_check(); on = false; desc << " off"; }
      Point p = rnd(r); Point q = p; desc << " " << p; h::note() = desc.str();
      std::size_t id = r.coin() ? l.insert(p) : l.insert(Point(q));
      auto ep = Point(p); ep.exact();
      std::size_t want = ref.size();
      if (on) for (std::size_t i = from; i < ref.size(); ++i) if (ref[i].exact() == ep.exact()) { want = i; merged = true; break; }
      H_CHECK(id == want, "insertion ", k, " returns index ", id, ", expected ", want, on ? " (merging)" : " (not merging)");
      if (want == ref.size()) ref.push_back(p);
      H_CHECK(l.size() == ref.size(), "size ", l.size(), " after insertion ", k, ", expected ", ref.size());
      for (std::size_t i = 0; i < ref.size(); ++i) H_CHECK(l.at(i).exact() == ref[i].exact(), "stored point ", i, " changed");
    }
    std::size_t i = 0; for (auto& p : l) H_CHECK(p.exact() == ref[i++].exact(), "iteration"); H_CHECK(i == ref.size(), "iteration length");
    auto pts = l.take_points(); H_CHECK(pts.size() == ref.size(), "points taken"); for (i = 0; i < pts.size(); ++i) H_CHECK(pts[i].exact() == ref[i].exact(), "point taken ", i);
    if (merged) h::nontrivial();
  });
}
