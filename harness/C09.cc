// Symbolic intersection points: one consistent index per feature pair, lying on both features.
#include "k.h"
#include <kigumi/Intersection_point_inserter.h>
using namespace kigumi; using TR = Triangle_region;
static const TR LV[3] = {TR::LEFT_VERTEX_0, TR::LEFT_VERTEX_1, TR::LEFT_VERTEX_2}, RV[3] = {TR::RIGHT_VERTEX_0, TR::RIGHT_VERTEX_1, TR::RIGHT_VERTEX_2};
static const TR LE[3] = {TR::LEFT_EDGE_01, TR::LEFT_EDGE_12, TR::LEFT_EDGE_20}, RE[3] = {TR::RIGHT_EDGE_01, TR::RIGHT_EDGE_12, TR::RIGHT_EDGE_20};
int main() {
  return h::run("sequences of 1-150 symbolic intersections over 7 points (a triangle pair, in every rotation and orientation and with left and right exchanged), repeated in different presentations; non-trivial when one feature pair is met twice in different presentations", 6000, 400000, [](long, h::Rng& r) {
    Point_list<K> l; std::vector<Point> pts;
    bool plane = r.coin();  // all points in one plane: edge/edge intersections exist; otherwise plane/line
    bool rat = r.coin(1, 3);
    for (int i = 0; i < 7; ++i) { FT z = plane ? FT(0) : FT(r.in(-6, 6)); FT x = r.in(-6, 6), y = r.in(-6, 6); if (rat) { x /= 3; y /= 7; } pts.push_back(Point(x, y, z)); }
    if (r.coin(1, 2)) { l.start_uniqueness_check(); }
    std::vector<std::size_t> id; for (auto& p : pts) id.push_back(l.insert(p));
    std::size_t base = l.size(); Intersection_point_inserter<K> ins(l);
    std::map<std::pair<std::set<std::size_t>, std::set<std::size_t>>, std::size_t> known; bool again = false; std::ostringstream o;
    for (auto& p : pts) o << " (" << p << ")";
    int n = r.in(1, 150);
    for (int k = 0; k < n; ++k) {
      std::size_t t[6]; do for (auto& x : t) x = id[r.below(7)]; while (t[0] == t[1] || t[1] == t[2] || t[0] == t[2] || t[3] == t[4] || t[4] == t[5] || t[3] == t[5]);
      int mode = r.below(4); TR lr, rr; std::set<std::size_t> lf, rf; std::size_t want = std::size_t(-1); int e = r.below(3), f = r.below(3);
      auto P = [&](std::size_t i) -> const Point& { return l.at(i); };
      if (mode == 0) {   // a vertex is involved
        bool lv = r.coin(); int v = r.below(3); static const TR LA[7] = {LV[0], LV[1], LV[2], LE[0], LE[1], LE[2], TR::LEFT_FACE}, RA[7] = {RV[0], RV[1], RV[2], RE[0], RE[1], RE[2], TR::RIGHT_FACE};
        if (lv) { lr = LV[v]; rr = RA[r.below(7)]; want = t[v]; } else { lr = LA[3 + r.below(4)]; rr = RV[v]; want = t[3 + v]; }
      } else if (mode == 1) {
        lr = LE[e]; rr = RE[f]; auto a = t[e], b = t[(e + 1) % 3], p = t[3 + f], q = t[3 + (f + 1) % 3]; lf = {a, b}; rf = {p, q};
        if (!CGAL::coplanar(P(a), P(b), P(p), P(q)) || CGAL::cross_product(P(b) - P(a), P(q) - P(p)) == CGAL::NULL_VECTOR) continue;
      } else if (mode == 2) {
        lr = TR::LEFT_FACE; rr = RE[f]; auto p = t[3 + f], q = t[3 + (f + 1) % 3]; lf = {t[0], t[1], t[2]}; rf = {p, q};
        if (CGAL::collinear(P(t[0]), P(t[1]), P(t[2])) || CGAL::cross_product(P(t[1]) - P(t[0]), P(t[2]) - P(t[0])) * (P(q) - P(p)) == 0) continue;
      } else {
        lr = LE[e]; rr = TR::RIGHT_FACE; auto p = t[e], q = t[(e + 1) % 3]; lf = {p, q}; rf = {t[3], t[4], t[5]};
        if (CGAL::collinear(P(t[3]), P(t[4]), P(t[5])) || CGAL::cross_product(P(t[4]) - P(t[3]), P(t[5]) - P(t[3])) * (P(q) - P(p)) == 0) continue;
      }
      o << " | " << int(lr) << "/" << int(rr) << " of " << t[0] << "," << t[1] << "," << t[2] << " " << t[3] << "," << t[4] << "," << t[5]; h::note() = o.str();
      { bool share = false; for (auto x : lf) share |= rf.count(x) > 0; if (share) continue; }   // features with a common corner meet in that corner, which is a vertex
      auto before = l.size();
      auto got = ins.insert(lr, t[0], t[1], t[2], rr, t[3], t[4], t[5]);
      if (want != std::size_t(-1)) { H_CHECK(got == want, "a vertex gets index ", got, ", expected ", want); H_CHECK(l.size() == before, "a vertex was inserted again"); continue; }
      H_CHECK(got < l.size(), "index out of range");
      auto key = lf < rf ? std::make_pair(lf, rf) : std::make_pair(rf, lf);
      auto [it, fresh] = known.emplace(key, got);
      if (!fresh) { H_CHECK(it->second == got, "the same feature pair gets index ", got, ", before it was ", it->second); H_CHECK(l.size() == before, "a known feature pair stored a new point"); again = true; }
      auto on = [&](const std::set<std::size_t>& s) { std::vector<std::size_t> v(s.begin(), s.end()); const Point& x = l.at(got); return v.size() == 2 ? CGAL::collinear(P(v[0]), P(v[1]), x) : CGAL::coplanar(P(v[0]), P(v[1]), P(v[2]), x); };
      H_CHECK(on(lf) && on(rf), "the stored point does not lie on both features");
      if (fresh) { bool eq = false; for (std::size_t i = 0; i < before; ++i) if (i == got) eq = true; H_CHECK(eq || got == before, "a new point is not the last stored one"); }
    }
    for (std::size_t i = 0; i < base; ++i) { bool f = false; for (auto& p : pts) if (p == l.at(i)) f = true; H_CHECK(f, "stored vertex ", i, " changed"); }
    if (again) h::nontrivial();
  });
}
