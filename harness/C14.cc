// Symbolic triangle-triangle intersection against exact clipping.
#include "tri.h"
#include <kigumi/Face_face_intersection.h>
#include <kigumi/Point_list.h>
using namespace kigumi;
int main() {
  return h::run("pairs of non-degenerate triangles: on a tiny integer grid (touching, sharing corners or edges, coplanar), rational, or built from each other's points; every case with one shared and one fresh intersector and in three rotations/reflections/exchanges; non-trivial when the intersection is not empty", 12000, 1000000, [](long, h::Rng& r) {
    int mode = r.below(5), span = r.pick(std::vector<int>{1, 2, 3, 6});
    tri::T a, b; std::vector<tri::P> pts;
    auto rnd = [&]() -> tri::P { tri::P p{r.in(0, span), r.in(0, span), mode == 1 ? 0 : r.in(0, span)}; if (mode == 2) { p.x /= r.in(1, 3); p.y /= r.in(1, 3); p.z /= r.in(1, 3); } return p; };
    do for (auto& p : a) p = rnd(); while (tri::degenerate(a));
    auto onA = [&]() -> tri::P { int u = r.in(0, 2), v = r.in(0, 2), w = r.in(0, 2); if (u + v + w == 0) u = 1; if (r.coin(1, 4)) { u = r.in(-2, 4); v = r.in(-2, 4); w = 3 - u - v; } tri::Q s = u + v + w; auto c = [&](auto m) -> tri::Q { return (a[0].*m * u + a[1].*m * v + a[2].*m * w) / s; }; return {c(&tri::P::x), c(&tri::P::y), c(&tri::P::z)}; };
    do for (auto& p : b) p = mode == 3 || (mode == 4 && r.coin()) ? onA() : r.coin(1, 8) ? a[r.below(3)] : rnd(); while (tri::degenerate(b));
    if (mode == 1 && r.coin()) { for (auto* t : {&a, &b}) for (auto& p : *t) { p.z = p.x + 2 * p.y; std::swap(p.x, p.z); } }   // a slanted common plane
    Point_list<K> l; l.start_uniqueness_check(); std::array<std::size_t, 6> id;
    static std::vector<Point> dummy; int pad = r.below(3); for (int k = 0; k < pad; ++k) l.insert(Point(100 + k, 0, 0));
    auto ins = [&](const tri::P& p) { return l.insert(Point(FT(p.x), FT(p.y), FT(p.z))); };
    if (r.coin()) { for (int k = 5; k >= 0; --k) id[k] = ins(k < 3 ? a[k] : b[k - 3]); } else for (int k = 0; k < 6; ++k) id[k] = ins(k < 3 ? a[k] : b[k - 3]);
    h::note() = "A"; for (auto& p : a) h::note() += " " + tri::str(p); h::note() += "  B"; for (auto& p : b) h::note() += " " + tri::str(p);
    auto want = tri::meet(a, b);
    Face_face_intersection<K> old(l);
    for (int rep = 0; rep < 3; ++rep) {
      int pa[3] = {0, 1, 2}, pb[3] = {0, 1, 2}; bool sw = false;
      if (rep) { for (auto p : {pa, pb}) { std::rotate(p, p + r.below(3), p + 3); if (r.coin()) std::swap(p[0], p[1]); } sw = r.coin(); }
      auto call = [&](const Face_face_intersection<K>& f) { auto x = sw ? f(id[3 + pb[0]], id[3 + pb[1]], id[3 + pb[2]], id[pa[0]], id[pa[1]], id[pa[2]]) : f(id[pa[0]], id[pa[1]], id[pa[2]], id[3 + pb[0]], id[3 + pb[1]], id[3 + pb[2]]); return std::vector<Triangle_region>(x.begin(), x.end()); };
      auto got = call(old); auto fresh = call(Face_face_intersection<K>(l));
      H_CHECK(got == fresh, "the result depends on triangles processed earlier");
      std::string pres = h::cat(" (A as ", pa[0], pa[1], pa[2], ", B as ", pb[0], pb[1], pb[2], sw ? ", exchanged)" : ")");
      std::map<int, tri::P> w; for (auto& x : want) { int ma = 0, mb = 0; for (int k = 0; k < 3; ++k) { if (x.a >> pa[k] & 1) ma |= 1 << k; if (x.b >> pb[k] & 1) mb |= 1 << k; } w[sw ? mb | ma << 3 : ma | mb << 3] = x.p; }
      std::map<int, int> n; for (auto g : got) ++n[static_cast<int>(g)];
      for (auto& [k, p] : w) H_CHECK(n[k] == 1, "the vertex ", tri::str(p), " with features ", k, " is listed ", n[k], " times", pres);
      for (auto& [k, c] : n) H_CHECK(w.count(k), "features ", k, " are listed but are not a vertex of the intersection", pres);
      if (got.size() >= 4) { // order along the boundary: all other points strictly on one side of every listed edge
        tri::P nn = tri::cross(tri::sub(a[1], a[0]), tri::sub(a[2], a[0])); std::vector<tri::P> q; for (auto g : got) q.push_back(w[static_cast<int>(g)]);
        for (std::size_t i = 0; i < q.size(); ++i) { int s = 0; for (std::size_t j = 0; j < q.size(); ++j) { if (j == i || j == (i + 1) % q.size()) continue; int t = tri::sg(tri::dot(nn, tri::cross(tri::sub(q[(i + 1) % q.size()], q[i]), tri::sub(q[j], q[i])))); H_CHECK(t != 0 && (s == 0 || s == t), "the listed order does not follow the boundary of the intersection", pres); s = t; } }
      }
    }
    if (!want.empty()) h::nontrivial(); h::count(want.empty() ? "empty" : want.size() == 1 ? "point" : want.size() == 2 ? "segment" : "polygon");
  });
}
