// Random histories of soup operations against a plain value model; box queries after every few steps.
#include "soups.h"
#include <iterator>
using namespace kigumi; using soups::S;
namespace {
struct M { std::vector<std::array<int, 3>> p; std::vector<std::array<std::size_t, 3>> f; std::vector<int> d; };
using Leaf = S::Leaf;
std::set<std::size_t> query(const S& s, const CGAL::Bbox_3& q) {
  std::vector<const Leaf*> o; s.aabb_tree().get_intersecting_leaves(std::back_inserter(o), q);
  std::set<std::size_t> r; for (auto* l : o) H_CHECK(r.insert(l->face_index().idx()).second, "a query returns face ", l->face_index().idx(), " twice");
  return r;
}
void equal(const S& s, const M& m, const char* what) {
  H_CHECK(s.num_vertices() == m.p.size() && s.num_faces() == m.f.size() && s.num_faces() == m.d.size(), what, ": ", s.num_vertices(), " vertices, ", s.num_faces(), " faces instead of ", m.p.size(), ", ", m.f.size());
  std::size_t k = 0; for (auto v : s.vertices()) { H_CHECK(v.idx() == k, what, ": vertex range"); auto& q = m.p[k++]; H_CHECK(s.point(v) == Point(q[0], q[1], q[2]), what, ": vertex ", v.idx()); }
  H_CHECK(k == m.p.size(), what, ": vertex range");
  k = 0; for (auto f : s.faces()) { H_CHECK(f.idx() == k, what, ": face range"); for (int c = 0; c < 3; ++c) H_CHECK(s.face(f)[c].idx() == m.f[k][c], what, ": face ", k); H_CHECK(s.data(f).i == m.d[k], what, ": data of face ", k, " is ", s.data(f).i, " instead of ", m.d[k]);
    auto t = s.triangle(f); for (int c = 0; c < 3; ++c) H_CHECK(t[c] == s.point(s.face(f)[c]), what, ": triangle ", k); ++k; }
  H_CHECK(k == m.f.size(), what, ": face range");
}
template <class F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
}
int main() {
  return h::run("histories of 5-60 operations (add vertex, add face, set data, copy, copy-assign incl. self, move, move-assign, construct from lists, swap, query) over 4 soups, compared with a value model after each step; box queries against brute force; non-trivial when a soup was queried, then changed, then queried", 1500, 100000, [](long, h::Rng& r) {
    const int N = 3; std::vector<S> s(4); std::vector<M> m(4); std::vector<int> st(4, 0); int n = r.in(5, 60); bool nt = false;
    soups::Threads tc(1 + r.below(4));
    for (int step = 0; step < n; ++step) {
      int a = r.below(N), b = r.below(N), op = r.coin(2, 3) ? r.pick(std::vector<int>{0, 0, 2, 2, 2, 5, 11, 11, 11}) : r.below(12);
      h::note() += h::cat(op, ".", a, ".", b, " ");
      switch (op) {
        case 0: case 1: { std::array<int, 3> q{r.in(-9, 9), r.in(-9, 9), r.in(-9, 9)}; Point pt(q[0], q[1], q[2]); auto v = s[a].add_vertex(pt); H_CHECK(v.idx() == m[a].p.size(), "add_vertex returns ", v.idx()); m[a].p.push_back(q); break; }
        case 2: case 3: case 4: { if (m[a].p.empty()) break; std::array<std::size_t, 3> q; for (auto& x : q) x = r.below(static_cast<int>(m[a].p.size())); auto f = s[a].add_face(face(q[0], q[1], q[2])); H_CHECK(f.idx() == m[a].f.size(), "add_face returns ", f.idx()); H_CHECK(s[a].data(f).i == 0, "a new face does not have default data"); m[a].f.push_back(q); m[a].d.push_back(0); if (st[a] == 1) st[a] = 2; break; }
        case 5: if (!m[a].f.empty()) { int k = r.below(static_cast<int>(m[a].f.size())); s[a].data(Fi(k)).i = m[a].d[k] = r.in(1, 99); } break;
        case 6: { S c(s[a]); equal(c, m[a], "copy"); s[b] = std::move(c); m[b] = M(m[a]); st[b] = 0; break; }
        case 7: { auto& src = s[a]; s[b] = src; m[b] = M(m[a]); if (a != b) st[b] = st[b] ? 2 : 0; break; }
        case 8: if (a != b) { s[b] = std::move(s[a]); m[b] = m[a]; m[a] = {}; s[a] = S{}; st[b] = st[a]; st[a] = 0; } break;
        case 9: { S c(std::move(s[a])); equal(c, m[a], "move"); s[a] = S{}; M t = m[a]; m[a] = {}; st[a] = 0; s[b] = std::move(c); m[b] = t; break; }
        case 10: { std::vector<Point> p; for (auto& q : m[a].p) p.emplace_back(q[0], q[1], q[2]); std::vector<Face> f; for (auto& q : m[a].f) f.push_back(face(q[0], q[1], q[2])); std::vector<FD> d; for (int x : m[a].d) d.push_back({x}); M t = m[a]; s[b] = S(std::move(p), std::move(f), std::move(d)); m[b] = t; st[b] = 0; break; }
        default: {
          int lo[3], hi[3]; for (int c = 0; c < 3; ++c) { lo[c] = r.in(-10, 6); hi[c] = r.in(lo[c], 10); }
          CGAL::Bbox_3 q(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]); std::set<std::size_t> want;
          for (std::size_t f = 0; f < m[a].f.size(); ++f) { bool ok = true; for (int c = 0; c < 3; ++c) { int mn = 99, mx = -99; for (auto v : m[a].f[f]) { mn = std::min(mn, m[a].p[v][c]); mx = std::max(mx, m[a].p[v][c]); } ok &= mn <= hi[c] && mx >= lo[c]; } if (ok) want.insert(f); }
          if (st[a] == 2) nt = true; if (!m[a].f.empty()) st[a] = 1;
          auto got = query(s[a], q);
          H_CHECK(got == want, "a query on soup ", a, " with ", m[a].f.size(), " faces returns ", got.size(), " faces instead of ", want.size(), " or other ones");
        }
      }
      for (int k = 0; k < 4; ++k) equal(s[k], m[k], "after an operation");
      auto nv = m[a].p.size(), nf = m[a].f.size(); const S& c = s[a];
      for (std::size_t d : {std::size_t{0}, std::size_t{1}, ~std::size_t{0} - nv - nf}) { H_CHECK(throws([&] { c.point(V(nv + d)); }) && throws([&] { c.face(Fi(nf + d)); }) && throws([&] { c.data(Fi(nf + d)); }) && throws([&] { s[a].data(Fi(nf + d)); }) && throws([&] { c.triangle(Fi(nf + d)); }), "an index out of range is accepted"); }
    }
    if (nt) h::nontrivial();
  });
}
