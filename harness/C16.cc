// Defect reports against brute-force definitions.
#include "tri.h"
#include "soups.h"
#include <kigumi/Find_defects.h>
using namespace kigumi; using soups::S;
// the same call at different stack depths: state kept from an earlier call must not be used
static Find_defects<K, FD> at_depth(int n, const S& s) { volatile char pad[200]; pad[0] = static_cast<char>(n); if (n) { auto x = at_depth(n - 1, s); pad[1] = pad[0]; return x; } return Find_defects<K, FD>(s); }
int main() {
  return h::run("soups of 0-14 triangles over 3-9 grid points with duplicate points, repeated corners, flat faces, repeated and crossing faces, fans and closed fragments, 1-8 threads; non-trivial when overlapping faces exist", 4000, 300000, [](long i, h::Rng& r) {
    int span = r.in(1, 3), nv = r.in(3, 9), nf = i < 5 ? static_cast<int>(i) : r.below(15); S s;
    if (r.coin(1, 3)) { // fragments of a tetrahedron or of a fan, with some damage
      int base[6][3] = {{0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2}, {2, 2, 1}, {-1, -1, -1}}; for (auto& b : base) s.add_vertex(Point(b[0], b[1], b[2])); nv = 6;
      std::vector<std::array<int, 3>> t{{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}, {1, 4, 2}, {1, 3, 4}, {2, 4, 3}, {0, 5, 1}, {0, 2, 5}, {1, 5, 2}}; r.shuffle(t); int n = r.in(0, 10);
      for (int k = 0; k < n; ++k) { if (r.coin(1, 6)) std::swap(t[k][0], t[k][1]); s.add_face(face(t[k][0], t[k][1], t[k][2])); }
      if (r.coin(1, 3)) { auto d = s.add_vertex(s.point(V(r.below(6)))); if (r.coin()) s.add_face(face(d.idx(), r.below(3), 3 + r.below(3))); }
    } else { s = soups::random(r, nv, nf, span, r.coin(3, 4), r.coin(1, 4)); }
    std::size_t th = 1 + r.below(8); h::note() = h::cat("threads ", th, "; ", soups::str(s)); soups::Threads tc(th);
    auto D = at_depth(r.below(40), s); const auto& m = D.triangle_soup();
    // merging
    std::vector<tri::P> pts; std::vector<std::size_t> map; for (auto v : s.vertices()) { auto p = tri::of(s.point(v)); auto it = std::find(pts.begin(), pts.end(), p); map.push_back(it - pts.begin()); if (it == pts.end()) pts.push_back(p); }
    H_CHECK(m.num_vertices() == pts.size() && m.num_faces() == s.num_faces(), "merged mesh has ", m.num_vertices(), " vertices and ", m.num_faces(), " faces");
    for (std::size_t k = 0; k < pts.size(); ++k) H_CHECK(tri::of(m.point(V(k))) == pts[k], "merged vertex ", k);
    std::vector<std::array<std::size_t, 3>> f; for (auto x : s.faces()) { auto& t = s.face(x); f.push_back({map[t[0].idx()], map[t[1].idx()], map[t[2].idx()]}); for (int c = 0; c < 3; ++c) H_CHECK(m.face(x)[c].idx() == f.back()[c], "merged face ", x.idx()); }
    auto cmp = [&](auto got, const std::set<std::vector<std::size_t>>& want, const char* what) { std::map<std::vector<std::size_t>, int> n; for (auto& g : got) ++n[g]; for (auto& [g, c] : n) { std::string q; for (auto x : g) q += h::cat(" ", x); H_CHECK(want.count(g), what, q, " is reported but is none"); H_CHECK(c == 1, what, q, " is reported ", c, " times"); } for (auto& w : want) { std::string q; for (auto x : w) q += h::cat(" ", x); H_CHECK(n.count(w), what, q, " is not reported"); } };
    auto vs = [](const auto& v) { std::vector<std::vector<std::size_t>> o; for (auto x : v) o.push_back({x.idx()}); return o; };
    auto es = [](const auto& v) { std::vector<std::vector<std::size_t>> o; for (auto x : v) o.push_back({std::min(x[0].idx(), x[1].idx()), std::max(x[0].idx(), x[1].idx())}); return o; };
    std::set<std::vector<std::size_t>> iso, nmv, bd, inc, nme, triv, flat; std::size_t nF = f.size(), nV = pts.size();
    auto trivial = [&](std::size_t k) { return f[k][0] == f[k][1] || f[k][1] == f[k][2] || f[k][0] == f[k][2]; };
    std::vector<tri::T> T; for (auto& x : f) T.push_back({pts[x[0]], pts[x[1]], pts[x[2]]});
    for (std::size_t k = 0; k < nF; ++k) { if (trivial(k)) triv.insert({k}); else if (tri::degenerate(T[k])) flat.insert({k}); }
    std::map<std::pair<std::size_t, std::size_t>, int> he; for (std::size_t k = 0; k < nF; ++k) if (!trivial(k)) for (int c = 0; c < 3; ++c) ++he[{f[k][c], f[k][(c + 1) % 3]}];
    for (std::size_t a = 0; a < nV; ++a) for (std::size_t b = a + 1; b < nV; ++b) { int x = he.count({a, b}) ? he[{a, b}] : 0, y = he.count({b, a}) ? he[{b, a}] : 0; if (x + y == 1) bd.insert({a, b}); if (x + y == 2 && x != y) inc.insert({a, b}); if (x + y > 2) nme.insert({a, b}); }
    for (std::size_t v = 0; v < nV; ++v) {
      bool used = false; std::vector<std::pair<std::size_t, std::size_t>> link; for (std::size_t k = 0; k < nF; ++k) for (int c = 0; c < 3; ++c) if (f[k][c] == v) { used = true; if (!trivial(k)) link.push_back({f[k][(c + 1) % 3], f[k][(c + 2) % 3]}); }
      if (!used) iso.insert({v});
      if (link.empty()) continue;
      std::map<std::size_t, std::set<std::size_t>> g; bool multi = false; for (auto [a, b] : link) { multi |= !g[a].insert(b).second; g[b].insert(a); } bool deg = false; for (auto& [a, n] : g) deg |= n.size() > 2;
      std::set<std::size_t> seen{link[0].first}; std::vector<std::size_t> st{link[0].first}; while (!st.empty()) { auto a = st.back(); st.pop_back(); for (auto b : g[a]) if (seen.insert(b).second) st.push_back(b); }
      if (multi || deg || seen.size() != g.size()) nmv.insert({v});
    }
    cmp(vs(D.isolated_vertices()), iso, "isolated vertex"); cmp(vs(D.non_manifold_vertices()), nmv, "non-manifold vertex");
    cmp(es(D.boundary_edges()), bd, "boundary edge"); cmp(es(D.inconsistent_edges()), inc, "inconsistent edge"); cmp(es(D.non_manifold_edges()), nme, "non-manifold edge");
    cmp(vs(D.trivial_degenerate_faces()), triv, "face with repeated vertices"); cmp(vs(D.non_trivial_degenerate_faces()), flat, "zero-area face");
    std::set<std::size_t> ov; for (auto x : D.overlapping_faces()) H_CHECK(ov.insert(x.idx()).second, "overlapping face ", x.idx(), " is reported twice");
    std::set<std::size_t> may; 
    for (std::size_t a = 0; a < nF; ++a) for (std::size_t b = a + 1; b < nF; ++b) {
      if (triv.count({a}) || triv.count({b}) || flat.count({a}) || flat.count({b})) continue;
      auto hit = tri::meet(T[a], T[b]); std::set<tri::P> shared; for (auto x : f[a]) for (auto y : f[b]) if (x == y) shared.insert(pts[x]);
      bool bad = false; for (auto& x : hit) if (!shared.count(x.p)) bad = true; if (shared.size() == 3) bad = true;
      if (bad) { may.insert(a); may.insert(b); H_CHECK(ov.count(a) || ov.count(b), "faces ", a, " and ", b, " overlap and neither is reported"); }
    }
    for (auto x : ov) H_CHECK(may.count(x), "face ", x, " is reported as overlapping but overlaps no face");
    if (!may.empty()) h::nontrivial();
  });
}
