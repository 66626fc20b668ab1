// Closed test solids (unions of grid cells under an integer affine map) with exact membership.
#pragma once
#include "k.h"
#include <CGAL/Origin.h>
#include <kigumi/Region.h>
#include <kigumi/Triangle_soup.h>
namespace vox {
constexpr int N = 3;
struct Affine {
  int m[3][3] = {{2, 0, 0}, {0, 2, 0}, {0, 0, 2}}; int t[3] = {0, 0, 0};
  std::array<FT, 3> map(int x, int y, int z) const {  // grid corner (even scale so that cell centres are x+1/2)
    std::array<FT, 3> r; for (int i = 0; i < 3; ++i) r[i] = FT(m[i][0] * x + m[i][1] * y + m[i][2] * z + t[i]); return r;
  }
  Point pt(int x, int y, int z) const { auto r = map(x, y, z); return Point(r[0], r[1], r[2]); }
  Point centre(int x, int y, int z) const {
    std::array<FT, 3> r; for (int i = 0; i < 3; ++i) r[i] = FT(m[i][0] * (2 * x + 1) + m[i][1] * (2 * y + 1) + m[i][2] * (2 * z + 1) + 2 * t[i]) / FT(2); return Point(r[0], r[1], r[2]);
  }
  int det() const { return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]); }
};
inline Affine random_affine(h::Rng& r, bool plain) {
  Affine a; if (plain) return a;
  do { for (auto& row : a.m) for (auto& x : row) x = r.in(-3, 3); } while (std::abs(a.det()) < 1 || std::abs(a.det()) > 40);
  for (auto& x : a.t) x = r.in(-5, 5);
  return a;
}
struct Solid {
  int kind = 2;               // 0 empty, 1 full, 2 boundary
  bool comp = false;          // complement of the cells
  std::array<bool, N * N * N> c{};
  bool cell(int x, int y, int z) const {
    if (kind != 2) return kind == 1;
    bool in = x >= 0 && y >= 0 && z >= 0 && x < N && y < N && z < N && c[(x * N + y) * N + z];
    return in != comp;
  }
  std::string str() const {
    if (kind == 0) return "empty"; if (kind == 1) return "full";
    std::string s = comp ? "complement of cells" : "cells"; for (int i = 0; i < N * N * N; ++i) if (c[i]) s += h::cat(" ", i / 9, i / 3 % 3, i % 3); return s;
  }
};
inline bool edge_manifold(const Solid& s) {
  for (int ax = 0; ax < 3; ++ax)
    for (int i = -1; i < N; ++i) for (int j = -1; j < N; ++j) for (int k = 0; k < N; ++k) {
      auto g = [&](int a, int b) { int p[3]; p[ax] = k; p[(ax + 1) % 3] = i + a; p[(ax + 2) % 3] = j + b; return s.cell(p[0], p[1], p[2]); };
      if (g(0, 0) == g(1, 1) && g(0, 1) == g(1, 0) && g(0, 0) != g(0, 1)) return false;
    }
  for (int x = 0; x <= N; ++x) for (int y = 0; y <= N; ++y) for (int z = 0; z <= N; ++z) {   // vertices: both sides connected
    bool v[8]; for (int q = 0; q < 8; ++q) v[q] = s.cell(x - 1 + (q & 1), y - 1 + (q >> 1 & 1), z - 1 + (q >> 2));
    for (bool side : {false, true}) {
      int seen = 0, start = -1; for (int q = 0; q < 8; ++q) if (v[q] == side) start = q;
      if (start < 0) continue;
      std::vector<int> st{start}; seen = 1 << start;
      while (!st.empty()) { int q = st.back(); st.pop_back(); for (int b = 0; b < 3; ++b) { int w = q ^ (1 << b); if (v[w] == side && !(seen >> w & 1)) { seen |= 1 << w; st.push_back(w); } } }
      for (int q = 0; q < 8; ++q) if (v[q] == side && !(seen >> q & 1)) return false;
    }
  }
  return true;
}
inline Solid random_solid(h::Rng& r, bool trivial_ok) {
  for (;;) {
    Solid s;
    if (trivial_ok && r.coin(1, 3)) { s.kind = r.below(2); return s; }
    s.comp = r.coin(1, 4);
    int mode = r.below(4);
    if (mode < 3) {   // one or two boxes
      for (int b = 0; b < (mode == 2 ? 2 : 1); ++b) {
        int lo[3], hi[3]; for (int i = 0; i < 3; ++i) { lo[i] = r.below(N); hi[i] = r.in(lo[i], N - 1); }
        for (int x = lo[0]; x <= hi[0]; ++x) for (int y = lo[1]; y <= hi[1]; ++y) for (int z = lo[2]; z <= hi[2]; ++z) s.c[(x * N + y) * N + z] = true;
      }
    } else for (auto& x : s.c) x = r.coin(1, 2);
    bool any = false; for (bool x : s.c) any |= x;
    if (any && edge_manifold(s)) return s;
  }
}
using Soup = kigumi::Triangle_soup<K, FD>;
using Region = kigumi::Region<K, FD>;
inline Soup boundary(const Solid& s, const Affine& af, h::Rng& r, int data0) {
  std::map<std::array<int, 3>, std::size_t> id; std::vector<Point> pts; std::vector<std::array<std::size_t, 3>> tri;
  auto vx = [&](std::array<int, 3> p) { auto [it, n] = id.emplace(p, pts.size()); if (n) pts.push_back(af.pt(p[0], p[1], p[2])); return it->second; };
  bool flip = af.det() < 0;
  for (int x = -1; x <= N; ++x) for (int y = -1; y <= N; ++y) for (int z = -1; z <= N; ++z)
    for (int ax = 0; ax < 3; ++ax) {
      int q[3] = {x, y, z}; ++q[ax];
      bool a = s.cell(x, y, z), b = s.cell(q[0], q[1], q[2]);
      if (a == b) continue;
      std::array<int, 3> o{q[0], q[1], q[2]}, u = o, v = o, w = o; ++u[(ax + 1) % 3]; ++w[(ax + 2) % 3]; ++v[(ax + 1) % 3]; ++v[(ax + 2) % 3];
      std::size_t i[4] = {vx(o), vx(u), vx(v), vx(w)};
      int d = r.below(2); std::array<std::size_t, 3> t1{i[d], i[d + 1], i[d + 2]}, t2{i[d], i[d + 2], i[(d + 3) % 4]};
      if (a == flip) { std::swap(t1[1], t1[2]); std::swap(t2[1], t2[2]); }   // normal points out of the solid
      tri.push_back(t1); tri.push_back(t2);
    }
  r.shuffle(tri);
  Soup out; for (auto& p : pts) out.add_vertex(p);
  int n = data0; for (auto& t : tri) { int k = r.below(3); auto f = out.add_face(face(t[k], t[(k + 1) % 3], t[(k + 2) % 3])); out.data(f).i = n++; }
  return out;
}
inline Region region(const Solid& s, const Affine& af, h::Rng& r, int data0) {
  if (s.kind == 0) return Region::empty();
  if (s.kind == 1) return Region::full();
  return Region{boundary(s, af, r, data0)};
}
// signed number of crossings of a generic ray from p to infinity; 1 = inside a bounded solid
template <class S> int winding(const S& s, const Point& p, h::Rng& r) {
  for (;;) {
    Point q(FT(r.in(-1000, 1000)) * 50 + 7, FT(r.in(-1000, 1000)) * 50 + 3, FT(r.coin() ? 100003 : -100003));
    int w = 0; bool bad = false;
    for (auto fi : s.faces()) {
      auto f = s.face(fi); const auto &a = s.point(f[0]), &b = s.point(f[1]), &c = s.point(f[2]);
      auto op = CGAL::orientation(a, b, c, p), oq = CGAL::orientation(a, b, c, q);
      if (op == oq && op != CGAL::COPLANAR) continue;
      auto x = CGAL::orientation(p, q, a, b), y = CGAL::orientation(p, q, b, c), z = CGAL::orientation(p, q, c, a);
      if (x == CGAL::COPLANAR || y == CGAL::COPLANAR || z == CGAL::COPLANAR) { if (x != CGAL::COPLANAR && x == CGAL::opposite(y)) continue; if (y != CGAL::COPLANAR && y == CGAL::opposite(z)) continue; if (x != CGAL::COPLANAR && x == CGAL::opposite(z)) continue; bad = true; break; }
      if (x != y || y != z) continue;
      if (op == CGAL::COPLANAR || oq == CGAL::COPLANAR) { bad = true; break; }
      // orientation(a,b,c,p) positive: p sees a,b,c counterclockwise?  normal side is where orientation is negative in CGAL's convention
      w += oq == CGAL::POSITIVE ? 1 : -1;
    }
    if (!bad) return w;
  }
}
}  // namespace vox
