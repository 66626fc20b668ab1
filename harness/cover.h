// Exact checks that triangles cover a face.
#pragma once
#include "tri.h"
namespace cover {
using tri::P; using tri::T; using tri::Q;
inline P normal(const T& t) { return tri::cross(tri::sub(t[1], t[0]), tri::sub(t[2], t[0])); }
inline bool overlap(const T& a, const T& b, const P& n) {   // coplanar, both positive with respect to n
  auto sep = [&](const T& s, const T& t) { for (int i = 0; i < 3; ++i) { bool out = true; for (auto& p : t) out &= tri::sg(tri::dot(n, tri::cross(tri::sub(s[(i + 1) % 3], s[i]), tri::sub(p, s[i])))) <= 0; if (out) return true; } return false; };
  return !sep(a, b) && !sep(b, a);
}
// pieces lie in t, have its orientation, do not overlap and have its area
inline void exact(const T& t, const std::vector<T>& pieces, const std::string& what) {
  P n = normal(t); Q area = 0;
  for (auto& p : pieces) {
    for (auto& v : p) H_CHECK(tri::feature(t, v), what, ": a piece has the corner ", tri::str(v), " outside the face");
    Q s = tri::dot(n, normal(p)); H_CHECK(s > 0, what, ": a piece is degenerate or reversed: ", tri::str(p[0]), tri::str(p[1]), tri::str(p[2])); area += s;
  }
  for (std::size_t i = 0; i < pieces.size(); ++i) for (std::size_t j = 0; j < i; ++j) H_CHECK(!overlap(pieces[i], pieces[j], n), what, ": two pieces overlap");
  H_CHECK(area == tri::dot(n, n), what, ": the ", pieces.size(), " pieces do not cover the face");
}
template <class S> T of(const S& s, kigumi::Face_index f) { auto& x = s.face(f); return {tri::of(s.point(x[0])), tri::of(s.point(x[1])), tri::of(s.point(x[2]))}; }
// boundary segments of the convex polygon (or the segment) spanned by the extreme points
inline std::vector<std::pair<P, P>> edges(const std::vector<tri::Hit>& h) {
  std::vector<std::pair<P, P>> e; if (h.size() == 2) e.push_back({h[0].p, h[1].p}); if (h.size() < 3) return e;
  P n = tri::cross(tri::sub(h[1].p, h[0].p), tri::sub(h[2].p, h[0].p));
  for (std::size_t i = 0; i < h.size(); ++i) for (std::size_t j = 0; j < i; ++j) { int s = 0; bool ok = true; for (std::size_t k = 0; k < h.size(); ++k) if (k != i && k != j) { int g = tri::sg(tri::dot(n, tri::cross(tri::sub(h[i].p, h[j].p), tri::sub(h[k].p, h[j].p)))); if (s && g != s) ok = false; s = g; } if (ok) e.push_back({h[j].p, h[i].p}); }
  return e;
}
}  // namespace cover
