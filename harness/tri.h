// Exact intersection of two triangles, computed by clipping candidates; independent of the code under test.
#pragma once
#include "k.h"
#include <CGAL/Exact_rational.h>
#include <kigumi/Triangle_region.h>
namespace tri {
using Q = CGAL::Exact_rational;
struct P { Q x, y, z; bool operator<(const P& o) const { return x != o.x ? x < o.x : y != o.y ? y < o.y : z < o.z; } bool operator==(const P& o) const { return x == o.x && y == o.y && z == o.z; } };
inline P sub(const P& a, const P& b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline P cross(const P& a, const P& b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline Q dot(const P& a, const P& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline bool zero(const P& a) { return a.x == 0 && a.y == 0 && a.z == 0; }
inline int sg(const Q& q) { return q > 0 ? 1 : q < 0 ? -1 : 0; }
using T = std::array<P, 3>;
inline bool degenerate(const T& t) { return zero(cross(sub(t[1], t[0]), sub(t[2], t[0]))); }
// feature of t whose relative interior contains p: bit mask of its corners, 0 if p is not on t
inline int feature(const T& t, const P& p) {
  P n = cross(sub(t[1], t[0]), sub(t[2], t[0]));
  if (dot(n, sub(p, t[0])) != 0) return 0;
  int s[3], m = 0;   // s[i]: barycentric sign of corner i
  for (int i = 0; i < 3; ++i) { s[i] = sg(dot(n, cross(sub(t[(i + 2) % 3], t[(i + 1) % 3]), sub(p, t[(i + 1) % 3])))); if (s[i] < 0) return 0; if (s[i] > 0) m |= 1 << i; }
  return m;
}
struct Hit { P p; int a, b; };
inline std::vector<Hit> meet(const T& a, const T& b) {
  std::set<P> c;
  auto add = [&](const P& p) { if (feature(a, p) && feature(b, p)) c.insert(p); };
  for (auto& p : a) add(p);
  for (auto& p : b) add(p);
  auto edges = [&](const T& s, const T& t) { P n = cross(sub(t[1], t[0]), sub(t[2], t[0]));
    for (int i = 0; i < 3; ++i) { const P &p = s[i], &q = s[(i + 1) % 3]; Q dp = dot(n, sub(p, t[0])), dq = dot(n, sub(q, t[0])); if (sg(dp) * sg(dq) < 0) { Q k = dp / (dp - dq); add({p.x + k * (q.x - p.x), p.y + k * (q.y - p.y), p.z + k * (q.z - p.z)}); } } };
  edges(a, b); edges(b, a);
  P n = cross(sub(a[1], a[0]), sub(a[2], a[0]));
  if (dot(n, sub(b[0], a[0])) == 0 && dot(n, sub(b[1], a[0])) == 0 && dot(n, sub(b[2], a[0])) == 0)
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
      P d = sub(a[(i + 1) % 3], a[i]), e = sub(b[(j + 1) % 3], b[j]); P w = cross(d, e); if (zero(w)) continue;
      Q k = dot(cross(sub(b[j], a[i]), e), w) / dot(w, w); add({a[i].x + k * d.x, a[i].y + k * d.y, a[i].z + k * d.z});
    }
  std::vector<Hit> out;
  for (auto& p : c) {   // keep only extreme points: not inside a segment between two others nor inside a triangle of others (all candidates are coplanar)
    bool inner = false; std::vector<P> o; for (auto& q : c) if (!(q == p)) o.push_back(q);
    for (std::size_t i = 0; i < o.size() && !inner; ++i) for (std::size_t j = i + 1; j < o.size() && !inner; ++j) {
      if (zero(cross(sub(p, o[i]), sub(p, o[j]))) && dot(sub(p, o[i]), sub(p, o[j])) < 0) inner = true;
      for (std::size_t k = j + 1; k < o.size() && !inner; ++k) { T t{o[i], o[j], o[k]}; if (!degenerate(t) && feature(t, p)) inner = true; }
    }
    if (!inner) out.push_back({p, feature(a, p), feature(b, p)});
  }
  return out;
}
inline int mask(const Hit& h) { return h.a | h.b << 3; }
inline P of(const Point& p) { return {p.exact().x(), p.exact().y(), p.exact().z()}; }
inline std::string str(const P& p) { return h::cat("(", p.x, " ", p.y, " ", p.z, ")"); }
}  // namespace tri
