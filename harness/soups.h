// Random triangle soups with small integer coordinates (many coincidences and touching boxes).
#pragma once
#include "k.h"
#include <kigumi/Triangle_soup.h>
#include <kigumi/threading.h>
namespace soups {
using S = kigumi::Triangle_soup<K, FD>;
inline S random(h::Rng& r, int nv, int nf, int span, bool distinct = true, bool exact = false) {
  S s;
  for (int i = 0; i < nv; ++i) {
    if (exact && r.coin()) s.add_vertex(Point(FT(r.in(0, span * 3)) / FT(3), FT(r.in(0, span * 7)) / FT(7), FT(r.in(0, span))));
    else s.add_vertex(Point(r.in(0, span), r.in(0, span), r.in(0, span)));
  }
  for (int i = 0; i < nf; ++i) {
    int a = r.below(nv), b = r.below(nv), c = r.below(nv);
    if (distinct && nv >= 3) while (a == b || b == c || a == c) { a = r.below(nv); b = r.below(nv); c = r.below(nv); }
    auto f = s.add_face(face(a, b, c)); s.data(f).i = i * 7 + 1;
  }
  return s;
}
inline CGAL::Bbox_3 box(const S& s, kigumi::Face_index f) {
  auto& t = s.face(f); return s.point(t[0]).approx().bbox() + s.point(t[1]).approx().bbox() + s.point(t[2]).approx().bbox();
}
inline std::string str(const S& s) {
  std::ostringstream o; o << s.num_vertices() << " vertices:";
  for (auto v : s.vertices()) { if (v.idx() > 30) { o << " ..."; break; } o << " (" << s.point(v) << ")"; }
  o << "; " << s.num_faces() << " faces:"; for (auto f : s.faces()) { if (f.idx() > 40) { o << " ..."; break; } auto& t = s.face(f); o << " " << t[0].idx() << "," << t[1].idx() << "," << t[2].idx(); }
  return o.str();
}
struct Threads {
  kigumi::Threading_context c;
  static kigumi::Threading_options opt(std::size_t n) { kigumi::Threading_options o; o.set_num_threads(n); return o; }
  explicit Threads(std::size_t n) : c(opt(n)) {}
};
}  // namespace soups
