// Refinement of two valid soups against exact intersections of all face pairs.
#include "cover.h"
#include "vox.h"
#include "soups.h"
#include <kigumi/Corefine.h>
using namespace kigumi; using soups::S; using tri::P; using tri::T;
static S valid(h::Rng& r, int nf, int span, bool flat, const S* other) {
  S s; std::vector<T> ts; std::map<P, std::size_t> id;
  auto pt = [&]() -> Point { if (other && other->num_vertices() && r.coin(1, 3)) return other->point(V(r.below(static_cast<int>(other->num_vertices())))); if (s.num_vertices() && r.coin(1, 3)) return s.point(V(r.below(static_cast<int>(s.num_vertices())))); return Point(r.in(0, span), r.in(0, span), flat && r.coin(3, 4) ? 0 : r.in(0, span)); };
  for (int tries = 0; tries < nf * 6 && static_cast<int>(ts.size()) < nf; ++tries) {
    Point p[3]; for (auto& x : p) x = pt();
    if (other && other->num_faces() && r.coin(1, 6)) { auto& f = other->face(Fi(r.below(static_cast<int>(other->num_faces())))); int o = r.coin() ? 1 : 2; for (int k = 0; k < 3; ++k) p[k] = other->point(f[(k * o) % 3]); }
    T t{tri::of(p[0]), tri::of(p[1]), tri::of(p[2])}; if (tri::degenerate(t)) continue;
    bool ok = true; for (auto& u : ts) { auto hit = tri::meet(t, u); for (auto& x : hit) { auto c = [&](const T& w) { return std::find(w.begin(), w.end(), x.p) != w.end(); }; if (!c(t) || !c(u)) ok = false; } if (hit.size() > 2) ok = false; if (!ok) break; }
    if (!ok) continue;
    std::size_t v[3]; for (int k = 0; k < 3; ++k) { auto it = id.find(t[k]); if (it == id.end() || r.coin(1, 8)) { v[k] = s.add_vertex(p[k]).idx(); id.emplace(t[k], v[k]); } else v[k] = it->second; }
    s.add_face(face(v[0], v[1], v[2])); ts.push_back(t);
  }
  return s;
}
int main() {
  return h::run("pairs of soups whose own faces meet only in common corners: random triangles with small integer corners (often shared, in common planes, or coincident between the soups) or grid-cell solids in two affine frames; 1-8 threads; non-trivial when some face is cut", 2500, 200000, [](long i, h::Rng& r) {
    S a, b; std::size_t th = 1 + r.below(8);
    if (i % 8 == 0) { auto fa = vox::random_affine(r, true), fb = r.coin() ? vox::random_affine(r, false) : fa; fb.t[0] += r.in(-2, 2); fb.t[1] += r.in(-1, 1); vox::Solid x, y; auto few = [&] { vox::Solid s; s.comp = r.coin(1, 4); s.c[r.below(27)] = true; if (r.coin()) s.c[r.below(27)] = true; return s; }; do x = few(); while (!vox::edge_manifold(x)); do y = few(); while (!vox::edge_manifold(y)); a = vox::boundary(x, fa, r, 0); b = vox::boundary(y, fb, r, 0); }
    else { int span = r.in(2, 6); bool flat = r.coin(); a = valid(r, r.in(1, 6), span, flat, nullptr); b = valid(r, r.in(1, 6), span, flat, &a); }
    h::note() = h::cat(th, " threads; first: ", soups::str(a), "; second: ", soups::str(b));
    soups::Threads tc(th); std::unique_ptr<Corefine<K, FD>> c; { Quiet q; c = std::make_unique<Corefine<K, FD>>(a, b); }
    struct Out { std::vector<Face> f; Face_tag tag; }; std::vector<Out> oa, ob;
    for (auto f : a.faces()) { Out o; auto [t, n] = c->get_left_faces(f, std::back_inserter(o.f)); o.tag = t; H_CHECK(n == o.f.size(), "piece count of face ", f.idx(), " of the first mesh"); oa.push_back(o); }
    for (auto f : b.faces()) { Out o; auto [t, n] = c->get_right_faces(f, std::back_inserter(o.f)); o.tag = t; H_CHECK(n == o.f.size(), "piece count of face ", f.idx(), " of the second mesh"); ob.push_back(o); }
    auto border = c->get_intersecting_edges(); auto pts = c->take_points(); std::vector<P> q; for (auto& p : pts) q.push_back(tri::of(p));
    std::map<P, std::size_t> used; auto use = [&](const Face& f) { for (auto v : f) { H_CHECK(v.idx() < q.size(), "a piece uses the unknown point ", v.idx()); auto [it, n] = used.emplace(q[v.idx()], v.idx()); H_CHECK(it->second == v.idx(), "two points of the pieces are both at ", tri::str(q[v.idx()])); } };
    for (auto& o : oa) for (auto& f : o.f) use(f);
    for (auto& o : ob) for (auto& f : o.f) use(f);
    std::vector<T> ta, tb; for (auto f : a.faces()) ta.push_back(cover::of(a, f)); for (auto f : b.faces()) tb.push_back(cover::of(b, f));
    std::vector<std::set<P>> ha(ta.size()), hb(tb.size()); std::set<std::pair<P, P>> want; bool cut = false;
    auto ord = [](P x, P y) { return y < x ? std::pair{y, x} : std::pair{x, y}; };
    auto edgeset = [&](const Out& o) { std::set<std::pair<P, P>> e; for (auto& f : o.f) for (int k = 0; k < 3; ++k) e.insert(ord(q[f[k].idx()], q[f[(k + 1) % 3].idx()])); return e; };
    for (std::size_t x = 0; x < ta.size(); ++x) for (std::size_t y = 0; y < tb.size(); ++y) {
      auto hit = tri::meet(ta[x], tb[y]); for (auto& k : hit) { ha[x].insert(k.p); hb[y].insert(k.p); }
      if (oa[x].tag != Face_tag::UNKNOWN || ob[y].tag != Face_tag::UNKNOWN) continue;
      auto ea = edgeset(oa[x]), eb = edgeset(ob[y]);
      for (auto& [u, v] : cover::edges(hit)) { auto e = ord(u, v); want.insert(e); H_CHECK(ea.count(e), "the intersection segment ", tri::str(u), "-", tri::str(v), " is no edge of the pieces of face ", x, " of the first mesh"); H_CHECK(eb.count(e), "the intersection segment ", tri::str(u), "-", tri::str(v), " is no edge of the pieces of face ", y, " of the second mesh"); }
      if (hit.size() > 2) {
        auto in = [&](const Out& o) { std::set<std::array<std::size_t, 3>> s; for (auto& f : o.f) { bool all = true; std::array<std::size_t, 3> k; for (int j = 0; j < 3; ++j) { k[j] = f[j].idx(); all &= std::any_of(hit.begin(), hit.end(), [&](auto& t) { return t.p == q[k[j]]; }); } std::sort(k.begin(), k.end()); if (all) s.insert(k); } return s; };
        auto pa = in(oa[x]), pb = in(ob[y]); H_CHECK(pa == pb && pa.size() == hit.size() - 2, "the overlap of face ", x, " of the first mesh and face ", y, " of the second is divided differently in the two meshes: ", pa.size(), " and ", pb.size(), " triangles");
      }
    }
    auto check = [&](const S& s, const std::vector<T>& t, const std::vector<Out>& o, const std::vector<std::set<P>>& hit, const char* w) {
      for (std::size_t x = 0; x < t.size(); ++x) {
        auto what = h::cat("face ", x, " of the ", w, " mesh"); std::vector<T> ps; for (auto& f : o[x].f) { ps.push_back({q[f[0].idx()], q[f[1].idx()], q[f[2].idx()]}); for (auto& v : ps.back()) H_CHECK(std::find(t[x].begin(), t[x].end(), v) != t[x].end() || hit[x].count(v), what, ": a piece uses ", tri::str(v), ", which is neither a corner nor an intersection point"); }
        bool same = ps.size() == 1; if (same) { same = false; for (int k = 0; k < 3; ++k) same |= ps[0][k] == t[x][0] && ps[0][(k + 1) % 3] == t[x][1] && ps[0][(k + 2) % 3] == t[x][2]; }
        if (hit[x].empty()) H_CHECK(same, what, " is not crossed but changed");
        if (ps.size() > 1) cut = true;
        if (!same) cover::exact(t[x], ps, what);
      }
    };
    check(a, ta, oa, ha, "first"); check(b, tb, ob, hb, "second");
    std::set<std::pair<P, P>> got; for (auto& e : border) { auto x = ord(q.at(e[0].idx()), q.at(e[1].idx())); H_CHECK(got.insert(x).second, "a border edge is reported twice"); H_CHECK(want.count(x), "the border edge ", tri::str(x.first), "-", tri::str(x.second), " is no intersection segment"); }
    for (auto& x : want) H_CHECK(got.count(x), "the intersection segment ", tri::str(x.first), "-", tri::str(x.second), " is not reported as a border edge");
    if (cut) h::nontrivial();
  });
}
