// Classification around one edge against the membership implied by the cyclic order of the faces.
#include "k.h"
#include <kigumi/Classify_faces_locally.h>
#include <kigumi/Mixed.h>
#include <kigumi/Triangle_mesh.h>
using namespace kigumi; using MD = Mixed_face_data<FD>;
int main() {
  return h::run("1-5 wings per mesh pair around an edge in a random position: faces of each mesh alternate between entering and leaving, directions random or coincident, random vertex rotations, edge direction and face order; some faces classified beforehand; one case in six is contradictory; non-trivial when the two meshes interleave", 8000, 600000, [](long, h::Rng& r) {
    int e1[3], e2[3], ax[3]; auto det = [&] { return e1[0] * (e2[1] * ax[2] - e2[2] * ax[1]) - e1[1] * (e2[0] * ax[2] - e2[2] * ax[0]) + e1[2] * (e2[0] * ax[1] - e2[1] * ax[0]); };
    do { for (auto v : {e1, e2, ax}) for (int k = 0; k < 3; ++k) v[k] = r.in(-4, 4); } while (det() <= 0);
    int p0[3] = {r.in(-9, 9), r.in(-9, 9), r.in(-9, 9)};
    bool contra = r.coin(1, 6);
    int na = contra ? r.in(0, 5) : 2 * r.in(0, 3), nb = contra ? r.in(0, 5) : 2 * r.in(0, 3); if (na + nb == 0 || (na + nb < 2)) { na = 2; }
    // distinct directions, sorted counterclockwise in the (e1, e2) plane
    std::set<std::pair<int, int>> ds; auto norm = [](int x, int y) { int g = std::abs(std::__gcd(x, y)); return std::make_pair(x / g, y / g); };
    while (static_cast<int>(ds.size()) < na + nb) { int x = r.in(-5, 5), y = r.in(-5, 5); if (x || y) ds.insert(norm(x, y)); }
    std::vector<std::pair<int, int>> d(ds.begin(), ds.end());
    auto half = [](auto& v) { return v.second < 0 || (v.second == 0 && v.first < 0) ? 1 : 0; };
    std::sort(d.begin(), d.end(), [&](auto& a, auto& b) { if (half(a) != half(b)) return half(a) < half(b); return a.first * b.second - a.second * b.first > 0; });
    struct W { int dir; bool left, ccw; Face_tag want, pre; };
    std::vector<W> w; std::vector<int> da(d.size()); std::vector<bool> isa(d.size()); { std::vector<int> o(d.size()); for (std::size_t k = 0; k < o.size(); ++k) o[k] = k; r.shuffle(o); for (int k = 0; k < na; ++k) isa[o[k]] = true; }
    bool sa = r.coin(), sb = r.coin();
    for (std::size_t k = 0; k < d.size(); ++k) { bool l = isa[k]; bool& s = l ? sa : sb; bool ccw = contra ? r.coin() : s; s = !s; w.push_back({int(k), l, ccw, Face_tag::UNKNOWN, Face_tag::UNKNOWN}); }
    // merge some neighbouring directions of different meshes: coincident faces
    bool coin = false; if (na && nb && r.coin()) for (std::size_t k = 0; k + 1 < w.size(); ++k) if (w[k].left != w[k + 1].left && r.coin(1, 3)) { w[k + 1].dir = w[k].dir; coin = true; ++k; }
    bool inter = false;
    if (!contra) for (std::size_t k = 0; k < w.size(); ++k) {
      for (std::size_t q = 0; q < w.size(); ++q) if (w[q].left != w[k].left && w[q].dir == w[k].dir) w[k].want = w[q].ccw == w[k].ccw ? Face_tag::COPLANAR : Face_tag::OPPOSITE;
      if (w[k].want == Face_tag::UNKNOWN) for (std::size_t q = 1; q < w.size(); ++q) { auto& o = w[(k + q) % w.size()]; if (o.left != w[k].left) { w[k].want = o.ccw ? Face_tag::INTERIOR : Face_tag::EXTERIOR; if (o.ccw) inter = true; break; } }
      if (r.coin(1, 5)) w[k].pre = w[k].want;
    }
    if (!na || !nb) for (auto& x : w) x.pre = Face_tag::UNKNOWN;
    std::vector<int> ord(w.size()); for (std::size_t k = 0; k < ord.size(); ++k) ord[k] = k; r.shuffle(ord);
    std::size_t nv = 2 + d.size(); std::vector<std::size_t> vid(nv); for (std::size_t k = 0; k < nv; ++k) vid[k] = k; r.shuffle(vid);
    if (vid[0] > vid[1]) std::swap(vid[0], vid[1]);   // p has the smaller index; the axis points from p to q
    std::vector<Point> pts(nv); auto P = [&](FT x, FT y, FT z) { FT c[3]; for (int k = 0; k < 3; ++k) c[k] = FT(p0[k]) + x * FT(e1[k]) + y * FT(e2[k]) + z * FT(ax[k]); return Point(c[0], c[1], c[2]); };
    bool thirds = r.coin(1, 3);
    pts[vid[0]] = P(0, 0, 0); pts[vid[1]] = P(0, 0, thirds ? FT(1) / FT(3) : FT(r.in(1, 3)));
    for (std::size_t k = 0; k < d.size(); ++k) { FT s = FT(r.in(1, 5)) / FT(thirds ? 3 : 1); pts[vid[2 + k]] = P(s * d[k].first, s * d[k].second, r.in(-3, 3)); }
    std::vector<Face> fs; std::vector<MD> fd; std::ostringstream o; o << "edge " << vid[0] << "-" << vid[1] << " " << pts[vid[0]] << " to " << pts[vid[1]];
    for (int k : ord) { std::size_t t[3] = {vid[0], vid[1], vid[2 + w[k].dir]}; if (!w[k].ccw) std::swap(t[0], t[1]); int s = r.below(3); fs.push_back(face(t[s], t[(s + 1) % 3], t[(s + 2) % 3])); fd.push_back({w[k].left, w[k].pre, FD{k}}); }
    for (auto& x : w) o << "; " << (x.left ? "first" : "second") << (x.ccw ? " pqr" : " qpr") << " direction " << d[x.dir].first << "," << d[x.dir].second << " at (" << pts[vid[2 + x.dir]] << ")" << (x.pre == Face_tag::UNKNOWN ? "" : " classified");
    h::note() = o.str();
    Triangle_mesh<K, MD> m(pts, fs, fd); m.finalize();
    Edge_set border; border.insert(make_edge(V(vid[0]), V(vid[1])));
    static Classify_faces_locally<K, FD> cl; auto warn = cl(m, make_edge(V(vid[0]), V(vid[1])), border);
    auto nm = [](Face_tag t) { return t == Face_tag::UNKNOWN ? "unknown" : t == Face_tag::INTERIOR ? "inside" : t == Face_tag::EXTERIOR ? "outside" : t == Face_tag::COPLANAR ? "coincident-same" : "coincident-opposite"; };
    if (!contra) {
      int unknown = 0;
      for (std::size_t k = 0; k < ord.size(); ++k) { auto t = m.data(Fi(k)).tag; auto& x = w[ord[k]]; unknown += t == Face_tag::UNKNOWN;
        H_CHECK(t == Face_tag::UNKNOWN || (na && nb && t == x.want), "the ", x.left ? "first" : "second", " mesh's face in direction ", d[x.dir].first, ",", d[x.dir].second, " is classified ", nm(t), ", it is ", nm(x.want));
        H_CHECK(x.pre == Face_tag::UNKNOWN || t == x.pre, "a classified face changed"); }
      H_CHECK(!(unknown && unknown < static_cast<int>(w.size()) && !coin && std::none_of(w.begin(), w.end(), [](auto& x) { return x.pre != Face_tag::UNKNOWN; })), "some faces are classified and others are not");
      // wings of one mesh joined at the edge only: the edge is a border, so no warning
      H_CHECK(warn == Warnings::NONE, "warning ", int(warn));
      if (inter) h::nontrivial();
    } else {
      // faces that are not next to a face of the same orientation must stay unknown when the orientations do not close up
      std::size_t n = w.size(); if (n % 2 == 1) for (std::size_t k = 0; k < ord.size(); ++k) { std::size_t c = ord[k]; bool pair = w[c].ccw == w[(c + 1) % n].ccw || w[c].ccw == w[(c + n - 1) % n].ccw; auto t = m.data(Fi(k)).tag; H_CHECK(pair || coin || t == Face_tag::UNKNOWN, "around a contradictory edge a face gets the guess ", nm(t)); }
    }
    for (std::size_t k = 0; k < fs.size(); ++k) H_CHECK(m.data(Fi(k)).from_left == fd[k].from_left && m.data(Fi(k)).data == fd[k].data && m.face(Fi(k)) == fs[k], "face ", k, " changed otherwise");
  });
}
