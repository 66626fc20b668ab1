// Coincident faces against a quadratic comparison of vertex triples.
#include "soups.h"
#include <kigumi/Find_coplanar_faces.h>
using namespace kigumi; using soups::S;
int main() {
  return h::run("pairs of soups of 0-40 triangles over a few shared points, no repeated face within a mesh, random rotations and orientations, index maps with merged and unused points, 1-8 threads; non-trivial when both kinds of coincidence occur", 6000, 400000, [](long, h::Rng& r) {
    int np = r.in(3, 9);
    auto make = [&](int nf, std::vector<std::size_t>& map) {
      S s; int nv = np + r.below(4); map.clear();
      for (int i = 0; i < nv; ++i) { s.add_vertex(Point(i, 0, 0)); map.push_back(i < np ? i : r.below(np + 5)); }
      r.shuffle(map);
      std::set<std::array<std::size_t, 3>> used;
      for (int i = 0; i < nf; ++i) {
        std::size_t v[3]; int tries = 0; bool ok = false;
        while (!ok && ++tries < 30) { for (auto& x : v) x = r.below(nv); std::array<std::size_t, 3> k{map[v[0]], map[v[1]], map[v[2]]}; if (k[0] == k[1] || k[1] == k[2] || k[0] == k[2]) continue; std::sort(k.begin(), k.end()); ok = used.insert(k).second; }
        if (ok) s.add_face(face(v[0], v[1], v[2]));
      }
      return s;
    };
    std::vector<std::size_t> ma, mb; auto a = make(r.below(40), ma), b = make(r.below(40), mb);
    std::size_t th = 1 + r.below(8); auto ms = [](auto& m) { std::string s; for (auto x : m) s += h::cat(" ", x); return s; };
    h::note() = h::cat("threads ", th, "; ", soups::str(a), " map", ms(ma), " | ", soups::str(b), " map", ms(mb));
    std::pair<std::vector<Face_tag>, std::vector<Face_tag>> got; { soups::Threads c(th); got = Find_coplanar_faces<K, FD>{}(a, b, ma, mb); }
    H_CHECK(got.first.size() == a.num_faces() && got.second.size() == b.num_faces(), "number of marks");
    bool same = false, opp = false;
    auto side = [&](const S& x, auto& mx, const S& y, auto& my, auto& tags, const char* nm) {
      for (auto f : x.faces()) {
        Face_tag w = Face_tag::UNKNOWN; std::size_t u[3]; for (int k = 0; k < 3; ++k) u[k] = mx[x.face(f)[k].idx()];
        for (auto g : y.faces()) { std::size_t v[3]; for (int k = 0; k < 3; ++k) v[k] = my[y.face(g)[k].idx()];
          for (int s = 0; s < 3; ++s) { if (u[0] == v[s] && u[1] == v[(s + 1) % 3] && u[2] == v[(s + 2) % 3]) w = Face_tag::COPLANAR, same = true; if (u[0] == v[s] && u[1] == v[(s + 2) % 3] && u[2] == v[(s + 1) % 3]) w = Face_tag::OPPOSITE, opp = true; } }
        H_CHECK(tags[f.idx()] == w, "face ", f.idx(), " of the ", nm, " mesh is marked ", int(tags[f.idx()]), ", expected ", int(w));
      }
    };
    side(a, ma, b, mb, got.first, "first"); side(b, mb, a, ma, got.second, "second");
    if (same && opp) h::nontrivial();
  });
}
