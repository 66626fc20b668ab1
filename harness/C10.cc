// Adjacency after finalisation against a scan of all faces.
#include "k.h"
#include <kigumi/Triangle_mesh.h>
#include <kigumi/threading.h>
using namespace kigumi;
int main() {
  return h::run("meshes of 0-60 (sometimes 1500) triangles over 3-20 vertices with unused vertices at the start, middle and end, any number of faces per edge, repeated faces, random border edges, 1-8 threads; all edges and faces of the mesh; non-trivial when an edge has three or more faces", 3000, 200000, [](long i, h::Rng& r) {
    int used = r.in(3, 12), nv = used + r.below(4), nf = i < 20 ? static_cast<int>(i % 5) : r.coin(1, 50) ? 400 + r.below(3000) : r.below(60);
    std::vector<int> ids(nv); for (int k = 0; k < nv; ++k) ids[k] = k; r.shuffle(ids); ids.resize(used);
    std::vector<Point> pts; std::vector<Face> fs; std::vector<FD> fd; std::ostringstream o;
    for (int k = 0; k < nv; ++k) pts.push_back(Point(k, 0, 0));
    for (int k = 0; k < nf; ++k) { int a, b, c; do { a = r.pick(ids); b = r.pick(ids); c = r.pick(ids); } while (a == b || b == c || a == c); fs.push_back(face(a, b, c)); fd.push_back(FD{k}); if (k < 100) o << " " << a << "," << b << "," << c; }
    Edge_set border; for (int a = 0; a < nv; ++a) for (int b = a + 1; b < nv; ++b) if (r.coin(1, 5)) { border.insert(make_edge(V(a), V(b))); o << " border " << a << "-" << b; }
    kigumi::Threading_options to; to.set_num_threads(1 + r.below(8)); kigumi::Threading_context tc(to);
    h::note() = h::cat(nv, " vertices;", o.str());
    Triangle_mesh<K, FD> m;
    if (r.coin()) m = Triangle_mesh<K, FD>(pts, fs, fd);
    else { for (auto& p : pts) m.add_vertex(p); int k = 0; for (auto& f : fs) { auto x = m.add_face(f); H_CHECK(static_cast<int>(x.idx()) == k, "add_face index"); m.data(x).i = k++; } }
    m.finalize();
    auto has = [&](int k, int v) { return fs[k][0] == V(v) || fs[k][1] == V(v) || fs[k][2] == V(v); };
    auto at_edge = [&](int a, int b) { std::vector<std::size_t> w; for (int k = 0; k < nf; ++k) if (has(k, a) && has(k, b)) w.push_back(k); return w; };
    bool many = false;
    for (int a = 0; a < nv; ++a) for (int b = a + 1; b < nv; ++b) {
      std::vector<std::size_t> g; for (auto f : m.faces_around_edge(make_edge(V(a), V(b)))) { g.push_back(f.idx()); H_CHECK(g.size() <= fs.size(), "the faces around edge ", a, "-", b, " do not end"); }
      auto w = at_edge(a, b); many |= w.size() > 2;
      auto s = [](auto& v) { std::string t; for (auto x : v) t += h::cat(" ", x); return t; };
      H_CHECK(g == w, "faces around edge ", a, "-", b, " are", s(g), ", expected", s(w));
    }
    for (int k = 0; k < std::min(nf, 60); ++k) {
      std::multiset<std::size_t> w, g;
      for (int c = 0; c < 3; ++c) { auto a = fs[k][c].idx(), b = fs[k][(c + 1) % 3].idx(); if (border.contains(make_edge(V(a), V(b)))) continue; for (auto x : at_edge(a, b)) if (static_cast<int>(x) != k) w.insert(x); }
      for (auto f : m.faces_around_face(Fi(k), border)) { g.insert(f.idx()); H_CHECK(g.size() <= 3 * fs.size(), "the faces around face ", k, " do not end"); }
      auto s = [](auto& v) { std::string t; for (auto x : v) t += h::cat(" ", x); return t; };
      H_CHECK(g == w, "faces around face ", k, " are", s(g), ", expected", s(w));
    }
    H_CHECK(m.num_faces() == fs.size() && m.num_vertices() == pts.size(), "counts");
    for (int k = 0; k < nf; ++k) H_CHECK(m.face(Fi(k)) == fs[k] && m.data(Fi(k)).i == k, "face ", k, " changed");
    if (many) h::nontrivial();
  });
}
