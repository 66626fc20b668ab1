// Global classification of nested and separate solids against winding numbers.
#include "vox.h"
#include <kigumi/Classify_faces_globally.h>
#include <kigumi/Mixed.h>
#include <kigumi/Triangle_mesh.h>
#include <kigumi/threading.h>
using namespace kigumi;
int main() {
  return h::run("two boundaries without contact (a solid of grid cells, possibly inverted; 1-3 smaller solids each inside one of its cells), random border edges, some patches classified beforehand, 1-8 threads; one case in eight touches the other boundary and must be refused; non-trivial when both inside and outside patches exist on both meshes", 1500, 60000, [](long, h::Rng& r) {
    vox::Affine big; for (int k = 0; k < 3; ++k) big.m[k][k] = 10;
    auto A = vox::random_solid(r, false); auto sa = vox::boundary(A, big, r, 0);
    vox::Soup sb; std::ostringstream o; o << A.str(); int n = r.in(1, 3); bool inv = r.coin(1, 4); std::set<std::array<int, 3>> used; int id = 1000;
    for (int q = 0; q < n; ++q) {
      std::array<int, 3> c{r.in(-1, 3), r.in(-1, 3), r.in(-1, 3)}; for (int t = 0; t < 9 && q % 2 == 0 && !A.cell(c[0], c[1], c[2]); ++t) c = {r.in(0, 2), r.in(0, 2), r.in(0, 2)}; if (!used.insert(c).second) continue;
      auto B = vox::random_solid(r, false); B.comp = inv; vox::Affine af; for (int k = 0; k < 3; ++k) { af.m[k][k] = r.in(1, 2); af.t[k] = c[k] * 10 + r.in(1, 3); }
      auto x = vox::boundary(B, af, r, id); id += 1000; o << " | in cell " << c[0] << c[1] << c[2] << " " << B.str();
      auto off = sb.num_vertices(); for (auto v : x.vertices()) sb.add_vertex(x.point(v)); for (auto f : x.faces()) { auto t = x.face(f); auto g = sb.add_face(face(t[0].idx() + off, t[1].idx() + off, t[2].idx() + off)); sb.data(g) = x.data(f); }
    }
    bool swap = r.coin(); const auto& L = swap ? sb : sa; const auto& R = swap ? sa : sb;
    std::vector<Point> pts; std::vector<Face> fs; std::vector<Mixed_face_data<FD>> fd;
    for (auto s : {&L, &R}) { auto off = pts.size(); for (auto v : s->vertices()) pts.push_back(s->point(v)); for (auto f : s->faces()) { auto t = s->face(f); fs.push_back(face(t[0].idx() + off, t[1].idx() + off, t[2].idx() + off)); fd.push_back({s == &L, Face_tag::UNKNOWN, s->data(f)}); } }
    std::vector<int> ord(fs.size()); for (std::size_t k = 0; k < ord.size(); ++k) ord[k] = k; r.shuffle(ord);
    { auto f2 = fs; auto d2 = fd; for (std::size_t k = 0; k < ord.size(); ++k) { fs[k] = f2[ord[k]]; fd[k] = d2[ord[k]]; } }
    Edge_set border; int bd = r.pick(std::vector<int>{1, 2, 4, 1000000}); for (auto& f : fs) for (int c = 0; c < 3; ++c) if (r.coin(1, bd)) border.insert(make_edge(f[c], f[(c + 1) % 3]));
    bool touch = r.coin(1, 8);
    auto inside_of = [&](const vox::Soup& s, bool comp, const Point& p) { return (vox::winding(s, p, r) + (comp ? 1 : 0)) != 0; };
    std::vector<Face_tag> want(fs.size()); bool seen[2][2] = {};
    for (std::size_t k = 0; k < fs.size(); ++k) { Point c = CGAL::centroid(pts[fs[k][0].idx()], pts[fs[k][1].idx()], pts[fs[k][2].idx()]); bool l = fd[k].from_left; bool other_is_b = l != swap; bool in = other_is_b ? inside_of(sb, inv, c) : inside_of(sa, A.comp, c); want[k] = in ? Face_tag::INTERIOR : Face_tag::EXTERIOR; seen[l][in] = true; }
    // classify some whole patches beforehand
    std::vector<int> patch(fs.size(), -1); std::map<Edge, std::vector<int>> em; for (std::size_t k = 0; k < fs.size(); ++k) for (int c = 0; c < 3; ++c) em[make_edge(fs[k][c], fs[k][(c + 1) % 3])].push_back(k);
    int np = 0; for (std::size_t k = 0; k < fs.size(); ++k) if (patch[k] < 0) { std::vector<int> st{int(k)}; patch[k] = np; while (!st.empty()) { int x = st.back(); st.pop_back(); for (int c = 0; c < 3; ++c) { auto e = make_edge(fs[x][c], fs[x][(c + 1) % 3]); if (border.contains(e)) continue; for (int y : em[e]) if (patch[y] < 0) { patch[y] = np; st.push_back(y); } } } ++np; }
    std::vector<bool> pre(np); for (int q = 0; q < np; ++q) pre[q] = r.coin(1, 4);
    auto tagged = [&](std::size_t k) { return pre[patch[k]]; };
    bool all = true; for (std::size_t k = 0; k < fs.size(); ++k) { if (tagged(k)) fd[k].tag = want[k]; else all = false; }
    std::size_t th = 1 + r.below(8); h::note() = h::cat(o.str(), " swap ", swap, " border 1/", bd, " patches ", np, " threads ", th, touch ? " touching" : "");
    vox::Soup X = R; std::set<int> bad;
    if (touch) {  // give the right boundary a face lying on a face of the left mesh
      for (std::size_t k = 0; k < fs.size(); ++k) if (fd[k].from_left && !tagged(k)) { bool whole = true; for (std::size_t q = 0; q < fs.size(); ++q) if (q != k && patch[q] == patch[k]) whole = false; if (!whole) continue; vox::Soup y; std::size_t v[3]; for (int c = 0; c < 3; ++c) v[c] = y.add_vertex(pts[fs[k][c].idx()]).idx(); y.add_face(face(v[0], v[1], v[2])); auto off = X.num_vertices(); for (auto u : y.vertices()) X.add_vertex(y.point(u)); X.add_face(face(off, off + 1, off + 2)); bad.insert(k); break; }
      if (bad.empty()) touch = false;
    }
    Triangle_mesh<K, Mixed_face_data<FD>> m(pts, fs, fd); m.finalize();
    Threading_options to; to.set_num_threads(th); Threading_context tc(to);
    if (touch) { bool threw = false; try { Classify_faces_globally<K, FD>{}(m, border, L, X); } catch (const std::exception&) { threw = true; } H_CHECK(threw, "a patch on the other boundary was given a guess"); return; }
    auto w = Classify_faces_globally<K, FD>{}(m, border, L, R);
    H_CHECK(w == Warnings::NONE, "unexpected warning ", int(w));
    for (std::size_t k = 0; k < fs.size(); ++k) { auto& d = m.data(Fi(k)); H_CHECK(d.tag == want[k], "face ", k, " from the ", fd[k].from_left ? "first" : "second", " mesh is classified ", int(d.tag), ", expected ", int(want[k])); H_CHECK(d.from_left == fd[k].from_left && d.data == fd[k].data && m.face(Fi(k)) == fs[k], "face ", k, " changed otherwise"); }
    if (!all && seen[0][0] && seen[0][1] + seen[1][1] >= 1 && seen[1][0]) h::nontrivial();
  });
}
