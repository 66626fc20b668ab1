// Spreading of a face's classification against a reachability computation on the face graph.
#include "k.h"
#include <kigumi/Mixed.h>
#include <kigumi/Triangle_mesh.h>
#include <kigumi/Propagate_face_tags.h>
using namespace kigumi;
int main() {
  return h::run("meshes of 1-40 triangles over 4-14 vertices (chains, fans, non-manifold edges), random border edges, random tags; several spreads with one spreader; non-trivial when the spread takes at least three faces and is stopped somewhere", 4000, 300000, [](long, h::Rng& r) {
    int nv = r.in(4, 14), nf = r.in(1, 40); std::vector<Point> pts; std::vector<Face> fs; std::vector<Mixed_face_data<FD>> fd; std::ostringstream o;
    for (int k = 0; k < nv; ++k) pts.push_back(Point(k, 0, 0));
    int un = r.in(1, 6); bool chain = r.coin();
    static const Face_tag all[] = {Face_tag::UNKNOWN, Face_tag::INTERIOR, Face_tag::EXTERIOR, Face_tag::COPLANAR, Face_tag::OPPOSITE};
    for (int k = 0; k < nf; ++k) {
      int a, b, c; do { if (chain && k < nv - 2) { a = k; b = k + 1; c = k + 2; } else { a = r.below(nv); b = r.below(nv); c = r.below(nv); } } while (a == b || b == c || a == c);
      fs.push_back(face(a, b, c)); Face_tag t = r.coin(un, un + 1) ? Face_tag::UNKNOWN : all[1 + r.below(4)]; fd.push_back({r.coin(), t, FD{k}}); o << " " << a << "," << b << "," << c << ":" << int(t) << (fd.back().from_left ? "l" : "r");
    }
    Edge_set border; int bd = r.in(2, 12); for (int a = 0; a < nv; ++a) for (int b = a + 1; b < nv; ++b) if (r.coin(1, bd)) { border.insert(make_edge(V(a), V(b))); o << " border " << a << "-" << b; }
    Triangle_mesh<K, Mixed_face_data<FD>> m(pts, fs, fd); m.finalize();
    Propagate_face_tags<K, FD> spread; std::vector<Face_tag> tag; for (auto& d : fd) tag.push_back(d.tag);
    bool nt = false;
    for (int rep = 0; rep < 3; ++rep) {
      int seed = r.below(nf); if (tag[seed] == Face_tag::UNKNOWN) { tag[seed] = all[1 + r.below(4)]; m.data(Fi(seed)).tag = tag[seed]; }
      o << " | seed " << seed << " tag " << int(tag[seed]); h::note() = o.str();
      auto adj = [&](int x, int y) { for (int c = 0; c < 3; ++c) { auto a = fs[x][c], b = fs[x][(c + 1) % 3]; if (border.contains(make_edge(a, b))) continue; bool ha = false, hb = false; for (auto v : fs[y]) { ha |= v == a; hb |= v == b; } if (ha && hb) return true; } return false; };
      std::vector<bool> reach(nf); std::vector<int> st{seed}; reach[seed] = true; bool conflict = false;
      while (!st.empty()) { int x = st.back(); st.pop_back(); for (int y = 0; y < nf; ++y) if (y != x && adj(x, y)) { if (tag[y] == Face_tag::UNKNOWN) { if (!reach[y]) { reach[y] = true; st.push_back(y); } } else if (tag[y] != tag[seed]) conflict = true; } }
      auto want = tag; int n = 0; for (int y = 0; y < nf; ++y) if (reach[y]) { want[y] = tag[seed]; ++n; }
      auto w = spread(m, border, Fi(seed));
      for (int y = 0; y < nf; ++y) { auto& d = m.data(Fi(y)); H_CHECK(d.tag == want[y], "face ", y, " has tag ", int(d.tag), ", expected ", int(want[y])); H_CHECK(d.from_left == fd[y].from_left && d.data.i == y && m.face(Fi(y)) == fs[y], "face ", y, " changed otherwise"); }
      auto ww = !conflict ? Warnings::NONE : fd[seed].from_left ? Warnings::FIRST_MESH_PARTIALLY_INTERSECTS_WITH_SECOND_MESH : Warnings::SECOND_MESH_PARTIALLY_INTERSECTS_WITH_FIRST_MESH;
      H_CHECK(w == ww, "warnings ", int(w), ", expected ", int(ww));
      tag = want; nt |= n >= 3 && conflict;
    }
    if (nt) h::nontrivial();
  });
}
