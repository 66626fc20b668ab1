// Extract against the README set formulas, on random classified face lists.
#include "k.h"
#include <kigumi/Boolean_operator.h>
#include <kigumi/Extract.h>

using namespace kigumi;
static bool formula(char op, bool a, bool b) {
  switch (op) {
    case 'V': return true; case 'A': return a || b; case 'B': return !(b && !a); case 'C': return !(a && !b);
    case 'D': return !(a && b); case 'E': return a == b; case 'F': return !a; case 'G': return !b; case 'H': return b; case 'I': return a;
    case 'J': return a != b; case 'K': return a && b; case 'L': return a && !b; case 'M': return b && !a; case 'X': return !(a || b); default: return false;
  }
}
static const std::vector<std::pair<char, Boolean_operator>> OPS{
    {'V', Boolean_operator::V}, {'A', Boolean_operator::A}, {'B', Boolean_operator::B}, {'C', Boolean_operator::C}, {'D', Boolean_operator::D}, {'E', Boolean_operator::E},
    {'F', Boolean_operator::F}, {'G', Boolean_operator::G}, {'H', Boolean_operator::H}, {'I', Boolean_operator::I}, {'J', Boolean_operator::J}, {'K', Boolean_operator::K},
    {'L', Boolean_operator::L}, {'M', Boolean_operator::M}, {'X', Boolean_operator::X}, {'O', Boolean_operator::O},
    {'A', Boolean_operator::UNION}, {'J', Boolean_operator::SYMMETRIC_DIFFERENCE}, {'K', Boolean_operator::INTERSECTION}, {'L', Boolean_operator::DIFFERENCE}};
static int keep(char op, bool left, Face_tag tag, bool pf) {  // 0 drop, 1 keep, 2 keep reversed
  bool ba, bb, fa, fb;  // membership behind / in front
  switch (tag) {
    case Face_tag::EXTERIOR: ba = left; fa = false; bb = !left; fb = false; break;
    case Face_tag::INTERIOR: ba = true; fa = !left; bb = true; fb = left; break;
    case Face_tag::COPLANAR: ba = bb = true; fa = fb = false; break;
    case Face_tag::OPPOSITE: ba = left; fa = !left; bb = !left; fb = left; break;
    default: return 0;
  }
  if ((tag == Face_tag::COPLANAR || tag == Face_tag::OPPOSITE) && pf != left) return 0;
  bool b = formula(op, ba, bb), f = formula(op, fa, fb);
  return b == f ? 0 : b ? 1 : 2;
}
int main() {
  return h::run("random classified face lists (0-40 faces, shared, repeated and unused vertices); every operator and preference; non-trivial when a face is kept", 500, 20000, [](long i, h::Rng& r) {
    int nv = 3 + r.below(i < 20 ? 3 : 30), nf = i == 0 ? 0 : r.below(i < 50 ? 4 : 41);
    std::vector<Point> pts;
    for (int j = 0; j < nv; ++j) pts.emplace_back(r.in(-9, 9), r.in(-9, 9), r.coin(1, 4) ? 0 : r.in(-9, 9));
    std::vector<Face> fs;
    std::vector<Mixed_face_data<FD>> ds;
    static const Face_tag tags[] = {Face_tag::EXTERIOR, Face_tag::INTERIOR, Face_tag::COPLANAR, Face_tag::OPPOSITE};
    for (int j = 0; j < nf; ++j) {
      int a = r.below(nv), b = r.below(nv), c = r.below(nv);
      fs.push_back(face(a, b, c));
      ds.push_back({r.coin(), tags[r.below(4)], FD{1000 + r.below(5) * 100 + j}});
      h::note() += h::cat("(", a, " ", b, " ", c, ds.back().from_left ? " left" : " right", " tag", int(ds.back().tag), ") ");
    }
    Triangle_soup<K, Mixed_face_data<FD>> m(pts, fs, ds);
    bool any = false;
    for (auto [name, op] : OPS)
      for (bool pf : {true, false}) {
        auto ctx = [&, n = name] { return h::cat("operator ", n, " prefer_first=", pf, ": "); };
        auto s = Extract<K, FD>{}(m, op, pf);
        std::size_t out = 0;
        std::map<std::size_t, std::size_t> vmap, vinv;
        for (int j = 0; j < nf; ++j) {
          int k = keep(name, ds[j].from_left, ds[j].tag, pf);
          if (!k) continue;
          any = true;
          H_CHECK(out < s.num_faces(), ctx(), "face ", j, " is missing");
          auto g = s.face(Fi(out));
          Face want = k == 1 ? Face{fs[j][0], fs[j][1], fs[j][2]} : Face{fs[j][0], fs[j][2], fs[j][1]};
          bool ok = false;
          for (int rot = 0; rot < 3 && !ok; ++rot) {
            bool same = true;
            for (int c = 0; c < 3; ++c) {
              auto w = want[(c + rot) % 3].idx();
              if (g[c].idx() >= s.num_vertices()) { same = false; break; }
              auto it = vmap.find(w); auto iv = vinv.find(g[c].idx());
              if ((it != vmap.end() && it->second != g[c].idx()) || (iv != vinv.end() && iv->second != w)) same = false;
              if (s.point(g[c]) != pts[w]) same = false;
            }
            if (same) {
              std::map<std::size_t, std::size_t> a, b;
              for (int c = 0; c < 3; ++c) { auto w = want[(c + rot) % 3].idx(); if ((a.count(w) && a[w] != g[c].idx()) || (b.count(g[c].idx()) && b[g[c].idx()] != w)) same = false; a[w] = g[c].idx(); b[g[c].idx()] = w; }
              if (same) { ok = true; for (auto& [x, y] : a) { vmap[x] = y; vinv[y] = x; } }
            }
          }
          H_CHECK(ok, ctx(), "input face ", j, " -> output face ", out, " has the wrong vertices or orientation");
          H_CHECK(s.data(Fi(out)).i == ds[j].data.i, ctx(), "input face ", j, " lost its data");
          ++out;
        }
        H_CHECK(out == s.num_faces(), ctx(), s.num_faces(), " faces in the result, ", out, " expected");
      }
    if (any) h::nontrivial();
  });
}
