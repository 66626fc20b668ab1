// Membership in the result of every operator against the set formula, on grid-cell solids in two different affine frames.
#include "vox.h"
#include "boolops.h"
#include <kigumi/Boolean_region_builder.h>
using namespace kigumi;
using vox::N;
static bool member(const Region<K, FD>& s, bool at_infinity, const Point& p, h::Rng& r) {
  if (s.is_empty()) return false;
  if (s.is_full()) return true;
  int w = vox::winding(s.boundary(), p, r) + (at_infinity ? 1 : 0);
  H_CHECK(w == 0 || w == 1, "the boundary of the result is not the oriented boundary of a set: winding ", w, " at ", p);
  return w == 1;
}
int main() {
  return h::run("pairs of grid-cell solids / complements / empty / full; second operand in the same frame (coincident faces) or another integer affine frame; 16 operators, both preferences; membership at cell centres and random points off both boundaries, by exact winding number; non-trivial when both boundaries are crossed by the sampled points", 800, 30000, [](long i, h::Rng& r) {
    auto fa = vox::random_affine(r, i % 3 != 0), fb = fa;
    int mode = r.below(3);
    if (mode == 1) { fb = vox::random_affine(r, false); }
    if (mode == 2) for (auto& t : fb.t) t += r.in(-2, 2);
    auto a = vox::random_solid(r, i % 10 == 0), b = vox::random_solid(r, i % 10 == 1);
    h::note() = "A: " + a.str(); for (auto& row : fa.m) for (int x : row) h::note() += h::cat(" ", x); for (int x : fa.t) h::note() += h::cat(" ", x);
    h::note() += "; B: " + b.str(); for (auto& row : fb.m) for (int x : row) h::note() += h::cat(" ", x); for (int x : fb.t) h::note() += h::cat(" ", x);
    auto ra = vox::region(a, fa, r, 0), rb = vox::region(b, fb, r, 10000);
    std::vector<Point> ps;
    for (int x = -1; x <= N; ++x) for (int y = -1; y <= N; ++y) for (int z = -1; z <= N; ++z) { if (r.coin(1, 3)) ps.push_back(fa.centre(x, y, z)); if (mode && r.coin(1, 3)) ps.push_back(fb.centre(x, y, z)); }
    for (int j = 0; j < 10; ++j) ps.push_back(Point(FT(r.in(-2000, 2000)) / 331, FT(r.in(-2000, 2000)) / 337, FT(r.in(-2000, 2000)) / 347));
    std::vector<std::pair<bool, bool>> mem; std::vector<Point> used; bool in[2][2] = {};
    for (auto& p : ps) {
      if (ra.bounded_side(p) == CGAL::ON_BOUNDARY || rb.bounded_side(p) == CGAL::ON_BOUNDARY) continue;   // on an input boundary: no claim
      bool ma = member(ra, a.kind == 2 && a.comp, p, r), mb = member(rb, b.kind == 2 && b.comp, p, r);
      H_CHECK(ma == (ra.bounded_side(p) == CGAL::ON_BOUNDED_SIDE) && mb == (rb.bounded_side(p) == CGAL::ON_BOUNDED_SIDE), "point location of ", p, " in an operand is wrong");
      in[ma][mb] = true; mem.push_back({ma, mb}); used.push_back(p);
    }
    auto inf = [](const vox::Solid& s) { return s.kind == 1 || (s.kind == 2 && s.comp); };
    std::unique_ptr<Boolean_region_builder<K, FD>> bld;
    { Quiet q; bld = std::make_unique<Boolean_region_builder<K, FD>>(ra, rb); }

    for (auto [name, op] : ops::all())
      for (bool pf : {true, false}) {
        Region<K, FD> s;
        try { s = (*bld)(op, pf); } catch (const std::exception& e) { h::fail(h::cat("operator ", name, " raised: ", e.what())); }
        for (std::size_t j = 0; j < used.size(); ++j) {
          bool want = ops::formula(name, mem[j].first, mem[j].second);
          bool got = member(s, ops::formula(name, inf(a), inf(b)), used[j], r);
          H_CHECK(got == want, "operator ", name, " prefer_first=", pf, ": point ", used[j], " is ", got ? "inside" : "outside", " the result but ", mem[j].first ? "inside" : "outside", " A and ", mem[j].second ? "inside" : "outside", " B");
        }
        for (auto fi : s.boundary().faces()) {   // data provenance
          auto d = s.boundary().data(fi).i; bool left = d < 10000;
          H_CHECK(static_cast<std::size_t>(left ? d : d - 10000) < (left ? ra : rb).boundary().num_faces(), "operator ", name, ": a result face has data ", d, " that no input face has");
        }
      }
    if (in[0][0] + in[0][1] + in[1][0] + in[1][1] >= 3) h::nontrivial();
  });
}
