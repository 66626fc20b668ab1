// Results of the 16 operators on empty, full and bounded operands: the kind of the result against set membership.
#include "vox.h"
#include "boolops.h"
#include <kigumi/Boolean_region_builder.h>
using namespace kigumi;
int main() {
  return h::run("operands: empty, full, or grid-cell solids and their complements (equal, complementary, nested and disjoint pairs included), one affine frame per case, 16 operators, both preferences; non-trivial when some result has no boundary", 4000, 60000, [](long i, h::Rng& r) {
    auto af = vox::random_affine(r, i % 2 == 0);
    vox::Solid a, b;
    if (i < 4) { a.kind = i / 2; b.kind = i % 2; }
    else {
      a = vox::random_solid(r, true); b = vox::random_solid(r, true);
      if (a.kind == 2 && r.coin(2, 3)) { b = a; if (r.coin()) b.comp = !b.comp; }   // equal or complementary
      if (r.coin()) std::swap(a, b);
    }
    h::note() = "A: " + a.str() + "; B: " + b.str();
    for (auto& row : af.m) for (int x : row) h::note() += h::cat(" ", x);
    auto ra = vox::region(a, af, r, 0), rb = vox::region(b, af, r, 10000);
    {
      H_CHECK(ra.is_empty() == (a.kind == 0) && ra.is_full() == (a.kind == 1) && ra.is_empty_or_full() == (a.kind != 2), "operand kind is misreported");
      Point p(FT(1) / 3, FT(2) / 7, FT(1) / 5);
      if (a.kind == 0) H_CHECK(ra.bounded_side(p) == CGAL::ON_UNBOUNDED_SIDE, "a point of the empty region");
      if (a.kind == 1) H_CHECK(ra.bounded_side(p) == CGAL::ON_BOUNDED_SIDE, "a point of the full region");
    }
    std::unique_ptr<Boolean_region_builder<K, FD>> bld;
    { Quiet q; bld = std::make_unique<Boolean_region_builder<K, FD>>(ra, rb); }
    bool any = false;
    for (auto [name, op] : ops::all())
      for (bool pf : {true, false}) {
        bool t = false, f = false;
        for (int x = -1; x <= vox::N; ++x) for (int y = -1; y <= vox::N; ++y) for (int z = -1; z <= vox::N; ++z) (ops::formula(name, a.cell(x, y, z), b.cell(x, y, z)) ? t : f) = true;
        Region<K, FD> s;
        try { s = (*bld)(op, pf); } catch (const std::exception& e) { h::fail(h::cat("operator ", name, " prefer_first=", pf, " raised: ", e.what())); }
        const char* got = s.is_empty() ? "empty" : s.is_full() ? "full" : "bounded"; const char* want = !t ? "empty" : !f ? "full" : "bounded";
        H_CHECK(std::string(got) == want, "operator ", name, " prefer_first=", pf, ": result is ", got, ", should be ", want);
        H_CHECK((s.boundary().num_faces() == 0) == (s.is_empty_or_full()), "operator ", name, ": kind ", got, " with ", s.boundary().num_faces(), " boundary faces");
        if (!t || !f) any = true;
      }
    bool thrown = false;
    try { Region<K, FD> bad{Triangle_soup<K, FD>{}}; } catch (const std::invalid_argument&) { thrown = true; }
    H_CHECK(thrown, "a region was built from a boundary without faces");
    if (any && !(i < 4)) h::nontrivial();
  });
}
