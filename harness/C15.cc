// Point location against cell membership of the solid.
#include "vox.h"
using namespace kigumi;
int main() {
  return h::run("empty, full, and closed solids of grid cells (also inverted) under random affine maps, points in cells, on faces, edges and corners of the grid and off it; repeated and interleaved queries on a shared and a fresh locator; non-trivial when both inside and boundary answers occur", 1500, 80000, [](long, h::Rng& r) {
    auto af = vox::random_affine(r, r.coin(1, 3)); auto A = vox::random_solid(r, true); auto reg = vox::region(A, af, r, 0);
    std::ostringstream o; o << A.str() << " map"; for (auto& row : af.m) for (int x : row) o << " " << x; for (int x : af.t) o << " " << x;
    bool in = false, on = false; static Side_of_triangle_soup<K, FD> shared; h::note() = o.str();
    for (int k = 0; k < 12; ++k) {
      int c[3]; for (auto& x : c) x = r.coin(1, 2) ? 6 * r.in(-1, 4) : r.in(-8, 26);   // sixths of a cell
      CGAL::Bounded_side want; bool any_in = false, any_out = false;
      for (int q = 0; q < 8; ++q) { int z[3]; for (int d = 0; d < 3; ++d) { int f = c[d] >= 0 ? c[d] / 6 : -((5 - c[d]) / 6); z[d] = f - (c[d] % 6 == 0 && (q >> d & 1)); } (A.cell(z[0], z[1], z[2]) ? any_in : any_out) = true; }
      want = any_in && any_out ? CGAL::ON_BOUNDARY : any_in ? CGAL::ON_BOUNDED_SIDE : CGAL::ON_UNBOUNDED_SIDE;
      FT x[3]; for (int d = 0; d < 3; ++d) x[d] = FT(af.m[d][0] * c[0] + af.m[d][1] * c[1] + af.m[d][2] * c[2]) / FT(6) + FT(af.t[d]); Point p(x[0], x[1], x[2]);
      h::note() = h::cat(o.str(), "; point (", p, ") at ", c[0], "/6 ", c[1], "/6 ", c[2], "/6");
      CGAL::Bounded_side got; static long asked = 0, refused = 0; ++asked;
      try { got = reg.bounded_side(p); } catch (const std::runtime_error&) { h::count("refused"); H_CHECK(A.kind == 2, "point location in the empty set or the universe fails"); ++refused; H_CHECK(refused * 20 <= asked + 200, "closed regions are refused too often: ", refused, " of ", asked); continue; }
      H_CHECK(got == want, "the point is reported ", int(got), ", it is ", int(want), " (-1 outside, 0 boundary, 1 inside)");
      if (A.kind == 2) { auto s = shared(reg.boundary(), p); H_CHECK(static_cast<int>(s) == -static_cast<int>(want), "a reused locator answers ", int(s)); }
      in |= want == CGAL::ON_BOUNDED_SIDE; on |= want == CGAL::ON_BOUNDARY;
    }
    if (in && on) h::nontrivial();
  });
}
