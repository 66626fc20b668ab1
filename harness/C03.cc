// Every refined triangle against the input face its data names.
#include "cover.h"
#include "vox.h"
#include "soups.h"
#include <kigumi/Boolean_region_builder.h>
#include <kigumi/Mix.h>
using namespace kigumi; using vox::Soup; using tri::T;
int main() {
  return h::run("pairs of grid-cell solids in equal, shifted or different affine frames refined against each other (every mixed triangle traced to its input face by unique data), and pairs with an empty or full operand through the builder; 1-8 threads; non-trivial when some face is cut", 2500, 60000, [](long i, h::Rng& r) {
    auto fa = vox::random_affine(r, r.coin()), fb = fa; int mode = r.below(3); if (mode == 1) fb = vox::random_affine(r, false); if (mode == 2) for (auto& t : fb.t) t += r.in(-2, 2);
    auto a = vox::random_solid(r, false), b = vox::random_solid(r, false); std::size_t th = 1 + r.below(8);
    h::note() = h::cat(th, " threads; A: ", a.str(), "; B: ", b.str()); for (auto* f : {&fa, &fb}) { for (auto& row : f->m) for (int x : row) h::note() += h::cat(" ", x); for (int x : f->t) h::note() += h::cat(" ", x); }
    soups::Threads tc(th); auto sa = vox::boundary(a, fa, r, 0), sb = vox::boundary(b, fb, r, 10000);
    // several faces may carry equal data; unique ids are used in most cases
    if (i % 4 == 3) {   // special operands
      bool full = r.coin(), first = r.coin(); vox::Region sp = full ? vox::Region::full() : vox::Region::empty(), re{Soup(sa)};
      Boolean_region_builder<K, FD> bld(first ? sp : re, first ? re : sp);
      for (auto [op, rev] : {std::pair{first ? Boolean_operator::H : Boolean_operator::I, false}, std::pair{first ? Boolean_operator::G : Boolean_operator::F, true}, std::pair{Boolean_operator::J, full}, std::pair{full ? Boolean_operator::K : Boolean_operator::A, false}})
        for (bool pf : {true, false}) {
          auto s = bld(op, pf); H_CHECK(!s.is_empty_or_full(), "the boundary of the other operand is lost"); auto& t = s.boundary(); H_CHECK(t.num_faces() == sa.num_faces(), t.num_faces(), " faces instead of ", sa.num_faces());
          std::set<int> seen; for (auto f : t.faces()) { int d = t.data(f).i; H_CHECK(d >= 0 && d < static_cast<int>(sa.num_faces()) && seen.insert(d).second, "data ", d, " appears again or is unknown"); auto x = cover::of(t, f), y = cover::of(sa, Fi(d)); if (rev) std::swap(y[1], y[2]); bool same = false; for (int k = 0; k < 3; ++k) same |= x[k] == y[0] && x[(k + 1) % 3] == y[1] && x[(k + 2) % 3] == y[2]; H_CHECK(same, "the triangle with data ", d, " is not the input face with that data"); }
        }
      return;
    }
    Mixed_triangle_soup<K, FD> m; { Quiet q; std::tie(m, std::ignore) = Mix<K, FD>{}(sa, sb); }
    std::map<std::pair<bool, int>, std::vector<T>> ps; for (auto f : m.faces()) { auto& d = m.data(f); ps[{d.from_left, d.data.i}].push_back(cover::of(m, f)); }
    std::size_t n = 0; bool cut = false;
    for (auto* s : {&sa, &sb}) for (auto f : s->faces()) { auto it = ps.find({s == &sa, s->data(f).i}); auto what = h::cat("face ", f.idx(), " of the ", s == &sa ? "first" : "second", " operand"); H_CHECK(it != ps.end(), what, ": no triangle carries its data"); ++n; auto t = cover::of(*s, f); cut |= it->second.size() > 1; cover::exact(t, it->second, what); }
    H_CHECK(ps.size() == n, "some triangle carries data or an origin that no input face has");
    if (cut) h::nontrivial();
  });
}
