// Parallel sort for many lengths and thread limits; workers checked for overlapping access by ThreadSanitizer.
#include "h.h"
#include <kigumi/parallel_sort.h>
#include <kigumi/threading.h>
#include <deque>
#include <numeric>
using namespace kigumi;
static void limit(std::size_t n, const std::function<void()>& f) { Threading_options o; o.set_num_threads(n); Threading_context c(o); f(); }
int main() {
  return h::run("lengths 0-20000 around multiples of 1024 and of the thread count, 1-8 threads, random / sorted / reversed / few values / one changed element, vector and deque, < and > and a key comparison; compiled with ThreadSanitizer; non-trivial when more than one worker ran", 500, 60000, [](long i, h::Rng& r) {
    std::size_t th = 1 + r.below(8), n = 0;
    switch (r.below(5)) { case 0: n = r.below(40); break; case 1: n = 1024 * r.in(0, 9) + r.in(0, 2); break; case 2: n = th * 1024 + r.below(9); break; case 3: n = static_cast<std::size_t>(std::max(0, 1024 * r.in(1, 9) - r.in(1, 2))); break; default: n = r.below(20000); }
    if (i < 9) n = static_cast<std::size_t>(i);
    std::vector<int> v(n); int kind = r.below(6), mod = kind == 3 ? 2 : kind == 4 ? 50 : 1000000;
    for (std::size_t k = 0; k < n; ++k) v[k] = kind == 1 ? static_cast<int>(k) : kind == 2 ? -static_cast<int>(k) : r.below(mod);
    if (kind == 1 && n) v[r.below(static_cast<int>(n))] = r.below(static_cast<int>(n));
    int cmp = r.below(4); bool dq = r.coin(1, 4);
    h::note() = h::cat("length ", n, ", ", th, " threads, kind ", kind, ", comparison ", cmp, dq ? ", deque" : "");
    auto want = v; auto go = [&](auto c) { std::sort(want.begin(), want.end(), c);
      std::vector<int> got; limit(th, [&] { if (dq) { std::deque<int> d(v.begin(), v.end()); if (cmp) parallel_sort(d.begin(), d.end(), c); else parallel_sort(d.begin(), d.end()); got.assign(d.begin(), d.end()); } else { got = v; if (cmp) parallel_sort(got.begin(), got.end(), c); else parallel_sort(got.begin(), got.end()); } });
      H_CHECK(std::is_sorted(got.begin(), got.end(), c), "the result is not sorted"); auto a = got, b = v; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); H_CHECK(a == b, "the result is not a permutation of the input"); };
    if (cmp <= 1) go([](int a, int b) { return a < b; }); else if (cmp == 2) go([](int a, int b) { return a > b; }); else go([](int a, int b) { return a / 10 < b / 10; });
    if (th > 1 && n > 1024) h::nontrivial();
  });
}
