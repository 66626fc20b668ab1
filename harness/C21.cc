// Nested option scopes with errors, on several threads, against a stack model.
#include "h.h"
#include <kigumi/Context.h>
#include <kigumi/threading.h>
#include <memory>
#include <thread>
using namespace kigumi;
namespace {
struct Opt { int a{7}; std::string s{"default"}; std::vector<int> v{1, 2}; bool operator==(const Opt& o) const { return a == o.a && s == o.s && v == o.v; } };
using C = Context<Opt>;
struct Boom {};
long scopes;
void walk(h::Rng& r, int depth, const Opt& cur, std::size_t th) {
  auto same = [&](const char* w) { H_CHECK(C::current() == cur, w, ": the current options are not the ones of the enclosing scope"); H_CHECK(Threading_context::current().num_threads() == th, w, ": thread limit ", Threading_context::current().num_threads(), " instead of ", th); };
  same("on entry");
  int n = depth > 6 ? 0 : r.below(4);
  for (int k = 0; k < n; ++k) {
    int kind = r.below(4); ++scopes;
    if (kind == 0) { Opt o; o.a = r.below(1000); o.s = std::string(r.below(40), 'x'); try { C c(o); walk(r, depth + 1, o, th); if (r.coin(1, 4)) throw Boom{}; } catch (const Boom&) {} }
    else if (kind == 1) {
      Threading_options t; std::size_t want = r.coin(1, 4) ? static_cast<std::size_t>(r.next() >> r.below(60)) : static_cast<std::size_t>(r.below(20)); t.set_num_threads(want);
      std::size_t hw = std::max(1U, std::thread::hardware_concurrency()), cl = want < 1 ? 1 : want > hw ? hw : want;
      H_CHECK(t.num_threads() == cl, "requested ", want, " threads, limit is ", t.num_threads(), " instead of ", cl);
      try { Threading_context c(t); walk(r, depth + 1, cur, cl); if (r.coin(1, 4)) throw Boom{}; } catch (const Boom&) {}
    } else if (kind == 2) { auto c = std::make_unique<C>(cur); walk(r, depth + 1, cur, th); c.reset(); }
    else { Opt o; o.a = -r.below(99) - 1; auto seed = r.next(); std::string err; std::size_t hw = std::max(1U, std::thread::hardware_concurrency());
      std::thread t([&] { try { h::Rng q(seed); walk(q, 6, Opt{}, hw); C c(o); H_CHECK(C::current() == o, "options of a scope on another thread"); Threading_options u; u.set_num_threads(1); Threading_context d(u); walk(q, 6, o, 1); } catch (const std::exception& e) { err = e.what(); } }); t.join(); if (!err.empty()) h::fail("on another thread: " + err); }
    same("after a scope");
  }
}
}
int main() {
  return h::run("random trees of option scopes (own option type with non-trivial members; thread limits 0..2^64-1), some ended by an error, some on other threads; non-trivial when more than 4 scopes were opened", 3000, 300000, [](long i, h::Rng& r) {
    scopes = 0; h::note() = h::cat("scope tree ", i, " of seed ", r.s);
    walk(r, 0, Opt{}, std::max(1U, std::thread::hardware_concurrency()));
    Threading_options d; H_CHECK(d.num_threads() == std::max(1U, std::thread::hardware_concurrency()), "default thread limit ", d.num_threads());
    if (scopes > 4) h::nontrivial();
  });
}
