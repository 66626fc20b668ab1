// Parallel loops: exactly-once, merging, errors and thread limits, compiled with ThreadSanitizer.
#include "h.h"
#include <kigumi/parallel_do.h>
#include <kigumi/threading.h>
#include <deque>
#include <mutex>
#include <thread>
using namespace kigumi;
namespace {
struct Boom { int item; };
struct Acc { long sum{}; std::vector<int> items; int start{}; std::shared_ptr<int> own; };
void limit(std::size_t n, const std::function<void()>& f) { Threading_options o; o.set_num_threads(n); Threading_context c(o); f(); }
}
int main() {
  return h::run("0-200 items, 1-8 threads, with and without accumulated state, bodies of varying length, 0-3 failing bodies or a failing merge, vectors and deques; compiled with ThreadSanitizer; non-trivial when several workers ran", 2500, 300000, [](long i, h::Rng& r) {
    std::size_t th = 1 + r.below(8), n = i < 6 ? static_cast<std::size_t>(i) : r.coin() ? r.below(12) : r.below(200); bool state = r.coin(2, 3), dq = r.coin(1, 4);
    std::set<int> bad; if (r.coin(1, 3) && n) for (int k = r.in(1, 3); k--;) bad.insert(r.below(static_cast<int>(n)));
    bool badmerge = state && r.coin(1, 8); int spin = r.below(3) * r.below(400);
    h::note() = h::cat(n, " items, ", th, " threads", state ? ", with state" : "", ", ", bad.size(), " failing bodies", badmerge ? ", failing merge" : "", dq ? ", deque" : "", ", spin ", spin);
    std::vector<int> items(n); for (std::size_t k = 0; k < n; ++k) items[k] = static_cast<int>(k); std::deque<int> ditems(items.begin(), items.end());
    std::vector<std::atomic<int>> done(n); std::atomic<int> running{}, peak{}, merging{}, overlap{}; std::vector<int> plain(n, 0); std::mutex mu; std::set<std::thread::id> ids; bool track = r.coin(1, 3);   // the lock hides races from ThreadSanitizer
    auto enter = [&](int x) { int c = running.fetch_add(1, std::memory_order_relaxed) + 1; int p = peak.load(std::memory_order_relaxed); while (p < c && !peak.compare_exchange_weak(p, c, std::memory_order_relaxed)) {}
      if (track) { std::lock_guard g{mu}; ids.insert(std::this_thread::get_id()); }
      done[x].fetch_add(1, std::memory_order_relaxed); plain[x] += x + 1; volatile int w = 0; for (int k = 0; k < spin; ++k) w = w + 1; if (r.s % 3 == 0) std::this_thread::yield(); running.fetch_sub(1, std::memory_order_relaxed);
      if (bad.count(x)) throw Boom{x}; };
    std::vector<int> merged; long total = 0; int merges = 0; bool threw = false; int which = -1;
    auto init = std::make_shared<int>(5); Acc a0; a0.start = 42; a0.items = {-1};
    auto post = [&](const Acc& a) { if (merging.fetch_add(1, std::memory_order_relaxed)) overlap.store(1, std::memory_order_relaxed); H_CHECK(a.start == 42 && !a.items.empty() && a.items[0] == -1, "a worker did not start from the given state"); merged.insert(merged.end(), a.items.begin() + 1, a.items.end()); total += a.sum; ++merges; if (spin) std::this_thread::yield(); merging.fetch_sub(1, std::memory_order_relaxed); if (badmerge) throw Boom{-2}; };
    auto body = [&](int x, Acc& a) { enter(x); a.sum += x; a.items.push_back(x); };
    limit(th, [&] { try {
      if (state) { if (dq) parallel_do(ditems.begin(), ditems.end(), a0, body, post); else parallel_do(items.begin(), items.end(), a0, body, post); }
      else { if (dq) parallel_do(ditems.begin(), ditems.end(), enter); else parallel_do(items.begin(), items.end(), enter); } }
      catch (const Boom& b) { threw = true; which = b.item; } });
    int still = running.load(); H_CHECK(still == 0, "the loop returned while ", still, " bodies were running");
    // reads below are ordered after the workers only if the loop joined them
    long s = 0; for (std::size_t k = 0; k < n; ++k) { H_CHECK(done[k] <= 1 && plain[k] == (done[k] ? static_cast<int>(k) + 1 : 0), "item ", k, " was processed ", done[k], " times"); s += done[k] ? static_cast<long>(k) : 0; }
    H_CHECK(static_cast<std::size_t>(peak) <= th && ids.size() <= th, ids.size(), " threads ran bodies, ", peak.load(), " at the same time; the limit is ", th);
    H_CHECK(!overlap, "merges ran at the same time");
    bool mayfail = false; for (int b : bad) mayfail |= done[b] != 0;
    if (threw) { H_CHECK(which == -2 ? badmerge : bad.count(which) && done[which], "the error raised was never thrown by a body or merge that ran: ", which); }
    else {
      H_CHECK(!mayfail, "a body raised an error and the loop completed normally"); H_CHECK(!(badmerge && n), "a merge raised an error and the loop completed normally");
      for (std::size_t k = 0; k < n; ++k) H_CHECK(done[k] == 1, "item ", k, " was not processed");
      if (state) { std::sort(merged.begin(), merged.end()); H_CHECK(merged == items && total == s, "the merged states hold ", merged.size(), " items, sum ", total); H_CHECK(n == 0 ? merges == 0 : merges >= 1 && static_cast<std::size_t>(merges) <= std::min(th, n) && static_cast<std::size_t>(merges) >= ids.size(), merges, " merges"); }
    }
    if (th > 1 && n > 1) h::nontrivial();
  });
}
