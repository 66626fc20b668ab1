// Common driver of the bounded stand-ins: numbered, seeded cases; the first failing case is the replay.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unistd.h>
#include <vector>
namespace h {
struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  std::uint64_t next() {
    std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int below(int n) { return n <= 0 ? 0 : static_cast<int>(next() % static_cast<std::uint64_t>(n)); }
  int in(int lo, int hi) { return lo + below(hi - lo + 1); }
  bool coin(int num = 1, int den = 2) { return below(den) < num; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(static_cast<int>(v.size()))]; }
  template <class V> void shuffle(V& v) { for (int i = static_cast<int>(v.size()) - 1; i > 0; --i) std::swap(v[i], v[below(i + 1)]); }
  double unit() { return static_cast<double>(next() >> 11) / 9007199254740992.0; }
};
struct Fail : std::runtime_error { using std::runtime_error::runtime_error; };
inline std::string& note() { static std::string s; return s; }         // description of the running case
inline std::map<std::string, long>& counts() { static std::map<std::string, long> m; return m; }
inline std::set<std::uint64_t>& distinct() { static std::set<std::uint64_t> m; return m; }
inline std::vector<std::string>& samples() { static std::vector<std::string> m; return m; }
inline std::string& label() { static std::string s; return s; }
inline void fail(const std::string& m) { throw Fail(m); }
inline void count(const char* k) { ++counts()[k]; }
inline std::uint64_t hash(const std::string& s) { std::uint64_t x = 1469598103934665603ull; for (unsigned char c : s) { x ^= c; x *= 1099511628211ull; } return x; }
// a non-trivial case, identified by its description
inline void nontrivial() { if (distinct().size() < 2000000) distinct().insert(hash(note())); if (samples().size() < 3) samples().push_back(note().substr(0, 400)); }
template <class... T> std::string cat(const T&... t) { std::ostringstream o; o.precision(17); (void)(o << ... << t); return o.str(); }
#define H_CHECK(c, ...) do { if (!(c)) h::fail(h::cat(__VA_ARGS__, "   [", #c, "]")); } while (0)
inline const char* env(const char* n, const char* d) { const char* v = std::getenv(n); return v && *v ? v : d; }
inline std::string dir() { return env("H_DIR", "/tmp"); }
inline bool thorough() { return !std::strcmp(env("H_TIER", "quick"), "thorough"); }
inline void write_replay(const std::string& msg) {
  std::ofstream o(env("H_REPLAY", "/dev/stderr"));
  o << "case " << label() << "\n" << msg << "\ninput: " << note() << "\n";
}
inline void on_signal(int sig) {
  static char buf[256];
  int n = std::snprintf(buf, sizeof buf, "signal %d (%s)", sig, sig == SIGALRM ? "a single case did not end in 120 s" : "crash");
  (void)n;
  write_replay(buf);
  _exit(1);
}
inline std::string js(const std::string& s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (static_cast<unsigned char>(c) < 32) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; } else if (static_cast<unsigned char>(c) > 126) o += '?'; else o += c; } return o + "\""; }
// runs case 0..n-1; each gets its own generator
inline int run(const std::string& rule, long n, long n_thorough, const std::function<void(long, Rng&)>& one) {
  using clk = std::chrono::steady_clock;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) std::signal(s, on_signal);
  std::signal(SIGPIPE, SIG_IGN);
  const std::uint64_t seed = std::strtoull(env("H_SEED", "1"), nullptr, 10);
  const double secs = std::atof(env("H_SECONDS", "40"));
  const auto t0 = clk::now();
  auto el = [&] { return std::chrono::duration<double>(clk::now() - t0).count(); };
  long lo = 0, hi = thorough() ? n_thorough : n;
  std::uint64_t sd = seed;
  if (std::strlen(env("H_ONLY", ""))) {
    const char* c = env("H_ONLY", "");
    char* e; sd = std::strtoull(c, &e, 10); lo = std::strtol(e + 1, nullptr, 10); hi = lo + 1;
  }
  long ev = 0; int rc = 0;
  for (long i = lo; i < hi && (i == lo || el() < secs); ++i) {
    Rng r(sd * 1000003 + static_cast<std::uint64_t>(i));
    label() = cat(sd, ":", i); note().clear();
    alarm(120);
    try { one(i, r); ++ev; }
    catch (const Fail& f) { write_replay(f.what()); std::cout << "FAIL " << label() << ": " << f.what() << "\ninput: " << note().substr(0, 3000) << std::endl; rc = 1; }
    catch (const std::exception& f) { write_replay(cat("unexpected error: ", f.what())); std::cout << "FAIL " << label() << ": unexpected error " << f.what() << "\ninput: " << note().substr(0, 3000) << std::endl; rc = 1; }
    if (rc) break;
  }
  alarm(0);
  std::ofstream o(env("H_INFO", "/dev/null"));
  o << "{\"evaluations\":" << ev << ",\"distinct_nontrivial\":" << distinct().size() << ",\"rule\":" << js(rule) << ",\"wall_s\":" << el() << ",\"samples\":[";
  for (std::size_t i = 0; i < samples().size(); ++i) o << (i ? "," : "") << js(samples()[i]);
  o << "],\"counts\":{";
  bool first = true;
  for (auto& [k, v] : counts()) { o << (first ? "" : ",") << js(k) << ":" << v; first = false; }
  o << "}}";
  o.close();
  std::cout << (rc ? "failed" : "ok") << " after " << ev << " cases, " << el() << " s" << std::endl;
  std::cout.flush();
  _exit(rc);
}
}  // namespace h
