// Binary region format: round trips (into dirty destinations), truncations, range errors.
#include "k.h"
#include <kigumi/Region.h>
#include <kigumi/Region_io.h>
#include <kigumi/Triangle_soup.h>
#include <gmpxx.h>
using namespace kigumi;
using R = Region<K, FD>;
using S = Triangle_soup<K, FD>;
using Q = CGAL::Exact_rational;
static Q big(h::Rng& r) {
  Q q = r.in(-9, 9);
  int n = r.below(6);
  for (int i = 0; i < n; ++i) q = q * Q(static_cast<long>(r.next() >> r.in(20, 60))) + Q(r.in(-3, 3));
  Q d = 1; n = r.below(5);
  for (int i = 0; i < n; ++i) d = d * Q(static_cast<long>(r.next() >> r.in(30, 60))) + Q(1);
  if (d == 0) d = 3;
  q = q / d;
  return r.coin() ? q : Q(-q);
}
static FT coord(h::Rng& r) {
  switch (r.below(6)) {
    case 0: return FT(r.in(-100, 100));
    case 1: return FT(std::ldexp(r.unit() * (r.coin() ? 1 : -1), r.in(-1060, 1000)));
    case 2: return FT(0);
    case 3: return FT(r.in(-100, 100)) / FT(r.in(1, 99));
    default: return FT(big(r));
  }
}
static S soup(h::Rng& r, int nv, int nf) {
  S s;
  bool exact = r.coin();
  for (int i = 0; i < nv; ++i) { if (exact || r.coin(1, 6)) s.add_vertex(Point(coord(r), coord(r), coord(r))); else s.add_vertex(Point(r.in(-5, 5), r.unit(), -r.unit() * 1e300)); }
  for (int i = 0; i < nf; ++i) { auto f = s.add_face(face(r.below(nv), r.below(nv), r.below(nv))); s.data(f).i = static_cast<int>(r.next()); }
  return s;
}
static R region(h::Rng& r) {
  int k = r.below(6);
  if (k == 0) return R::empty();
  if (k == 1) return R::full();
  return R{soup(r, 1 + r.below(12), 1 + r.below(12))};
}
static std::string str(const R& a) {
  std::string s = a.is_empty() ? "empty" : a.is_full() ? "full" : "boundary";
  std::ostringstream o; o.precision(17);
  for (auto v : a.boundary().vertices()) { auto& p = a.boundary().point(v); p.exact(); o << " (" << p.exact().x() << " " << p.exact().y() << " " << p.exact().z() << ")"; }
  for (auto f : a.boundary().faces()) { auto& t = a.boundary().face(f); o << " " << t[0].idx() << "/" << t[1].idx() << "/" << t[2].idx() << ":" << a.boundary().data(f).i; }
  return s + o.str();
}
static bool same(const R& a, const R& b) {
  if (a.is_empty() != b.is_empty() || a.is_full() != b.is_full()) return false;
  auto &x = a.boundary(), &y = b.boundary();
  if (x.num_vertices() != y.num_vertices() || x.num_faces() != y.num_faces()) return false;
  for (auto v : x.vertices()) if (x.point(v).exact() != y.point(v).exact() || x.point(v) != y.point(v)) return false;
  for (auto f : x.faces()) { for (int c = 0; c < 3; ++c) if (x.face(f)[c] != y.face(f)[c]) return false; if (!(x.data(f) == y.data(f))) return false; }
  return true;
}
static std::int32_t le(const std::string& b, std::size_t at) { std::uint32_t x = 0; for (int i = 3; i >= 0; --i) x = x << 8 | static_cast<unsigned char>(b[at + i]); return static_cast<std::int32_t>(x); }
template <class T> static void rational(const T& v) {
  std::ostringstream o; kigumi_write<T>(o, v);
  std::istringstream i(o.str()); T w(77); kigumi_read<T>(i, w);
  H_CHECK(i.good() && v == w, "a rational number changes on a round trip: ", v, " -> ", w);
}
int main() {
  return h::run("random regions (empty, full, 0-12 vertices/faces; coordinates double, huge, denormal, rational), written to a stream and to a file, read into empty, full and non-empty destinations; every prefix of the bytes; oversize indices; non-trivial when a coordinate is not a double", 400, 20000, [](long i, h::Rng& r) {
    auto a = region(r); h::note() = str(a);
    std::ostringstream o; H_CHECK(write_kigumi_region<K>(o, a), "writing to memory failed");
    std::string b = o.str();
    { std::ostringstream o2; write_kigumi_region<K>(o2, a); H_CHECK(o2.str() == b, "writing twice gives different bytes"); }
    bool dbl = true; for (auto v : a.boundary().vertices()) { auto& p = a.boundary().point(v); if (!(p.approx().x().is_point() && p.approx().y().is_point() && p.approx().z().is_point())) dbl = false; }
    H_CHECK(b.size() >= 9 && le(b, 1) == static_cast<int>(a.boundary().num_vertices()) && le(b, 5) == static_cast<int>(a.boundary().num_faces()), "counts are not little-endian after the kind");
    std::size_t at = b.size() - 16 * a.boundary().num_faces();
    for (auto f : a.boundary().faces()) { for (int c = 0; c < 3; ++c) H_CHECK(le(b, at + 4 * c) == static_cast<int>(a.boundary().face(f)[c].idx()), "face ", f.idx(), " is not little-endian at its place"); H_CHECK(le(b, at + 12) == a.boundary().data(f).i, "data of face ", f.idx()); at += 16; }
    for (int d = 0; d < 3; ++d) {
      R t = d == 0 ? R{} : d == 1 ? R::full() : region(r);
      if (d == 2 && !t.boundary().num_faces() && r.coin()) t = R{soup(r, 3, 2)};
      std::string before = str(t);
      if (d == 2 && r.coin() && t.boundary().num_faces()) t.boundary().aabb_tree();
      std::istringstream in(b); H_CHECK(read_kigumi_region<K>(in, t), "reading back failed");
      H_CHECK(same(a, t), "the region read back differs: ", str(t), "   destination held: ", before);
    }
    // truncations
    for (std::size_t n = 0; n < b.size(); n += (b.size() < 80 ? 1 : 1 + r.below(static_cast<int>(b.size()) / 20))) {
      R t; std::istringstream in(b.substr(0, n)); bool ok = false;
      try { ok = read_kigumi_region<K>(in, t); } catch (const std::exception&) {}
      H_CHECK(!ok, "the first ", n, " of ", b.size(), " bytes are read successfully");
    }
    {  // through a file
      std::string fn = h::dir() + "/c04.kigumi"; H_CHECK(write_kigumi_region<K>(fn, a), "writing a file failed"); R t; H_CHECK(read_kigumi_region<K>(fn, t) && same(a, t), "file round trip"); std::remove(fn.c_str());
      H_CHECK(!read_kigumi_region<K>(h::dir() + "/no/such.kigumi", t), "reading a missing file succeeds");
    }
    {  // values that do not fit
      S s = soup(r, 3, 1); std::size_t bad = r.coin() ? (std::size_t{1} << 31) + r.below(5) : r.coin() ? std::size_t(-1) : (std::size_t{1} << 32) + r.below(3); int c = r.below(3); Face f = face(0, 1, 2); f[c] = V(bad); s.add_face(f);
      R x{std::move(s)}; std::ostringstream oo; bool ok = false; try { ok = write_kigumi_region<K>(oo, x); } catch (const std::exception&) {}
      H_CHECK(!ok, "vertex index ", bad, " was written to a 32-bit field");
      std::string g = b; std::size_t pos = r.coin() ? 1 : 5; g[pos + 3] = static_cast<char>(0x80 | g[pos + 3]); R t; std::istringstream in(g); ok = false; try { ok = read_kigumi_region<K>(in, t); } catch (const std::exception&) {}
      H_CHECK(!ok, "a negative count is read successfully");
    }
    auto q = big(r); rational<Q>(q);
    {  // the other exact number type, several values on one stream, zero among them
      std::vector<mpq_class> ms; std::ostringstream oo; int n = r.in(1, 4);
      for (int j = 0; j < n; ++j) {
        mpq_class m(std::to_string(r.in(-5, 5)) + std::to_string(r.next() >> r.in(0, 60)) + "/" + std::to_string(1 + (r.next() >> r.in(1, 60))), 10); m.canonicalize(); if (r.coin()) m = -m * m * m; if (r.coin(1, 4)) m = 0;
        ms.push_back(m); rational<mpq_class>(m); std::ostringstream o1; kigumi_write<mpq_class>(o1, m); kigumi_write<mpq_class>(oo, m);
        std::ostringstream o2; Q qq(m.get_str()); kigumi_write<Q>(o2, qq);
        H_CHECK(m == 0 || o1.str() == o2.str(), "the two exact number types are written differently: ", m);
      }
      std::istringstream in(oo.str()); mpq_class w(5);
      for (auto& m : ms) { kigumi_read<mpq_class>(in, w); H_CHECK(in.good() && w == m, "one of several rational numbers on a stream changes: ", m, " -> ", w); }
    }
    if (!dbl) h::nontrivial();
  });
}
