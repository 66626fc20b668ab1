// Text writers: round trips, streams that accept only so many bytes, full devices, other extensions.
#include "soups.h"
#include <kigumi/Triangle_soup_io.h>
#include <CGAL/Exact_rational.h>
#include <cmath>
#include <filesystem>
using namespace kigumi; using soups::S; using Q = CGAL::Exact_rational;
namespace {
struct Mute { std::streambuf *a, *b; Mute() : a(std::cout.rdbuf(nullptr)), b(std::cerr.rdbuf(nullptr)) {} ~Mute() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::cout.clear(); std::cerr.clear(); } };
struct Limited : std::streambuf { std::size_t left; std::string got; explicit Limited(std::size_t n) : left(n) {}
  int overflow(int c) override { if (c == EOF) return 0; if (!left) return EOF; --left; got += static_cast<char>(c); return c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { auto k = std::min<std::streamsize>(n, static_cast<std::streamsize>(left)); got.append(s, static_cast<std::size_t>(k)); left -= static_cast<std::size_t>(k); return k; } };
bool wr(int f, std::ostream& o, const S& s) { return f == 0 ? io::write_obj(o, s) : f == 1 ? io::write_off(o, s) : io::write_ply(o, s); }
bool rd(int f, std::istream& o, S& s) { return f == 0 ? io::read_obj(o, s) : f == 1 ? io::read_off(o, s) : io::read_ply(o, s); }
void check(const S& s, const S& t) {
  H_CHECK(t.num_vertices() == s.num_vertices() && t.num_faces() == s.num_faces(), "read back ", t.num_vertices(), " vertices, ", t.num_faces(), " faces instead of ", s.num_vertices(), ", ", s.num_faces());
  for (auto f : s.faces()) H_CHECK(s.face(f) == t.face(f), "face ", f.idx(), " is read back as another one");
  for (auto v : s.vertices()) for (int c = 0; c < 3; ++c) { Q e = s.point(v).exact()[c], g = t.point(v).exact()[c]; if (e == g) continue; double d = CGAL::to_double(g); H_CHECK(Q(d) == g, "a coordinate read back is no double"); double lo = std::nextafter(d, -HUGE_VAL), hi = std::nextafter(d, HUGE_VAL); H_CHECK(Q(lo) < e && e < Q(hi), "coordinate ", c, " of vertex ", v.idx(), " is read back as ", d); H_CHECK(Q(CGAL::to_double(e)) != e, "the representable coordinate ", c, " of vertex ", v.idx(), " is read back as ", d); }
}
}
int main() {
  return h::run("soups of 0-12 vertices (integers, halves, thirds, products of square-root-free rationals, magnitudes 1e-300 to 1e300, many digits) and 0-12 faces or 3000 vertices, 3 formats, both OBJ index styles, written to memory, files, a full device, streams that accept n bytes, unknown extensions; non-trivial when a round trip with faces or a failing write", 6000, 500000, [](long i, h::Rng& r) {
    S s; int nv = i % 200 == 3 ? 3000 : r.below(13), nf = nv ? (nv > 100 ? 2000 : r.below(13)) : 0;
    auto co = [&]() -> FT { switch (r.below(8)) { case 0: return FT(r.in(-5, 5)); case 1: return FT(r.in(-99, 99)) / FT(8); case 2: return FT(r.in(-99, 99)) / FT(r.in(1, 99)); case 3: return FT(std::ldexp(r.unit(), r.in(-900, 900))); case 4: return FT(r.unit()) * FT(r.unit()) - FT(1) / FT(7); case 5: return FT(-0.0); case 6: return FT(r.unit() * 2000 - 1000); default: return FT(1) / FT(3) + FT(r.in(-3, 3)) - FT(1) / FT(3); } };
    for (int k = 0; k < nv; ++k) { auto a = co(), b = co(), c = co(); s.add_vertex(Point(a, b, c)); } for (int k = 0; k < nf; ++k) s.add_face(face(r.below(nv), r.below(nv), r.below(nv)));
    int fmt = r.below(3); bool neg = r.coin(); std::string ext[3] = {".obj", ".off", ".ply"}; int mode = r.below(6);
    h::note() = h::cat(ext[fmt], neg ? " negative indices, " : ", ", "mode ", mode, ", ", soups::str(s));
    io::Write_obj_options o; o.set_negative_indices(neg); io::Write_obj_context ctx(o); std::unique_ptr<Mute> mute(std::getenv("H_LOUD") ? nullptr : new Mute);
    std::ostringstream ref; bool ok = wr(fmt, ref, s); H_CHECK(ok, "writing to memory fails"); auto txt = ref.str();
    if (fmt == 0 && nf) H_CHECK((txt.find("f -") != std::string::npos) == neg, "the OBJ index style is not the one asked for");
    if (mode <= 1) { std::istringstream in(txt); S t; H_CHECK(rd(fmt, in, t), "the output is not readable: ", txt.substr(0, 500)); check(s, t); }
    else if (mode == 2) { auto p = h::dir() + "/w18" + ext[fmt]; { std::ofstream junk(p); junk << std::string(r.below(5000), 'z'); } H_CHECK(write_triangle_soup(p, s), "writing a file fails"); S t; t.add_vertex(Point(1, 2, 3)); H_CHECK(read_triangle_soup(p, t), "the file written is not readable"); check(s, t); }
    else if (mode == 3) { auto n = static_cast<std::size_t>(r.below(static_cast<int>(txt.size()) + 2)); Limited b(n); std::ostream os(&b); bool w = wr(fmt, os, s); H_CHECK(!w || b.got == txt, "success is reported although only ", b.got.size(), " of ", txt.size(), " bytes were accepted"); if (n >= txt.size()) H_CHECK(w, "failure is reported although all output was accepted"); os.setstate(std::ios::failbit); H_CHECK(!wr(fmt, os, s), "writing to a failed stream succeeds"); }
    else if (mode == 4) { if (txt.empty()) return; auto p = h::dir() + "/full18" + ext[fmt]; std::filesystem::remove(p); std::filesystem::create_symlink("/dev/full", p); bool w = write_triangle_soup(p, s); std::filesystem::remove(p); H_CHECK(!w, "success is reported although the device is full"); H_CHECK(!write_triangle_soup(h::dir() + "/none/x" + ext[fmt], s), "writing into a missing directory succeeds"); }
    else { auto base = h::dir() + "/u18"; for (auto e : {"", ".stl", "obj", ".ob", ".off2", "ply", ".txt", ".obj.bak"}) { auto p = base + e; std::filesystem::remove(p); H_CHECK(!write_triangle_soup(p, s), "writing to the extension '", e, "' succeeds"); { std::ofstream f(p); f << txt; } S t(s); H_CHECK(!read_triangle_soup(p, t), "reading from the extension '", e, "' succeeds"); std::filesystem::remove(p); } }
    if (nf || mode == 3 || mode == 4) h::nontrivial();
  });
}
