// Text readers on generated files against what the files declare.
#include "soups.h"
#include "text.h"
#include <kigumi/Triangle_soup_io.h>
#include <filesystem>
#include <sys/resource.h>
using namespace kigumi; using soups::S;
struct Mute { std::streambuf *a, *b; Mute() : a(std::cout.rdbuf(nullptr)), b(std::cerr.rdbuf(nullptr)) {} ~Mute() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::cout.clear(); std::cerr.clear(); } };
static bool same(const S& a, const S& b) { if (a.num_vertices() != b.num_vertices() || a.num_faces() != b.num_faces()) return false; for (auto v : a.vertices()) if (a.point(v) != b.point(v)) return false; for (auto f : a.faces()) if (a.face(f) != b.face(f) || !(a.data(f) == b.data(f))) return false; return true; }
int main() {
  struct rlimit lim{6ull << 30, 6ull << 30}; setrlimit(RLIMIT_AS, &lim);   // a huge declared count must not be allocated
  return h::run("generated OBJ / OFF / PLY text: comments, blank lines, CRLF, odd spacing, number notations, extra tokens, properties, elements and keywords, polygons, v/t/n and negative indices, wrong counts, malformed lines, other signatures; from streams and files; non-trivial when faces are read or a failure is due", 80000, 5000000, [](long i, h::Rng& r) {
    S before = soups::random(r, r.below(5), 0, 3); if (before.num_vertices() >= 3) for (int k = r.below(4); k--;) { auto f = before.add_face(face(0, 1, 2)); before.data(f).i = k + 3; }
    S dest(before); int fmt = r.below(3); std::string name[3] = {"obj", "off", "ply"};
    if (i % 400 == 7) {   // unreadable sources
      auto d = h::dir() + "/r17." + name[fmt]; std::filesystem::remove_all(d); if (r.coin()) std::filesystem::create_directory(d); h::note() = "directory or missing file " + name[fmt]; bool ok; { std::unique_ptr<Mute> m(std::getenv("H_LOUD") ? nullptr : new Mute); ok = read_triangle_soup(d, dest); } std::filesystem::remove_all(d); H_CHECK(!ok, "reading a directory or missing file succeeds"); H_CHECK(same(dest, before), "the mesh changed although reading failed"); return;
    }
    text::Gen g(r); if (fmt == 0) g.obj(); else if (fmt == 1) g.off(); else g.ply();
    auto t = g.body(); h::note() = name[fmt] + (g.w.ok ? "" : " (" + g.w.why + ")") + ": " + t; bool ok;
    { std::unique_ptr<Mute> m(std::getenv("H_LOUD") ? nullptr : new Mute); if (i % 5 == 0) { auto p = h::dir() + "/r17f." + name[fmt]; { std::ofstream o(p, std::ios::binary); o << t; } ok = read_triangle_soup(p, dest); } else { std::istringstream is(t); ok = fmt == 0 ? io::read_obj(is, dest) : fmt == 1 ? io::read_off(is, dest) : io::read_ply(is, dest); } }
    if (!g.w.ok) { H_CHECK(!ok, "reading succeeds: ", g.w.why); H_CHECK(same(dest, before), "the mesh changed although reading failed"); h::nontrivial(); return; }
    H_CHECK(ok, "a well-formed file is rejected"); H_CHECK(dest.num_vertices() == g.w.v.size(), dest.num_vertices(), " vertices instead of ", g.w.v.size()); H_CHECK(dest.num_faces() == g.w.f.size(), dest.num_faces(), " faces instead of ", g.w.f.size());
    for (std::size_t k = 0; k < g.w.v.size(); ++k) { auto& q = g.w.v[k]; H_CHECK(dest.point(V(k)) == Point(q[0], q[1], q[2]), "vertex ", k, " is ", dest.point(V(k))); }
    for (std::size_t k = 0; k < g.w.f.size(); ++k) for (int c = 0; c < 3; ++c) H_CHECK(dest.face(Fi(k))[c].idx() == g.w.f[k][c], "face ", k, ", corner ", c, " is vertex ", dest.face(Fi(k))[c].idx(), " instead of ", g.w.f[k][c]);
    if (!g.w.f.empty()) h::nontrivial();
  });
}
