// The command line program (its own sources, main renamed) and its region loader on files in a scratch folder.
#include "soups.h"
#include "vox.h"
#include <kigumi/Boolean_region_builder.h>
#include <utility.h>
#include <filesystem>
using namespace kigumi; namespace fs = std::filesystem;
using R = Region<K, Null_data>; using SN = Triangle_soup<K, Null_data>;
int kigumi_main(int argc, const char* argv[]);
namespace {
struct Mute { std::streambuf *a, *b; Mute() : a(std::cout.rdbuf(nullptr)), b(std::cerr.rdbuf(nullptr)) {} ~Mute() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::cout.clear(); std::cerr.clear(); } };
int cli(std::vector<std::string> a) { h::note() += "$ kigumi"; for (auto& x : a) h::note() += " " + x; h::note() += "\n"; std::vector<const char*> v{"kigumi"}; for (auto& x : a) v.push_back(x.c_str()); Mute m; return kigumi_main(static_cast<int>(v.size()), v.data()); }
SN plain(const vox::Soup& s) { SN t; for (auto v : s.vertices()) t.add_vertex(s.point(v)); for (auto f : s.faces()) t.add_face(s.face(f)); return t; }
bool same(const R& a, const R& b) {
  if (a.is_empty() != b.is_empty() || a.is_full() != b.is_full()) return false; if (a.is_empty_or_full()) return true;
  auto &x = a.boundary(), &y = b.boundary(); if (x.num_vertices() != y.num_vertices() || x.num_faces() != y.num_faces()) return false;
  for (auto v : x.vertices()) if (x.point(v) != y.point(v)) return false; for (auto f : x.faces()) if (x.face(f) != y.face(f)) return false; return true;
}
bool load(const std::string& f, R& r) { Mute m; try { return read_region(f, r); } catch (const std::exception&) { return false; } }
bool store(const std::string& f, const R& r) { Mute m; return write_region(f, r); }
std::string slurp(const std::string& p) { std::ifstream i(p, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
void put(const std::string& p, const std::string& s) { std::ofstream o(p, std::ios::binary); o << s; }
struct Arg { std::string name; R r; };
Arg operand(h::Rng& r, const std::string& d, const std::string& base) {
  if (r.coin(1, 6)) { bool f = r.coin(); Arg a{f ? ":full:" : ":empty:", f ? R::full() : R::empty()}; if (r.coin()) { auto p = d + "/" + base + ".kigumi"; H_CHECK(store(p, a.r), "writing an operand fails"); a.name = p; } return a; }
  vox::Affine af = vox::random_affine(r, r.coin(2, 3)); for (auto& t : af.t) t += r.in(-2, 2); Arg a; auto s = vox::random_solid(r, false); a.r = R{plain(vox::boundary(s, af, r, 0))}; a.name = d + "/" + base + r.pick(std::vector<std::string>{".kigumi", ".obj", ".off", ".ply"}); H_CHECK(store(a.name, a.r), "writing an operand fails"); return a;
}
}
int main() {
  return h::run("command lines for boolean (operands from 4 file formats and placeholders, any subset of the 4 outputs in any option order), convert, and failing ones (missing, malformed, truncated, unsupported files, unwritable outputs, wrong usage), run in-process on files in a scratch folder; loader with each kind of destination; non-trivial when a boolean output is compared or a failure is due", 4000, 100000, [](long i, h::Rng& r) {
    auto d = h::dir() + "/cli"; fs::remove_all(d); fs::create_directory(d); soups::Threads tc(1);
    auto a = operand(r, d, "a"), b = operand(r, d, "b"); R back;
    H_CHECK(load(a.name, back) && same(back, a.r), "operand ", a.name, " is not loaded as written"); H_CHECK(load(b.name, back) && same(back, b.r), "operand ", b.name, " is not loaded as written");
    auto out = [&](const std::string& n, bool bin) { return d + "/" + n + (bin ? ".kigumi" : r.pick(std::vector<std::string>{".kigumi", ".obj", ".off", ".ply"})); };
    if (i % 5 <= 2) {
      std::vector<std::tuple<std::string, Boolean_operator, std::string>> o; for (auto [n, op] : {std::pair{"--int", Boolean_operator::K}, std::pair{"--uni", Boolean_operator::A}, std::pair{"--dif", Boolean_operator::L}, std::pair{"--sym", Boolean_operator::J}}) if (r.coin(2, 3)) o.emplace_back(n, op, out(n + 2, false));
      std::vector<std::string> args{"boolean"}; r.shuffle(o); bool named = r.coin(1, 4); std::size_t cutat = static_cast<std::size_t>(r.below(static_cast<int>(o.size()) + 1));
      std::unique_ptr<Boolean_region_builder<K, Null_data>> bld; bool bad = false; std::map<std::string, R> want; { Quiet q; try { bld = std::make_unique<Boolean_region_builder<K, Null_data>>(a.r, b.r); for (auto& [n, op, f] : o) want[f] = (*bld)(op); } catch (const std::exception&) { bad = true; } }
      for (std::size_t k = 0; k <= o.size(); ++k) { if (k == cutat) { if (named && r.coin()) { args.insert(args.end(), {"--second", b.name, "--first", a.name}); } else if (named) args.insert(args.end(), {"--first", a.name, "--second", b.name}); else args.insert(args.end(), {a.name, b.name}); } if (k < o.size()) { if (r.coin(1, 4)) args.push_back(std::get<0>(o[k]) + "=" + std::get<2>(o[k])); else args.insert(args.end(), {std::get<0>(o[k]), std::get<2>(o[k])}); } }
      int rc = cli(args); if (bad) { H_CHECK(rc != 0, "the operation raises an error and the exit status is 0"); return; }
      H_CHECK(rc == 0, "exit status ", rc);
      for (auto& [n, op, f] : o) { if (want[f].is_empty_or_full() && !f.ends_with(".kigumi")) continue; R got; H_CHECK(load(f, got), "the output of ", n, " is not readable"); auto w = want[f]; if (!f.ends_with(".kigumi")) { auto g = d + "/ref" + f.substr(f.rfind('.')); store(g, w); H_CHECK(slurp(g) == slurp(f), "the output of ", n, " is not the result of that operator"); } else H_CHECK(same(got, w), "the output of ", n, " is not the result of that operator"); h::nontrivial(); }
      for (auto n : {"int", "uni", "dif", "sym"}) for (auto e : {".kigumi", ".obj", ".off", ".ply"}) { auto f = d + "/" + n + e; if (!want.count(f)) H_CHECK(!fs::exists(f), "the file ", f, " was written but not asked for"); }
      return;
    }
    if (i % 5 == 3) { auto f = out("conv", a.r.is_empty_or_full()); auto args = r.coin() ? std::vector<std::string>{"convert", a.name, f} : std::vector<std::string>{"convert", "--out", f, "--in", a.name}; int rc = cli(args); H_CHECK(rc == 0, "convert: exit status ", rc); R got; H_CHECK(load(f, got) && same(got, a.r), "convert writes another region than it read"); rc = cli({"defects", a.name}); H_CHECK(rc == 0, "defects: exit status ", rc); return; }
    // failures
    std::string missing = d + "/missing.obj", sub = d + "/nodir/x.kigumi", full = d + "/full.kigumi", fullo = d + "/full.off", badobj = d + "/bad.obj", badoff = d + "/bad.off", badply = d + "/bad.ply", stl = d + "/x.stl", trunc = d + "/t.kigumi", dirk = d + "/dir.kigumi", none = d + "/none", emptyobj = d + "/empty.obj";
    fs::create_symlink("/dev/full", full); fs::create_symlink("/dev/full", fullo); put(badobj, "v 0 0 0\nv 1 0\nf 1 2 3\n"); put(badoff, "OFF\n3 2 0\n0 0 0\n1 0 0\n0 1 0\n3 0 1 2\n"); put(badply, "ply\nformat ascii 1.0\nelement vertex 3\nend_header\n"); put(stl, "solid\nendsolid\n"); put(none, "v 0 0 0\n"); put(emptyobj, "# nothing\n"); fs::create_directory(dirk);
    { auto whole = d + "/w.kigumi"; store(whole, a.r); auto s = slurp(whole); put(trunc, s.substr(0, static_cast<std::size_t>(r.below(static_cast<int>(s.size()))))); }
    std::vector<std::string> src{missing, badobj, badoff, badply, stl, trunc, dirk, none, emptyobj, "", ":none:", ":empty", d};
    for (auto& x : src) for (int k = 0; k < 3; ++k) { R dest = k == 0 ? R::empty() : k == 1 ? R::full() : a.r, copy(dest); H_CHECK(!load(x, dest), "loading ", x, " succeeds"); H_CHECK(same(dest, copy), "the destination changed although loading ", x, " failed"); }
    auto bad = r.pick(src); auto ok = out("o", true); auto unw = r.pick(std::vector<std::string>{sub, full, d + "/o.stl", d + "/o", d + "/nodir/y.obj"}); if (!a.r.is_empty_or_full() && r.coin(1, 4)) unw = fullo;
    h::nontrivial();
    H_CHECK(cli({"convert", bad, ok}) != 0, "convert exits with 0 although reading fails"); H_CHECK(!fs::exists(ok), "convert writes an output although reading fails");
    H_CHECK(cli({"convert", a.name, unw}) != 0, "convert exits with 0 although writing fails");
    H_CHECK(cli({"boolean", bad, b.name, "--uni", ok}) != 0 && cli({"boolean", a.name, bad, "--uni", ok}) != 0, "boolean exits with 0 although reading fails"); H_CHECK(!fs::exists(ok), "boolean writes an output although reading fails");
    { std::unique_ptr<Boolean_region_builder<K, Null_data>> bld; bool raises = false; R u; { Quiet q; try { bld = std::make_unique<Boolean_region_builder<K, Null_data>>(a.r, b.r); u = (*bld)(Boolean_operator::A); } catch (const std::exception&) { raises = true; } } (void)raises; auto w = unw == fullo ? full : unw; const char* opt = r.pick(std::vector<const char*>{"--uni", "--int", "--dif", "--sym"}); H_CHECK(cli({"boolean", a.name, b.name, opt, w}) != 0, "boolean exits with 0 although writing ", opt, " fails"); }
    H_CHECK(cli({"defects", bad}) != 0, "defects exits with 0 although reading fails");
    for (auto& x : std::vector<std::vector<std::string>>{{}, {"frobnicate"}, {"boolean"}, {"boolean", a.name}, {"boolean", a.name, b.name, "--xyz", ok}, {"boolean", a.name, b.name, "--int"}, {"convert"}, {"convert", a.name}, {"defects"}, {"boolean", a.name, b.name, a.name}, {"convert", a.name, ok, ok}}) H_CHECK(cli(x) != 0, "wrong usage exits with 0");
    fs::remove_all(d);
  });
}
