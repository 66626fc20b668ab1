// Generated OBJ / OFF / PLY text together with what a reader must make of it.
#pragma once
#include "h.h"
namespace text {
struct Want { bool ok = true; std::vector<std::array<double, 3>> v; std::vector<std::array<std::size_t, 3>> f; std::string why; };
struct Gen {
  h::Rng& r; Want w; std::vector<std::string> lines; bool crlf, lastnl;
  explicit Gen(h::Rng& q) : r(q) { crlf = r.coin(1, 4); lastnl = r.coin(3, 4); }
  std::string sp() { return r.coin(3, 4) ? " " : r.coin() ? "\t" : "   "; }
  std::string lead() { return r.coin(7, 8) ? "" : sp(); }
  std::string tail(bool comment) { std::string s = r.coin(7, 8) ? "" : sp(); if (comment && r.coin(1, 8)) s += " # note 1 2"; return s; }
  std::string num(double& d) {
    std::ostringstream o; switch (r.below(7)) {
      case 0: o << r.in(-9, 9); break; case 1: o << r.in(-99, 99) << "." << r.below(1000); break; case 2: o << "." << r.below(100); break;
      case 3: o << "+" << r.below(50) << "." << r.below(10); break; case 4: o << r.in(-9, 9) << "." << r.below(100) << (r.coin() ? "e" : "E") << r.in(-30, 30); break;
      case 5: o.precision(17); o << (r.unit() - 0.5) * 1000; break; default: o << r.in(0, 9) << "e+" << r.below(5); }
    d = std::strtod(o.str().c_str(), nullptr); return o.str();
  }
  void noise() { while (r.coin(1, 5)) lines.push_back(r.coin() ? sp() : lead() + "#" + (r.coin() ? " some v 1 2 3" : "")); }
  std::string body() const { std::string s; for (std::size_t i = 0; i < lines.size(); ++i) { s += lines[i]; if (i + 1 < lines.size() || lastnl) s += crlf ? "\r\n" : "\n"; } return s; }
  void bad(const char* why) { w.ok = false; w.why = why; }
  void fan(const std::vector<std::size_t>& p) { for (std::size_t i = 2; i < p.size(); ++i) w.f.push_back({p[0], p[i - 1], p[i]}); }
  std::string coords(bool allowbad) {   // three coordinates; sometimes malformed
    std::array<double, 3> p; std::string s; int kind = allowbad && r.coin(1, 60) ? r.in(1, 4) : 0;
    for (int k = 0; k < 3; ++k) { if (kind == 1 && k == 2) { bad("a coordinate is missing"); return s; } s += (k ? sp() : "") + num(p[k]); if (kind == 2 && k == 1) { s += "x"; bad("a coordinate is not a number"); } if (kind == 3 && k == 2) { s += " "; s.resize(s.size() - 1); s += ",0"; bad("a coordinate is not a number"); } }
    if (kind == 4) { s = r.pick(std::vector<std::string>{"1e999 0 0", "0 nan 1", "1 2 inf", "-1e400 1 1"}); bad("a coordinate is out of range"); }
    w.v.push_back(p); return s;
  }
  void obj() {
    int n = r.below(14);
    for (int i = 0; i < n && w.ok; ++i) {
      noise();
      int k = r.below(10);
      if (k < 5) { std::string s = lead() + "v" + sp() + coords(true); if (w.ok) { if (r.coin(1, 6)) s += sp() + "1.0"; if (r.coin(1, 8)) s += " 0.1 0.2 0.3"; s += tail(true); } lines.push_back(s); }
      else if (k < 9) {
        int c = r.coin(1, 2) ? 3 : r.below(7); std::string s = lead() + "f"; std::vector<std::size_t> p; int nv = static_cast<int>(w.v.size()); int badk = r.coin(1, 50) ? r.in(1, 4) : 0;
        for (int j = 0; j < c; ++j) { bool neg = nv && r.coin(1, 3); int x = nv ? r.below(nv) : r.below(5); s += sp() + h::cat(neg ? x - nv : x + 1); p.push_back(x); if (r.coin(1, 4)) { s += h::cat("/", r.in(1, 9)); if (r.coin()) s += h::cat("/", r.in(1, 9)); } else if (r.coin(1, 6)) s += h::cat("//", r.in(1, 9)); }
        if (badk == 1) { s += " 0"; bad("index zero"); } if (badk == 2) { s += " x"; bad("index is not a number"); } if (badk == 3) { s += " 99999999999999999999"; bad("index out of range"); } if (badk == 4) { s += " /3"; bad("index missing"); }
        if (w.ok) { s += tail(true); fan(p); }
        lines.push_back(s);
      } else lines.push_back(lead() + r.pick(std::vector<std::string>{"vn 0 0 1", "vt 0.5 0.5", "o thing", "g a b", "usemtl m", "s off", "l 1 2", "mtllib x.mtl", "vp 1"}));
    }
    noise();
  }
  std::string face(int nv, bool allowbad) {
    int c = r.coin(2, 3) ? 3 : r.below(7); std::string s = h::cat(c); std::vector<std::size_t> p; int badk = allowbad && r.coin(1, 40) ? r.in(1, 3) : 0;
    for (int j = 0; j < c; ++j) { int x = nv ? r.below(nv) : r.below(5); if (badk == 1 && j == c - 1) { bad("an index is missing"); return s; } s += sp() + h::cat(x); if (badk == 2 && j == 0 && c > 1) { s += "z"; bad("an index is not a number"); } p.push_back(x); }
    if (badk == 3) { s = r.coin() ? "1000000000000 0 1 2" : "-1 0 1 2"; bad("a list is longer than its line"); }
    if (w.ok) fan(p); return s;
  }
  void off() {
    noise(); int nv = r.below(7), nf = r.below(6), dv = 0, df = 0; int m = r.coin(1, 5) ? r.in(1, 7) : 0;
    std::string sig = r.pick(std::vector<std::string>{"OFF", "OFF", "COFF", "NOFF", "CNOFF", "STOFF", "STCNOFF"});
    if (m == 1) { sig = r.pick(std::vector<std::string>{"OF", "FOO", "OFF BINARY", "OFF junk", "4OFFX"}); bad("signature"); }
    lines.push_back(lead() + sig + (w.ok ? tail(true) : "")); noise();
    if (m == 2) dv = r.in(1, 2); if (m == 3) df = r.in(1, 2); if (m == 4) { df = -1; } if (m == 5) { dv = -1; }
    if (m == 6) { lines.push_back(r.coin() ? "3" : "x 1"); bad("counts"); } else lines.push_back(lead() + h::cat(nv + dv, sp(), nf + df, sp(), r.below(3)) + tail(true));
    if (nv + dv < 0 || nf + df < 0) bad("negative counts");
    if (dv > 0 || df > 0) bad("fewer elements than declared"); if (dv < 0 || df < 0) bad("more elements than declared");
    if (dv && nf == 0 && nv == 0) {}
    bool mism = !w.ok;
    for (int i = 0; i < nv; ++i) { noise(); std::string s = lead() + coords(!mism); if ((w.ok || mism) && r.coin(1, 6)) s += " 255 0 0"; lines.push_back(s + (w.ok ? tail(true) : "")); if (!w.ok && !mism) return; }
    for (int i = 0; i < nf; ++i) { noise(); std::string s = lead() + face(nv, !mism); bool okf = w.ok || mism; if (okf && r.coin(1, 6)) s += " 0.5 0.5 0.5"; lines.push_back(s + (okf ? tail(true) : "")); if (!okf) return; }
    noise();
  }
  void ply() {
    lastnl = true; int nv = r.below(7), nf = r.below(6), ne = r.below(3), dv = 0, df = 0; int m = r.coin(1, 4) ? r.in(1, 8) : 0; bool facefirst = r.coin(1, 6), extra = r.coin(1, 4); int extrapos = r.below(3);
    if (m == 1) dv = r.in(1, 2); if (m == 2) df = r.in(1, 2); if (m == 3) df = -1; if (m == 4) dv = -1; if (nv + dv < 0) dv = 0; if (nf + df < 0) df = 0;
    auto cm = [&] { while (r.coin(1, 6)) lines.push_back("comment something element vertex 3"); };
    lines.push_back(m == 5 ? "plx" : "ply"); cm(); lines.push_back(m == 6 ? "format binary_little_endian 1.0" : "format ascii 1.0"); cm(); if (m == 5 || m == 6) bad("signature or format");
    std::vector<std::string> vp{"x", "y", "z"}; if (r.coin(1, 3)) r.shuffle(vp); if (r.coin(1, 3)) vp.insert(vp.begin() + r.below(4), "#s"); if (r.coin(1, 4)) vp.insert(vp.begin() + r.below(static_cast<int>(vp.size()) + 1), "#l"); if (m == 7) { vp.erase(std::find(vp.begin(), vp.end(), "y")); bad("property y is missing"); }
    std::vector<std::string> fp{"i"}; if (r.coin(1, 3)) fp.insert(fp.begin() + r.below(2), "#s"); if (r.coin(1, 4)) fp.insert(fp.begin() + r.below(static_cast<int>(fp.size()) + 1), "#l"); if (m == 8) { fp.erase(std::find(fp.begin(), fp.end(), "i")); bad("the index list is missing"); }
    auto hv = [&] { lines.push_back(h::cat("element vertex ", nv + dv)); for (auto& p : vp) lines.push_back(p == "#s" ? "property uchar red" : p == "#l" ? "property list uchar float weights" : "property " + std::string(r.coin() ? "float " : "double ") + p); };
    auto hf = [&] { lines.push_back(h::cat("element face ", nf + df)); for (auto& p : fp) lines.push_back(p == "#s" ? "property uchar flags" : p == "#l" ? "property list uchar float tex" : std::string("property list uchar int ") + (r.coin() ? "vertex_index" : "vertex_indices")); };
    auto he = [&] { lines.push_back(h::cat("element edge ", ne)); lines.push_back("property int vertex1"); lines.push_back("property int vertex2"); };
    if (extra && extrapos == 0) he(); cm(); if (facefirst) hf(); else hv(); if (extra && extrapos == 1) he(); cm(); if (facefirst) hv(); else hf(); if (extra && extrapos == 2) he(); cm(); lines.push_back("end_header");
    if (w.ok && (dv > 0 || df > 0)) bad("fewer elements than declared"); if (w.ok && (dv < 0 || df < 0)) bad("more elements than declared");
    bool mism = !w.ok;
    auto be = [&] { for (int i = 0; i < ne; ++i) lines.push_back(h::cat(r.below(9), " ", r.below(9))); };
    auto bv = [&] { for (int i = 0; i < nv; ++i) { std::array<double, 3> p{}; std::string s = lead(); for (auto& q : vp) { if (&q != &vp[0]) s += sp(); if (q == "#s") s += h::cat(r.below(256)); else if (q == "#l") { int c = r.below(3); s += h::cat(c); for (int j = 0; j < c; ++j) s += " 0.5"; } else s += num(p[q[0] - 'x']); } w.v.push_back(p); if (!mism && r.coin(1, 60)) { s.resize(s.find_last_of(" \t") == std::string::npos ? 0 : s.find_last_of(" \t")); bad("a coordinate or property is missing"); } lines.push_back(s + tail(false)); if (!w.ok && !mism) return; } };
    auto bf = [&] { for (int i = 0; i < nf; ++i) { std::string s = lead(); for (auto& q : fp) { if (&q != &fp[0]) s += sp(); if (q == "#s") s += h::cat(r.below(256)); else if (q == "#l") { int c = r.below(3); s += h::cat(c); for (int j = 0; j < c; ++j) s += " 0.5"; } else { s += face(nv, !mism && fp.back() == "i"); if (!w.ok && !mism) { lines.push_back(s); return; } } } lines.push_back(s + tail(false)); } };
    if (extra && extrapos == 0) be(); if (facefirst) bf(); else bv(); if (!w.ok && !mism) return; if (extra && extrapos == 1) be(); if (facefirst) bv(); else bf(); if (!w.ok && !mism) return; if (extra && extrapos == 2) be();
  }
};
}  // namespace text
