// P06: geometry files
#include "common.hpp"
#include <Bembel/Geometry>
#include <unistd.h>
using namespace Bembel;
static Patch bez(int px, int py, int id) {
  std::vector<Mat> cp(4, Mat(py, px));
  for (int k = 0; k < 4; ++k) for (int j = 0; j < py; ++j) for (int i = 0; i < px; ++i) cp[k](j, i) = vc::in("p" + std::to_string(id) + "_" + std::to_string(k) + S_("_", j, i), k == 3 ? .5 : -1, k == 3 ? 2 : 1);
  std::vector<double> kx(2 * px, double(1.)), ky(2 * py, double(1.));
  for (int i = 0; i < px; ++i) kx[i] = 0.; for (int i = 0; i < py; ++i) ky[i] = 0.;
  return Patch(cp, kx, ky);
}
static void same(const std::string &tag, const std::vector<Patch> &a, const std::vector<Patch> &b, md tol) {
  vc::eq_int(tag + ".patches", a.size(), b.size());
  if (a.size() != b.size()) return;
  for (size_t n = 0; n < a.size(); ++n) {
    vc::eq_int(tag + ".order_x", a[n].polynomial_degree_x_, b[n].polynomial_degree_x_);
    vc::eq_int(tag + ".order_y", a[n].polynomial_degree_y_, b[n].polynomial_degree_y_);
    vc::eq_int(tag + ".size", a[n].data_.size(), b[n].data_.size());
    vc::eq_int(tag + ".ux", a[n].unique_knots_x_.size(), b[n].unique_knots_x_.size());
    vc::eq_int(tag + ".uy", a[n].unique_knots_y_.size(), b[n].unique_knots_y_.size());
    if (a[n].data_.size() != b[n].data_.size()) continue;
    for (size_t i = 0; i < a[n].data_.size(); ++i) vc::eq(tag + ".control", a[n].data_[i], b[n].data_[i], tol);
    if (a[n].unique_knots_x_.size() == b[n].unique_knots_x_.size()) for (size_t i = 0; i < a[n].unique_knots_x_.size(); ++i) vc::eq(tag + ".knots", a[n].unique_knots_x_[i], b[n].unique_knots_x_[i], tol);
    if (a[n].unique_knots_y_.size() == b[n].unique_knots_y_.size()) for (size_t i = 0; i < a[n].unique_knots_y_.size(); ++i) vc::eq(tag + ".knots", a[n].unique_knots_y_[i], b[n].unique_knots_y_[i], tol);
  }
}
static std::vector<Patch> some(int kase) {
  static const int D[8][6] = {{2, 2, 0, 0, 0, 0}, {2, 3, 0, 0, 0, 0}, {4, 2, 0, 0, 0, 0}, {3, 2, 2, 4, 0, 0}, {1, 3, 5, 2, 0, 0}, {2, 3, 3, 3, 4, 1}, {5, 4, 2, 2, 3, 2}, {6, 7, 1, 2, 0, 0}};
  std::vector<Patch> r;
  if (kase == 8) { for (int i = 0; i < 12; ++i) r.push_back(bez(1 + i % 4, 1 + (i * i + 2) % 5, i)); return r; }
  if (kase == 9) { for (int i = 0; i < 101; ++i) r.push_back(bez(i == 57 || i == 100 ? 3 : 2, i == 9 || i == 57 ? 3 : 2, i)); return r; }
  if (kase == 10) { r.push_back(bez(11, 10, 0)); r.push_back(bez(2, 12, 1)); return r; }
  for (int i = 0; i < 3; ++i) if (D[kase][2 * i]) r.push_back(bez(D[kase][2 * i], D[kase][2 * i + 1], i));
  return r;
}
static std::vector<std::string> lines(const std::string &f) {
  std::ifstream in(f); std::vector<std::string> r; std::string l;
  while (std::getline(in, l)) { while (!l.empty() && l.back() == '\r') l.pop_back(); r.push_back(l); }
  return r;
}
static std::vector<std::string> words(const std::string &l) { std::istringstream s(l); std::vector<std::string> r; std::string w; while (s >> w) r.push_back(w); return r; }
static double num(const std::string &w) { return atof(w.c_str()); }
template <class T> static std::string txt(const T &v) { std::ostringstream o; o << std::setprecision(17) << v; return o.str(); }
// general NURBS patch data
struct Nurbs { int ox, oy; std::vector<double> kx, ky; std::vector<Mat> cp; };
static Nurbs nurbs(int c, int id) {
  Nurbs n;
  if (c == 0) { n.ox = 2; n.oy = 3; n.kx = {0., 0., .5, 1., 1.}; n.ky = {0., 0., 0., 1., 1., 1.}; }
  if (c == 1) { n.ox = 3; n.oy = 2; n.kx = {0., 0., 0., 1., 1., 1.}; n.ky = {0., 0., .25, .75, 1., 1.}; }
  if (c == 2) { n.ox = 2; n.oy = 2; n.kx = {0., 0., 1., 1.}; n.ky = {0., 0., 1., 1.}; }
  if (c == 3) { n.ox = 3; n.oy = 2; n.kx = {0., 0., 0., .5, .5, 1., 1., 1.}; n.ky = {0., 0., .25, 1., 1.}; }
  if (c == 4) { n.ox = 4; n.oy = 3; n.kx = {0., 0., 0., 0., .125, .5, .5, .5, 1., 1., 1., 1.}; n.ky = {0., 0., 0., .25, .25, .75, 1., 1., 1.}; }
  if (c == 5) { n.ox = 1; n.oy = 2; n.kx = {0., .5, 1.}; n.ky = {0., 0., .125, .25, .5, .625, .75, .875, 1., 1.}; }
  if (c == 6) { n.ox = 2; n.oy = 6; n.kx = {0., 0., .0625, 1., 1.}; n.ky = {0., 0., 0., 0., 0., 0., 1., 1., 1., 1., 1., 1.}; }
  int nx = n.kx.size() - n.ox, ny = n.ky.size() - n.oy;
  for (int k = 0; k < 4; ++k) { Mat m(ny, nx); for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) m(j, i) = vc::in("n" + std::to_string(id) + "_" + std::to_string(k) + S_("_", j, i), k == 3 ? .5 : -1, k == 3 ? 2 : 1); n.cp.push_back(m); }
  return n;
}
// GeoPDEs file, homogeneous coordinates, x index fastest
static void geopdes(const std::string &f, const std::vector<Nurbs> &v, const std::string &eol) {
  std::ofstream o(f);
  o << "# nurbs mesh v.2.1" << eol << "#" << eol << "#" << eol << "#" << eol << "2 3 " << v.size() << " 0 0" << eol;
  for (size_t p = 0; p < v.size(); ++p) {
    auto &n = v[p];
    o << "PATCH " << p + 1 << eol << n.ox - 1 << " " << n.oy - 1 << eol << n.cp[0].cols() << " " << n.cp[0].rows() << eol;
    for (auto *k : {&n.kx, &n.ky}) { for (size_t i = 0; i < k->size(); ++i) o << (i ? " " : "") << txt((*k)[i]); o << eol; }
    for (int k = 0; k < 4; ++k) { for (int j = 0; j < n.cp[k].rows(); ++j) for (int i = 0; i < n.cp[k].cols(); ++i) o << (i + j ? " " : "") << txt(n.cp[k](j, i)); o << eol; }
  }
}
// IGES entity 128 file (cp given as Cartesian points and weights)
static void iges(const std::string &f, const std::vector<Nurbs> &v) {
  std::ofstream o(f);
  auto line = [&](std::string s, int w, char c, int n, int de = 0) { s.resize(w, ' '); if (de) { std::string d = std::to_string(de); s += std::string(8 - d.size(), ' ') + d; } std::string q = std::to_string(n); o << s << c << std::string(7 - q.size(), ' ') + q << "\n"; };
  line("spec", 72, 'S', 1); line("1H,,1H;,x,x;", 72, 'G', 1);
  std::vector<std::vector<std::string>> P;
  for (auto &n : v) {
    int nx = n.cp[0].cols(), ny = n.cp[0].rows();
    std::vector<std::string> w = {"128", std::to_string(nx - 1), std::to_string(ny - 1), std::to_string(n.ox - 1), std::to_string(n.oy - 1), "0", "0", "0", "0", "0"};
    for (auto x : n.kx) w.push_back(txt(x)); for (auto x : n.ky) w.push_back(txt(x));
    for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) w.push_back(txt(n.cp[3](j, i)));
    for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) for (int k = 0; k < 3; ++k) w.push_back(txt(n.cp[k](j, i)));
    for (auto s : {"0", "1", "0", "1", "0", "0"}) w.push_back(s);
    std::vector<std::string> L(1);
    for (size_t i = 0; i < w.size(); ++i) { std::string s = w[i] + (i + 1 < w.size() ? "," : ";"); if (L.back().size() + s.size() > 64) L.push_back(""); L.back() += s; }
    P.push_back(L);
  }
  int start = 1, d = 1;
  for (auto &L : P) {
    char b[100]; snprintf(b, 100, "%8d%8d%8d%8d%8d%8d%8d%8d%8d", 128, start, 0, 0, 0, 0, 0, 0, 0); line(b, 72, 'D', d++);
    snprintf(b, 100, "%8d%8d%8d%8d%8d%8s%8s%8s%8d", 128, 0, 0, (int)L.size(), 0, "", "", "", 0); line(b, 72, 'D', d++);
    start += L.size();
  }
  int n = 1, de = 1;
  for (auto &L : P) { for (auto &s : L) line(s, 64, 'P', n++, de); de += 2; }
  line("S      1G      1", 72, 'T', 1);
}
static Patch direct(Nurbs n, bool homogeneous) {
  if (!homogeneous) for (int k = 0; k < 3; ++k) for (int j = 0; j < n.cp[k].rows(); ++j) for (int i = 0; i < n.cp[k].cols(); ++i) n.cp[k](j, i) = n.cp[k](j, i) * n.cp[3](j, i);
  return Patch(n.cp, n.kx, n.ky);
}
int main(int argc, char **argv) {
  const std::string dat = "WriteDATFile;MakeFile;WritePatch;LoadGeometryFileDAT", igs = "writeIGSFile;writePatchData;makeSection;writeSection;writeParameterSection;writeDirectory;writeGlobalSection;LoadGeometryFileIGS";
  for (int c = 0; c < 11; ++c) {
    vc::add(S_("dat-roundtrip/", c), dat, [=] {
      auto in = some(c); WriteDATFile(in, "a.dat");
      same("dat", LoadGeometryFileDAT("a.dat"), in, 1e-12);
      Geometry g(std::string("a.dat"));
      same("geometry", g.get_geometry(), in, 1e-12);
      vc::eq_int("number_of_patches", g.get_number_of_patches(), in.size());
      // overwriting an existing file
      std::vector<Patch> in2 = {in.back()}; WriteDATFile(in2, "a.dat");
      same("overwrite", LoadGeometryFileDAT("a.dat"), in2, 1e-12);
    }, 3);
    vc::add(S_("dat-format/", c), dat, [=] {
      auto in = some(c); WriteDATFile(in, "a.dat");
      auto L = lines("a.dat");
      vc::eq_int("lines", L.size(), 5 + 9 * in.size());
      if (L.size() != 5 + 9 * in.size()) return;
      auto h = words(L[4]); vc::check("header", h.size() == 5 && h[0] == "2" && h[1] == "3" && h[2] == std::to_string(in.size()));
      for (size_t p = 0; p < in.size(); ++p) {
        int ox = in[p].polynomial_degree_x_, oy = in[p].polynomial_degree_y_; const std::string *l = &L[5 + 9 * p];
        vc::check("degrees", words(l[1]) == std::vector<std::string>{std::to_string(ox - 1), std::to_string(oy - 1)});
        vc::check("points", words(l[2]) == std::vector<std::string>{std::to_string(ox), std::to_string(oy)});
        for (int d = 0; d < 2; ++d) { auto w = words(l[3 + d]); int o = d ? oy : ox; vc::eq_int("knots", w.size(), 2 * o); for (int i = 0; i < (int)w.size(); ++i) vc::eq("knot", num(w[i]), double(i < o ? 0. : 1.)); }
        for (int k = 0; k < 4; ++k) { auto w = words(l[5 + k]); vc::eq_int("entries", w.size(), ox * oy); if ((int)w.size() == ox * oy) for (int j = 0; j < oy; ++j) for (int i = 0; i < ox; ++i) vc::eq("entry", num(w[j * ox + i]), in[p].data_[4 * (oy * i + j) + k], 1e-12); }
      }
    }, 3);
    vc::add(S_("igs-roundtrip/", c), igs, [=] {
      auto in = some(c); writeIGSFile(in, "a.igs", 17);
      same("igs", LoadGeometryFileIGS("a.igs"), in, 1e-12);
      Geometry g(std::string("a.igs"));
      same("geometry", g.get_geometry(), in, 1e-12);
      if (vc::native) { writeIGSFile(in, "b.igs", 9); same("digits9", LoadGeometryFileIGS("b.igs"), in, 3e-8); writeIGSFile(in, "b.igs"); same("digits6", LoadGeometryFileIGS("b.igs"), in, 3e-5); }
    }, 3);
    // the file name is written into the file: it may be of any length and hold any of the section letters
    if (c < 4) vc::add(S_("igs-path/", c), igs, [=] {
      auto in = some(c);
      static const char L[] = {'D', 'P', 'S', 'G', 'T', 'x'};
      static const int N[] = {1, 19, 29, 30, 31, 40, 55, 72, 90, 140, 230};
      std::string d(N[vc::choose("length", 0, 10)], L[vc::choose("letter", 0, 5)]); mkdir(d.c_str(), 0700);
      std::string f = d + "/a.igs"; writeIGSFile(in, f, 17);
      std::map<char, int> cnt;
      for (auto &l : lines(f)) { vc::eq_int("columns", l.size(), 80); if (l.size() != 80) return; vc::check("section", std::string("SGDPT").find(l[72]) != std::string::npos); vc::eq_int("sequence", atoi(l.substr(73).c_str()), ++cnt[l[72]]); }
      same("igs", LoadGeometryFileIGS(f), in, 1e-12);
    }, 66);
    vc::add(S_("igs-format/", c), igs, [=] {
      auto in = some(c); writeIGSFile(in, "a.igs", 17);
      auto L = lines("a.igs"); std::map<char, int> cnt; std::vector<std::string> D, P;
      for (auto &l : L) { vc::eq_int("columns", l.size(), 80); if (l.size() != 80) return; vc::eq_int("sequence", atoi(l.substr(73).c_str()), ++cnt[l[72]]); if (l[72] == 'D') D.push_back(l); if (l[72] == 'P') P.push_back(l); }
      vc::eq_int("directory", D.size(), 2 * in.size());
      if (D.size() != 2 * in.size()) return;
      for (size_t p = 0; p < in.size(); ++p) {
        int start = atoi(D[2 * p].substr(8, 8).c_str()), n = atoi(D[2 * p + 1].substr(24, 8).c_str());
        std::string all; bool ok = start >= 1 && start - 1 + n <= (int)P.size();
        vc::check("line-range", ok); if (!ok) return;
        for (int i = 0; i < n; ++i) { auto &l = P[start - 1 + i]; std::string b = l.substr(0, 64); while (!b.empty() && b.back() == ' ') b.pop_back(); all += b; vc::eq_int("back-pointer", atoi(l.substr(64, 8).c_str()), 2 * p + 1); }
        vc::check("terminator", !all.empty() && all.back() == ';');
        all.pop_back(); std::vector<std::string> w; std::stringstream s(all); std::string x; while (std::getline(s, x, ',')) w.push_back(x);
        int ox = in[p].polynomial_degree_x_, oy = in[p].polynomial_degree_y_, at = 10;
        vc::eq_int("entries", w.size(), 16 + 2 * ox + 2 * oy + 4 * ox * oy);
        if ((int)w.size() != 16 + 2 * ox + 2 * oy + 4 * ox * oy) continue;
        int head[5] = {128, ox - 1, oy - 1, ox - 1, oy - 1};
        for (int i = 0; i < 5; ++i) vc::eq_int("entity", atoi(w[i].c_str()), head[i]);
        for (int i = 0; i < 2 * ox; ++i) vc::eq("knot", num(w[at++]), double(i < ox ? 0. : 1.));
        for (int i = 0; i < 2 * oy; ++i) vc::eq("knot", num(w[at++]), double(i < oy ? 0. : 1.));
        for (int j = 0; j < oy; ++j) for (int i = 0; i < ox; ++i) vc::eq("weight", num(w[at++]), in[p].data_[4 * (oy * i + j) + 3], 1e-12);
        for (int j = 0; j < oy; ++j) for (int i = 0; i < ox; ++i) for (int k = 0; k < 3; ++k) vc::eq("point", num(w[at++]), in[p].data_[4 * (oy * i + j) + k] / in[p].data_[4 * (oy * i + j) + 3], 1e-12);
        for (int i = 0; i < 4; ++i) vc::eq("range", num(w[at++]), double(i & 1 ? 1. : 0.));
      }
    }, 3);
  }
  for (int c = 0; c < 8; ++c) for (int t = 0; t < 2; ++t) vc::add(S_(t ? "igs-load/" : "dat-load/", c), t ? igs : dat, [=] {
    static const int S[8][3] = {{0, -1, -1}, {1, -1, -1}, {2, 0, -1}, {3, -1, -1}, {1, 2, 3}, {0, 1, 2}, {4, 2, 5}, {6, 5, 4}};
    std::vector<Nurbs> v; std::vector<Patch> ref;
    for (int i = 0; i < 3; ++i) if (S[c][i] >= 0) { v.push_back(nurbs(S[c][i], i)); ref.push_back(direct(v.back(), !t)); }
    std::string fn = t ? "b.igs" : "b.dat";
    int variant = t ? 0 : vc::choose("line-ends", 0, 2);
    if (t) iges(fn, v); else geopdes(fn, v, variant == 0 ? "\n" : variant == 1 ? " \r\n" : "\r\n");
    same("load", t ? LoadGeometryFileIGS(fn) : LoadGeometryFileDAT(fn), ref, 1e-12);
    // suffix is taken from the file name, also below directories with dots
    mkdir("dir.v1", 0700); std::string pth[3] = {fn, "./" + fn, "dir.v1/my." + fn};
    int w = vc::choose("path", 0, 2);
    if (w == 2) { if (t) iges(pth[2], v); else geopdes(pth[2], v, "\n"); }
    Geometry g(pth[w]);
    same("geometry", g.get_geometry(), PatchShredder(ref), 1e-12);
    Geometry h; h.init_Geometry(pth[w]); same("init", h.get_geometry(), PatchShredder(ref), 1e-12);
  }, 3);
  // values of very different size, integers, zeros and negative numbers (text of different width)
  for (int c = 0; c < 6; ++c) vc::add(S_("special-values/", c), dat + ";" + igs, [=] {
    static const md V[12] = {0, -1, 1e-7, -123456.789, 1. / 3., -2. / 7e5, 1000000, 1, -1e-12, 99999.99999999, 12.5, -0.001}; static const md Wt[5] = {1, .5, 1e-3, 250, 1. / 3.};
    std::vector<Patch> in; for (int n = 0; n < 1 + c % 3; ++n) { int px = 1 + (c + n) % 4, py = 1 + (c * 2 + n) % 3; std::vector<Mat> cp(4, Mat(py, px)); std::vector<double> kx(2 * px, double(1.)), ky(2 * py, double(1.)); for (int i = 0; i < px; ++i) kx[i] = 0.; for (int i = 0; i < py; ++i) ky[i] = 0.;
      for (int k = 0; k < 4; ++k) for (int j = 0; j < py; ++j) for (int i = 0; i < px; ++i) { md w = Wt[(c + i + 2 * j + n) % 5]; cp[k](j, i) = k == 3 ? w : w * V[(c * 5 + 3 * i + 7 * j + 2 * k + n) % 12]; }
      in.push_back(Patch(cp, kx, ky)); }
    WriteDATFile(in, "s.dat"); writeIGSFile(in, "s.igs", 17); auto a = LoadGeometryFileDAT("s.dat"), b = LoadGeometryFileIGS("s.igs");
    same("dat", a, in, 1e-9); same("igs", b, in, 1e-9);
  }, 1);
  return vc::main_(argc, argv);
}
