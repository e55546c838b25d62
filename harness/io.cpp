// P24: exported files
#include "fun.hpp"
#include <Bembel/IO>
#include <unistd.h>
static std::string file(const std::string &n) { static int k = 0; const char *d = getenv("VC_WORK"); return std::string(d ? d : "/tmp") + "/" + n + std::to_string(getpid()) + "_" + std::to_string(k++); }
static std::string slurp(const std::string &f) { std::ifstream in(f, std::ios::binary); std::ostringstream s; s << in.rdbuf(); unlink(f.c_str()); return s.str(); }
static std::vector<std::string> words(const std::string &l) { std::istringstream s(l); std::vector<std::string> r; std::string w; while (s >> w) r.push_back(w); return r; }
static std::vector<std::string> lines(const std::string &l) { std::istringstream s(l); std::vector<std::string> r; std::string w; while (std::getline(s, w)) r.push_back(w); return r; }
static std::vector<double> numbers(const std::string &l) { std::vector<double> r; for (auto &w : words(l)) r.push_back(atof(w.c_str())); return r; }
// xml: elements with the path of their parents, attributes and text; ok: well nested
struct El { std::string path; std::map<std::string, std::string> at; std::string text; };
struct Xml { std::vector<El> e; bool ok = true;
  explicit Xml(const std::string &s) { std::vector<int> st; std::vector<std::string> names; size_t i = 0;
    while (i < s.size()) { if (s[i] != '<') { if (!st.empty()) e[st.back()].text += s[i]; else if (!isspace(s[i])) ok = false; ++i; continue; }
      size_t b = s.find('>', i); if (b == std::string::npos) { ok = false; return; } std::string t = s.substr(i + 1, b - i - 1); i = b + 1;
      if (t[0] == '/') { if (names.empty() || names.back() != t.substr(1)) { ok = false; return; } names.pop_back(); st.pop_back(); continue; }
      size_t k = t.find(' '); names.push_back(t.substr(0, k)); El x; for (auto &n : names) x.path += "/" + n;
      while (k != std::string::npos && k < t.size()) { size_t eq = t.find('=', k); if (eq == std::string::npos) break; size_t q = t.find('"', eq), q2 = t.find('"', q + 1); if (q2 == std::string::npos) { ok = false; break; } std::string nm = words(t.substr(k, eq - k))[0]; x.at[nm] = t.substr(q + 1, q2 - q - 1); k = q2 + 1; }
      st.push_back(e.size()); e.push_back(x); }
    ok = ok && st.empty(); }
  std::vector<El> in(const std::string &p) const { std::vector<El> r; for (auto &x : e) if (x.path == p) r.push_back(x); return r; } };
static int integer(const std::string &s) { auto w = words(s); return w.size() == 1 ? atoi(w[0].c_str()) : -1; }
static void numbers_equal(const std::string &tag, const std::string &text, const std::vector<double> &v, md tol = 2e-5) { auto n = numbers(text); vc::eq_int(tag + "-count", n.size(), v.size()); for (size_t i = 0; i < std::min(n.size(), v.size()); ++i) vc::eq(tag, n[i], v[i], tol); }
static void integers_equal(const std::string &tag, const std::string &text, const std::vector<int> &v) { auto n = words(text); vc::eq_int(tag + "-count", n.size(), v.size()); for (size_t i = 0; i < std::min(n.size(), v.size()); ++i) vc::eq_int(tag, n[i] == std::to_string(v[i]), 1); }
struct Set { std::string name; int comp; std::vector<double> v; };
static void sets(const std::vector<El> &d, size_t first, const std::vector<Set> &s, md scale = 1) {
  vc::eq_int("data-sets", d.size() - first, s.size()); if (d.size() - first != s.size()) return;
  for (size_t i = 0; i < s.size(); ++i) { El x = d[first + i]; vc::eq_int("name", x.at["Name"] == s[i].name, 1); vc::eq_int("components", integer(x.at["NumberOfComponents"]), s[i].comp); auto n = numbers(x.text); vc::eq_int("data-count", n.size(), s[i].v.size()); for (size_t k = 0; k < std::min(n.size(), s[i].v.size()); ++k) vc::eq("data", n[k] / double(scale), s[i].v[k] / double(scale), 2e-5); }
}
template <class M> std::vector<double> rows(const M &m) { std::vector<double> r; for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) r.push_back(m(i, j)); return r; }
static void points(int n, md scale) {
  vc::add(S_("points/", n) + (scale < 1 ? "-small" : scale > 1 ? "-large" : ""), "VTKPointExport::VTKPointExport,VTKPointExport::addDataSet,VTKPointExport::addComplexDataSet,VTKPointExport::writeToFile,VTKPointExport::clearData", [=] {
    Mat p = min_("x", n, 3), a = min_("a", n, 1) * double(scale), b = min_("b", n, 3) * double(scale), c = min_("c", n, 3) * double(scale), d = min_("d", n, 3) * double(scale), e = min_("e", n, 1), f = min_("f", n, 1); Eigen::Matrix<double, -1, 3> q = p; MatC z(n, 3), w(n, 1); for (int i = 0; i < n; ++i) { w(i) = C(e(i), f(i)); for (int j = 0; j < 3; ++j) z(i, j) = C(c(i, j), d(i, j)); }
    VTKPointExport x(q);
    for (int turn = 0; turn < 3; ++turn) {
      if (turn == 1) x.clearData();
      if (turn == 2) { for (int i = 0; i < n / 2; ++i) p.row(i).swap(p.row(n - 1 - i)); q = p; x.init_VTKPointExport(q); }
      std::vector<Set> s; if (turn == 0) { x.addDataSet("scalar", a); x.addDataSet("vector", b); x.addComplexDataSet("wave", z); x.addComplexDataSet("w", w); s = {{"scalar", 1, rows(a)}, {"vector", 3, rows(b)}, {"wave_real", 3, rows(c)}, {"wave_imag", 3, rows(d)}}; }
      if (turn == 2) { x.addDataSet("again", b); s = {{"again", 3, rows(b)}}; }
      std::string fn = file("p"); x.writeToFile(fn); Xml m(slurp(fn)); vc::eq_int("well-formed", m.ok, 1); std::string top = "/VTKFile/PolyData/Piece";
      auto v = m.in("/VTKFile"), pc = m.in(top), pt = m.in(top + "/Points/DataArray"), dt = m.in(top + "/PointData/DataArray"); vc::eq_int("sections", v.size() == 1 && pc.size() == 1 && pt.size() == 1 && dt.size() >= 1, 1); if (v.size() != 1 || pc.size() != 1 || pt.size() != 1 || dt.size() < 1) return;
      vc::eq_int("type", v[0].at["type"] == "PolyData", 1); vc::eq_int("number-of-points", integer(pc[0].at["NumberOfPoints"]), n); vc::eq_int("components", integer(pt[0].at["NumberOfComponents"]), 3); numbers_equal("points", pt[0].text, rows(p));
      std::vector<int> id(n); for (int i = 0; i < n; ++i) id[i] = i; vc::eq_int("name", dt[0].at["Name"] == "number", 1); integers_equal("number", dt[0].text, id);
      if (turn == 0) { std::vector<El> t(dt.begin(), dt.end()), u(dt.end() - std::min<size_t>(2, dt.size()), dt.end()); sets(u, 0, {{"w_real", 1, rows(e)}, {"w_imag", 1, rows(f)}}); t.resize(std::max<size_t>(2, t.size()) - 2); sets(t, 1, s, scale); } else sets(dt, 1, s, scale);
    }
  });
}
static double cub(double a, int k) { return vc::in(S_("k", k), -1, 1) * a + vc::in(S_("l", k), -1, 1) * a * a; }
static double fx(const Eigen::Vector3d &x, int k) { return cub(x(0), k) + cub(x(1), k + 1) - cub(x(2), k + 2) + .125 * k; }
static double fp(int patch, const Eigen::Vector2d &s, int k) { return cub(s(0), k) - cub(s(1), k + 1) + (.5 * patch + .25) * vc::in(S_("m", k), -1, 1); }
static void domain(int nx, int ny, int nz) {
  vc::add(S_("domain/", nx) + S_("-", ny) + S_("-", nz), "VTKDomainExport::VTKDomainExport,VTKDomainExport::addDataSet,VTKDomainExport::addDataSet_,VTKDomainExport::writeToFile,VTKDomainExport::clearData", [=] {
    Vec a = vin("x", nx), b = vin("y", ny), c = vin("z", nz); VTKDomainExport x(a, b, c); md small = 1e-7;
    for (int turn = 0; turn < 3; ++turn) {
      if (turn == 1) x.clearData(); if (turn == 2) { std::swap(a, c); x.init_VTKDomainExport(a, b, c); }
      std::vector<double> p, f, g, h; for (int k = 0; k < c.size(); ++k) for (int j = 0; j < b.size(); ++j) for (int i = 0; i < a.size(); ++i) { Eigen::Vector3d q(a(i), b(j), c(k)); for (int r = 0; r < 3; ++r) { p.push_back(q(r)); g.push_back(fx(q, 3 * r)); } f.push_back(fx(q, 9) * double(small)); }
      std::function<double(const Eigen::Vector3d &)> F = [&](const Eigen::Vector3d &q) { return double(fx(q, 9) * double(small)); }; std::function<Eigen::Vector3d(const Eigen::Vector3d &)> G = [](const Eigen::Vector3d &q) { return Eigen::Vector3d(fx(q, 0), fx(q, 3), fx(q, 6)); };
      if (turn != 1) { x.addDataSet("field", G); x.addDataSet("value", F); }
      std::string fn = file("d"); x.writeToFile(fn); Xml m(slurp(fn)); vc::eq_int("well-formed", m.ok, 1); std::string top = "/VTKFile/StructuredGrid/Piece"; auto v = m.in("/VTKFile"), gr = m.in("/VTKFile/StructuredGrid"), pc = m.in(top), pt = m.in(top + "/Points/DataArray"), dt = m.in(top + "/PointData/DataArray");
      vc::eq_int("sections", v.size() == 1 && gr.size() == 1 && pc.size() == 1 && pt.size() == 1, 1); if (v.size() != 1 || gr.size() != 1 || pc.size() != 1 || pt.size() != 1) return;
      vc::eq_int("type", v[0].at["type"] == "StructuredGrid", 1); std::vector<int> ext = {0, (int)a.size() - 1, 0, (int)b.size() - 1, 0, (int)c.size() - 1}; integers_equal("extent", gr[0].at["WholeExtent"], ext); integers_equal("extent", pc[0].at["Extent"], ext); numbers_equal("points", pt[0].text, p);
      if (turn == 1) { vc::eq_int("cleared", dt.size(), 0); continue; }
      vc::eq_int("data-sets", dt.size(), 2); if (dt.size() == 2) { sets({dt[0]}, 0, {{"field", 3, g}}); sets({dt[1]}, 0, {{"value", 1, f}}, small); }
    }
  });
}
static void surface(int g, int M) {
  vc::add(std::string("surface/") + gname(g) + S_("/", M), "VTKSurfaceExport::init_VTKSurfaceExport,VTKSurfaceExport::addDataSet,VTKSurfaceExport::addDataSet_,VTKSurfaceExport::getData_,VTKSurfaceExport::writeToFile,VTKSurfaceExport::clearData,getEvaluatorFunction_::get", [=] {
    Geometry geo = gnamed(g); VTKSurfaceExport x(geo, M); ClusterTree ct(geo, M); const PatchVector &pv = geo.get_geometry(); std::vector<int> patch; std::vector<Eigen::Vector2d> mid, llc; std::vector<Eigen::Vector3d> pos;
    for (auto e = ct.get_element_tree().cpbegin(); e != ct.get_element_tree().cpend(); ++e) { double h = std::ldexp(1., -M); patch.push_back(e->patch_); llc.push_back(e->llc_); mid.push_back(Eigen::Vector2d(e->llc_(0) + h / 2., e->llc_(1) + h / 2.)); pos.push_back(pv[e->patch_].eval(mid.back())); }
    int n = patch.size(); typedef const Eigen::Vector2d &P2; typedef const Eigen::Vector3d &P3; typedef Eigen::Vector3d V; typedef Eigen::Matrix<C, 3, 1> W;
    x.addDataSet("old", std::function<double(int, P2)>([](int, P2) { return double(1.); })); x.clearData();
    std::vector<Set> s; auto put = [&](const std::string &nm, int comp, int re, int im, bool space) { for (int part = 0; part < (im < 0 ? 1 : 2); ++part) { Set t{im < 0 ? nm : nm + (part ? "_imag" : "_real"), comp, {}}; for (int i = 0; i < n; ++i) for (int k = 0; k < comp; ++k) { int f = (part ? im : re) + k; t.v.push_back(space ? fx(pos[i], f) : fp(patch[i], mid[i], f)); } s.push_back(t); } };
    x.addDataSet("a", std::function<double(int, P2)>([](int p, P2 q) { return fp(p, q, 0); })); put("a", 1, 0, -1, false);
    x.addDataSet("b", std::function<C(int, P2)>([](int p, P2 q) { return C(fp(p, q, 1), fp(p, q, 2)); })); put("b", 1, 1, 2, false);
    x.addDataSet("c", std::function<V(int, P2)>([](int p, P2 q) { return V(fp(p, q, 3), fp(p, q, 4), fp(p, q, 5)); })); put("c", 3, 3, -1, false);
    x.addDataSet("d", std::function<W(int, P2)>([](int p, P2 q) { return W(C(fp(p, q, 3), fp(p, q, 6)), C(fp(p, q, 4), fp(p, q, 7)), C(fp(p, q, 5), fp(p, q, 8))); })); put("d", 3, 3, 6, false);
    x.addDataSet("e", std::function<double(P3)>([](P3 q) { return fx(q, 0); })); put("e", 1, 0, -1, true);
    x.addDataSet("f", std::function<C(P3)>([](P3 q) { return C(fx(q, 1), fx(q, 2)); })); put("f", 1, 1, 2, true);
    x.addDataSet("g", std::function<V(P3)>([](P3 q) { return V(fx(q, 3), fx(q, 4), fx(q, 5)); })); put("g", 3, 3, -1, true);
    x.addDataSet("h", std::function<W(P3)>([](P3 q) { return W(C(fx(q, 3), fx(q, 6)), C(fx(q, 4), fx(q, 7)), C(fx(q, 5), fx(q, 8))); })); put("h", 3, 3, 6, true);
    if (M < 2) { // functions of an ansatz space
      AnsatzSpace<OpK> k(geo, 0, 1, 1); Vec c = coefs<OpK>(k, "ck"); x.addDataSet("i", k, c); FunctionEvaluator<OpK> ek(k); ek.set_function(c); Set t{"i", 1, {}}; for (int i = 0; i < n; ++i) t.v.push_back(ek.evaluateOnPatch(patch[i], mid[i])(0)); s.push_back(t);
      AnsatzSpace<OpVc> v(geo, 0, 1, 1); VecC z = coefs<OpVc>(v, "cv"); x.addDataSet("j", v, z); FunctionEvaluator<OpVc> ev(v); ev.set_function(z); Set re{"j_real", 3, {}}, im{"j_imag", 3, {}}; for (int i = 0; i < n; ++i) { auto u = ev.evaluateOnPatch(patch[i], mid[i]); for (int q = 0; q < 3; ++q) { re.v.push_back(u(q).real()); im.v.push_back(u(q).imag()); } } s.push_back(re); s.push_back(im);
    }
    std::string fn = file("s"); x.writeToFile(fn); Xml m(slurp(fn)); vc::eq_int("well-formed", m.ok, 1); std::string top = "/VTKFile/PolyData/Piece"; auto v = m.in("/VTKFile"), pc = m.in(top), pt = m.in(top + "/Points/DataArray"), dt = m.in(top + "/CellData/DataArray"), po = m.in(top + "/Polys/DataArray");
    bool sec = v.size() == 1 && pc.size() == 1 && pt.size() == 1 && dt.size() >= 2 && po.size() == 2; vc::eq_int("sections", sec, 1); if (!sec) return;
    vc::eq_int("type", v[0].at["type"] == "PolyData", 1); vc::eq_int("number-of-cells", integer(pc[0].at["NumberOfPolys"]), n); vc::eq_int("name", dt[0].at["Name"] == "patch_number" && dt[1].at["Name"] == "cell_normals" && po[0].at["Name"] == "connectivity" && po[1].at["Name"] == "offsets", 1);
    auto p = numbers(pt[0].text); vc::eq_int("number-of-points", integer(pc[0].at["NumberOfPoints"]) * 3, p.size()); integers_equal("patch-number", dt[0].text, patch);
    std::vector<double> nr; for (int i = 0; i < n; ++i) { Eigen::Vector3d q = pv[patch[i]].evalNormal(mid[i]); double l = norm3(q); for (int r = 0; r < 3; ++r) nr.push_back(q(r) / l); } numbers_equal("cell-normals", dt[1].text, nr); vc::eq_int("components", integer(dt[1].at["NumberOfComponents"]), 3); vc::eq_int("components", integer(pt[0].at["NumberOfComponents"]), 3);
    std::vector<int> off; for (int i = 0; i < n; ++i) off.push_back(4 * (i + 1)); integers_equal("offsets", po[1].text, off);
    auto cn = words(po[0].text); vc::eq_int("connectivity", cn.size(), 4 * n); double h = std::ldexp(1., -M);
    for (int i = 0; i < n && (int)cn.size() == 4 * n; ++i) for (int k = 0; k < 4; ++k) { int id = atoi(cn[4 * i + k].c_str()); vc::eq_int("point-index", id >= 0 && 3 * id + 2 < (int)p.size(), 1); if (id < 0 || 3 * id + 2 >= (int)p.size()) return; Eigen::Vector3d q = pv[patch[i]].eval(Eigen::Vector2d(llc[i](0) + (k == 1 || k == 2 ? h : double(0.)), llc[i](1) + (k >= 2 ? h : double(0.)))); for (int r = 0; r < 3; ++r) vc::eq("corner", p[3 * id + r], q(r), 2e-5); }
    sets(dt, 2, s);
  });
}
static std::string matrix(const std::string &name, const Mat &m, std::vector<std::string> l, size_t at, md tol) { // checks the matrix written from this line on
  vc::eq_int("matlab-head", at < l.size() && l[at] == name + "=[", 1); vc::eq_int("matlab-rows", at + m.rows() + 1 < l.size(), 1); if (at + m.rows() + 1 >= l.size()) return "";
  for (int i = 0; i < m.rows(); ++i) { std::vector<double> r; for (int j = 0; j < m.cols(); ++j) r.push_back(m(i, j)); numbers_equal("matlab-entries", l[at + 1 + i], r, tol); } vc::eq_int("matlab-end", l[at + 1 + m.rows()] == "];", 1); return ""; }
static double re_(const double &x) { return x; } static double im_(const double &) { return double(0.); } static double re_(const C &x) { return x.real(); } static double im_(const C &x) { return x.imag(); }
template <class T> void binary(const T &m, bool block) {
  typedef typename T::Scalar S; std::string fn = file("b"); if (block) IO::print2bin(fn, m.block(1, 1, m.rows() - 1, m.cols() - 1)); else IO::print2bin(fn, m);
  Eigen::Matrix<S, -1, -1> r; int rc = IO::bin2Mat(fn, &r); int o = block ? 1 : 0; vc::eq_int("read", rc, 0); vc::eq_int("rows", r.rows(), m.rows() - o); vc::eq_int("cols", r.cols(), m.cols() - o); if (r.rows() != m.rows() - o || r.cols() != m.cols() - o) return;
  for (int i = 0; i < r.rows(); ++i) for (int j = 0; j < r.cols(); ++j) { vc::eq("entry", re_(r(i, j)), re_(m(i + o, j + o)), 0); vc::eq("entry", im_(r(i, j)), im_(m(i + o, j + o)), 0); }
  Eigen::Matrix<S, -1, -1, Eigen::RowMajor> q; vc::eq_int("read", IO::bin2Mat(fn, &q), 0); bool same = q.rows() == r.rows() && q.cols() == r.cols(); vc::prop("row-major-target", vc::tru(same)); if (same) for (int i = 0; i < r.rows(); ++i) for (int j = 0; j < r.cols(); ++j) vc::eq("entry", re_(q(i, j)), re_(r(i, j)), 0);
  Eigen::Matrix<float, -1, -1> f(1, 1); f(0, 0) = 3; vc::eq_int("other-scalar-rejected", IO::bin2Mat(fn, &f) != 0 && f.rows() == 1 && f.cols() == 1, 1); unlink(fn.c_str());
}
static void texts(int r, int c) {
  vc::add(S_("matrix/", r, c), "print2ascii,print2m,print2bin,bin2Mat", [=] {
    Mat a = min_("a", r, c), b = min_("b", c, r), big = a * double(1e6); std::string fn = file("t");
    vc::eq_int("return", IO::print2ascii(fn, a), 0); auto l = lines(slurp(fn)); vc::eq_int("text-rows", l.size(), r); if ((int)l.size() == r) for (int i = 0; i < r; ++i) { std::vector<double> v; for (int j = 0; j < c; ++j) v.push_back(a(i, j)); numbers_equal("text-entries", l[i], v, 1e-9); }
    fn = file("t"); IO::print2ascii(fn, big.transpose()); l = lines(slurp(fn)); vc::eq_int("text-rows", l.size(), c); if ((int)l.size() == c) for (int i = 0; i < c; ++i) { std::vector<double> v; for (int j = 0; j < r; ++j) v.push_back(a(j, i)); auto n = numbers(l[i]); vc::eq_int("text-columns", n.size(), r); if ((int)n.size() == r) for (int j = 0; j < r; ++j) vc::eq("text-entries", n[j] / 1e6, v[j], 1e-9); }
    fn = file("t"); vc::eq_int("return", IO::print2m(fn, "A", a, "w"), 0); vc::eq_int("return", IO::print2m(fn, "Bb", b, "a"), 0); vc::eq_int("unknown-mode", IO::print2m(fn, "A", a, "x"), 1);
    { std::ifstream in(fn); std::ostringstream s; s << in.rdbuf(); l = lines(s.str()); } vc::eq_int("matlab-lines", l.size(), r + c + 4); matrix("A", a, l, 0, 1e-14); matrix("Bb", b, l, r + 2, 1e-14);
    IO::print2m(fn, "A", a, "w"); l = lines(slurp(fn)); vc::eq_int("matlab-lines", l.size(), r + 2); matrix("A", a, l, 0, 1e-14);
    // sparse matrices
    std::vector<Eigen::Triplet<double>> t; for (int j = 0; j < c; ++j) for (int i = 0; i < r; ++i) if ((i * 3 + j * 5) % 4 != 1) t.push_back(Eigen::Triplet<double>(i, j, a(i, j))); Eigen::SparseMatrix<double> s(r, c); s.setFromTriplets(t.begin(), t.end()); int n = s.nonZeros(); fn = file("t");
    IO::print2m(fn, "B", b, "w"); IO::print2m(fn, "S", s, "a"); { std::ifstream in(fn); std::ostringstream o; o << in.rdbuf(); l = lines(o.str()); } vc::eq_int("matlab-lines", l.size(), c + 2 + 3 * (n + 2) + 1); Mat ri(n, 1), ci(n, 1), va(n, 1); for (int k = 0; k < n; ++k) { ri(k) = double(t[k].row() + 1); ci(k) = double(t[k].col() + 1); va(k) = t[k].value(); }
    size_t o = c + 2; matrix("B", b, l, 0, 1e-14); matrix("rows_S", ri, l, o, 1e-14); matrix("cols_S", ci, l, o + n + 2, 1e-14); matrix("values_S", va, l, o + 2 * (n + 2), 1e-14); vc::eq_int("matlab-sparse", !l.empty() && l.back() == "S = sparse(rows_S,cols_S,values_S);", 1);
    IO::print2m(fn, "S", s, "w"); l = lines(slurp(fn)); vc::eq_int("matlab-lines", l.size(), 3 * (n + 2) + 1); matrix("rows_S", ri, l, 0, 1e-14);
    binary(a, false); MatC z(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) z(i, j) = C(a(i, j), b(j, i)); binary(z, false); Eigen::Matrix<double, -1, -1, Eigen::RowMajor> rm = a; binary(rm, false); if (r > 1 && c > 1) { binary(a, true); binary(rm, true); }
    fn = file("b"); IO::print2bin(fn, a); IO::print2bin(fn, b); Mat q; IO::bin2Mat(fn, &q); unlink(fn.c_str()); bool same = q.rows() == c && q.cols() == r; vc::prop("file-replaced", vc::tru(same)); if (same) for (int i = 0; i < c; ++i) for (int j = 0; j < r; ++j) vc::eq("entry", q(i, j), b(i, j), 0);
  });
}
static void logger() {
  vc::add("logger", "Logger::file", [] {
    double a = vc::in("a", -1, 1), b = vc::in("b", 1, 10), c = vc::in("c", -1, 1); std::string fn = file("l");
    { IO::Logger<12> log(fn); log.file("level", "error", "dofs"); log.file(3, a, 1024); log.file(b); log.file(4, c * 1e-9, std::string("x")); }
    auto read = [&] { std::ifstream in(fn); std::ostringstream s; s << in.rdbuf(); return lines(s.str()); }; auto l = read(); vc::eq_int("lines", l.size(), 4); if (l.size() != 4) return;
    vc::eq_int("words", words(l[0]) == std::vector<std::string>({"level", "error", "dofs"}), 1); auto w = words(l[1]); vc::eq_int("columns", w.size(), 3); if (w.size() == 3) { vc::eq_int("words", w[0] == "3" && w[2] == "1024", 1); vc::eq("value", atof(w[1].c_str()), a, 1e-7); }
    w = words(l[2]); vc::eq_int("columns", w.size(), 1); if (w.size() == 1) vc::eq("value", atof(w[0].c_str()), b, 1e-6); w = words(l[3]); vc::eq_int("columns", w.size(), 3); if (w.size() == 3) { vc::eq_int("words", w[0] == "4" && w[2] == "x", 1); vc::eq("value", atof(w[1].c_str()) * 1e9, c, 1e-6); }
    { IO::Logger<10> log(fn, ",", std::fstream::app); log.file(7, a); } auto m = read(); vc::eq_int("appended", m.size(), 5); for (size_t i = 0; i < std::min(m.size(), l.size()); ++i) vc::eq_int("kept", m[i] == l[i], 1); if (m.size() == 5) { size_t k = m[4].find(','); vc::eq_int("separator", k != std::string::npos && words(m[4].substr(0, k)) == std::vector<std::string>({"7"}), 1); if (k != std::string::npos) vc::eq("value", atof(m[4].c_str() + k + 1), a, 1e-5); }
    { IO::Logger<10> log(fn, ","); log.file(8); } m = read(); vc::eq_int("replaced", m.size(), 1); { IO::Logger<> log(fn, std::fstream::app); log.file(9); } m = read(); vc::eq_int("appended", m.size(), 2); unlink(fn.c_str());
  });
}
int main(int argc, char **argv) {
  for (int n : {1, 2, 5, 9}) points(n, 1); points(4, 1e-9); points(4, 1e9);
  for (int x = 1; x <= 3; ++x) for (int y = 1; y <= 3; ++y) for (int z = 1; z <= 3; ++z) domain(x, y, z); domain(5, 2, 4);
  for (int g = 0; g < 5; ++g) for (int M = 0; M <= 2; ++M) surface(g, M);
  for (int r = 1; r <= 4; ++r) for (int c = 1; c <= 4; ++c) texts(r, c);
  if (vc::native) { points(300, 1); points(101, 1e-9); domain(20, 1, 30); domain(1, 40, 2); domain(11, 12, 13); for (int g = 0; g < 5; ++g) surface(g, 3 + g % 2); texts(60, 17); texts(1, 200); texts(150, 3); }
  logger();
  return vc::main_(argc, argv);
}
