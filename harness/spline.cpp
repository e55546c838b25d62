// B-spline evaluation (Cox-de Boor) and its derivative, 1-D and tensor product.
#include "common.hpp"
#include <Bembel/Spline>
using namespace Bembel;
// order p (degree) spline over the knot vector t; x lies in [t_l, t_{l+1})
static double N(const std::vector<double> &t, const std::vector<int> &id, int i, int p, int l, double x) {
  if (i > l || i + p < l) return 0.;
  if (p == 0) return i == l ? 1. : 0.;
  double r = 0.;
  if (id[i + p] != id[i]) r += (x - t[i]) / (t[i + p] - t[i]) * N(t, id, i, p - 1, l, x);
  if (id[i + p + 1] != id[i + 1]) r += (t[i + p + 1] - x) / (t[i + p + 1] - t[i + 1]) * N(t, id, i + 1, p - 1, l, x);
  return r;
}
static double dN(const std::vector<double> &t, const std::vector<int> &id, int i, int p, int l, double x) {
  double r = 0.;
  if (p == 0) return r;
  if (id[i + p] != id[i]) r += p / (t[i + p] - t[i]) * N(t, id, i, p - 1, l, x);
  if (id[i + p + 1] != id[i + 1]) r -= p / (t[i + p + 1] - t[i + 1]) * N(t, id, i + 1, p - 1, l, x);
  return r;
}
struct Knots { std::vector<double> t; std::vector<int> id; std::vector<int> first; int n; };
// open knot vector of degree p with interior multiplicities m; u = unique knots
static Knots mk(int p, const std::vector<int> &m, const std::vector<double> &u) {
  Knots k; int id = 0;
  auto put = [&](double v, int c) { for (int i = 0; i < c; ++i) { k.t.push_back(v); k.id.push_back(id); } k.first.push_back((int)k.t.size() - 1); ++id; };
  put(u.front(), p + 1);
  for (size_t i = 0; i < m.size(); ++i) put(u[i + 1], m[i]);
  put(u.back(), p + 1);
  k.n = (int)k.t.size() - p - 1;
  return k;
}
static std::vector<double> uniq(int nint, bool symbolic, const char *nm) {
  std::vector<double> u; u.push_back(0.);
  for (int i = 1; i <= nint; ++i) {
    if (symbolic) { double v = vc::in(S_(nm, i), (i - 0.45) / (nint + 1), (i + 0.45) / (nint + 1)); u.push_back(v); }
    else u.push_back(double(i * i + i) / double((nint + 1) * (nint + 1) + nint + 1));
  }
  u.push_back(1.);
  return u;
}
static double param(const char *nm, const std::vector<double> &u, int iv) {
  double x = vc::in(nm, 0, 1);
  if (iv == (int)u.size() - 1) return 1.;  // right end point
  if (vc::native && !vc::S().replaying) { double t = std::min(double(1.), std::max(double(0.), double(1.1 * x - .1))); x = u[iv] + t * (u[iv + 1] - u[iv]) * 0.999999; for (auto &q : vc::S().inputs) if (q.first == nm) q.second = vc::value(x); return x; }
  vc::require(vc::all({vc::le(u[iv], x), vc::lt(x, u[iv + 1])}));
  return x;
}
int main(int argc, char **argv) {
  struct Cfg { int p; std::vector<int> m; bool sym; };
  std::vector<Cfg> cfgs;
  for (int p = 0; p <= 4; ++p) { cfgs.push_back({p, {}, true}); cfgs.push_back({p, {1}, true}); cfgs.push_back({p, {1, 1}, p <= 3}); if (p >= 2) { cfgs.push_back({p, {2}, true}); cfgs.push_back({p, {p}, true}); cfgs.push_back({p, {1, p}, p <= 3}); } }
  for (int p = 5; p <= 9; ++p) { cfgs.push_back({p, {1, p, 2}, false}); cfgs.push_back({p, {}, false}); }
  cfgs.push_back({13, {1, 2}, false}); cfgs.push_back({18, {3}, false});
  for (auto c : cfgs) {
    std::string nm = ".p" + std::to_string(c.p) + ".m"; for (int v : c.m) nm += std::to_string(v);
    nm += c.sym ? ".anyknots" : ".knots";
    vc::add("DeBoor" + nm, "Spl::DeBoor (matrix, vector, matrix-list); Spl::DeBoorDer; Spl::deBoorDerGiveData", [=] {
      auto u = uniq(c.m.size(), c.sym, "u");
      Knots k = mk(c.p, c.m, u);
      int iv = vc::choose("interval", 0, (int)u.size() - 1);
      double x = param("x", u, iv);
      int l = k.first[std::min(iv, (int)u.size() - 2)];
      Mat P = min_("c", 2, k.n);
      std::vector<double> row(k.n); for (int i = 0; i < k.n; ++i) row[i] = P(0, i);
      Mat s(2, 1); s.setZero(); Mat d = s;
      for (int i = 0; i < k.n; ++i) for (int r = 0; r < 2; ++r) { s(r, 0) += P(r, i) * N(k.t, k.id, i, c.p, l, x); d(r, 0) += P(r, i) * dN(k.t, k.id, i, c.p, l, x); }
      Mat o = Spl::DeBoor<double>(P, k.t, {x});
      vc::eqm("value", o, s);
      auto ov = Spl::DeBoor<double>(row, k.t, std::vector<double>{x});
      vc::eq_int("points", ov.size(), 1); vc::eq("vector-overload", ov[0], s(0, 0));
      auto ol = Spl::DeBoor<double>(std::vector<Mat>{P, P + P}, k.t, std::vector<double>{x});
      vc::eqm("list-overload", ol[0], s); vc::eqm("list-overload", ol[1], s + s);
      if (c.p >= 1) {
        vc::eqm("derivative", Spl::DeBoorDer<double>(P, k.t, std::vector<double>{x}), d);
        auto dl = Spl::DeBoorDer<double>(std::vector<Mat>{P, P + P}, k.t, std::vector<double>{x});
        vc::eqm("derivative-list", dl[0], d); vc::eqm("derivative-list", dl[1], d + d);
        auto dd = Spl::deBoorDerGiveData<double>(std::vector<Mat>{P}, k.t);
        std::vector<double> t2(k.t.begin() + 1, k.t.end() - 1);
        vc::eqm("derivative-data", Spl::DeBoor<double>(dd[0], t2, std::vector<double>{x}), d);
      }
    }, 12);
    // several evaluation points keep their order; partition of unity
    vc::add("DeBoor.order" + nm, "Spl::DeBoor", [=] {
      auto u = uniq(c.m.size(), false, "u");
      Knots k = mk(c.p, c.m, u);
      std::vector<double> pts; for (size_t i = 0; i < u.size(); ++i) { pts.push_back(u[u.size() - 1 - i]); if (i + 1 < u.size()) pts.push_back((u[i] + u[i + 1]) / 2); }
      Mat P = min_("c", 1, k.n);
      Mat o = Spl::DeBoor<double>(P, k.t, pts);
      Mat one = Mat::Constant(1, k.n, double(1));
      Mat oo = Spl::DeBoor<double>(one, k.t, pts);
      vc::eq_int("count", o.cols(), pts.size());
      for (size_t i = 0; i < pts.size(); ++i) { vc::eq("order", o(0, i), Spl::DeBoor<double>(P, k.t, {pts[i]})(0, 0)); vc::eq("unity", oo(0, i), 1.); }
    }, 4);
  }
  for (int px = 0; px <= 3; ++px) for (int py = 0; py <= 3; ++py) {
    vc::add("DeBoorTP.p" + std::to_string(px) + std::to_string(py), "Spl::DeBoorTP; Spl::DeBoorTPDer", [=] {
      auto ux = uniq(1, false, "u"), uy = uniq(px == 2 ? 2 : 1, false, "v");
      Knots kx = mk(px, {1}, ux), ky = mk(py, px == 2 ? std::vector<int>{1, 1} : std::vector<int>{1}, uy);
      int a = vc::choose("ix", 0, (int)ux.size() - 1), b = vc::choose("iy", 0, (int)uy.size() - 1);
      double x = param("x", ux, a), y = param("y", uy, b);
      int lx = kx.first[std::min(a, (int)ux.size() - 2)], ly = ky.first[std::min(b, (int)uy.size() - 2)];
      Mat P = min_("c", ky.n, kx.n);
      double s = 0., sx = 0., sy = 0., sxy = 0.;
      for (int j = 0; j < ky.n; ++j) for (int i = 0; i < kx.n; ++i) {
        double nx = N(kx.t, kx.id, i, px, lx, x), ny = N(ky.t, ky.id, j, py, ly, y), dx = dN(kx.t, kx.id, i, px, lx, x), dy = dN(ky.t, ky.id, j, py, ly, y);
        s += P(j, i) * nx * ny; sx += P(j, i) * dx * ny; sy += P(j, i) * nx * dy; sxy += P(j, i) * dx * dy;
      }
      Mat o = Spl::DeBoorTP<double>(P, kx.t, ky.t, {x}, {y});
      vc::eq_int("shape", o.rows() * 100 + o.cols(), 101);
      vc::eq("value", o(0, 0), s);
      auto ol = Spl::DeBoorTP<double>(std::vector<Mat>{P, P + P}, kx.t, ky.t, std::vector<double>{x}, std::vector<double>{y});
      vc::eq("list", ol[0](0, 0), s); vc::eq("list", ol[1](0, 0), s + s);
      auto D = [&](bool bx, bool by) { return Spl::DeBoorTPDer<double>(P, kx.t, ky.t, std::vector<double>{x}, std::vector<double>{y}, bx, by)(0, 0); };
      auto DL = [&](bool bx, bool by) { return Spl::DeBoorTPDer<double>(std::vector<Mat>{P}, kx.t, ky.t, std::vector<double>{x}, std::vector<double>{y}, bx, by)[0](0, 0); };
      vc::eq("der00", D(false, false), s); vc::eq("der00", DL(false, false), s);
      if (px) { vc::eq("der10", D(true, false), sx); vc::eq("der10", DL(true, false), sx); }
      if (py) { vc::eq("der01", D(false, true), sy); vc::eq("der01", DL(false, true), sy); }
      if (px && py) { vc::eq("der11", D(true, true), sxy); vc::eq("der11", DL(true, true), sxy); }
    }, 6);
    vc::add("DeBoorTP.grid.p" + std::to_string(px) + std::to_string(py), "Spl::DeBoorTP", [=] {
      auto ux = uniq(1, false, "u"), uy = uniq(2, false, "v");
      Knots kx = mk(px, {1}, ux), ky = mk(py, {1, 1}, uy);
      std::vector<double> X{0.1, 0.75, 1.}, Y{0., 0.5};
      Mat P = min_("c", ky.n, kx.n);
      Mat o = Spl::DeBoorTP<double>(P, kx.t, ky.t, X, Y);
      vc::eq_int("shape", o.rows() * 100 + o.cols(), 302);
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) vc::eq("grid-order", o(i, j), Spl::DeBoorTP<double>(P, kx.t, ky.t, {X[i]}, {Y[j]})(0, 0));
    }, 3);
  }
  // knot vector utilities
  for (int p = 0; p <= 20; ++p)
    vc::add("knots.p" + std::to_string(p), "Spl::MakeBezierKnotVector; Spl::MakeUniformKnotVector; Spl::GetPolynomialDegreeFromKnotVector; Spl::ExtractUniqueKnotVector", [=] {
      auto b = Spl::MakeBezierKnotVector(p);
      vc::eq_int("bezier-size", b.size(), 2 * p);
      for (int i = 0; i < 2 * p; ++i) vc::eq("bezier", b[i], i < p ? 0. : 1.);
      int in = vc::choose("interior", 0, 5), rep = vc::choose("rep", 1, 3);
      auto u = Spl::MakeUniformKnotVector(p, in, rep);
      vc::eq_int("uniform-size", u.size(), 2 * p + in * rep);
      for (int i = 0; i < (int)u.size(); ++i) { double e = i < p ? 0. : i >= p + in * rep ? 1. : double((i - p) / rep + 1) / double(in + 1); vc::eq("uniform", u[i], e, 1e-12); }
      if (rep == 1) { auto u1 = Spl::MakeUniformKnotVector(p, in); vc::eq_int("uniform1-size", u1.size(), u.size()); for (size_t i = 0; i < u.size(); ++i) vc::eq("uniform1", u1[i], u[i]); }
      if (p >= 1) {
        vc::eq_int("degree", Spl::GetPolynomialDegreeFromKnotVector(u), p);
        auto q = Spl::ExtractUniqueKnotVector(u);
        vc::eq_int("unique-size", q.size(), in + 2);
        for (int i = 0; i < in + 2; ++i) vc::eq("unique", q[i], double(i) / double(in + 1), 1e-12);
      }
    }, 1);
  for (int n = 2; n <= 6; ++n)
    vc::add("locate.n" + std::to_string(n), "Spl::FindLocationInKnotVector; Spl::Rescale; Spl::ExtractUniqueKnotVector", [=] {
      auto u = uniq(n - 2, n <= 4, "u");
      int iv = vc::choose("interval", 0, n - 1);
      double x = param("x", u, iv);
      int loc = Spl::FindLocationInKnotVector(x, u);
      vc::eq_int("location", loc, std::min(iv, n - 2));
      double r = Spl::Rescale(x, u[loc], u[loc + 1]);
      vc::eq("affine", r * (u[loc + 1] - u[loc]) + u[loc], x);
      vc::prop("range", vc::all({vc::le(double(0), r), vc::le(r, double(1))}));
      std::vector<double> w; for (int i = 0; i < n; ++i) for (int k = 0; k <= (i * 7 + 1) % 3; ++k) w.push_back(u[i]);
      auto q = Spl::ExtractUniqueKnotVector(w);
      vc::eq_int("unique-size", q.size(), n);
      for (int i = 0; i < n && i < (int)q.size(); ++i) vc::eq("unique", q[i], u[i]);
    }, 40);
  for (int p = 0; p <= 6; ++p)
    vc::add("interpolation.p" + std::to_string(p), "Spl::GetCoefficients,GetInterpolationMatrix,MakeInterpolationMask", [=] {
      auto mask = Spl::MakeInterpolationMask(p + 1); vc::eq_int("mask-size", mask.size(), p + 1); for (int i = 0; i <= p; ++i) vc::eq("mask", mask[i], double(i + 1) / double(p + 2), 1e-12);
      int in = vc::choose("increments", 1, 3); std::vector<double> v(in * (p + 1)); for (size_t i = 0; i < v.size(); ++i) v[i] = vc::in(S_("v", i), -1, 1);
      auto c = Spl::GetCoefficients<double>(in, mask, v); vc::eq_int("count", c.size(), v.size());
      for (int k = 0; k < in; ++k) for (int j = 0; j <= p; ++j) { double s = 0.; for (int i = 0; i <= p; ++i) s += c[k * (p + 1) + i] * Bern(p, i, mask[j]); vc::eq("interpolates", s, v[k * (p + 1) + j], 1e-6); }
    }, 3);
  return vc::main_(argc, argv);
}
