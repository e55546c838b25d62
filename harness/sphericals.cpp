// P23: spherical harmonics
#include "harm.hpp"
#include <Bembel/HomogenisedLaplace>
using namespace Bembel;
// points of the sphere by the stereographic projection
static Eigen::Vector3d unit() { double u = vc::in("u", -2, 2), v = vc::in("v", -2, 2), w = 1. + u * u + v * v; return Eigen::Vector3d(2. * u / w, 2. * v / w, (1. - u * u - v * v) / w); }
static Eigen::Vector3d point() { Eigen::Vector3d x = v3("x"); vc::require(vc::lt(.01, dot3(x, x))); return x; }
static Vec coefficients(int deg) { return vin("c", (deg + 1) * (deg + 1)); }  // the negative orders do not contribute: cs(-m) = cs(m)
static void values(int deg) {
  vc::add(S_("values/", deg), "evaluate_sphericals,evaluate_dsphericals", [=] {
    Eigen::Vector3d x = unit(); Vec c = coefficients(deg); double s = 0.; Eigen::Vector3d g = Eigen::Vector3d::Constant(double(0.));
    for (int n = 0; n <= deg; ++n) for (int m = 0; m <= n; ++m) { Y y(n, m, x); double k = weight(m) * c(n * (n + 1) + m); s += k * y.v.real(); for (int i = 0; i < 3; ++i) g(i) += k * y.d[i].real(); }
    vc::eq("series", evaluate_sphericals(x, c, deg), s); Eigen::Vector3d d = evaluate_dsphericals(x, c, deg); for (int i = 0; i < 3; ++i) vc::eq("derivatives", d(i), g(i));
  });
}
static void solid(int deg) {
  vc::add(S_("solid/", deg), "evaluate_solid_sphericals,evaluate_dsolid_sphericals,functionalMatrix,pow_int", [=] {
    Eigen::Vector3d x = point(), y; double r = norm3(x); y = x / r; Vec c = coefficients(deg); double s = 0., t = 0.; Eigen::Vector3d g = Eigen::Vector3d::Constant(double(0.));
    for (int n = 0; n <= deg; ++n) for (int m = 0; m <= n; ++m) { Y h(n, m, y); double k = weight(m) * c(n * (n + 1) + m); s += k * ip(r, n) * h.v.real(); t += n ? k * double(n) * ip(r, n - 1) * h.v.real() : double(0.); for (int i = 0; i < 3; ++i) g(i) += k * (n >= 3 ? ip(r, n - 3) : 1. / ip(r, 3 - n)) * h.d[i].real(); }
    double v = evaluate_solid_sphericals(x, c, deg, false), w = evaluate_solid_sphericals(x, c, deg, true); vc::eq("series", v, s); vc::eq("radial-derivative", w, t);
    Eigen::Vector3d d = evaluate_dsolid_sphericals(x, c, deg); for (int i = 0; i < 3; ++i) vc::eq("derivatives", d(i), g(i));
    Eigen::Matrix3d A = functionalMatrix(x); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vc::eq("jacobian-of-normalisation", A(i, j), (i == j ? dot3(x, x) : double(0.)) - x(i) * x(j));
    for (int i = 0; i < 3; ++i) vc::eq("gradient-of-value", w * y(i) + A(i, 0) * d(0) + A(i, 1) * d(1) + A(i, 2) * d(2), vc::deriv([&](double z) { Eigen::Vector3d p = x; p(i) = z; return evaluate_solid_sphericals(p, c, deg, false); }, x(i)), 1e-6);
  });
}
static void full(int N) {
  vc::add(S_("full/", N), "spherical_harmonics_full,spherical_prev,Dsolid_harmonics_full,dsolid_spherical_prev,dspherical_prev,legendreFull,constant", [=] {
    Eigen::Vector3d x = point(), y; double r = norm3(x); y = x / r; Eigen::Matrix<double, -1, 2> h = spherical_harmonics_full(x, N); vc::eq_int("count", h.rows(), (N + 1) * (N + 1)); Eigen::Matrix<double, 3, -1> g = Dsolid_harmonics_full(x, N, h); vc::eq_int("count", g.cols(), (N + 1) * (N + 1));
    Vec L = legendreFull(N, vc::in("t", -1, 1));
    for (int n = 0; n <= N; ++n) for (int m = 0; m <= n; ++m) {
      vc::eq("legendre-derivative", L(n * (n + 1) / 2 + m), poly(legendre(n, m), vc::in("t", -1, 1))); vc::eq("norming-factor", constant(m, n), norming(n, m));
      Y s(n, m, y); int k = n * n + n; vc::eq("real-part", h(k + m, 0), s.v.real()); vc::eq("imaginary-part", h(k + m, 1), s.v.imag()); vc::eq("conjugate", h(k - m, 0), s.v.real()); vc::eq("conjugate", h(k - m, 1), -s.v.imag());
      Eigen::Matrix<double, 3, 2> d = dsolid_spherical_prev(x, m, n, legendreFull(N, x(2) / x.norm()), h(k + m, 0), h(k + m, 1));
      for (int i = 0; i < 3; ++i) { // gradient of r^n Y(x / r)
        C q(0., 0.); for (int j = 0; j < 3; ++j) q += s.d[j] * ((i == j ? double(1.) : double(0.)) - y(i) * y(j)); double p = n ? ip(r, n - 1) : 1. / r; q = q * p + s.v * (n ? double(n) * p * y(i) : double(0.));
        vc::eq("gradient-real-part", g(i, k + m), q.real()); vc::eq("gradient-real-part", g(i, k - m), q.real()); vc::eq("gradient", d(i, 0), q.real()); vc::eq("gradient", d(i, 1), q.imag()); }
      if (m) { Eigen::Matrix<double, 3, 2> e = dsolid_spherical_prev(x, -m, n, legendreFull(N, x(2) / x.norm()), h(k + m, 0), h(k + m, 1)); for (int i = 0; i < 3; ++i) { vc::eq("negative-order", e(i, 0), d(i, 0)); vc::eq("negative-order", e(i, 1), -d(i, 1)); } }
    }
  });
}
static void powers() { for (int n = -6; n <= 12; ++n) vc::add(S_("power/", n), "pow_int", [=] { double x = vc::in("x", -2, 2); vc::require(vc::lt(.01, x * x)); vc::eq("power", pow_int(x, n), n >= 0 ? ip(x, n) : 1. / ip(x, -n)); }); }
int main(int argc, char **argv) {
  for (int d = 0; d <= (vc::native ? 20 : 12); ++d) { values(d); solid(d); }
  for (int n = 0; n <= (vc::native ? 20 : 12); ++n) full(n);
  powers();
  return vc::main_(argc, argv);
}
