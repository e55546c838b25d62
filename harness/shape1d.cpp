// 1-D Bernstein shape functions: every degree the library supports.
#include "vc.hpp"
#include <Bembel/Spline>
using namespace Bembel;
typedef Basis::ShapeFunctionHandler H;
static double binom(int n, int k) { double r = 1; for (int i = 1; i <= k; ++i) r = r * (n - k + i) / i; return r; }
static double ip(double x, int n) { double r = 1; for (int i = 0; i < n; ++i) r = r * x; return r; }
static double B(int p, int i, double x) { if (i < 0 || i > p) return 0.; return binom(p, i) * ip(x, i) * ip(1 - x, p - i); }
static double D(int p, int i, double x) { return p == 0 ? double(0) : p * (B(p - 1, i - 1, x) - B(p - 1, i, x)); }
// the compile-time entry points: accumulating evaluation and evaluation at several points
template <int P> void fixed_degree() {
  std::string t = ".p" + std::to_string(P);
  vc::add("accumulate" + t, "EvalBernsteinBasisPEQ; EvalBernsteinDerBasisPEQ; EvalBernsteinBasis; EvalBernsteinDerBasis", [] {
    double x = vc::in("x", 0, 1);
    std::vector<double> b(P + 3, double(777)), c(P + 3, double(777)), a(P + 1), e(P + 1, double(0)), f(P + 1, double(0));
    for (int i = 0; i <= P; ++i) b[i + 1] = c[i + 1] = a[i] = vc::in("a" + std::to_string(i), -1, 1);
    Basis::EvalBernsteinBasisPEQ<double, P>(b.data() + 1, x);
    Basis::EvalBernsteinBasis<double, P>(e.data(), x);
    if constexpr (P > 0) { Basis::EvalBernsteinDerBasisPEQ<double, P>(c.data() + 1, x); Basis::EvalBernsteinDerBasis<double, P>(f.data(), x); }
    for (int i = 0; i <= P; ++i) {
      vc::eq("adds-values", b[i + 1], a[i] + B(P, i, x));
      vc::eq("values", e[i], B(P, i, x));
      if (P) { vc::eq("adds-derivatives", c[i + 1], a[i] + D(P, i, x)); vc::eq("derivatives", f[i], D(P, i, x)); }
    }
    vc::eq("frame", b[0] + b[P + 2] + c[0] + c[P + 2], 4 * 777.);
  }, 40);
  vc::add("points" + t, "EvalBernstein(vector); EvalBernsteinDer(vector)", [] {
    int n = vc::choose("points", 0, 3);
    std::vector<double> c(P + 1), x(n);
    for (int i = 0; i < n; ++i) x[i] = vc::in("x" + std::to_string(i), 0, 1);
    for (int i = 0; i <= P; ++i) c[i] = vc::in("c" + std::to_string(i), -1, 1);
    std::vector<double> o(n + 2, double(777)), r = Basis::EvalBernstein<double, P>(c.data(), x), od(n + 2, double(777)), rd;
    Basis::EvalBernstein<double, P>(c.data(), x, o.data() + 1);
    if constexpr (P > 0) { rd = Basis::EvalBernsteinDer<double, P>(c.data(), x); Basis::EvalBernsteinDer<double, P>(c.data(), x, od.data() + 1); vc::eq_int("count-derivatives", rd.size(), n); }
    vc::eq_int("count", r.size(), n);
    for (int k = 0; k < n; ++k) {
      double v = 0., d = 0.;
      for (int i = 0; i <= P; ++i) { v += c[i] * B(P, i, x[k]); d += c[i] * D(P, i, x[k]); }
      vc::eq("value", o[k + 1], v); vc::eq("returned-value", r[k], v);
      if (P) { vc::eq("derivative", od[k + 1], d); vc::eq("returned-derivative", rd[k], d); }
    }
    vc::eq("frame", o[0] + o[n + 1] + od[0] + od[n + 1], 4 * 777.);
  }, 20);
}
template <int... I> void all_degrees(std::integer_sequence<int, I...>) { (fixed_degree<I>(), ...); }
int main(int argc, char **argv) {
  for (int p = 0; p <= Constants::MaxP; ++p) {
    std::string t = ".p" + std::to_string(p);
    vc::add("evalBasis" + t, "Basis::ShapeFunctionHandler::evalBasis,ptrEvalBasis; EvalBernsteinBasis; Bernstein; BernsteinX", [=] {
      double x = vc::in("x", 0, 1);
      std::vector<double> b(p + 3, double(777)), c(p + 3, double(777));
      H::evalBasis(p, b.data() + 1, x);
      H::ptrEvalBasis(p)(c.data() + 1, x);
      double s = 0.;
      for (int i = 0; i <= p; ++i) { vc::eq("value", b[i + 1], B(p, i, x)); vc::eq("pointer", c[i + 1], B(p, i, x)); s += b[i + 1]; }
      vc::eq("partition-of-unity", s, 1.);
      vc::eq("frame", b[0] + b[p + 2] + c[0] + c[p + 2], 4 * 777.);
    }, 40);
    vc::add("evalDerBasis" + t, "Basis::ShapeFunctionHandler::evalDerBasis,ptrEvalDerBasis; EvalBernsteinDerBasis", [=] {
      double x = vc::in("x", 0, 1);
      std::vector<double> b(p + 3, double(777)), c(p + 3, double(777));
      H::evalDerBasis(p, b.data() + 1, x);
      H::ptrEvalDerBasis(p)(c.data() + 1, x);
      for (int i = 0; i <= p; ++i) {
        double spec = p == 0 ? double(0) : p * (B(p - 1, i - 1, x) - B(p - 1, i, x));
        vc::eq("value", b[i + 1], spec); vc::eq("pointer", c[i + 1], spec);
        double d = vc::deriv([&](double z) { std::vector<double> v(p + 1); H::evalBasis(p, v.data(), z); return v[i]; }, x);
        vc::eq("is-derivative-of-evalBasis", b[i + 1], d, 1e-5);
      }
      vc::eq("frame", b[0] + b[p + 2] + c[0] + c[p + 2], 4 * 777.);
    }, 40);
    vc::add("phi" + t, "Basis::BasisHandler::phi,phiDx", [=] {
      double x = vc::in("x", 0, 1), w = vc::in("w", -1, 1); Eigen::Matrix<double, -1, 1> a(p + 1), b(p + 1); for (int i = 0; i <= p; ++i) { a(i) = vc::in("o" + std::to_string(i), -1, 1); b(i) = a(i) + 1.; } auto a0 = a, b0 = b;
      Basis::BasisHandler<double>::phi(p, &a, w, x); Basis::BasisHandler<double>::phiDx(p, &b, w, x);
      for (int i = 0; i <= p; ++i) { vc::eq("accumulates", a(i), a0(i) + w * B(p, i, x)); vc::eq("accumulates-derivative", b(i), b0(i) + w * (p == 0 ? double(0.) : p * (B(p - 1, i - 1, x) - B(p - 1, i, x)))); }
    }, 10);
    vc::add("evalCoef" + t, "Basis::ShapeFunctionHandler::evalCoef,evalDerCoef; EvalBernstein; EvalBernsteinDer", [=] {
      double x = vc::in("x", 0, 1);
      std::vector<double> c(p + 1);
      for (int i = 0; i <= p; ++i) c[i] = vc::in("c" + std::to_string(i), -1, 1);
      std::vector<double> c0 = c;
      double v = 0., d = 0.;
      for (int i = 0; i <= p; ++i) { v += c[i] * B(p, i, x); if (p) d += c[i] * p * (B(p - 1, i - 1, x) - B(p - 1, i, x)); }
      vc::eq("value", H::evalCoef(p, c.data(), x), v);
      vc::eq("derivative", H::evalDerCoef(p, c.data(), x), d);
      for (int i = 0; i <= p; ++i) vc::eq("frame", c[i], c0[i]);
    }, 40);
  }
  all_degrees(std::make_integer_sequence<int, 21>());
  return vc::main_(argc, argv);
}
