// P27: the homogenised Laplace operator
#include "harm.hpp"
#include <Eigen/Dense>
#ifndef VC_NATIVE
#define POINT_DEGREE 1
// contract of the least squares solver: some vector (which one is decided by the quadratic functional it gets)
struct LS { static Mat &A() { static Mat a; return a; } static Vec &b() { static Vec a; return a; } };
namespace Eigen {
template <> class ColPivHouseholderQR<Mat> { Mat A; public: explicit ColPivHouseholderQR(const Mat &a) : A(a) {} template <class B> Vec solve(const MatrixBase<B> &b) const { LS::A() = A; LS::b() = b; return vin("x", A.cols(), -.1, .1); } };
}
#endif
#include "fun.hpp"
#include "ops.hpp"
#include <Bembel/Potential>
#include <Bembel/HomogenisedLaplace>
using namespace Bembel;
typedef HomogenisedLaplaceSingleLayerOperator Op; typedef HomogenisedLaplaceSingleLayerPotential<Op> Pot; typedef Eigen::Vector3d V3;
// sum over the neighbouring cells of the fundamental solution plus |x|^2 / 6
static double lattice(const V3 &x) { double s = 0.; for (int c = 0; c < 27; ++c) { V3 z = x - V3(double(c / 9 - 1), double(c / 3 % 3 - 1), double(c % 3 - 1)); s += 1. / norm3(z); } return s / (4. * PI) + dot3(x, x) / 6.; }
static double series(const V3 &x, const Vec &c, int deg) { double r = norm3(x), s = 0.; V3 y = x / r; for (int n = 0; n <= deg; ++n) for (int m = 0; m <= n; ++m) s += weight(m) * c(n * (n + 1) + m) * ip(r, n) * Y(n, m, y).v.real(); return s; }
static double dseries(const V3 &x, const Vec &c, int deg, int d) { double r = norm3(x), s = 0.; V3 y = x / r; for (int n = 1; n <= deg; ++n) for (int m = 0; m <= n; ++m) { Y h(n, m, y); double g = double(n) * y(d) * h.v.real(); for (int j = 0; j < 3; ++j) g += h.d[j].real() * ((j == d ? double(1.) : double(0.)) - y(j) * y(d)); s += weight(m) * c(n * (n + 1) + m) * ip(r, n - 1) * g; } return s; }
static double dlattice(const V3 &x, int d) { double s = 0.; for (int c = 0; c < 27; ++c) { V3 z = x - V3(double(c / 9 - 1), double(c / 3 % 3 - 1), double(c % 3 - 1)); double r = norm3(z); s -= z(d) / (r * r * r); } return s / (4. * PI) + x(d) / 3.; }
// the distances to the lattice points, as in the code
static std::vector<double> distances(const V3 &x) { std::vector<double> r; for (int c = 0; c < 27; ++c) { double n = (x - V3(double(c / 9 - 1), double(c / 3 % 3 - 1), double(c % 3 - 1))).norm(); vc::seal(n); r.push_back(n); } return r; }
static bool away(const V3 &x) { for (int c = 0; c < 27; ++c) { V3 z = x - V3(double(c / 9 - 1), double(c / 3 % 3 - 1), double(c % 3 - 1)); vc::require(vc::lt(.02, dot3(z, z))); } return true; }
static const md precisions[] = {1e-2, 1.1e-4, 5e-5, 1.1e-6, 9e-7, 1e-7};
// points of a face of the cell and of the opposite one
struct Face { std::vector<V3> x; std::vector<double> w; Face(int d) { GaussSquare<POINT_DEGREE> GS; auto &Q = GS[POINT_DEGREE]; for (int k = 0; k < Q.w_.size(); ++k) { V3 v; v(d) = double(-.5); v((d + 1) % 3) = Q.xi_(0, k) - .5; v((d + 2) % 3) = Q.xi_(1, k) - .5; x.push_back(v); w.push_back(Q.w_(k)); } } };
static V3 opposite(V3 v, int d) { v(d) = v(d) + 1.; return v; }
int main(int argc, char **argv) {
  vc::add("modified-kernel", "k_mod,Dk_mod", [] { V3 x = v3("x", -1, 1); away(x); vc::eq("lattice-sum", k_mod(x), lattice(x), 1e-7); });
  vc::add("gradient-of-the-modified-kernel", "Dk_mod", [] { V3 x = v3("x", -1, 1); away(x); auto r = distances(x); V3 g = Dk_mod(x); for (int i = 0; i < 3; ++i) { double w = 0.; for (int c = 0; c < 27; ++c) w -= (x(i) - double((i == 0 ? c / 9 : i == 1 ? c / 3 % 3 : c % 3) - 1)) / (r[c] * r[c] * r[c]); vc::eq("gradient", g(i), w / (4. * PI) + x(i) / 3., 1e-7); if (vc::native) vc::eq("gradient-of-the-kernel", g(i), vc::deriv([&](double z) { V3 y = x; y(i) = z; return k_mod(y); }, x(i)), 1e-4); } });
  for (int k = 0; k < 6; ++k) { md p = precisions[k]; std::string nm = "precision" + std::to_string(k);
    int deg = k < 2 ? 4 : k < 4 ? 8 : 12;
    if (!vc::native && (k & 1 || deg > 8)) continue;  // the degree decides
    vc::add("coefficients/" + nm, "getCoefficients,getDisplacement,calculateFirstCoefficient,getDegree", [=] {
      Vec c = getCoefficients(double(p)); int d = getDegree(double(p)); vc::eq_int("number-of-coefficients", c.size(), (d + 1) * (d + 1));
      for (int n = 0; n <= d; ++n) for (int m = 1; m <= n; ++m) vc::eq("negative-orders", c(n * (n + 1) - m), c(n * (n + 1) + m));
      // mean over the cell
      double s = 0.; for (int f = 0; f < 3; ++f) { Face F(f); for (size_t i = 0; i < F.x.size(); ++i) { s += F.w[i] * (lattice(F.x[i]) + series(F.x[i], c, d) - c(0) * norming(0, 0)); } }
      vc::eq("vanishing-mean", c(0) * norming(0, 0), -(s / 3. + 1. / 24.), 1e-9);
#ifdef VC_NATIVE
      // normal equations of the least squares problem, perturbing single coefficients; mean deviation from periodicity
      std::vector<double> r; std::vector<std::vector<double>> A((d + 1) * (d + 2) / 2 - 1);
      for (int f = 0; f < 3; ++f) for (auto &x : Face(f).x) { V3 y = opposite(x, f); r.push_back(lattice(x) + series(x, c, d) - lattice(y) - series(y, c, d)); r.push_back(dlattice(x, f) + dseries(x, c, d, f) - dlattice(y, f) - dseries(y, c, d, f));
        double rx = norm3(x), ry = norm3(y); V3 ux = x / rx, uy = y / ry; int j = 0; for (int n = 1; n <= d; ++n) for (int m = 0; m <= n; ++m) { Y a(n, m, ux), b(n, m, uy); A[j].push_back(std::pow(rx, n) * (a.v.real() - b.v.real())); double g = 0; for (auto q : {std::make_pair(&a, &ux), std::make_pair(&b, &uy)}) { const V3 &u = *q.second; double t = n * u(f) * q.first->v.real(); for (int l = 0; l < 3; ++l) t += q.first->d[l].real() * ((l == f) - u(l) * u(f)); g += q.first == &a ? t : -t; } A[j].push_back(std::pow(rx, n - 1) * g); ++j; } }
      double rn = 0; for (double v : r) rn += v * v; rn = std::sqrt(rn);
      for (auto &a : A) { double g = 0, an = 0; for (size_t i = 0; i < r.size(); ++i) { g += a[i] * r[i]; an += a[i] * a[i]; } vc::check("least-squares", std::abs(g) <= 1e-6 * std::sqrt(an) * rn + 1e-11 * std::sqrt(an)); }
      double e = 0, ek = 0; int N = 31, cnt = 0; HomogenisedLaplaceSingleLayerOperator::setPrecision(p); Op op; V3 o(0., 0., 0.);
      for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) for (int f = 0; f < 3; ++f) { V3 x; x(f) = -.5; x((f + 1) % 3) = -.5 + i / (N - 1.); x((f + 2) % 3) = -.5 + j / (N - 1.); V3 y = opposite(x, f);
        e += std::abs(k_mod(x) + evaluate_solid_sphericals(x, c, d, false) - k_mod(y) - evaluate_solid_sphericals(y, c, d, false)); ek += std::abs(op.evaluateKernel(x, o) - op.evaluateKernel(y, o));
        auto grad = [&](const V3 &z) { V3 q = Dk_mod(z) + z / z.norm() * evaluate_solid_sphericals(z, c, d, true) + functionalMatrix(z) * evaluate_dsolid_sphericals(z, c, d); return q(f); };
        e += std::abs(grad(x) - grad(y)); cnt += 2; }
      vc::check("mean-deviation-from-periodicity", e / cnt <= p && 2 * ek / cnt <= p, "mean deviation " + std::to_string(e / cnt / p) + " times the precision");
#else
      // the quadratic functional handed to the solver is the deviation from periodicity
      double got = 0., want = 0.; Vec x = vin("x", LS::A().cols(), -.1, .1); for (int i = 0; i < LS::A().rows(); ++i) { double q = -LS::b()(i); for (int j = 0; j < x.size(); ++j) q += LS::A()(i, j) * x(j); got += q * q; }
      for (int f = 0; f < 3; ++f) for (auto &v : Face(f).x) { V3 y = opposite(v, f); double q = lattice(v) + series(v, c, d) - lattice(y) - series(y, c, d); want += q * q; q = dlattice(v, f) + dseries(v, c, d, f) - dlattice(y, f) - dseries(y, c, d, f); want += q * q; }
      vc::eq("least-squares", got, want);
#endif
    }, 1);
    vc::add("kernel/" + nm, "HomogenisedLaplaceSingleLayerOperator::evaluateKernel,setPrecision,getPrecision; HomogenisedLaplaceSingleLayerPotential::evaluateKernel", [=] {
      Op::setPrecision(double(p)); vc::eq("precision", Op::getPrecision(), double(p)); Op op; Pot pot; Vec c = getCoefficients(double(p)); int d = getDegree(double(p));
      V3 x = v3("x", -.5, .5), y = v3("y", -.5, .5), z = x - y; away(z); double w = lattice(z) + series(z, c, d);
      vc::eq("operator", op.evaluateKernel(x, y), w, 1e-7); vc::eq("potential", pot.evaluateKernel(x, y), w, 1e-7);
      Op::setPrecision(double(1.)); vc::eq("operator-keeps-its-precision", op.evaluateKernel(x, y), w, 1e-7); vc::eq("potential-keeps-its-precision", pot.evaluateKernel(x, y), w, 1e-7); Op copy(op); vc::eq("copy", copy.evaluateKernel(x, y), w, 1e-7);
    }, 4);
  }
  for (int p = 0; p <= 3; ++p) for (int M : {0, 1, 4}) { if (p > 1 && M > 1) continue; std::string t = S_("/p", p) + S_("M", M); bool seal = p > 1;
    vc::add("operator" + t, "HomogenisedLaplaceSingleLayerOperator::evaluateIntegrand_impl,evaluateFMMInterpolation_impl", [=] {
      Op::setPrecision(double(1e-2)); Pair P; Op op; double k = op.evaluateKernel(P.a.x, P.b.x); vc::seal(k);
      k = k * P.a.k * P.b.k; integrand("integrand", op, M, p, P, 1, [&](auto &A, auto &B, int i, int j) { return k * P.a.w * P.b.w * A.v[i] * B.v[j]; }, seal);
      auto f = op.evaluateFMMInterpolation(P.a.q, P.b.q); vc::check("fmm.size", f.size() == 1); vc::eq("fmm", f(0, 0), k, 1e-7); }, 6);
    if (M < 2) for (int gk : {0, 1}) vc::add("potential/" + std::string(gname(gk)) + t, "HomogenisedLaplaceSingleLayerPotential::evaluateIntegrand_impl", [=] {
      Op::setPrecision(double(1e-2)); Pot pot; Geometry g = gnamed(gk); AnsatzSpace<Op> as(g, M, p); auto c = coefs(as); FunctionEvaluator<Op> f(as, c); Fun<Op> F(as, c); int n = vc::choose("element", 0, as.get_number_of_elements() - 1); const auto &e = element(as, n);
      Sp P; V3 y = v3("y", -2, 2), z = y - P.x; away(z); double k = pot.evaluateKernel(y, P.x); vc::seal(k); Tensor T(p, P.q(0), P.q(1), p > 1); vc::eq("integrand", pot.evaluateIntegrand_impl(f, e, y, P.q)(0), k * P.k * P.w * F.value(e.id_, P.q, T)(0), 1e-7); }, 4); }
  vc::add("traits", "LinearOperatorTraits,PotentialTraits", [] { vc::eq_int("order", LinearOperatorTraits<Op>::OperatorOrder, -1); vc::check("form", (int)LinearOperatorTraits<Op>::Form == (int)DifferentialForm::Discontinuous); vc::eq_int("components", LinearOperatorTraits<Op>::NumberOfFMMComponents, 1); vc::eq_int("output", PotentialTraits<Pot>::OutputSpaceDimension, 1); }, 1);
  return vc::main_(argc, argv);
}
