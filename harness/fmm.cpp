// P12: interpolation in the compressed matrix
#include "h2.hpp"
#include <Bembel/Laplace>
#include <Bembel/Helmholtz>
#include <Bembel/Maxwell>
namespace H2M = Bembel::H2Multipole;
// arbitrary distinct interpolation nodes
struct Any { Eigen::VectorXd points_; explicit Any(int n) { points_.resize(n); for (int i = 0; i < n; ++i) points_(i) = vc::in(S_("x", i), 0, 1); } };
static void distinct(int n) { for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { double d = vc::in(S_("x", i), 0, 1) - vc::in(S_("x", j), 0, 1); vc::require(vc::lt(.01, d * d)); } }
// fixed irregular nodes
struct Fix { Eigen::VectorXd points_; explicit Fix(int n) { points_.resize(n); for (int i = 0; i < n; ++i) points_(i) = double(1 + 8 * i + (i * i) % 5) / double(8 * n); } };
static double lag(const Eigen::VectorXd &x, int i, double t) { double r = 1.; for (int k = 0; k < x.size(); ++k) if (k != i) r = r * (t - x(k)) / (x(i) - x(k)); return r; }
template <class X> static void lagrange(const std::string &nm, int n, bool any) {
  vc::add("lagrange/" + nm + S_("/n", n), "H2Multipole::computeLagrangePolynomials,evaluatePolynomial", [=] {
    if (any) distinct(n);
    Eigen::VectorXd x = X(n).points_; Eigen::MatrixXd L = H2M::computeLagrangePolynomials<X>(n); double t = vc::in("t", 0, 1);
    vc::check("size", L.rows() == n && L.cols() == n);
    double sum = 0., pw = 0.; Vec c = vin("c", n); std::vector<double> poly(n, double(0.));
    for (int k = 0; k < n; ++k) for (int e = 0; e < n; ++e) poly[k] += c(e) * ip(x(k), e);
    for (int i = 0; i < n; ++i) { Eigen::VectorXd Li = L.col(i); double v = H2M::evaluatePolynomial<X>(Li, t); vc::eq("lagrange-polynomial", v, lag(x, i, t), 1e-6); if (n <= 4 || !any) sum += v * poly[i]; }
    for (int e = 0; e < n; ++e) pw += c(e) * ip(t, e);
    if (n <= 3 || !any) vc::eq("polynomials-are-reproduced", sum, pw, 1e-6);
  });
}
static void chebyshev(int n) {
  vc::add(S_("chebyshev/n", n), "H2Multipole::ChebychevRoots", [=] {
    Eigen::VectorXd x = H2M::ChebychevRoots(n).points_; vc::eq_int("count", x.size(), n); using std::cos;
    std::vector<md> have, want; for (int i = 0; i < n; ++i) { have.push_back(vc::value(x(i))); want.push_back(.5 + .5 * std::cos((2 * i + 1) * (md)PI / (2 * n))); }
    for (int i = 0; i < n; ++i) { vc::prop("inside", vc::all({vc::le(0., x(i)), vc::le(x(i), 1.)})); md d = 2; for (md w : want) d = std::min(d, std::fabs(w - have[i])); vc::check("chebyshev-node", d < 1e-12); for (int j = 0; j < i; ++j) vc::check("distinct", std::fabs(have[i] - have[j]) > 1e-6); }
    H2M::ChebychevRoots y; y.init_ChebyshevRoots(n); vc::eqm("init", y.points_, x);
    if (n > 1) return;
  });
}
template <class X> static void transfer(const std::string &nm, int n, bool any) {
  vc::add("transfer/" + nm + S_("/n", n), "H2Multipole::computeTransferMatrices", [=] {
    if (any) distinct(n);
    Eigen::VectorXd x = X(n).points_; Eigen::MatrixXd T = H2M::computeTransferMatrices<X>(n); int n2 = n * n; vc::check("size", T.rows() == n2 && T.cols() == 4 * n2);
    Geometry g = gsquare(); ClusterTree ct(g, 1); const ElementTreeNode &patch = ct.get_element_tree().root().sons_[0];
    for (int s = 0; s < 4; ++s) { Eigen::Vector2d l = patch.sons_[s].llc_;
      for (int i = 0; i < n; ++i) for (int ii = 0; ii < n; ++ii) for (int j = 0; j < n; ++j) for (int jj = 0; jj < n; ++jj)
        vc::eq("parent-polynomial-at-child-node", T(j * n + jj, s * n2 + i * n + ii), lag(x, j, l(0) + .5 * x(i)) * lag(x, jj, l(1) + .5 * x(ii)), 1e-6); }
  });
}
// exact integrals of polynomials of degree <= m on [0,1]
struct Rule { std::vector<double> x, w; explicit Rule(int m) {
  for (int k = 0; k <= m; ++k) x.push_back(m ? double(k) / m : double(0.));
  for (int k = 0; k <= m; ++k) { std::vector<double> c(1, double(1.)); double den = 1.; for (int l = 0; l <= m; ++l) if (l != k) { std::vector<double> d(c.size() + 1, double(0.)); for (size_t i = 0; i < c.size(); ++i) { d[i + 1] += c[i]; d[i] -= c[i] * x[l]; } c = d; den = den * (x[k] - x[l]); } double s = 0.; for (size_t i = 0; i < c.size(); ++i) s += c[i] / double(i + 1); w.push_back(s / den); } } };
// moments of element k of a cluster: rows = interpolation polynomials, columns = local functions; ax, ay: derivatives
template <class Op> struct Spec {
  int n, p, cl, rf, N; double H, he; Eigen::VectorXd x; std::vector<Eigen::Vector2d> pos; std::vector<std::vector<double>> I[2];  // I[a][i * cells + c][m]
  Spec(const Eigen::VectorXd &x_, int p_, int cl_, int rf_, const SuperSpace<Op> &sp, int which) : n(x_.size()), p(p_), cl(cl_), rf(rf_), N(1 << rf_), x(x_) {
    he = std::ldexp(1., -(cl + rf)); H = std::ldexp(1., -cl); const ElementTreeNode *c = &sp.get_mesh().get_element_tree().root().sons_[0]; for (int l = 0; l < cl; ++l) c = &c->sons_[(which + l) % 4];
    for (const auto &e : *c) pos.push_back(Eigen::Vector2d(e.llc_ - c->llc_));
    Rule R(n + p); for (int a = 0; a < 2; ++a) for (int i = 0; i < n; ++i) for (int k = 0; k < N; ++k) { std::vector<double> v(p + 1, double(0.)); for (size_t q = 0; q < R.x.size(); ++q) { double l = lag(x, i, (k + R.x[q]) / double(N)) * R.w[q]; for (int m = 0; m <= p; ++m) v[m] += l * (a ? BernD(p, m, R.x[q]) : Bern(p, m, R.x[q])); } I[a].push_back(v); }
  }
  int cell(double z) const { return (int)std::lround(vc::value(z) / vc::value(H) * N); }
  double operator()(int row, int col, int ax, int ay) const { int q = (p + 1) * (p + 1), k = col / q, m = col % q; double s = I[ax][(row / n) * N + cell(pos[k](0))][m % (p + 1)] * I[ay][(row % n) * N + cell(pos[k](1))][m / (p + 1)]; return ax + ay == 0 ? s * he : s; }
};
template <class Op> static void moments(const std::string &nm, int n, int p, int cl, int rf, std::vector<std::vector<std::array<int, 2>>> parts) {
  vc::add("moments/" + nm + S_("/n", n) + S_("p", p) + S_("c", cl) + S_("r", rf), "H2Multipole::Moment1D,Moment1DDerivative,moment2DComputer,Moment2D", [=] {
    Geometry g = gsquare(); SuperSpace<Op> sp(g, cl + rf, p); auto M = H2M::Moment2D<Fix, Op>::compute2DMoment(sp, cl, rf, n); Spec<Op> s(Fix(n).points_, p, cl, rf, sp, 1 + n);
    vc::eq_int("components", M.size(), parts.size()); int n2 = n * n, cols = (p + 1) * (p + 1) << (2 * rf);
    vc::eq_int("elements", s.pos.size(), 1 << (2 * rf));
    for (size_t c = 0; c < parts.size() && c < M.size(); ++c) {
      vc::check("size", M[c].rows() == n2 * (int)parts[c].size() && M[c].cols() == cols); if (M[c].rows() != n2 * (int)parts[c].size() || M[c].cols() != cols) continue;
      for (size_t b = 0; b < parts[c].size(); ++b) for (int i = 0; i < n2; ++i) for (int j = 0; j < cols; ++j) vc::eq("integral", M[c](b * n2 + i, j), s(i, j, parts[c][b][0], parts[c][b][1]), 1e-8);
    }
  }, 1);
}
template <class S, int F, int K> static void kernel(int gk) {
  typedef Far<S, F, K> Op; 
  vc::add("kernel/" + std::string(gname(gk)) + S_("f", F) + S_("k", K) + (std::is_same<S, C>::value ? "c" : ""), "H2Multipole::interpolateKernel,interpolationPoints2D; SuperSpace::map2surface", [=] {
    Geometry g = gnamed(gk); SuperSpace<Op> sp(g, 2, 1); Op op; const ElementTree &et = sp.get_mesh().get_element_tree(); int n = 3;
    Eigen::VectorXd x = Fix(n).points_; Eigen::MatrixXd X = H2M::interpolationPoints2D(x); vc::check("points", X.rows() == n * n && X.cols() == 2);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { vc::eq("first-coordinate", X(i * n + j, 0), x(i)); vc::eq("second-coordinate", X(i * n + j, 1), x(j)); }
    const ElementTreeNode &last = et.root().sons_[et.root().sons_.size() - 1]; std::vector<const ElementTreeNode *> cl = {&et.root().sons_[0], &last, &et.root().sons_[0].sons_[1], &last.sons_[2], &last.sons_[3].sons_[1], &et.root().sons_[0].sons_[2].sons_[0]};
    for (int q = 0; q < 6; q += 2) for (int sw = 0; sw < 2; ++sw) {
      const ElementTreeNode &a = *cl[q + sw], &b = *cl[q + 1 - sw]; auto F_ = H2M::interpolateKernel<Op>(op, sp, X, a, b); int n2 = n * n, vd = getFunctionSpaceVectorDimension<F>();
      vc::check("size", F_.rows() == n2 * K * vd && F_.cols() == n2 * K * vd); if (F_.rows() != n2 * K * vd || F_.cols() != n2 * K * vd) continue;
      auto at = [&](const ElementTreeNode &e, int i) { double h = std::ldexp(1., -e.level_); SurfacePoint P; Eigen::Vector2d r(x(i / n), x(i % n)); g.get_geometry()[e.patch_].updateSurfacePoint(&P, Eigen::Vector2d(e.llc_ + h * r), double(1.), r); return P; };
      for (int i = 0; i < n2; ++i) for (int j = 0; j < n2; ++j) { auto f = op.evaluateFMMInterpolation(at(a, i), at(b, j)); for (int u = 0; u < K * vd; ++u) for (int v = 0; v < K * vd; ++v) vc::eq("kernel-at-mapped-nodes", F_(u * n2 + i, v * n2 + j), S(f(u, v))); }
    }
  }, 2);
}
// transforms with arbitrary matrices
template <class S> static void transforms(int n2, int comps, int steps, int roots, int cols) {
  vc::add(S_("transforms/n", n2) + S_("k", comps) + S_("s", steps) + S_("r", roots) + (std::is_same<S, C>::value ? "c" : ""), "H2Multipole::forwardTransformation,backwardTransformation", [=] {
    Mat M = min_("M", n2 * comps, cols), T = min_("T", n2, 4 * n2); int cl = roots << (2 * steps); DM<S> x(cols, cl); for (int j = 0; j < cl; ++j) for (int i = 0; i < cols; ++i) x(i, j) = scal<S>(S_("v", i, j));
    auto fw = H2M::forwardTransformation<S>(M, T, steps, x); vc::eq_int("levels", fw.size(), steps + 1); std::vector<DM<S>> want(1, DM<S>::Constant(n2 * comps, cl, S(double(0.))));
    for (int j = 0; j < cl; ++j) for (int i = 0; i < n2 * comps; ++i) for (int k = 0; k < cols; ++k) want[0](i, j) = want[0](i, j) + M(i, k) * x(k, j);
    for (int s = 1; s <= steps; ++s) { int c = cl >> (2 * s); DM<S> w = DM<S>::Constant(n2 * comps, c, S(double(0.))); for (int j = 0; j < c; ++j) for (int q = 0; q < comps; ++q) for (int i = 0; i < n2; ++i) for (int son = 0; son < 4; ++son) for (int k = 0; k < n2; ++k) w(q * n2 + i, j) = w(q * n2 + i, j) + T(i, son * n2 + k) * want[s - 1](q * n2 + k, 4 * j + son); want.push_back(w); }
    for (size_t s = 0; s < fw.size() && s < want.size(); ++s) vc::eqm("sum-over-sons", fw[s], want[s]);
    // the backward transformation is the transpose
    std::vector<DM<S>> d; for (int s = 0; s <= steps; ++s) { DM<S> w(n2 * comps, cl >> (2 * s)); for (int j = 0; j < w.cols(); ++j) for (int i = 0; i < w.rows(); ++i) w(i, j) = scal<S>(S_("d", s) + S_("_", i, j)); d.push_back(w); }
    std::vector<DM<S>> e = d; for (int s = steps; s > 0; --s) for (int j = 0; j < e[s].cols(); ++j) for (int q = 0; q < comps; ++q) for (int i = 0; i < n2; ++i) for (int son = 0; son < 4; ++son) for (int k = 0; k < n2; ++k) e[s - 1](q * n2 + k, 4 * j + son) = e[s - 1](q * n2 + k, 4 * j + son) + T(i, son * n2 + k) * e[s](q * n2 + i, j);
    DM<S> y = H2M::backwardTransformation<S>(M, T, steps, d); DM<S> z = DM<S>::Constant(cols * cl, 1, S(double(0.)));
    for (int j = 0; j < cl; ++j) for (int k = 0; k < cols; ++k) for (int i = 0; i < n2 * comps; ++i) z(j * cols + k, 0) = z(j * cols + k, 0) + M(i, k) * e[0](i, j);
    vc::eqm("transpose", y, z);
  }, 3);
}
int main(int argc, char **argv) {
  for (int n = 1; n <= 4; ++n) lagrange<Any>("any", n, true);
  for (int n = 1; n <= 16; ++n) { if (n > 4 && n < 11) lagrange<Fix>("fixed", n, false); chebyshev(n); }
  for (int n = 1; n <= 2; ++n) transfer<Any>("any", n, true);
  for (int n = 3; n <= 9; n += n < 5 ? 1 : 4) transfer<Fix>("fixed", n, false);
  typedef std::vector<std::vector<std::array<int, 2>>> V; std::array<int, 2> o = {0, 0}, dx = {1, 0}, dy = {0, 1};
  for (int p = 0; p <= 4; ++p) for (int cl = 0; cl < 3; ++cl) for (int rf = 0; rf < 3; ++rf) { int n = 1 + (p + cl + 2 * rf) % 5;
    moments<OpD>("scalar", n, p, cl, rf, V{{o}}); if (p) { moments<OpV>("vector", n, p, cl, rf, V{{o}, {o}});
      moments<LaplaceHypersingularOperator>("laplace-hypersingular", n, p, cl, rf, V{{dx, dy}}); moments<HelmholtzHypersingularOperator>("helmholtz-hypersingular", n, p, cl, rf, V{{o, dx, dy}}); moments<MaxwellSingleLayerOperator>("maxwell", n, p, cl, rf, V{{o, dx}, {o, dy}}); } }
  moments<OpD>("scalar", 7, 0, 1, 1, V{{o}}); moments<OpD>("scalar", 6, 3, 0, 1, V{{o}}); moments<MaxwellSingleLayerOperator>("maxwell", 6, 2, 1, 1, V{{o, dx}, {o, dy}}); moments<OpD>("scalar", 2, 1, 1, 3, V{{o}}); moments<OpD>("scalar", 9, 1, 0, 1, V{{o}}); moments<OpD>("scalar", 9, 2, 0, 0, V{{o}}); if (!vc::native) moments<OpD>("scalar", 12, 1, 0, 0, V{{o}}); moments<OpD>("scalar", 3, 8, 0, 1, V{{o}}); if (!vc::native) moments<OpD>("scalar", 4, 13, 0, 0, V{{o}}); moments<LaplaceHypersingularOperator>("laplace-hypersingular", 9, 2, 0, 1, V{{dx, dy}}); moments<HelmholtzHypersingularOperator>("helmholtz-hypersingular", 4, 6, 0, 1, V{{o, dx, dy}}); moments<MaxwellSingleLayerOperator>("maxwell", 9, 1, 0, 1, V{{o, dx}, {o, dy}}); moments<MaxwellSingleLayerOperator>("maxwell", 2, 8, 0, 0, V{{o, dx}, {o, dy}}); if (!vc::native) moments<OpV>("vector", 10, 5, 0, 0, V{{o}, {o}});
  const int DIS = DifferentialForm::Discontinuous, CON = DifferentialForm::Continuous, DIV = DifferentialForm::DivConforming;
  kernel<double, DIS, 1>(1); kernel<double, CON, 2>(4); kernel<C, CON, 3>(1); kernel<C, DIV, 2>(1); kernel<double, DIV, 1>(3); kernel<C, DIS, 1>(3);
  for (int k = 1; k <= 3; ++k) for (int s = 0; s < 3; ++s) { transforms<double>(k == 1 ? 4 : 2, k, s, 1 + s % 2, 3); if (s < 2) transforms<C>(1, k, s, 2, 2); }
  return vc::main_(argc, argv);
}
