// P17: potentials
#include "fun.hpp"
#include <Bembel/Potential>
#include <Bembel/Laplace>
#include <Bembel/Helmholtz>
#include <Bembel/Maxwell>
namespace Bembel {
// an arbitrary potential: an unconstrained integrand per surface point, affine in the evaluation point
template <class Op, class PS, int O> struct TestPot;
template <class Op, class PS, int O> struct PotentialTraits<TestPot<Op, PS, O>> { typedef PS Scalar; static constexpr int OutputSpaceDimension = O; };
template <class Op, class PS, int O> struct TestPot : public PotentialBase<TestPot<Op, PS, O>, Op> {
  typedef typename PotentialReturnScalar<Sca<Op>, PS>::Scalar R;
  double factor = double(1.);
  static R val(const SurfacePoint &q, const Eigen::Vector3d &y, int c) { double l = y(0) + 2.5 * y(1) - 3. * y(2); return R(scal<PS>("f" + key(q))) * l + R(scal<PS>("g" + key(q))) * (c + 1.); }
  Eigen::Matrix<R, O, 1> evaluateIntegrand_impl(const FunctionEvaluator<Op> &f, const ElementTreeNode &e, const Eigen::Vector3d &y, const SurfacePoint &q) const {
    R u = R(f.evaluate(e, q)(0)); Eigen::Matrix<R, O, 1> r; for (int c = 0; c < O; ++c) r(c) = u * val(q, y, c) * (q(2) * factor); return r; }
};
}
// exp(-i k r) / (4 pi r^m) with k = kr + i ki
static C expk(double kr, double ki, double r) { using std::exp; using std::sin; using std::cos; double e = exp(ki * r); return C(e * cos(kr * r), -(e * sin(kr * r))); }
static C G(double kr, double ki, double r) { return expk(kr, ki, r) / (4. * PI * r); }
static C dG(double kr, double ki, double r) { return C(1. - ki * r, kr * r) * expk(kr, ki, r) / (4. * PI * r * r * r); }  // minus derivative over r
struct Wave { double kr, ki; Wave() : kr(vc::in("kr", -3, 3)), ki(vc::in("ki", -1, 1)) { vc::require(vc::lt(.1, kr * kr + ki * ki)); } C k() const { return C(kr, ki); } };
template <class Op> struct LapSL { typedef LaplaceSingleLayerPotential<Op> P; typedef Sca<Op> R; static const int O = 1; static void setup(P &, const Wave &) {}
  static DV<R> spec(const Wave &, Eigen::Vector3d c, double r, Eigen::Vector3d n, double k, double w, const DV<Sca<Op>> &u, Sca<Op>) { DV<R> v(1); v(0) = u(0) * (k * w / (4. * PI * r)); return v; } };
template <class Op> struct LapDL { typedef LaplaceDoubleLayerPotential<Op> P; typedef Sca<Op> R; static const int O = 1; static void setup(P &, const Wave &) {}
  static DV<R> spec(const Wave &, Eigen::Vector3d c, double r, Eigen::Vector3d n, double k, double w, const DV<Sca<Op>> &u, Sca<Op>) { DV<R> v(1); v(0) = u(0) * (dot3(c, n) * w / (4. * PI * r * r * r)); return v; } };
template <class Op> struct LapGrad { typedef LaplaceSingleLayerPotentialGradient<Op> P; typedef Sca<Op> R; static const int O = 3; static void setup(P &, const Wave &) {}
  static DV<R> spec(const Wave &, Eigen::Vector3d c, double r, Eigen::Vector3d n, double k, double w, const DV<Sca<Op>> &u, Sca<Op>) { DV<R> v(3); for (int i = 0; i < 3; ++i) v(i) = u(0) * (-c(i) * k * w / (4. * PI * r * r * r)); return v; } };
template <class Op> struct HelSL { typedef HelmholtzSingleLayerPotential<Op> P; typedef C R; static const int O = 1; static void setup(P &p, const Wave &k) { set_k(p, k.kr, k.ki); }
  static DV<R> spec(const Wave &W, Eigen::Vector3d c, double r, Eigen::Vector3d n, double k, double w, const DV<Sca<Op>> &u, Sca<Op>) { DV<R> v(1); v(0) = G(W.kr, W.ki, r) * u(0) * (k * w); return v; } };
template <class Op> struct HelDL { typedef HelmholtzDoubleLayerPotential<Op> P; typedef C R; static const int O = 1; static void setup(P &p, const Wave &k) { set_k(p, k.kr, k.ki); }
  static DV<R> spec(const Wave &W, Eigen::Vector3d c, double r, Eigen::Vector3d n, double k, double w, const DV<Sca<Op>> &u, Sca<Op>) { DV<R> v(1); v(0) = dG(W.kr, W.ki, r) * u(0) * (dot3(c, n) * w); return v; } };
template <class Op> struct MaxSL { typedef MaxwellSingleLayerPotential<Op> P; typedef C R; static const int O = 3; static void setup(P &p, const Wave &k) { set_k(p, k.kr, k.ki); }
  static DV<R> spec(const Wave &W, Eigen::Vector3d c, double r, Eigen::Vector3d n, double k, double w, const DV<Sca<Op>> &u, Sca<Op> div) {
    C k2 = W.k() * W.k(), g = G(W.kr, W.ki, r), f = -dG(W.kr, W.ki, r) / k2 * div; DV<R> v(3); for (int i = 0; i < 3; ++i) v(i) = (g * u(i) + f * c(i)) * w; return v; } };
template <class Op> Sca<Op> divof(const Fun<Op> &f, int id, const Tensor &T) { if constexpr (dim<Op>() == 2) return f.div(id, T); else return Sca<Op>(double(0.)); }
template <class Op, template <class> class K> static void integrand(const std::string &nm, const std::string &t) {
  typedef typename K<Op>::R R;
  for (int gk : {0, 1}) for (int M = 0; M <= 1; ++M) for (int p = LinearOperatorTraits<Op>::Form == DifferentialForm::Discontinuous ? 0 : 1; p <= (vc::native ? 8 : 3 - M); ++p) {
    if (gk == 1 && (p > 1 || M) && !vc::native) continue;
    vc::add("integrand/" + nm + "/" + gname(gk) + S_("M", M) + S_("p", p), t + "::evaluateIntegrand_impl,evaluateKernel*,set_wavenumber; FunctionEvaluator::evaluate,evaluateDiv", [=] {
      Geometry g = gnamed(gk); AnsatzSpace<Op> as(g, M, p); auto c = coefs(as); FunctionEvaluator<Op> f(as, c); Fun<Op> F(as, c);
      int k = vc::choose("element", 0, as.get_number_of_elements() - 1); const auto &e = element(as, k);
      Sp P; Eigen::Vector3d y = v3("y", -2, 2), z = y - P.x; vc::require(vc::lt(vc::native ? .1 : 0., dot3(z, z))); Wave W;
      if (vc::native) { static const double F[4] = {1, 1e-3, 1e-6, 25}; int d = vc::choose("distance", 0, 3); if (d) { y = P.x + F[d] * z; z = y - P.x; } }
      typename K<Op>::P pot; K<Op>::setup(pot, W);
      Tensor T(p, P.q(0), P.q(1), p > 1);
      auto got = pot.evaluateIntegrand_impl(f, e, y, P.q); DV<R> want = K<Op>::spec(W, z, norm3(z), P.n, P.k, P.w, F.value(e.id_, P.q, T), divof(F, e.id_, T));
      vc::eq_int("size", got.size(), K<Op>::O);
      for (int i = 0; i < K<Op>::O; ++i) vc::eq("integrand", R(got(i)), want(i), 1e-7);
    }, 6);
  }
}
// the whole representation formula, against an independent sum over the quadrature nodes
template <class Op, template <class> class K> static void formula(const std::string &nm, int gk, int M, int p, int deg) {
  typedef typename K<Op>::R R;
  vc::add("formula/" + nm + "/" + gname(gk) + S_("M", M) + S_("p", p) + S_("q", deg), "DiscretePotential::evaluate,set_degree,set_cauchy_data,get_potential; PotentialTraits::OutputSpaceDimension", [=] {
    Geometry g = gnamed(gk); AnsatzSpace<Op> as(g, M, p); auto c = coefs(as); Fun<Op> F(as, c); Wave W;
    DiscretePotential<typename K<Op>::P, Op> dp(as); dp.set_cauchy_data(c); K<Op>::setup(dp.get_potential(), W); dp.set_degree(deg);
    Eigen::Vector3d y = v3("y", 3, 4); Eigen::Matrix<double, -1, 3> pts(1, 3); for (int i = 0; i < 3; ++i) pts(0, i) = y(i);
    auto got = dp.evaluate(pts); DV<R> want = DV<R>::Constant(K<Op>::O, R(double(0.)));
    GaussSquare<Constants::maximum_quadrature_degree> GS; auto &Q = GS[deg]; double h = std::ldexp(1., -M);
    for (int k = 0; k < as.get_number_of_elements(); ++k) { const auto &e = element(as, k); for (int q = 0; q < Q.w_.size(); ++q) {
      double s = Q.xi_(0, q), t = Q.xi_(1, q), w = h * h * Q.w_(q); SurfacePoint P; g.get_geometry()[e.patch_].updateSurfacePoint(&P, Eigen::Vector2d(e.llc_(0) + h * s, e.llc_(1) + h * t), w, Eigen::Vector2d(s, t));
      Eigen::Vector3d n = cross3(P.segment<3>(6), P.segment<3>(9)), z = y - P.segment<3>(3); Tensor T(p, s, t, false);
      want = want + K<Op>::spec(W, z, norm3(z), n, norm3(n), w, F.value(e.id_, P, T), divof(F, e.id_, T)); } }
    vc::eq_int("rows", got.rows(), 1); vc::eq_int("columns", got.cols(), K<Op>::O);
    for (int i = 0; i < K<Op>::O; ++i) vc::eq("potential", R(got(0, i)), want(i), 1e-7);
  }, 4);
}
template <class Op, class PS, int O> static void assembly(int gk, int M, int p, int deg, int np) {
  typedef typename PotentialReturnScalar<Sca<Op>, PS>::Scalar R;
  vc::add("assembly/" + std::string(gname(gk)) + "/form" + std::to_string((int)LinearOperatorTraits<Op>::Form) + (std::is_same<Sca<Op>, double>::value ? "r" : "c") + (std::is_same<PS, double>::value ? "r" : "c") + S_("o", O) + S_("M", M) + S_("p", p) + S_("q", deg) + S_("n", np), "DiscretePotential::evaluate,init_DiscretePotential,set_degree,set_cauchy_data,get_potential", [=] {
    Geometry g = gnamed(gk); AnsatzSpace<Op> as(g, M, p); auto c = coefs(as), junk = coefs(as, "junk"); Fun<Op> F(as, c);
    Eigen::Matrix<double, -1, 3> pts(np, 3); for (int k = 0; k < np; ++k) for (int i = 0; i < 3; ++i) pts(k, i) = vc::in(S_("y", k, i), -2, 2);
    DiscretePotential<TestPot<Op, PS, O>, Op> dp(as); dp.get_potential().factor = vc::in("factor", -1, 1); double fac = dp.get_potential().factor;
    dp.set_cauchy_data(junk); dp.set_cauchy_data(c); if (deg >= 0) dp.set_degree(deg);
    auto got = dp.evaluate(pts); vc::eq_int("rows", got.rows(), np); vc::eq_int("columns", got.cols(), O);
    GaussSquare<Constants::maximum_quadrature_degree> GS; auto &Q = GS[deg >= 0 ? deg : p + 1]; double h = std::ldexp(1., -M);
    DM<R> want = DM<R>::Constant(np, O, R(double(0.)));
    for (int k = 0; k < as.get_number_of_elements(); ++k) { const auto &e = element(as, k); for (int q = 0; q < Q.w_.size(); ++q) {
      double s = Q.xi_(0, q), t = Q.xi_(1, q), w = h * h * Q.w_(q); SurfacePoint P; g.get_geometry()[e.patch_].updateSurfacePoint(&P, Eigen::Vector2d(e.llc_(0) + h * s, e.llc_(1) + h * t), w, Eigen::Vector2d(s, t));
      R u = R(F.value(e.id_, P, Tensor(p, s, t, false))(0));
      for (int l = 0; l < np; ++l) for (int o = 0; o < O; ++o) want(l, o) = want(l, o) + u * TestPot<Op, PS, O>::val(P, Eigen::Vector3d(pts(l, 0), pts(l, 1), pts(l, 2)), o) * (w * fac); } }
    DM<R> G_ = got; vc::eqm("potential", G_, want, 1e-7);
    // a point gives the same value in another batch, and evaluating again changes nothing
    for (int l = 0; l < np; ++l) { Eigen::Matrix<double, -1, 3> o1(1, 3); o1.row(0) = pts.row(l); auto g1 = dp.evaluate(o1); for (int o = 0; o < O; ++o) vc::eq("batch", R(g1(0, o)), R(got(l, o)), 1e-7); }
    // another space of the same size on another geometry, and back
    { Geometry g2 = doubled(g); AnsatzSpace<Op> other(g2, M, p); DiscretePotential<TestPot<Op, PS, O>, Op> dq(other); dq.get_potential().factor = fac; dq.set_cauchy_data(c); DM<R> w2 = dq.evaluate(pts); auto d2 = dp; d2.init_DiscretePotential(other); d2.set_cauchy_data(c); DM<R> g1 = d2.evaluate(pts); vc::eqm("another-geometry", g1, w2, 1e-7);
      d2.init_DiscretePotential(as); if (deg >= 0) d2.set_degree(deg); d2.set_cauchy_data(c); DM<R> g3 = d2.evaluate(pts); vc::eqm("back", g3, G_, 1e-7); }
    // linear in the density
    dp.set_cauchy_data(DV<Sca<Op>>(c + junk)); auto s = dp.evaluate(pts); dp.set_cauchy_data(junk); auto j = dp.evaluate(pts);
    for (int l = 0; l < np; ++l) for (int o = 0; o < O; ++o) vc::eq("linear", R(s(l, o)), R(got(l, o) + j(l, o)), 1e-7);
  }, 3);
}
int main(int argc, char **argv) {
  integrand<OpD, LapSL>("laplace-single", "LaplaceSingleLayerPotential"); integrand<OpD, LapDL>("laplace-double", "LaplaceDoubleLayerPotential"); integrand<OpD, LapGrad>("laplace-gradient", "LaplaceSingleLayerPotentialGradient");
  integrand<OpK, LapDL>("laplace-double-continuous", "LaplaceDoubleLayerPotential");
  integrand<OpDc, HelSL>("helmholtz-single", "HelmholtzSingleLayerPotential"); integrand<OpDc, HelDL>("helmholtz-double", "HelmholtzDoubleLayerPotential"); integrand<OpKc, HelDL>("helmholtz-double-continuous", "HelmholtzDoubleLayerPotential");
  integrand<OpVc, MaxSL>("maxwell-single", "MaxwellSingleLayerPotential");
  formula<OpD, LapSL>("laplace-single", 0, 1, 0, 0); formula<OpD, LapSL>("laplace-single", 1, 0, 1, 0); formula<OpD, LapSL>("laplace-single", 0, 0, 0, 1); formula<OpD, LapSL>("laplace-single", 3, 0, 1, 1);
  formula<OpD, LapDL>("laplace-double", 0, 1, 0, 0); formula<OpD, LapDL>("laplace-double", 1, 0, 1, 0); formula<OpD, LapDL>("laplace-double", 0, 0, 0, 1); formula<OpD, LapDL>("laplace-double", 3, 0, 1, 1);
  formula<OpD, LapGrad>("laplace-gradient", 0, 1, 0, 0); formula<OpD, LapGrad>("laplace-gradient", 1, 0, 1, 0); formula<OpD, LapGrad>("laplace-gradient", 0, 0, 0, 1); formula<OpD, LapGrad>("laplace-gradient", 3, 0, 1, 1);
  formula<OpDc, HelSL>("helmholtz-single", 0, 1, 0, 0); formula<OpDc, HelSL>("helmholtz-single", 1, 0, 1, 0); formula<OpDc, HelSL>("helmholtz-single", 0, 0, 1, 0);
  formula<OpDc, HelDL>("helmholtz-double", 0, 1, 0, 0); formula<OpDc, HelDL>("helmholtz-double", 1, 0, 1, 0); formula<OpDc, HelDL>("helmholtz-double", 0, 0, 1, 0);
  formula<OpVc, MaxSL>("maxwell-single", 0, 0, 1, 1); formula<OpVc, MaxSL>("maxwell-single", 0, 1, 1, 0); formula<OpVc, MaxSL>("maxwell-single", 1, 0, 1, 0); formula<OpVc, MaxSL>("maxwell-single", 3, 0, 1, 0);
  assembly<OpD, double, 1>(0, 1, 1, -1, 2); assembly<OpD, double, 3>(1, 1, 0, 2, 1); assembly<OpK, double, 1>(2, 1, 1, 1, 3); assembly<OpD, C, 1>(1, 0, 2, -1, 2); assembly<OpDc, double, 3>(3, 1, 1, 2, 2); assembly<OpDc, C, 3>(2, 0, 1, 1, 1); assembly<OpV, double, 3>(1, 1, 1, -1, 1); assembly<OpVc, C, 3>(2, 0, 1, 3, 2); assembly<OpKc, C, 1>(4, 1, 2, 0, 1); assembly<OpD, double, 1>(4, 0, 0, 5, 1); assembly<OpD, double, 1>(1, 2, 0, 0, 2);
  if (vc::native) {  // many points, fine meshes, high degrees
    assembly<OpD, double, 1>(1, 1, 1, -1, 130); assembly<OpDc, C, 3>(0, 1, 3, -1, 33); assembly<OpK, double, 1>(2, 1, 3, 4, 7); assembly<OpV, double, 3>(1, 2, 2, -1, 5); assembly<OpVc, C, 3>(0, 1, 2, 5, 65); assembly<OpD, double, 3>(0, 4, 0, -1, 5), assembly<OpK, double, 1>(2, 2, 1, -1, 3); assembly<OpKc, C, 1>(1, 1, 1, 1, 101); assembly<OpD, C, 1>(4, 1, 7, -1, 12); assembly<OpD, double, 1>(0, 0, 9, -1, 3); assembly<OpD, double, 1>(0, 0, 1, 19, 3);
    formula<OpD, LapSL>("laplace-single", 2, 2, 2, 5); formula<OpD, LapDL>("laplace-double", 3, 2, 3, 4); formula<OpD, LapGrad>("laplace-gradient", 2, 1, 4, 6); formula<OpDc, HelSL>("helmholtz-single", 2, 2, 1, 7); formula<OpDc, HelDL>("helmholtz-double", 3, 2, 2, 3); formula<OpVc, MaxSL>("maxwell-single", 2, 2, 3, 5);
  }
  return vc::main_(argc, argv);
}
