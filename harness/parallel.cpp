// P26: parallel regions, under every schedule
#include "h2.hpp"
#include "../engine/omp_rt.hpp"
#include <Bembel/LinearOperator>
#include <Bembel/LinearForm>
#include <Bembel/Potential>
#include <Bembel/Laplace>
#include <Bembel/Helmholtz>
#include <Bembel/Maxwell>
#ifdef VC_NATIVE
#define POINT_DEGREE 3
#include <Bembel/HomogenisedLaplace>
#endif
typedef std::pair<const char *, rt::Policy> Schedule;
static std::vector<Schedule> schedules(int n) {
  return {{"one-thread", {1, 0, 1, 0}}, {"every-iteration-its-own-thread", {n, 1, 1, 0}}, {"threads-backwards", {n, 1, 2, 1}}, {"two-threads", {2, 1, 1, 1}}, {"scrambled", {5, 3, 3, 0}}, {"last-thread-works", {4, 2, 2, 0}}};
}
template <class F> static auto sequential(F f) { rt::policy() = rt::Policy(); return f(); }
// the result does not depend on the schedule; the frames of the iterations are disjoint
template <class F> static void independent(const std::string &tag, int n, F f, bool few = false) {
  auto w = sequential(f); auto all = schedules(n); if (few) all = {all[1], all[4]};
  for (auto &s : all) { rt::policy() = s.second; rt::report(); auto r = f(); rt::Report p = rt::report(); vc::eqm(tag + "/" + s.first, r, w, 1e-9);
#ifdef VC_TRACK
    vc::check(tag + "/disjoint-frames", p.races == 0, p.text); if (s.second.threads > 1) vc::check(tag + "/tracked", p.accesses > 0 && p.fibers > 1);
#endif
    vc::check(tag + "/in-parallel", s.second.threads == 1 || p.fibers > 1); }
  rt::policy() = rt::Policy();
}
static Geometry geom(int k) { switch (k) { case 0: return gsquare(); case 1: { geo::Mesh m = geo::square(); PatchVector r = geo::patches(m); for (auto &v : m.v) v[0] += 8; r.push_back(geo::patches(m)[0]); return Geometry(r); } case 2: return Geometry(geo::patches(geo::two(1, 2, false, false))); default: return Geometry(geo::patches(geo::star(1))); } }
static const char *gn[] = {"square", "far", "two", "star"};
template <class Op> static std::string name(int gk, int M, int p) { return std::string(gn[gk]) + S_("/M", M) + S_("p", p) + S_("f", LinearOperatorTraits<Op>::Form) + (std::is_same<Sca<Op>, C>::value ? "c" : ""); }
template <class S> static DV<S> vec(const std::string &nm, int n) { DV<S> v(n); for (int i = 0; i < n; ++i) v(i) = scal<S>(S_(nm, i)); return v; }
#ifdef VC_NATIVE
struct Plain { template <class T> void operator()(T &) const {} };
template <class Op, class Set = Plain> static void dense(const std::string &nm, int gk, int M, int p, Set set = Set()) {
  vc::add("dense/" + nm + "/" + name<Op>(gk, M, p), "DiscreteOperatorComputer<Matrix>::compute (parallel region)", [=] { Geometry g = geom(gk); AnsatzSpace<Op> as(g, M, p); independent("assembly", 70, [&] { DiscreteOperator<DM<Sca<Op>>, Op> d(as); set(d.get_linear_operator()); d.compute(); return DM<Sca<Op>>(d.get_discrete_operator()); }); }, 1);
}
template <class Op, class Set = Plain> static void compressed(const std::string &nm, int gk, int M, int p, int np, Set set = Set(), bool few = false) {
  vc::add("compressed/" + nm + "/" + name<Op>(gk, M, p), "H2Matrix::init_H2Matrix (parallel region); H2_time_dense_product_impl::run (parallel region)", [=] { Geometry g = geom(gk); AnsatzSpace<Op> as(g, M, p); Op op; set(op); typedef Sca<Op> S;
    DV<S> x = vec<S>("x", as.get_number_of_dofs());
    independent("assembly", 70, [&] { Eigen::H2Matrix<S> H; H.init_H2Matrix(op, as, np); rt::Policy keep = rt::policy(); rt::policy() = rt::Policy(); DM<S> r = H.get_dense(); rt::policy() = keep; return r; }, few);
    Eigen::H2Matrix<S> H; H.init_H2Matrix(op, as, np); independent("product", 70, [&] { return DM<S>(H * x); }); }, 1);
}
template <class Pot, class Op, class Set = Plain> static void potential(const std::string &nm, int gk, int M, int p, Set set = Set()) {
  vc::add("potential/" + nm + "/" + name<Op>(gk, M, p), "DiscretePotential::evaluate (parallel region)", [=] { Geometry g = geom(gk); AnsatzSpace<Op> as(g, M, p); DiscretePotential<Pot, Op> d(as); set(d.get_potential()); DV<Sca<Op>> c = vec<Sca<Op>>("c", as.get_number_of_dofs()); d.set_cauchy_data(c); Eigen::Matrix<double, -1, 3> x(3, 3); x << 0, 0, 5, 2, -4, 6, 7, 1, 3; independent("evaluation", 40, [&] { auto r = d.evaluate(x); DM<std::decay_t<decltype(r(0, 0))>> m = r; return m; }); }, 1);
}
#endif
// arbitrary element integrals and kernels
template <class S> static void unconstrained_pairs(std::function<void(const ElementTreeNode &, const ElementTreeNode &, const ElementSurfacePoints &, const ElementSurfacePoints &, DM<S> *)> &pair) { pair = [](const ElementTreeNode &a, const ElementTreeNode &b, const ElementSurfacePoints &, const ElementSurfacePoints &, DM<S> *m) { for (int j = 0; j < m->cols(); ++j) for (int i = 0; i < m->rows(); ++i) { S v; { rt::Ignore q; v = scal<S>(S_("A", a.id_, b.id_) + S_("_", i, j)); } (*m)(i, j) = v; } }; }
template <class S, int F, int K> static void any_dense(int gk, int M, int p) {
  typedef Far<S, F, K> Op; vc::add("any-dense/" + name<Op>(gk, M, p), "DiscreteOperatorComputer<Matrix>::compute (parallel region)", [=] { Geometry g = geom(gk); AnsatzSpace<Op> as(g, M, p); independent("assembly", 300, [&] { DiscreteOperator<DM<S>, Op> d(as); unconstrained_pairs<S>(d.get_linear_operator().pair); d.compute(); return DM<S>(d.get_discrete_operator()); }); }, 1);
}
// the dense copy of every block
template <class S> static DM<S> content(const Eigen::H2Matrix<S> &H) { std::vector<S> v; auto &g = H.get_block_cluster_tree(); for (int r = 0; r < g.rows(); ++r) for (int c = 0; c < g.cols(); ++c) for (auto l = g(r, c).clbegin(); l != g(r, c).clend(); ++l) { auto &f = (*l)->get_leaf().get_F(); v.push_back(S(double((int)f.rows()))); v.push_back(S(double((int)f.cols()))); v.push_back(S(double((int)const_cast<TreeLeaf<DM<S>> &>((*l)->get_leaf()).is_low_rank()))); for (int j = 0; j < f.cols(); ++j) for (int i = 0; i < f.rows(); ++i) v.push_back(f(i, j)); } DM<S> m(v.size(), 1); for (size_t i = 0; i < v.size(); ++i) m(i, 0) = v[i]; return m; }
template <class S, int F, int K> static void any_compressed(int gk, int M, int p, int np, bool product) {
  typedef Far<S, F, K> Op; vc::add(std::string(product ? "any-product/" : "any-compressed/") + name<Op>(gk, M, p), product ? "H2_time_dense_product_impl::run (parallel region)" : "H2Matrix::init_H2Matrix (parallel region)", [=] { Geometry g = geom(gk); AnsatzSpace<Op> as(g, M, p); Op op; arb() = {true, false, false, false}; unconstrained_pairs<S>(op.pair);
    if (!product) independent("assembly", 300, [&] { Eigen::H2Matrix<S> H; H.init_H2Matrix(op, as, np); return content(H); });
    else { Eigen::H2Matrix<S> H; H.init_H2Matrix(op, as, np); scramble(H, "F"); DV<S> x = vec<S>("x", as.get_number_of_dofs()); independent("product", 300, [&] { return DM<S>(H * x); }); } }, 1);
}
namespace Bembel {
template <class Op> struct AnyPot; template <class Op> struct PotentialTraits<AnyPot<Op>> { typedef double Scalar; static constexpr int OutputSpaceDimension = 2; };
template <class Op> struct AnyPot : public PotentialBase<AnyPot<Op>, Op> { typedef Sca<Op> R; Eigen::Matrix<R, 2, 1> evaluateIntegrand_impl(const FunctionEvaluator<Op> &f, const ElementTreeNode &e, const Eigen::Vector3d &y, const SurfacePoint &q) const { R u = R(f.evaluate(e, q)(0)), v; { rt::Ignore g; v = scal<R>("f" + key(q)); } Eigen::Matrix<R, 2, 1> r; r(0) = u * v * q(2); r(1) = u * v * (q(2) * (y(0) + 2.5 * y(2))); return r; } };
}
template <class Op> static void any_potential(int gk, int M, int p) {
  vc::add("any-potential/" + name<Op>(gk, M, p), "DiscretePotential::evaluate (parallel region)", [=] { Geometry g = geom(gk); AnsatzSpace<Op> as(g, M, p); DiscretePotential<AnyPot<Op>, Op> d(as); d.set_cauchy_data(vec<Sca<Op>>("c", as.get_number_of_dofs())); Eigen::Matrix<double, -1, 3> x(2, 3); for (int i = 0; i < 6; ++i) x(i % 2, i / 2) = vc::in(S_("x", i), -4, 4); independent("evaluation", 40, [&] { return DM<Sca<Op>>(d.evaluate(x)); }); }, 1);
}
int main(int argc, char **argv) {
#ifdef VC_NATIVE
  auto wave = [](auto &o) { o.set_wavenumber(C(2., .5)); };
  dense<LaplaceSingleLayerOperator>("laplace", 0, 1, 1); dense<LaplaceSingleLayerOperator>("laplace", 2, 1, 0); dense<LaplaceHypersingularOperator>("hypersingular", 2, 1, 1); dense<HelmholtzSingleLayerOperator>("helmholtz", 2, 1, 0, wave); dense<MaxwellSingleLayerOperator>("maxwell", 0, 1, 1, wave);
  compressed<LaplaceSingleLayerOperator>("laplace", 1, 2, 0, 2); compressed<HelmholtzSingleLayerOperator>("helmholtz", 1, 1, 0, 2, wave); compressed<MaxwellSingleLayerOperator>("maxwell", 1, 1, 1, 2, wave, true); compressed<LaplaceSingleLayerOperator>("laplace", 3, 1, 1, 3, Plain(), true);
  potential<LaplaceSingleLayerPotential<LaplaceSingleLayerOperator>, LaplaceSingleLayerOperator>("laplace", 2, 1, 1); potential<HelmholtzDoubleLayerPotential<HelmholtzSingleLayerOperator>, HelmholtzSingleLayerOperator>("helmholtz", 0, 2, 0, wave); potential<MaxwellSingleLayerPotential<MaxwellSingleLayerOperator>, MaxwellSingleLayerOperator>("maxwell", 2, 1, 1, wave);
  dense<LaplaceDoubleLayerOperator>("double-layer", 0, 1, 1); dense<LaplaceAdjointDoubleLayerOperator>("adjoint-double-layer", 2, 0, 1); dense<HelmholtzDoubleLayerOperator>("helmholtz-double-layer", 2, 0, 1, wave); dense<HelmholtzAdjointDoubleLayerOperator>("helmholtz-adjoint-double-layer", 0, 1, 1, wave); dense<HelmholtzHypersingularOperator>("helmholtz-hypersingular", 0, 1, 2, wave);
  compressed<LaplaceHypersingularOperator>("hypersingular", 1, 1, 1, 2, Plain(), true); compressed<LaplaceDoubleLayerOperator>("double-layer", 1, 1, 0, 2, Plain(), true); compressed<HelmholtzHypersingularOperator>("helmholtz-hypersingular", 1, 1, 1, 2, wave, true); compressed<HelmholtzAdjointDoubleLayerOperator>("helmholtz-adjoint-double-layer", 1, 1, 0, 2, wave, true);
  potential<LaplaceDoubleLayerPotential<LaplaceHypersingularOperator>, LaplaceHypersingularOperator>("double-layer", 0, 1, 1); potential<LaplaceSingleLayerPotentialGradient<LaplaceSingleLayerOperator>, LaplaceSingleLayerOperator>("gradient", 2, 1, 1); potential<HelmholtzSingleLayerPotential<HelmholtzSingleLayerOperator>, HelmholtzSingleLayerOperator>("helmholtz-single-layer", 2, 1, 0, wave); potential<HelmholtzDoubleLayerPotential<HelmholtzHypersingularOperator>, HelmholtzHypersingularOperator>("helmholtz-double-layer", 2, 1, 1, wave);
  HomogenisedLaplaceSingleLayerOperator::setPrecision(1e-2); dense<HomogenisedLaplaceSingleLayerOperator>("homogenised", 0, 1, 1); potential<HomogenisedLaplaceSingleLayerPotential<HomogenisedLaplaceSingleLayerOperator>, HomogenisedLaplaceSingleLayerOperator>("homogenised", 2, 0, 1);
#endif
  any_dense<double, DifferentialForm::Discontinuous, 1>(0, 1, 1); any_dense<C, DifferentialForm::Discontinuous, 1>(2, 1, 0); any_dense<double, DifferentialForm::DivConforming, 1>(2, 0, 1); any_dense<double, DifferentialForm::Continuous, 1>(2, 1, 1);
  for (bool product : {false, true}) { any_compressed<double, DifferentialForm::Discontinuous, 1>(1, 1, 0, 2, product); any_compressed<C, DifferentialForm::Discontinuous, 1>(1, 0, 1, 2, product); any_compressed<double, DifferentialForm::Discontinuous, 2>(1, 2, 0, 2, product); any_compressed<double, DifferentialForm::DivConforming, 2>(1, 1, 1, 2, product); }
  any_potential<OpD>(2, 1, 1); any_potential<OpK>(3, 1, 1); any_potential<OpDc>(0, 2, 0); any_potential<OpV>(2, 1, 1);
  return vc::main_(argc, argv);
}
