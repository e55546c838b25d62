// P22: evaluation of discrete functions
#include "fun.hpp"
#include <Bembel/src/util/surfaceL2error.hpp>
static const int DIV = DifferentialForm::DivConforming;
template <class Op> std::string tag(int gk, int M, int p, int rep) { return std::string(gname(gk)) + "/form" + std::to_string((int)LinearOperatorTraits<Op>::Form) + (std::is_same<Sca<Op>, double>::value ? "r" : "c") + S_("/M", M) + S_("p", p) + S_("k", rep); }
template <class Op> void same(const char *t, const DV<Sca<Op>> &got, const DV<Sca<Op>> &want) { vc::eq_int(std::string(t) + "-size", got.rows(), want.rows()); for (int i = 0; i < want.rows(); ++i) vc::eq(t, got(i), want(i), 1e-8); }
// the ways to get an evaluator holding a function; every one evaluates the same function
template <class Op> FunctionEvaluator<Op> made(int how, const AnsatzSpace<Op> &as, const DV<Sca<Op>> &c, const DV<Sca<Op>> &junk) {
  switch (how) {
    case 0: return FunctionEvaluator<Op>(as, c);
    case 1: { FunctionEvaluator<Op> f(as); f.set_function(junk); f.set_function(c); return f; }
    case 2: { FunctionEvaluator<Op> f; f.init_FunctionEvaluator(as); f.set_function(c); FunctionEvaluator<Op> g(f); f.set_function(junk); return g; }
    case 3: { FunctionEvaluator<Op> f(as, c), g; g = f; f.set_function(junk); return g; }
    case 4: { FunctionEvaluator<Op> f(as, junk), g(as, c); f = g; return f; }
    default: { FunctionEvaluator<Op> f; f.init_FunctionEvaluator(as, junk); f.init_FunctionEvaluator(as, c); FunctionEvaluator<Op> g(std::move(f)); return g; }
  }
}
template <class Op> static void point(int gk, int M, int p, int rep) {
  vc::add("evaluate/" + tag<Op>(gk, M, p, rep), "FunctionEvaluator::evaluate,evaluateDiv,set_function,init_FunctionEvaluator,operator=; FunctionEvaluatorEval::eval,evalDiv", [=] {
    Geometry g = gnamed(gk); AnsatzSpace<Op> as(g, M, p, rep); auto c = coefs(as), junk = coefs(as, "j"); Fun<Op> F(as, c);
    auto f = made<Op>(vc::choose("how", 0, 5), as, c, junk);
    int k = vc::choose("element", 0, as.get_number_of_elements() - 1); const auto &e = element(as, k);
    Sp P; Tensor T(p, P.q(0), P.q(1), p > 1);
    same<Op>("value", f.evaluate(e, P.q), F.value(e.id_, P.q, T));
    if constexpr (dim<Op>() == 2) vc::eq("divergence", f.evaluateDiv(e, P.q), F.div(e.id_, T), 1e-8);
  }, 12);
}
static vc::P same1(double a, double b) { return vc::equ(a, b); }
static vc::P same1(C a, C b) { return vc::all({vc::equ(a.real(), b.real()), vc::equ(a.imag(), b.imag())}); }
static const ElementTreeNode *cell(const Geometry &, const ElementTree &et, int M, int patch, int ix, int iy) {
  double h = std::ldexp(1., -M);
  for (auto it = et.cpbegin(); it != et.cpend(); ++it) if (it->patch_ == patch && std::lround(vc::value(it->llc_(0) / h)) == ix && std::lround(vc::value(it->llc_(1) / h)) == iy) return &*it;
  return nullptr;
}
template <class Op> static void onpatch(int gk, int M, int p, int rep, bool ways) {
  vc::add("on-patch/" + tag<Op>(gk, M, p, rep), "FunctionEvaluator::evaluateOnPatch,set_function,init_FunctionEvaluator,operator=; ElementTree::computeReorderingVector; ElementTreeNode::mapToReferenceElement", [=] {
    Geometry g = gnamed(gk); AnsatzSpace<Op> as(g, M, p, rep); auto c = coefs(as), junk = coefs(as, "j"); Fun<Op> F(as, c);
    auto f = made<Op>(vc::choose("how", 0, ways ? 5 : 0), as, c, junk);
    const auto &et = as.get_superspace().get_mesh().get_element_tree();
    int n = 1 << M, patch = vc::choose("patch", 0, g.get_geometry().size() - 1), ix = vc::choose("ix", 0, n - 1), iy = vc::choose("iy", 0, n - 1); double h = std::ldexp(1., -M);
    // local coordinates in the closed cell on the outer boundary, in the open cell on inner edges
    double s = vc::in("s", 0, 1), t = vc::in("t", 0, 1);
    for (auto z : std::vector<std::pair<double, int>>{{s, ix}, {t, iy}}) { if (z.second > 0) vc::require(vc::lt(0., z.first)); if (z.second < n - 1) vc::require(vc::lt(z.first, 1.)); }
    const ElementTreeNode *e = cell(g, et, M, patch, ix, iy); vc::check("element-exists", e != nullptr); if (!e) return;
    Eigen::Vector2d r(h * (ix + s), h * (iy + t)); SurfacePoint P; g.get_geometry()[patch].updateSurfacePoint(&P, r, double(1.), Eigen::Vector2d(s, t));
    same<Op>("value", f.evaluateOnPatch(patch, r), F.value(e->id_, P, Tensor(p, s, t, false)));
  }, 4);
  vc::add("on-patch-edges/" + tag<Op>(gk, M, p, rep), "FunctionEvaluator::evaluateOnPatch", [=] {  // points on the cell boundaries: the value of an adjacent element
    Geometry g = gnamed(gk); AnsatzSpace<Op> as(g, M, p, rep); auto c = coefs(as); Fun<Op> F(as, c); FunctionEvaluator<Op> f(as, c);
    const auto &et = as.get_superspace().get_mesh().get_element_tree();
    int n = 1 << M, patch = vc::choose("patch", 0, g.get_geometry().size() - 1), kx = vc::choose("kx", 0, n), ky = vc::choose("ky", 0, 2 * n); double h = std::ldexp(1., -M);
    Eigen::Vector2d r(h * kx, h * ky / 2.); SurfacePoint P; g.get_geometry()[patch].updateSurfacePoint(&P, r, double(1.), Eigen::Vector2d(0., 0.));
    auto got = f.evaluateOnPatch(patch, r); std::vector<vc::P> alt;
    for (int ix = std::max(0, kx - 1); ix <= std::min(n - 1, kx); ++ix) for (int iy = 0; iy < n; ++iy) if (ky >= 2 * iy && ky <= 2 * iy + 2) {
      const ElementTreeNode *e = cell(g, et, M, patch, ix, iy); auto want = F.value(e->id_, P, Tensor(p, double(kx - ix), double(ky) / 2. - iy, false)); std::vector<vc::P> eqs;
      for (int i = 0; i < want.rows(); ++i) eqs.push_back(same1(got(i), want(i)));
      alt.push_back(vc::all(eqs));
    }
    vc::prop("value-of-an-adjacent-element", vc::any(alt));
  }, 4);
}
static double lin(const Eigen::Vector3d &x) { return x(0) + 3.5 * x(1) - 7.25 * x(2); }
template <class Op> static void l2(int gk, int M, int p, int deg) {
  vc::add("l2-error/" + tag<Op>(gk, M, p, 1) + S_("q", deg), "surfaceL2error", [=] {
    Geometry g = gnamed(gk); AnsatzSpace<Op> as(g, M, p); auto c = coefs(as); Fun<Op> F(as, c);
    auto fun = [](const Eigen::Vector3d &x) { return vc::opaque("f", lin(x)); };
    double got = deg == 4 ? surfaceL2error(as, c, fun) : surfaceL2error(as, c, fun, deg), want = 0.;
    GaussSquare<Constants::maximum_quadrature_degree> GS; auto &Q = GS[deg]; double h = std::ldexp(1., -M);
    for (int k = 0; k < as.get_number_of_elements(); ++k) { const auto &e = element(as, k); for (int q = 0; q < Q.w_.size(); ++q) {
      double s = Q.xi_(0, q), t = Q.xi_(1, q); SurfacePoint P; g.get_geometry()[e.patch_].updateSurfacePoint(&P, Eigen::Vector2d(e.llc_(0) + h * s, e.llc_(1) + h * t), double(1.), Eigen::Vector2d(s, t));
      double d = fun(P.segment<3>(3)) - F.value(e.id_, P, Tensor(p, s, t, false))(0);
      want += norm3(cross3(P.segment<3>(6), P.segment<3>(9))) * (h * h * Q.w_(q)) * d * d; } }
    using std::sqrt; vc::eq("error", got, sqrt(want), 1e-8);
  }, 4);
}
int main(int argc, char **argv) {
  point<OpD>(0, 1, 0, 1); point<OpD>(1, 1, 2, 1); point<OpD>(0, 2, 1, 2); point<OpDc>(1, 0, 1, 1); point<OpK>(0, 2, 1, 1); point<OpK>(2, 1, 2, 1); point<OpKc>(1, 1, 1, 1); point<OpK>(4, 0, 3, 1);
  point<OpV>(0, 1, 1, 1); point<OpV>(2, 0, 2, 1); point<OpVc>(1, 1, 2, 2); point<OpVc>(4, 0, 1, 1); point<OpV>(1, 2, 1, 1); point<OpV>(0, 0, 3, 1);
  onpatch<OpD>(0, 2, 1, 1, true); onpatch<OpD>(3, 1, 0, 1, false); onpatch<OpK>(2, 1, 1, 1, false); onpatch<OpKc>(1, 1, 2, 1, true); onpatch<OpV>(1, 1, 1, 1, true); onpatch<OpVc>(0, 1, 2, 2, false); onpatch<OpV>(2, 1, 1, 1, false); onpatch<OpDc>(1, 2, 2, 1, false); onpatch<OpD>(4, 0, 2, 1, false); onpatch<OpD>(0, 3, 0, 1, false);
  l2<OpD>(0, 1, 1, 1); l2<OpK>(2, 0, 1, 2); l2<OpD>(3, 1, 0, 1); l2<OpD>(1, 0, 2, 4); l2<OpK>(4, 0, 1, 0);
  return vc::main_(argc, argv);
}
