// P18: linear forms
#include "spaces.hpp"
#include <Bembel/LinearForm>
namespace Bembel {
// an arbitrary linear form: an unconstrained value per surface point
template <class S> struct TestForm { double factor = double(1.);
  template <class T, class M> void evaluateIntegrand_impl(const T &sp, const SurfacePoint &q, M *intval) const {
    for (int c = 0; c < intval->cols(); ++c) for (int i = 0; i < intval->rows(); ++i) (*intval)(i, c) += val(q) * (q(2) * factor) * coef(i, c); }
  static S val(const SurfacePoint &q) { return scal<S>("f" + key(q)); }
  static double coef(int i, int c) { return 1. + i * (i + 2.) + 7.5 * c; } };
template <class S> struct LinearFormTraits<TestForm<S>> { typedef S Scalar; };
}
struct Sp { SurfacePoint q; Eigen::Vector3d x, dx, dy, n; double k, w;
  Sp() { for (int i = 0; i < 12; ++i) q(i) = vc::in(S_("p", i), i < 2 ? 0 : -1, 1); x = q.segment<3>(3); dx = q.segment<3>(6); dy = q.segment<3>(9); n = cross3(dx, dy); k = norm3(n); w = q(2); vc::require(vc::lt(.05, k)); } };
static double lin(const Eigen::Vector3d &x) { return x(0) + 3.5 * x(1) - 7.25 * x(2); }
template <class S> S f1(const Eigen::Vector3d &x) { return opq<S>("f", lin(x)); }
template <class S> Eigen::Matrix<S, 3, 1> f3(const Eigen::Vector3d &x) { return Eigen::Matrix<S, 3, 1>(opq<S>("f0", lin(x)), opq<S>("f1", lin(x)), opq<S>("f2", lin(x))); }
template <class S> S dotm(const Eigen::Vector3d &a, const Eigen::Matrix<S, 3, 1> &b) { return a(0) * b(0) + a(1) * b(1) + a(2) * b(2); }
template <class S> S junk1(const Eigen::Vector3d &) { return S(double(5.)); }
template <class S> Eigen::Matrix<S, 3, 1> junk3(const Eigen::Vector3d &) { return Eigen::Matrix<S, 3, 1>(S(double(5.)), S(double(5.)), S(double(5.))); }
template <class OpS, class OpV_, class S> static void traces(const std::string &nm) {
  for (int p = 0; p <= (vc::native ? 12 : 4); ++p) {
    std::string t = "/" + nm + "/p" + std::to_string(p); int n = (p + 1) * (p + 1); bool seal = p > 1;
    vc::add("dirichlet" + t, "DirichletTrace::evaluateIntegrand_impl,set_function", [=] {
      Sp P; Geometry g = gsquare(); SuperSpace<OpS> sp(g, vc::native ? vc::choose("level", 0, 4) : p % 3, p); DirichletTrace<S> l; l.set_function(junk1<S>); l.set_function(f1<S>);
      DV<S> o = oldm<S>(n, 1), v = o; l.evaluateIntegrand_impl(sp, P.q, &v); Tensor T(p, P.q(0), P.q(1), seal);
      for (int i = 0; i < n; ++i) vc::eq("trace", v(i), S(o(i) + f1<S>(P.x) * (P.k * P.w * T.v[i])), 1e-7);
    });
    vc::add("neumann" + t, "NeumannTrace::evaluateIntegrand_impl,set_function", [=] {
      Sp P; Geometry g = gsquare(); SuperSpace<OpS> sp(g, vc::native ? vc::choose("level", 0, 4) : p % 3, p); NeumannTrace<S> l; l.set_function(junk3<S>); l.set_function(f3<S>);
      DV<S> o = oldm<S>(n, 1), v = o; l.evaluateIntegrand_impl(sp, P.q, &v); Tensor T(p, P.q(0), P.q(1), seal);
      for (int i = 0; i < n; ++i) vc::eq("trace", v(i), S(o(i) + dotm<S>(P.n, f3<S>(P.x)) * (P.w * T.v[i])), 1e-7);
    });
    for (int rot = 0; rot < 2; ++rot) vc::add((rot ? "rotated-tangential" : "tangential") + t, rot ? "RotatedTangentialTrace::evaluateIntegrand_impl,set_function" : "TangentialTrace::evaluateIntegrand_impl,set_function", [=] {
      Sp P; Geometry g = gsquare(); SuperSpace<OpV_> sp(g, vc::native ? vc::choose("level", 0, 4) : p % 3, p);
      DM<S> o = oldm<S>(n, 2); Eigen::Matrix<S, -1, 2> v = o;
      if (rot) { RotatedTangentialTrace<S> l; l.set_function(junk3<S>); l.set_function(f3<S>); l.evaluateIntegrand_impl(sp, P.q, &v); }
      else { TangentialTrace<S> l; l.set_function(junk3<S>); l.set_function(f3<S>); l.evaluateIntegrand_impl(sp, P.q, &v); }
      Tensor T(p, P.q(0), P.q(1), seal);
      Eigen::Matrix<S, 3, 1> f = f3<S>(P.x), u; Eigen::Vector3d N = P.n / P.k;
      if (rot) { S fn = dotm<S>(N, f); for (int c = 0; c < 3; ++c) u(c) = f(c) - fn * N(c); }
      else { u(0) = f(1) * N(2) - f(2) * N(1); u(1) = f(2) * N(0) - f(0) * N(2); u(2) = f(0) * N(1) - f(1) * N(0); }
      for (int i = 0; i < n; ++i) { vc::eq("trace", v(i, 0), S(o(i, 0) + dotm<S>(P.dx, u) * (P.w * T.v[i])), 1e-7); vc::eq("trace", v(i, 1), S(o(i, 1) + dotm<S>(P.dy, u) * (P.w * T.v[i])), 1e-7); }
    });
  }
}
template <class Op> static void assembly(int gk, int M, int p, int rep, int deg) {
  typedef Sca<Op> S; const int d = dim<Op>();
  vc::add("assembly/" + std::string(gname(gk)) + "/form" + std::to_string((int)LinearOperatorTraits<Op>::Form) + (std::is_same<S, double>::value ? "r" : "c") + S_("/M", M) + S_("p", p) + S_("k", rep) + S_("q", deg), "DiscreteLinearForm::compute,init_DiscreteLinearForm,set_degree,get_discrete_linear_form", [=] {
    Geometry g = gnamed(gk); AnsatzSpace<Op> as(g, M, p, rep); DiscreteLinearForm<TestForm<S>, Op> lf(as);
    lf.set_degree(deg); lf.compute();
    GaussSquare<Constants::maximum_quadrature_degree> GS; auto &Q = GS[deg];
    const auto &sp = as.get_superspace(); int N = as.get_number_of_elements(), n = (p + 1) * (p + 1), id = 0;
    DV<S> big = DV<S>::Constant(n * N * d, S(double(0.)));
    for (auto it = sp.get_mesh().get_element_tree().cpbegin(); it != sp.get_mesh().get_element_tree().cpend(); ++it, ++id)
      for (int q = 0; q < Q.w_.size(); ++q) {
        double h = std::ldexp(1., -M), x = Q.xi_(0, q), y = Q.xi_(1, q);
        SurfacePoint s; g.get_geometry()[it->patch_].updateSurfacePoint(&s, Eigen::Vector2d(it->llc_(0) + h * x, it->llc_(1) + h * y), double(1.), Eigen::Vector2d(x, y));
        for (int c = 0; c < d; ++c) for (int i = 0; i < n; ++i) big((c * N + id) * n + i) = big((c * N + id) * n + i) + TestForm<S>::val(s) * (h * Q.w_(q) * TestForm<S>::coef(i, c));
      }
    vc::eq_int("elements", id, N);
    DV<S> want = mul<S>(as.get_transformation_matrix(), big, true), got = lf.get_discrete_linear_form();
    vc::eqm("linear-form", got, want);
    // computing again gives the same vector
    lf.compute(); DV<S> again = lf.get_discrete_linear_form(); vc::eqm("recompute", again, got);
    // another form in the same object, and a space of the same size on another geometry
    lf.get_linear_form().factor = double(3.); lf.compute(); vc::eqm("another-form", DV<S>(lf.get_discrete_linear_form()), DV<S>(got * S(double(3.))));
    Geometry g2 = doubled(g); AnsatzSpace<Op> other(g2, M, p, rep); DiscreteLinearForm<TestForm<S>, Op> fresh(other); fresh.set_degree(deg); fresh.get_linear_form().factor = double(3.); fresh.compute();
    lf.init_DiscreteLinearForm(other); lf.set_degree(deg); lf.compute(); vc::eqm("another-geometry", DV<S>(lf.get_discrete_linear_form()), DV<S>(fresh.get_discrete_linear_form()));
    lf.init_DiscreteLinearForm(as); lf.set_degree(deg); lf.get_linear_form().factor = double(1.); lf.compute(); vc::eqm("back", DV<S>(lf.get_discrete_linear_form()), got);
    lf.set_degree(deg + 1); lf.compute(); DiscreteLinearForm<TestForm<S>, Op> finer(as); finer.set_degree(deg + 1); finer.compute(); vc::eqm("another-degree", DV<S>(lf.get_discrete_linear_form()), DV<S>(finer.get_discrete_linear_form()));
  }, 4);
}
// flat geometry, polynomial data: the exact integrals with the default quadrature
static void exact(int M, int p) {
  vc::add(S_("exact/M", M) + S_("p", p), "DiscreteLinearForm::compute;DirichletTrace;NeumannTrace", [=] {
    Geometry g = gsquare(); AnsatzSpace<OpD> as(g, M, p, p + 1);
    DiscreteLinearForm<DirichletTrace<double>, OpD> lf(as); double a = vc::in("a", -1, 1), b = vc::in("b", -1, 1), c = vc::in("c", -1, 1);
    lf.get_linear_form().set_function([=](Eigen::Vector3d x) { return a + b * x(0) + c * x(1); }); lf.compute();
    DiscreteLinearForm<NeumannTrace<double>, OpD> ln(as);
    ln.get_linear_form().set_function([=](Eigen::Vector3d x) { return Eigen::Vector3d(b * x(1), c, a + b * x(0) + c * x(1)); }); ln.compute();
    // integral over element of (a + b x + c y) B_i(s) B_j(t), in the scaled basis (1/h)
    int N = as.get_number_of_elements(), n = (p + 1) * (p + 1), id = 0; double h = std::ldexp(1., -M);
    DV<double> big = DV<double>::Zero(n * N);
    auto &et = as.get_superspace().get_mesh().get_element_tree();
    for (auto it = et.cpbegin(); it != et.cpend(); ++it, ++id) for (int j = 0; j <= p; ++j) for (int i = 0; i <= p; ++i) {
      double m = double(1) / ((p + 1.) * (p + 1.)), mx = (i + 1.) / (p + 2.), my = (j + 1.) / (p + 2.);
      big(n * id + j * (p + 1) + i) = h * m * (a + b * (it->llc_(0) + h * mx) + c * (it->llc_(1) + h * my));
    }
    DV<double> want = mul<double>(as.get_transformation_matrix(), big, true), u = lf.get_discrete_linear_form(), v = ln.get_discrete_linear_form();
    vc::eqm("dirichlet", u, want, 1e-11); vc::eqm("neumann", v, want, 1e-11);
  }, 4);
}
int main(int argc, char **argv) {
  traces<OpD, OpV, double>("real"); traces<OpDc, OpVc, C>("complex");
  assembly<OpD>(0, 2, 1, 1, 2); assembly<OpD>(2, 1, 0, 1, 1); assembly<OpK>(2, 1, 2, 1, 3); assembly<OpK>(1, 2, 1, 1, 0); assembly<OpK>(4, 1, 2, 2, 2);
  assembly<OpV>(2, 1, 1, 1, 2); assembly<OpV>(1, 1, 2, 1, 3); assembly<OpDc>(3, 1, 1, 2, 2); assembly<OpKc>(1, 1, 1, 1, 2); assembly<OpVc>(4, 1, 1, 1, 1); assembly<OpVc>(2, 0, 2, 1, 2); assembly<OpD>(4, 0, 3, 1, 4); assembly<OpD>(3, 2, 1, 2, 1);
  if (vc::native) { assembly<OpD>(0, 4, 0, 1, 2); assembly<OpD>(1, 2, 5, 1, 6); assembly<OpK>(2, 2, 3, 1, 4); assembly<OpK>(0, 4, 2, 1, 3); assembly<OpV>(1, 3, 2, 1, 3); assembly<OpVc>(2, 2, 2, 2, 4); assembly<OpKc>(4, 1, 4, 3, 7); assembly<OpDc>(3, 3, 2, 1, 1); assembly<OpV>(4, 1, 2, 1, 11); }
  for (int M = 0; M <= (vc::native ? 4 : 2); ++M) for (int p = 0; p <= (vc::native ? 8 : 3); ++p) exact(M, p);
  return vc::main_(argc, argv);
}
