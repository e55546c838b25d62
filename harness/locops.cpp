// P19: local operators
#include "fun.hpp"
#include <Bembel/Identity>
#include <Bembel/LaplaceBeltrami>
namespace Bembel {
// an arbitrary local operator: unconstrained entries per surface point
template <class S, int F, int O> struct LocOp;
template <class S, int F, int O> struct LinearOperatorTraits<LocOp<S, F, O>> { typedef Eigen::Matrix<S, Eigen::Dynamic, 1> EigenType; typedef S Scalar; enum { OperatorOrder = O, Form = F, NumberOfFMMComponents = 0 }; };
template <class S, int F, int O> struct LocOp : public LocalOperatorBase<LocOp<S, F, O>> { double factor = double(1.);
  static S val(const SurfacePoint &q, int i, int j) { return scal<S>("f" + key(q)) * (1. + i) + scal<S>("g" + key(q)) * (2. * j * j - 3.) + S(double(i * 7 + j)); }
  template <class T> void evaluateIntegrand_impl(const T &sp, const SurfacePoint &p, const SurfacePoint &q, Eigen::Matrix<S, -1, -1> *m) const {
    vc::eqm("one-point", p, q);
    for (int j = 0; j < m->cols(); ++j) for (int i = 0; i < m->rows(); ++i) (*m)(i, j) += val(p, i, j) * (q(2) * factor); } };
}
static const int CON = DifferentialForm::Continuous, DIS = DifferentialForm::Discontinuous, DIV = DifferentialForm::DivConforming;
template <class S> DM<S> triple(const Eigen::SparseMatrix<double> &T, const DM<S> &A) {  // T^t A T
  DM<S> B(A.rows(), T.cols()), R(T.cols(), T.cols()); Eigen::SparseMatrix<double> t = T;
  for (int i = 0; i < A.rows(); ++i) { DV<S> r(A.cols()); for (int j = 0; j < A.cols(); ++j) r(j) = A(i, j); DV<S> s = mul<S>(T, r, true); for (int j = 0; j < s.rows(); ++j) B(i, j) = s(j); }
  for (int j = 0; j < B.cols(); ++j) { DV<S> c(B.rows()); for (int i = 0; i < B.rows(); ++i) c(i) = B(i, j); DV<S> s = mul<S>(T, c, true); for (int i = 0; i < s.rows(); ++i) R(i, j) = s(i); }
  return R;
}
template <class S> DM<S> dense(const Eigen::SparseMatrix<S> &A) { DM<S> r = DM<S>::Constant(A.rows(), A.cols(), S(double(0.))); for (int c = 0; c < A.outerSize(); ++c) for (typename Eigen::SparseMatrix<S>::InnerIterator it(A, c); it; ++it) r(it.row(), it.col()) = r(it.row(), it.col()) + it.value(); return r; }
template <class F> static void nodes(const Geometry &g, int M, const ElementTreeNode &e, int deg, F f) {
  GaussSquare<Constants::maximum_quadrature_degree> GS; auto &Q = GS[deg]; double h = std::ldexp(1., -M);
  for (int q = 0; q < Q.w_.size(); ++q) { double s = Q.xi_(0, q), t = Q.xi_(1, q); SurfacePoint P; g.get_geometry()[e.patch_].updateSurfacePoint(&P, Eigen::Vector2d(e.llc_(0) + h * s, e.llc_(1) + h * t), Q.w_(q), Eigen::Vector2d(s, t)); f(P, s, t, double(Q.w_(q))); }
}
// assembly with an arbitrary integrand
template <class S, int F, int O> static void assembly(int gk, int M, int p, int rep) {
  typedef LocOp<S, F, O> Op; const int d = dim<Op>();
  vc::add("assembly/" + std::string(gname(gk)) + "/form" + std::to_string(F) + (std::is_same<S, double>::value ? "r" : "c") + S_("/M", M) + S_("p", p) + S_("k", rep) + S_("o", O), "DiscreteLocalOperatorComputer::compute; DiscreteOperator::compute,init_DiscreteOperator,get_discrete_operator; LinearOperatorBase::evaluateIntegrand,get_FarfieldQuadratureDegree", [=] {
    Geometry g = gnamed(gk); AnsatzSpace<Op> as(g, M, p, rep); DiscreteLocalOperator<Op> op(as); double fac = vc::in("factor", -1, 1); op.get_linear_operator().factor = fac; op.compute();
    int N = as.get_number_of_elements(), n = (p + 1) * (p + 1);
    DM<S> big = DM<S>::Constant(d * n * N, d * n * N, S(double(0.)));
    for (int k = 0; k < N; ++k) { const auto &e = element(as, k); int id = e.id_; nodes(g, M, e, p - O + 1, [&](const SurfacePoint &P, double, double, double w) {
      for (int a = 0; a < d; ++a) for (int b = 0; b < d; ++b) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { auto &x = big((a * N + id) * n + i, (b * N + id) * n + j); x = x + Op::val(P, a * n + i, b * n + j) * (w * fac); } }); }
    DM<S> want = triple<S>(as.get_transformation_matrix(), big), got = dense<S>(op.get_discrete_operator()); vc::eqm("matrix", got, want);
    op.compute(); DM<S> again = dense<S>(op.get_discrete_operator()); vc::eqm("recompute", again, got);
    // the same object with another factor, and on another geometry with as many dofs
    op.get_linear_operator().factor = double(3.); op.compute(); DiscreteLocalOperator<Op> o3(as); o3.get_linear_operator().factor = double(3.); o3.compute(); vc::eqm("another-factor", dense<S>(op.get_discrete_operator()), dense<S>(o3.get_discrete_operator()));
    Geometry g2 = doubled(g); AnsatzSpace<Op> other(g2, M, p, rep); DiscreteLocalOperator<Op> o2(other); o2.get_linear_operator().factor = double(3.); o2.compute(); op.init_DiscreteOperator(other); op.compute(); vc::eqm("another-geometry", dense<S>(op.get_discrete_operator()), dense<S>(o2.get_discrete_operator()));
    op.init_DiscreteOperator(as); op.get_linear_operator().factor = fac; op.compute(); vc::eqm("back", dense<S>(op.get_discrete_operator()), got);
  }, 4);
}
// the integrands of the library's operators at an arbitrary surface point
template <class Op> static void mass(const std::string &nm) {
  for (int p = 0; p <= (vc::native ? 12 : 5); ++p) for (int M = 0; M <= (vc::native ? 5 : 2); ++M) {
    if (M && p > 2 && !vc::native) continue;
    vc::add("mass-integrand/" + nm + S_("/M", M) + S_("p", p), "IdentityOperatorBase::evaluateIntegrand_impl", [=] {
      Sp P; Geometry g = gsquare(); SuperSpace<Op> sp(g, M, p); int n = (p + 1) * (p + 1); DM<double> o = oldm<double>(n, n), m = o; Op op; Tensor T(p, P.q(0), P.q(1), p > 1);
      op.evaluateIntegrand(sp, P.q, P.q, &m);
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { vc::eq("integrand", m(i, j), o(i, j) + P.k * P.w * T.v[i] * T.v[j], 1e-8); }
    });
  }
}
static void beltrami() {
  for (int p = 1; p <= (vc::native ? 12 : 4); ++p) for (int M = 0; M <= 6; ++M) {
    if (M > 2 && p > 1 && (!vc::native || M > 5)) continue;
    vc::add("laplace-beltrami-integrand" + S_("/M", M) + S_("p", p), "LaplaceBeltramiOperatorBase::evaluateIntegrand_impl; SuperSpace::addScaledSurfaceGradientInteraction", [=] {
      Sp P; Geometry g = gsquare(); SuperSpace<LaplaceBeltramiOperator> sp(g, M, p); int n = (p + 1) * (p + 1); DM<double> o = oldm<double>(n, n), m = o; LaplaceBeltramiOperator op; Tensor T(p, P.q(0), P.q(1), p > 1);
      op.evaluateIntegrand(sp, P.q, P.q, &m);
      // grad_i . grad_j = d_i^t G^{-1} d_j with the first fundamental form G of the element map; det G = kappa^2
      double E = dot3(P.dx, P.dx), F = dot3(P.dx, P.dy), Gg = dot3(P.dy, P.dy), hh = std::ldexp(1., 2 * M);
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double f = (T.dx[i] * T.dx[j] * Gg - (T.dx[i] * T.dy[j] + T.dy[i] * T.dx[j]) * F + T.dy[i] * T.dy[j] * E) / (P.k * P.k); vc::eq("integrand", m(i, j), o(i, j) + P.k * P.w * hh * f, 1e-7); }
    });
  }
}
// the assembled matrices of the library's operators against the quadrature sums, and their algebra
template <class Op> static void whole(const std::string &nm, int gk, int M, int p, bool grad) {
  vc::add("matrix/" + nm + "/" + gname(gk) + S_("M", M) + S_("p", p), "DiscreteLocalOperator<" + nm + ">::compute", [=] {
    Geometry g = gnamed(gk); AnsatzSpace<Op> as(g, M, p); DiscreteLocalOperator<Op> op(as); op.compute(); DM<double> A = dense<double>(op.get_discrete_operator());
    int N = as.get_number_of_elements(), n = (p + 1) * (p + 1), k = as.get_number_of_dofs(); DM<double> big = DM<double>::Constant(n * N, n * N, double(0.)); double area = 0., h = std::ldexp(1., -M);
    for (int l = 0; l < N; ++l) { const auto &e = element(as, l); nodes(g, M, e, p + 1, [&](const SurfacePoint &P, double s, double t, double w) {
      Tensor T(p, s, t, false); Eigen::Vector3d dx = P.segment<3>(6), dy = P.segment<3>(9); double kap = norm3(cross3(dx, dy)); area += kap * w * h * h;
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double f = T.v[i] * T.v[j]; if (grad) f = (T.dx[i] * T.dx[j] * dot3(dy, dy) - (T.dx[i] * T.dy[j] + T.dy[i] * T.dx[j]) * dot3(dx, dy) + T.dy[i] * T.dy[j] * dot3(dx, dx)) / (kap * kap * h * h); auto &x = big(e.id_ * n + i, e.id_ * n + j); x = x + kap * w * f; } }); }
    DM<double> want = triple<double>(as.get_transformation_matrix(), big); vc::eqm("matrix", A, want);
    for (int i = 0; i < k; ++i) for (int j = 0; j < i; ++j) vc::eq("symmetric", A(i, j), A(j, i));
    // the constant function: coefficients with T c = h (every Bernstein coefficient of every element)
    DV<double> one = DV<double>::Constant(k, h), l = mul<double>(as.get_transformation_matrix(), one, false);
    for (int i = 0; i < l.rows(); ++i) vc::eq("constant-representable", l(i), h, 1e-10);
    double sum = 0.; for (int i = 0; i < k; ++i) { double r = 0.; for (int j = 0; j < k; ++j) { r += A(i, j) * h; } sum += r * h; if (grad) vc::eq("constants-in-kernel", r, 0., 1e-9); }
    if (!grad) vc::eq("area", sum, area, 1e-9);
  });
}
int main(int argc, char **argv) {
  mass<MassMatrixScalarDisc>("MassMatrixScalarDisc"); mass<MassMatrixScalarCont>("MassMatrixScalarCont"); beltrami();
  assembly<double, DIS, 0>(0, 1, 1, 1); assembly<double, DIS, 1>(1, 0, 2, 1); assembly<double, DIS, -1>(3, 1, 0, 1); assembly<C, DIS, 0>(1, 1, 0, 1); assembly<double, CON, 0>(2, 0, 1, 1); assembly<C, CON, 1>(0, 1, 1, 1); assembly<double, CON, -1>(1, 1, 2, 2); assembly<double, DIV, -1>(1, 0, 1, 1); assembly<C, DIV, 0>(0, 1, 1, 1); assembly<double, DIV, 0>(2, 0, 1, 1); assembly<double, DIV, 0>(4, 0, 2, 1);
  if (vc::native) {
    assembly<double, DIS, 0>(0, 3, 1, 1); assembly<double, CON, 0>(1, 1, 4, 1); assembly<C, DIV, -1>(4, 0, 3, 2); assembly<double, CON, 1>(2, 2, 1, 1); assembly<double, DIS, -1>(0, 2, 3, 2); assembly<double, DIV, 0>(1, 2, 2, 1);
    typedef std::array<int, 3> A; for (auto a : {A{0, 3, 1}, A{0, 2, 3}, A{1, 2, 2}, A{4, 1, 4}, A{3, 2, 2}, A{2, 2, 1}, A{0, 4, 1}, A{1, 0, 7}}) { whole<MassMatrixScalarDisc>("MassMatrixScalarDisc", a[0], a[1], a[2] - 1, false); whole<MassMatrixScalarCont>("MassMatrixScalarCont", a[0], a[1], a[2], false); whole<LaplaceBeltramiOperator>("LaplaceBeltramiOperator", a[0], a[1], a[2], true); }
  }
  for (int gk = 0; gk < 5; ++gk) for (int M = 0; M <= 1; ++M) for (int p = 0; p <= 2; ++p) {
    if (gk == 2 && M && p > 1) continue; if (gk == 3 && (p > 1)) continue;
    whole<MassMatrixScalarDisc>("MassMatrixScalarDisc", gk, M, p, false); if (p) { whole<MassMatrixScalarCont>("MassMatrixScalarCont", gk, M, p, false); whole<LaplaceBeltramiOperator>("LaplaceBeltramiOperator", gk, M, p, true); }
  }
  return vc::main_(argc, argv);
}
