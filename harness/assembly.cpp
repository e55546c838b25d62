// P20: dense and compressed assembly
#include "h2.hpp"
#include <Bembel/LinearOperator>
#include <Bembel/Laplace>
#include <Bembel/Helmholtz>
#include <Bembel/Maxwell>
static PatchVector pv(int k, double f = double(1.)) {
  md fm = vc::value(f); geo::Mesh m = geo::scaled(geo::square(), fm); PatchVector r;
  switch (k) {
    case 0: return geo::patches(m);
    case 1: { r = geo::patches(m); for (auto &v : m.v) { v[0] += 8 * fm; v[2] += .5 * v[1]; } r.push_back(geo::patches(m)[0]); return r; }
    case 2: return geo::patches(geo::scaled(geo::star(1), fm));
    default: return geo::patches(geo::scaled(geo::two(1, 2, false, false), fm));
  }
}
static const char *gn[] = {"square", "far", "star", "two"};
template <class Op> static std::string name(int gk, int M, int p, int rep) { return std::string(gn[gk]) + S_("/M", M) + S_("p", p) + S_("r", rep) + S_("f", LinearOperatorTraits<Op>::Form) + (std::is_same<Sca<Op>, C>::value ? "c" : ""); }
// arbitrary element integrals, per pair of elements and pair of local functions
template <class S> static S integral(int e1, int e2, int i, int j, const char *fam = "A") { return scal<S>(S_(fam, e1, e2) + S_("_", i, j)); }
template <class S, int F, int K> static void unconstrained(const Far<S, F, K> &op, const AnsatzSpace<Far<S, F, K>> &as, const char *fam = "A") {
  auto &sp = as.get_superspace(); GaussSquare<Constants::maximum_quadrature_degree> GS; int deg = op.get_FarfieldQuadratureDegree(sp.get_polynomial_degree()); auto nodes = std::make_shared<std::vector<ElementSurfacePoints>>(DuffyTrick::computeFfieldQnodes(sp, GS[deg]));
  op.pair = [nodes, fam](const ElementTreeNode &a, const ElementTreeNode &b, const ElementSurfacePoints &qa, const ElementSurfacePoints &qb, DM<S> *m) {
    auto same = [](const ElementSurfacePoints &x, const ElementSurfacePoints &y) { if (x.size() != y.size()) return false; for (size_t i = 0; i < x.size(); ++i) for (int k = 0; k < 12; ++k) if (std::fabs(vc::value(x[i](k)) - vc::value(y[i](k))) > 1e-12) return false; return true; };
    vc::check("quadrature-nodes-of-first-element", same(qa, (*nodes)[a.id_])); vc::check("quadrature-nodes-of-second-element", same(qb, (*nodes)[b.id_]));
    for (int j = 0; j < m->cols(); ++j) for (int i = 0; i < m->rows(); ++i) (*m)(i, j) = integral<S>(a.id_, b.id_, i, j, fam);
  };
}
template <class S, int F, int K> static void dense(int gk, int M, int p, int rep) {
  typedef Far<S, F, K> Op;
  vc::add("dense/" + name<Op>(gk, M, p, rep), "DiscreteOperatorComputer<Matrix>::compute; DiscreteOperator::init_DiscreteOperator,compute", [=] {
    Geometry g(pv(gk)); AnsatzSpace<Op> as(g, M, p, rep); DiscreteOperator<DM<S>, Op> d(as); unconstrained<S, F, K>(d.get_linear_operator(), as); d.compute(); DM<S> A = d.get_discrete_operator();
    int N = as.get_number_of_elements(), q = (p + 1) * (p + 1), n = as.get_number_of_dofs(); constexpr int vd = dim<Op>(); vc::check("size", A.rows() == n && A.cols() == n);
    auto T = as.get_transformation_matrix(); auto loc = [&](int k, int *e, int *i) { int c = k / (N * q); *e = k / q % N; *i = c * q + k % q; };
    auto projected = [&](const char *fam) { DM<S> W = DM<S>::Constant(n, n, S(double(0.)));
    for (int c1 = 0; c1 < T.outerSize(); ++c1) for (Eigen::SparseMatrix<double>::InnerIterator s(T, c1); s; ++s) for (int c2 = 0; c2 < T.outerSize(); ++c2) for (Eigen::SparseMatrix<double>::InnerIterator t(T, c2); t; ++t) { int e1, e2, i, j; loc(s.row(), &e1, &i); loc(t.row(), &e2, &j); W(s.col(), t.col()) = W(s.col(), t.col()) + s.value() * t.value() * integral<S>(e1, e2, i, j, fam); } return W; };
    DM<S> W = projected("A"); vc::eqm("projected-element-integrals", A, W); vc::eq_int("size-of-space", T.rows(), N * q * vd);
    d.compute(); vc::eqm("repeated", d.get_discrete_operator(), W);
    // the same object with another space in between
    if (n <= 16) { AnsatzSpace<Op> other(g, 1 - (M > 0), p, rep); d.init_DiscreteOperator(other); unconstrained<S, F, K>(d.get_linear_operator(), other); d.compute(); vc::eq_int("other-size", d.get_discrete_operator().rows(), other.get_number_of_dofs()); d.init_DiscreteOperator(as); unconstrained<S, F, K>(d.get_linear_operator(), as); d.compute(); vc::eqm("after-another-space", d.get_discrete_operator(), W); }
    // the same object with another kernel, and with a space of the same size on another geometry
    if (n <= 16) { unconstrained<S, F, K>(d.get_linear_operator(), as, "B"); d.compute(); vc::eqm("another-kernel", d.get_discrete_operator(), projected("B"));
      Geometry g2(pv(gk, double(2.))); AnsatzSpace<Op> same(g2, M, p, rep); d.init_DiscreteOperator(same); unconstrained<S, F, K>(d.get_linear_operator(), same, "D"); d.compute(); vc::eqm("another-geometry", d.get_discrete_operator(), projected("D")); }
  }, 1);
}
static bool n_other(int M, int p) { return vc::native || (M < 2 && p < 2); }  // the matrix was set up for another space before
template <class S, int F, int K> static void compressed(int gk, int M, int p, int rep, int pts) {
  typedef Far<S, F, K> Op;
  vc::add("compressed/" + name<Op>(gk, M, p, rep) + S_("k", K) + S_("n", pts), "H2Matrix::init_H2Matrix; DiscreteOperatorComputer<H2Matrix>::compute", [=] {
    Geometry g(pv(gk)); AnsatzSpace<Op> as(g, M, p, rep); Eigen::H2Matrix<S> H; Op op; DiscreteOperator<Eigen::H2Matrix<S>, Op> d(as);
    arb() = {true, true, true, true}; if (pts) { if (n_other(M, p)) { AnsatzSpace<Op> other(g, 1 - (M > 0), p, rep); Op o; unconstrained<S, F, K>(o, other); H.init_H2Matrix(o, other, pts + 1); } unconstrained<S, F, K>(op, as); H.init_H2Matrix(op, as, pts); } else { unconstrained<S, F, K>(d.get_linear_operator(), as); d.compute(); }
    const Eigen::H2Matrix<S> &A = pts ? H : d.get_discrete_operator(); int np = pts ? pts : 9, n2 = np * np, q = (p + 1) * (p + 1); constexpr int vd = dim<Op>();
    vc::eqm("transformation", Eigen::MatrixXd(A.get_transformation_matrix()), Eigen::MatrixXd(as.get_transformation_matrix()));
    vc::eqm("transfer", A.get_fmm_transfer_matrices(), H2Multipole::computeTransferMatrices<H2Multipole::ChebychevRoots>(np));
    auto m = A.get_fmm_moment_matrix(), w = H2Multipole::Moment2D<H2Multipole::ChebychevRoots, Op>::compute2DMoment(as.get_superspace(), std::max(0, M - 1), std::min(1, M), np); vc::eq_int("moments", m.size(), w.size()); for (size_t i = 0; i < m.size() && i < w.size(); ++i) vc::eqm("moments", m[i], w[i]);
    Eigen::VectorXd x = H2Multipole::ChebychevRoots(np).points_; auto &t = A.get_block_cluster_tree(); vc::check("components", t.rows() == vd && t.cols() == vd); const auto &geom = as.get_superspace().get_geometry();
    auto at = [&](const ElementTreeNode &e, int i) { double h = std::ldexp(1., -e.level_); SurfacePoint P; Eigen::Vector2d r(x(i / np), x(i % np)); geom[e.patch_].updateSurfacePoint(&P, Eigen::Vector2d(e.llc_ + h * r), double(1.), r); return P; };
    int low = 0; Op f;
    for (int r = 0; r < vd; ++r) for (int c = 0; c < vd; ++c) for (auto l = t(r, c).clbegin(); l != t(r, c).clend(); ++l) {
      const ElementTreeNode &a = *(*l)->get_cluster1(), &b = *(*l)->get_cluster2(); const auto &B = (*l)->get_leaf().get_F();
      if ((*l)->get_cc() == BlockClusterAdmissibility::Dense) {
        std::vector<int> R, Q; for (const auto &e : a) R.push_back(e.id_); for (const auto &e : b) Q.push_back(e.id_); vc::check("near-field-size", B.rows() == q * (int)R.size() && B.cols() == q * (int)Q.size()); if (B.rows() != q * (int)R.size() || B.cols() != q * (int)Q.size()) continue;
        for (size_t i = 0; i < R.size(); ++i) for (size_t j = 0; j < Q.size(); ++j) for (int k = 0; k < q; ++k) for (int o = 0; o < q; ++o) vc::eq("near-field", B(i * q + k, j * q + o), integral<S>(R[i], Q[j], r * q + k, c * q + o));
        vc::check("near-field-not-low-rank", !const_cast<TreeLeaf<DM<S>> &>((*l)->get_leaf()).is_low_rank());
      } else {
        ++low; vc::check("far-field-size", B.rows() == K * n2 && B.cols() == K * n2); if (B.rows() != K * n2 || B.cols() != K * n2) continue; vc::check("far-field-low-rank", const_cast<TreeLeaf<DM<S>> &>((*l)->get_leaf()).is_low_rank());
        for (int i = 0; i < n2; ++i) for (int j = 0; j < n2; ++j) { if (np > 4 && (i + 2 * j) % 17) continue; auto v = f.evaluateFMMInterpolation(at(a, i), at(b, j)); for (int k = 0; k < K; ++k) for (int o = 0; o < K; ++o) vc::eq("far-field", B(k * n2 + i, o * n2 + j), S(v(r * K + k, c * K + o))); }
      }
    }
    vc::check("has-far-field", (low > 0) == (M > 0 && gk == 1));
  }, 1);
}
template <class Op> static void prepare(Op &) {}
static void prepare(MaxwellSingleLayerOperator &op) { op.set_wavenumber(C(1.25, .5)); }
// the operators of the library: dense assembly against the element pairs one by one (bounded, executed)
template <class Op> static void library(const std::string &nm, int gk, int M, int p) {
  vc::add("library/" + nm + "/" + name<Op>(gk, M, p, 1), "DiscreteOperatorComputer<Matrix>::compute; DuffyTrick::evaluateBilinearForm", [=] {
    if (!vc::native) { vc::note("executed only"); vc::check("registered", true); return; }
    typedef Sca<Op> S; Geometry g(pv(gk)); AnsatzSpace<Op> as(g, M, p); DiscreteOperator<DM<S>, Op> d(as); prepare(d.get_linear_operator()); d.compute(); auto &sp = as.get_superspace(); auto &et = sp.get_mesh().get_element_tree(); Op op; prepare(op); GaussSquare<Constants::maximum_quadrature_degree> GS; auto nodes = DuffyTrick::computeFfieldQnodes(sp, GS[op.get_FarfieldQuadratureDegree(p)]);
    int N = et.get_number_of_elements(), q = (p + 1) * (p + 1); constexpr int vd = dim<Op>(); DM<S> A = DM<S>::Constant(N * q * vd, N * q * vd, S(double(0.)));
    for (auto a = et.cpbegin(); a != et.cpend(); ++a) for (auto b = et.cpbegin(); b != et.cpend(); ++b) { DM<S> m(vd * q, vd * q); DuffyTrick::evaluateBilinearForm(op, sp, *a, *b, GS, nodes[a->id_], nodes[b->id_], &m); for (int i = 0; i < vd * q; ++i) for (int j = 0; j < vd * q; ++j) A((i / q * N + a->id_) * q + i % q, (j / q * N + b->id_) * q + j % q) = m(i, j); }
    DM<S> T = DM<S>(Eigen::MatrixXd(as.get_transformation_matrix()).template cast<S>()); DM<S> W = T.transpose() * A * T; vc::eqm("projected-element-integrals", d.get_discrete_operator(), W);
    Eigen::H2Matrix<S> H; H.init_H2Matrix(op, as, 4); auto &t = H.get_block_cluster_tree();
    for (int r = 0; r < vd; ++r) for (int c = 0; c < vd; ++c) for (auto l = t(r, c).clbegin(); l != t(r, c).clend(); ++l) if ((*l)->get_cc() == BlockClusterAdmissibility::Dense) { int i = 0; for (const auto &a : *(*l)->get_cluster1()) { int j = 0; for (const auto &b : *(*l)->get_cluster2()) { vc::eqm("near-field", DM<S>((*l)->get_leaf().get_F().block(i * q, j * q, q, q)), DM<S>(A.block((r * N + a.id_) * q, (c * N + b.id_) * q, q, q))); ++j; } ++i; } }
  }, 1);
}
#ifdef VC_NATIVE
static void prepare(HelmholtzSingleLayerOperator &op) { op.set_wavenumber(C(1.25, .5)); }
static void prepare(HelmholtzDoubleLayerOperator &op) { op.set_wavenumber(C(1.25, .5)); }
static void prepare(HelmholtzAdjointDoubleLayerOperator &op) { op.set_wavenumber(C(1.25, .5)); }
static void prepare(HelmholtzHypersingularOperator &op) { op.set_wavenumber(C(1.25, .5)); }
// the compressed matrix of a library operator is close to the dense one (patches far apart); initialising it again replaces everything (bounded, executed)
template <class Op> static void agree(const std::string &nm, int M, int p) {
  vc::add("agree/" + nm + "/" + name<Op>(1, M, p, 6), "H2Matrix::init_H2Matrix,get_dense; DiscreteOperatorComputer<Matrix>::compute", [=] {
    typedef Sca<Op> S; Geometry g(pv(1)), g2(pv(3)); AnsatzSpace<Op> as(g, M, p), other(g2, M + 1, p + 1); Op op; prepare(op); DiscreteOperator<DM<S>, Op> d(as); prepare(d.get_linear_operator()); d.compute(); DM<S> D = d.get_discrete_operator();
    Eigen::H2Matrix<S> H; H.init_H2Matrix(op, as, 6); DM<S> E = H.get_dense(); vc::check("size", E.rows() == D.rows() && E.cols() == D.cols()); if (E.rows() != D.rows() || E.cols() != D.cols()) return;
    // the entries of the far field are small: relative to their own size
    md far = 0, err = 0, all = 0, aerr = 0; auto lt = [&](int i) { auto T = as.get_transformation_matrix(); bool a = false, b = false; int half = T.rows() / dim<Op>(), q = (p + 1) * (p + 1), N = half / q; for (int r = 0; r < T.rows(); ++r) if (vc::value(T.coeff(r, i)) != 0.) ((r % half) / q < N / 2 ? a : b) = true; return std::make_pair(a, b); };
    std::vector<std::pair<bool, bool>> where; for (int i = 0; i < D.cols(); ++i) where.push_back(lt(i));
    for (int i = 0; i < D.rows(); ++i) for (int j = 0; j < D.cols(); ++j) { md e = std::abs(E(i, j) - D(i, j)), n = std::abs(D(i, j)); all = std::max(all, n); aerr = std::max(aerr, e); if (where[i].first != where[j].first && where[i].second != where[j].second) { far = std::max(far, n); err = std::max(err, e); } }
    vc::check("close", aerr <= 1e-3 * all, "deviation " + std::to_string(aerr / all)); vc::check("far-field-close", err <= 2e-3 * far, "deviation " + std::to_string(err / far) + " of " + std::to_string(far));
    Eigen::H2Matrix<S> G; G.init_H2Matrix(op, other, 3); G.init_H2Matrix(op, as, 6); vc::eqm("initialised-again", G.get_dense(), E); H.init_H2Matrix(op, as, 6); vc::eqm("initialised-twice", H.get_dense(), E);
  }, 1);
}
// the same object after a change of the wavenumber, and on another geometry with as many dofs (bounded, executed)
static void change(LaplaceSingleLayerOperator &, int) {}
static void change(HelmholtzSingleLayerOperator &op, int k) { op.set_wavenumber(C(double(1. + k), double(.25))); }
static void change(HelmholtzDoubleLayerOperator &op, int k) { op.set_wavenumber(C(double(1. + k), double(.25))); }
static void change(MaxwellSingleLayerOperator &op, int k) { op.set_wavenumber(C(double(1. + k), double(.25))); }
template <class Op, class Mat> static DM<Sca<Op>> matrix(const DiscreteOperator<Mat, Op> &d) { if constexpr (std::is_same<Mat, DM<Sca<Op>>>::value) return d.get_discrete_operator(); else return d.get_discrete_operator().get_dense(); }
template <class Op, class Mat> static void reuse(const std::string &nm, int M, int p) {
  vc::add("reuse/" + nm + "/" + name<Op>(1, M, p, 1), "DiscreteOperator::compute,init_DiscreteOperator; H2Matrix::init_H2Matrix", [=] {
    for (int gk : {1, 3}) { Geometry g(pv(gk)), g2(pv(gk, double(2.))); AnsatzSpace<Op> as(g, M, p), other(g2, M, p); vc::eq_int("as-many-dofs", as.get_number_of_dofs(), other.get_number_of_dofs());
      auto fresh = [&](const AnsatzSpace<Op> &s, int k) { DiscreteOperator<Mat, Op> d(s); change(d.get_linear_operator(), k); d.compute(); return matrix<Op, Mat>(d); };
      DiscreteOperator<Mat, Op> d(as); change(d.get_linear_operator(), 0); d.compute(); vc::eqm("first", matrix<Op, Mat>(d), fresh(as, 0));
      change(d.get_linear_operator(), 1); d.compute(); vc::eqm("another-wavenumber", matrix<Op, Mat>(d), fresh(as, 1));
      d.init_DiscreteOperator(other); d.compute(); vc::eqm("another-geometry", matrix<Op, Mat>(d), fresh(other, 1));
      d.init_DiscreteOperator(as); change(d.get_linear_operator(), 0); d.compute(); vc::eqm("back", matrix<Op, Mat>(d), fresh(as, 0)); }
  }, 1);
}
#endif
int main(int argc, char **argv) {
#ifdef VC_NATIVE
  agree<LaplaceSingleLayerOperator>("laplace-single-layer", 1, 1); agree<LaplaceDoubleLayerOperator>("laplace-double-layer", 1, 1); agree<LaplaceAdjointDoubleLayerOperator>("laplace-adjoint-double-layer", 1, 0); agree<LaplaceHypersingularOperator>("laplace-hypersingular", 1, 2);
  agree<HelmholtzSingleLayerOperator>("helmholtz-single-layer", 2, 0); agree<HelmholtzDoubleLayerOperator>("helmholtz-double-layer", 1, 1); agree<HelmholtzAdjointDoubleLayerOperator>("helmholtz-adjoint-double-layer", 1, 1); agree<HelmholtzHypersingularOperator>("helmholtz-hypersingular", 1, 1); agree<MaxwellSingleLayerOperator>("maxwell-single-layer", 1, 1); agree<MaxwellSingleLayerOperator>("maxwell-single-layer", 1, 2);
  reuse<LaplaceSingleLayerOperator, Eigen::MatrixXd>("dense/laplace-single-layer", 1, 0); reuse<HelmholtzSingleLayerOperator, Eigen::MatrixXcd>("dense/helmholtz-single-layer", 0, 1); reuse<HelmholtzDoubleLayerOperator, Eigen::MatrixXcd>("dense/helmholtz-double-layer", 1, 0); reuse<MaxwellSingleLayerOperator, Eigen::MatrixXcd>("dense/maxwell-single-layer", 1, 1);
  reuse<LaplaceSingleLayerOperator, Eigen::H2Matrix<double>>("compressed/laplace-single-layer", 1, 0); reuse<HelmholtzSingleLayerOperator, Eigen::H2Matrix<C>>("compressed/helmholtz-single-layer", 1, 0); reuse<HelmholtzDoubleLayerOperator, Eigen::H2Matrix<C>>("compressed/helmholtz-double-layer", 1, 0); reuse<MaxwellSingleLayerOperator, Eigen::H2Matrix<C>>("compressed/maxwell-single-layer", 1, 1);
#endif
  const int DIS = DifferentialForm::Discontinuous, CON = DifferentialForm::Continuous, DIV = DifferentialForm::DivConforming;
  dense<double, DIS, 1>(1, 0, 0, 1); dense<double, DIS, 1>(3, 1, 0, 1); dense<C, DIS, 1>(3, 1, 1, 1); dense<double, DIS, 1>(0, 1, 2, 2); dense<double, DIS, 1>(2, 1, 1, 2); dense<double, DIS, 1>(0, 2, 0, 1);
  dense<double, CON, 1>(3, 1, 1, 1); dense<C, CON, 1>(3, 0, 2, 1); dense<double, CON, 1>(2, 1, 1, 1); dense<double, DIV, 1>(3, 0, 1, 1); dense<C, DIV, 1>(3, 1, 1, 1); dense<double, DIV, 1>(2, 0, 2, 1); dense<double, DIV, 1>(0, 1, 2, 1);
  compressed<double, DIS, 1>(1, 0, 0, 1, 2); compressed<double, DIS, 1>(1, 2, 0, 1, 2); compressed<C, DIS, 2>(1, 1, 1, 1, 2); compressed<double, CON, 2>(1, 1, 1, 1, 3); compressed<C, CON, 3>(3, 1, 1, 1, 1); compressed<double, CON, 1>(1, 3, 1, 1, 1);
  compressed<double, DIV, 1>(1, 1, 1, 1, 2); compressed<C, DIV, 2>(1, 1, 1, 1, 2); compressed<double, DIV, 2>(1, 2, 1, 1, 1); compressed<double, DIV, 2>(2, 1, 1, 1, 2); compressed<C, DIV, 1>(1, 0, 2, 1, 2); compressed<double, DIS, 1>(1, 1, 0, 1, 0);
  library<LaplaceSingleLayerOperator>("laplace-single-layer", 1, 1, 0); library<LaplaceHypersingularOperator>("laplace-hypersingular", 3, 1, 1); library<LaplaceDoubleLayerOperator>("laplace-double-layer", 3, 1, 1); library<MaxwellSingleLayerOperator>("maxwell-single-layer", 3, 1, 1);
  return vc::main_(argc, argv);
}
