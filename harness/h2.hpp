// operators with unconstrained kernels for the compressed matrices
#pragma once
namespace Bembel {
template <class S, int F, int K> struct Far;
namespace DuffyTrick { template <class S, int F, int K, class T, class N, class Q, class P, class M> void evaluateBilinearForm(const Far<S, F, K> &, const T &, const N &, const N &, const Q &, const P &, const P &, M *); }  // callers see the contract of P10
}
#include "spaces.hpp"
#include <Bembel/H2Matrix>
namespace Bembel {
template <class S, int F, int K> struct LinearOperatorTraits<Far<S, F, K>> { typedef Eigen::Matrix<S, Eigen::Dynamic, 1> EigenType; typedef S Scalar; enum { OperatorOrder = 0, Form = F, NumberOfFMMComponents = K }; };
// an operator with unconstrained kernel: far field by pair of points, element integrals (contract of P10) by pair of elements
template <class S, int F, int K> struct Far : public LinearOperatorBase<Far<S, F, K>> {
  static constexpr int D = K * getFunctionSpaceVectorDimension<F>(); mutable std::function<void(const ElementTreeNode &, const ElementTreeNode &, const ElementSurfacePoints &, const ElementSurfacePoints &, Eigen::Matrix<S, -1, -1> *)> pair;
  template <class T> void evaluateIntegrand_impl(const T &, const SurfacePoint &, const SurfacePoint &, Eigen::Matrix<S, -1, -1> *) const {}
  Eigen::Matrix<S, D, D> evaluateFMMInterpolation_impl(const SurfacePoint &a, const SurfacePoint &b) const { Eigen::Matrix<S, D, D> m; for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) m(i, j) = scal<S>(S_("f", i, j) + key(a) + key(b)); return m; }
};
namespace DuffyTrick {
template <class S, int F, int K, class T, class N, class Q, class P, class M> void evaluateBilinearForm(const Far<S, F, K> &op, const T &, const N &a, const N &b, const Q &, const P &qa, const P &qb, M *m) { if (op.pair) op.pair(a, b, qa, qb, m); else m->setConstant(S(double(0.))); }
}
}
// which parts are arbitrary entry by entry; the others are fixed, pairwise unrelated numbers (times one arbitrary factor for vectors and blocks)
struct Arbitrary { bool x, F, M, T; };
inline Arbitrary &arb() { static Arbitrary a = {true, true, true, true}; return a; }
inline double generic(const std::string &n, int salt) { unsigned h = 2166136261u + salt; for (char c : n) h = (h ^ (unsigned char)c) * 16777619u; h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; return (double(int(h % 1999)) - double(999.)) / double(512.) + double(1. / 1024); }
template <class S> S value(const std::string &n, bool symbolic, const std::string &factor);
template <> inline double value<double>(const std::string &n, bool symbolic, const std::string &factor) { return symbolic ? scal<double>(n) : factor.empty() ? generic(n, 1) : generic(n, 1) * scal<double>(factor); }
template <> inline C value<C>(const std::string &n, bool symbolic, const std::string &factor) { C g(generic(n, 1), generic(n, 2)); return symbolic ? scal<C>(n) : factor.empty() ? g : g * scal<C>(factor); }
// arbitrary moments for these operators, one per vector component
namespace Bembel { namespace H2Multipole {
template <class P, class S, int F, int K> struct Moment2D<P, Far<S, F, K>> {
  static std::vector<Eigen::MatrixXd> compute2DMoment(const SuperSpace<Far<S, F, K>> &sp, int level, int refinement, int n) {
    std::vector<Eigen::MatrixXd> r; int p = sp.get_polynomial_degree(), cols = (p + 1) * (p + 1) << (2 * refinement);
    for (int c = 0; c < getFunctionSpaceVectorDimension<F>(); ++c) { Mat m(n * n * K, cols); for (int j = 0; j < m.cols(); ++j) for (int i = 0; i < m.rows(); ++i) m(i, j) = value<double>(S_("m", c) + S_("_", level, refinement) + S_("_", n) + S_("_", i, j), arb().M, ""); r.push_back(m); }
    return r;
  }
};
} }
// the matrix which a compressed matrix represents, applied to a vector
template <class S> struct Represented {
  const Eigen::H2Matrix<S> &H; Eigen::MatrixXd T; std::vector<Eigen::MatrixXd> M; int d, n2, base, q; Eigen::SparseMatrix<double> P;
  template <class Op> Represented(const Eigen::H2Matrix<S> &H_, const AnsatzSpace<Op> &as) : H(H_), T(H_.get_fmm_transfer_matrices()), M(H_.get_fmm_moment_matrix()), d(dim<Op>()), P(as.get_transformation_matrix()) {
    n2 = T.rows(); q = (as.get_polynomial_degree() + 1) * (as.get_polynomial_degree() + 1); base = std::max(0, as.get_refinement_level() - 1);
    if (arb().T) for (int j = 0; j < T.cols(); ++j) for (int i = 0; i < T.rows(); ++i) vc::seal(T(i, j));
  }
  // moments of a cluster: interpolation polynomials x local functions
  Eigen::MatrixXd V(const ElementTreeNode &c, int comp) const {
    if (c.level_ >= base) return M[comp];
    Eigen::MatrixXd r(M[comp].rows(), 0); int K = r.rows() / n2;
    for (int s = 0; s < 4; ++s) { Eigen::MatrixXd v = V(c.sons_[s], comp), w = Eigen::MatrixXd::Constant(v.rows(), v.cols(), double(0.)); for (int k = 0; k < K; ++k) for (int j = 0; j < v.cols(); ++j) for (int i = 0; i < n2; ++i) for (int l = 0; l < n2; ++l) w(k * n2 + i, j) = w(k * n2 + i, j) + T(i, s * n2 + l) * v(k * n2 + l, j);
      Eigen::MatrixXd t(v.rows(), r.cols() + v.cols()); t << r, w; r = t; }
    return r;
  }
  DV<S> operator()(const DV<S> &x) const {
    DV<S> in = mul<S>(P, x, false), out = DV<S>::Constant(in.size(), S(double(0.))); int N = in.size() / d;
    for (int r = 0; r < d; ++r) for (int c = 0; c < d; ++c) { auto &t = H.get_block_cluster_tree()(r, c);
      for (auto l = t.clbegin(); l != t.clend(); ++l) { std::vector<int> R, Q; for (const auto &e : *(*l)->get_cluster1()) for (int k = 0; k < q; ++k) R.push_back(r * N + e.id_ * q + k); for (const auto &e : *(*l)->get_cluster2()) for (int k = 0; k < q; ++k) Q.push_back(c * N + e.id_ * q + k);
        const auto &F = (*l)->get_leaf().get_F();
        if ((*l)->get_cc() == BlockClusterAdmissibility::Dense) { for (size_t i = 0; i < R.size(); ++i) for (size_t j = 0; j < Q.size(); ++j) out(R[i]) = out(R[i]) + F(i, j) * in(Q[j]); continue; }
        Eigen::MatrixXd A = V(*(*l)->get_cluster1(), r), B = V(*(*l)->get_cluster2(), c); int m = A.rows(); std::vector<S> u(m, S(double(0.))), v(m, S(double(0.)));
        for (int i = 0; i < m; ++i) for (size_t j = 0; j < Q.size(); ++j) u[i] = u[i] + B(i, j) * in(Q[j]);
        for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) v[i] = v[i] + F(i, j) * u[j];
        for (size_t i = 0; i < R.size(); ++i) for (int j = 0; j < m; ++j) out(R[i]) = out(R[i]) + A(j, i) * v[j]; } }
    return mul<S>(P, out, true);
  }
};
// give every leaf arbitrary content
template <class S> void scramble(const Eigen::H2Matrix<S> &H, const std::string &nm) {
  auto &g = H.get_block_cluster_tree();
  for (int r = 0; r < g.rows(); ++r) for (int c = 0; c < g.cols(); ++c) { int k = 0; for (auto l = g(r, c).clbegin(); l != g(r, c).clend(); ++l, ++k) { auto &F = const_cast<DM<S> &>((*l)->get_leaf().get_F()); for (int j = 0; j < F.cols(); ++j) for (int i = 0; i < F.rows(); ++i) F(i, j) = value<S>(nm + S_("", r, c) + S_("_", k) + S_("_", i, j), arb().F, nm + S_("", r, c) + S_("_", k)); } }
}
