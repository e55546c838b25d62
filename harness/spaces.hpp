// test operators for every kind of ansatz space, test geometries, spec helpers
#pragma once
#include "tensor.hpp"
#include "geoms.hpp"
#include <Bembel/AnsatzSpace>
#include <Bembel/LinearOperator>
namespace Bembel {
template <class S, int F, int O> struct TestOp;
template <class S, int F, int O> struct LinearOperatorTraits<TestOp<S, F, O>> {
  typedef Eigen::Matrix<S, Eigen::Dynamic, 1> EigenType; typedef S Scalar;
  enum { OperatorOrder = O, Form = F, NumberOfFMMComponents = 1 };
};
typedef TestOp<double, DifferentialForm::Discontinuous, 0> OpD;
typedef TestOp<double, DifferentialForm::Continuous, 0> OpK;
typedef TestOp<double, DifferentialForm::DivConforming, 0> OpV;
typedef TestOp<C, DifferentialForm::Discontinuous, 0> OpDc;
typedef TestOp<C, DifferentialForm::Continuous, 0> OpKc;
typedef TestOp<C, DifferentialForm::DivConforming, 0> OpVc;
}
using namespace Bembel;
template <class Op> using Sca = typename LinearOperatorTraits<Op>::Scalar;
template <class Op> constexpr int dim() { return getFunctionSpaceVectorDimension<LinearOperatorTraits<Op>::Form>(); }
template <class S> S scal(const std::string &n);
template <> inline double scal<double>(const std::string &n) { return vc::in(n, -1, 1); }
template <> inline C scal<C>(const std::string &n) { return C(vc::in(n + "r", -1, 1), vc::in(n + "i", -1, 1)); }
template <class S> S opq(const std::string &n, double x);
template <> inline double opq<double>(const std::string &n, double x) { return vc::opaque(n, x); }
template <> inline C opq<C>(const std::string &n, double x) { return C(vc::opaque(n + "r", x), vc::opaque(n + "i", x)); }
template <class S> using DM = Eigen::Matrix<S, -1, -1>;
template <class S> using DV = Eigen::Matrix<S, -1, 1>;
template <class S> DM<S> oldm(int r, int c) { S o = scal<S>("o"); DM<S> m(r, c); for (int j = 0; j < c; ++j) for (int i = 0; i < r; ++i) m(i, j) = o + S(double(i + 37. * j)); return m; }
inline std::string key(const SurfacePoint &q) { std::string s; for (int i : {3, 4, 5, 0, 1}) s += "_" + std::to_string(std::lround(vc::value(q(i)) * 1e6)); return s; }
inline Geometry gsquare() { return Geometry(geo::patches(geo::square())); }
// a patch of degree 2 x 3 with weights, and a second one glued to it
inline Geometry gcurved() {
  std::vector<Eigen::Matrix<double, -1, -1>> c(4, Eigen::Matrix<double, -1, -1>(4, 3));
  md z[4][3] = {{0, .25, .5}, {.25, .5, -.25}, {0, -.25, .5}, {.125, .25, 0}}, w[4][3] = {{1, .75, 1}, {1.25, 1, .5}, {1, 1, 1.5}, {1, .875, 1}};
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) { c[0](i, j) = w[i][j] * j; c[1](i, j) = w[i][j] * (i + .25 * j); c[2](i, j) = w[i][j] * z[i][j]; c[3](i, j) = w[i][j]; }
  std::vector<double> kx = {0., 0., 0., 1., 1., 1.}, ky = {0., 0., 0., 0., 1., 1., 1., 1.};
  return Geometry(PatchVector(1, Patch(c, kx, ky)));
}
inline Geometry gnamed(int k) {
  switch (k) { case 0: return gsquare(); case 1: return Geometry(geo::patches(geo::two(1, 2, false, false))); case 2: return Geometry(geo::patches(geo::cube(1234))); case 3: return gcurved(); default: return Geometry(geo::patches(geo::star(2))); }
}
// the same patches, twice as large
inline Geometry doubled(const Geometry &g) { PatchVector v = g.get_geometry(); for (auto &q : v) for (size_t i = 0; i < q.data_.size(); ++i) if (i % 4 != 3) q.data_[i] = q.data_[i] * 2.; return Geometry(v); }
inline const char *gname(int k) { static const char *n[] = {"square", "two", "cube", "curved", "star"}; return n[k]; }
template <class S> DV<S> mul(const Eigen::SparseMatrix<double> &T, const DV<S> &v, bool transposed) {  // independent sparse product
  DV<S> r = DV<S>::Constant(transposed ? T.cols() : T.rows(), S(double(0.)));
  for (int c = 0; c < T.outerSize(); ++c) for (Eigen::SparseMatrix<double>::InnerIterator it(T, c); it; ++it) { if (transposed) r(it.col()) = r(it.col()) + it.value() * v(it.row()); else r(it.row()) = r(it.row()) + it.value() * v(it.col()); }
  return r;
}
