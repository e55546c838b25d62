// contracts of the boundary integral operators' integrands (P14-P16)
#pragma once
#include "tensor.hpp"
#include <Bembel/AnsatzSpace>
#include <Bembel/LinearOperator>
#include <Bembel/Laplace>
#include <Bembel/Helmholtz>
#include <Bembel/Maxwell>
using namespace Bembel;
inline Geometry one() {
  std::vector<Eigen::Matrix<double, -1, -1>> cp(4, Eigen::Matrix<double, -1, -1>::Zero(2, 2));
  cp[0](0, 1) = cp[0](1, 1) = cp[1](1, 0) = cp[1](1, 1) = double(1.); cp[3].setConstant(double(1.));
  std::vector<double> kn = {0., 0., 1., 1.};
  return Geometry(PatchVector(1, Patch(cp, kn, kn)));
}
struct Pt {  // a surface point with its measures
  SurfacePoint q; Eigen::Vector3d x, dx, dy, n; double k, w;
  Pt(const std::string &nm) {
    for (int i = 0; i < 12; ++i) q(i) = vc::in(S_(nm, i), i < 2 ? 0 : -1, 1);
    x = q.segment<3>(3); dx = q.segment<3>(6); dy = q.segment<3>(9); n = cross3(dx, dy); k = norm3(n); w = q(2);
  }
};
struct Pair { Pt a, b; Eigen::Vector3d c; double r2, r;
  Pair() : a("a"), b("b") {
    c = a.x - b.x; r2 = dot3(c, c); vc::require(vc::lt(0., r2)); vc::require(vc::lt(.05, a.k)); vc::require(vc::lt(.05, b.k));
    if (vc::native) {  // also very close and distant points
      vc::require(vc::lt(.1, r2)); static const double F[4] = {1, 1e-3, 1e-6, 25}; int f = vc::choose("distance", 0, 3);
      if (f) { b.x = a.x - F[f] * c; b.q.segment<3>(3) = b.x; c = a.x - b.x; r2 = dot3(c, c); }
    }
    r = norm3(c); } };
// exp(-i k r) / (4 pi r) with k = kr + i ki
inline C expk(double kr, double ki, double r) { using std::exp; using std::sin; using std::cos; double e = exp(ki * r); return C(e * cos(kr * r), -(e * sin(kr * r))); }
inline C G(double kr, double ki, double r) { return expk(kr, ki, r) / (4. * PI * r); }
// (1 + i k r) exp(-i k r) / (4 pi r^3)
inline C dG(double kr, double ki, double r) { return C(1. - ki * r, kr * r) * expk(kr, ki, r) / (4. * PI * r * r * r); }
template <class S> S winp(const std::string &n);
template <> inline double winp<double>(const std::string &n) { return vc::in(n, -1, 1); }
template <> inline C winp<C>(const std::string &n) { return C(vc::in(n + "r", -1, 1), vc::in(n + "i", -1, 1)); }
template <class S> Eigen::Matrix<S, -1, -1> old_matrix(int r, int c) { S o = winp<S>("o"); Eigen::Matrix<S, -1, -1> m(r, c); for (int j = 0; j < c; ++j) for (int i = 0; i < r; ++i) m(i, j) = o + S(double(i + 37. * j)); return m; }
// surface curl of the tensor function i
inline Eigen::Vector3d curl(const Pt &p, const Tensor &T, int i) { return p.dy * T.dx[i] - p.dx * T.dy[i]; }
// contract(integrand) : entry (i,j) += spec(i, j)
template <class Op, class F> void integrand(const std::string &tag, Op &op, int M, int p, const Pair &P, int dim, F spec, bool seal) {
  typedef typename LinearOperatorTraits<Op>::Scalar S;
  Geometry g = one(); SuperSpace<Op> sp(g, M, p);
  int n = dim * (p + 1) * (p + 1);
  Tensor A(p, P.a.q(0), P.a.q(1), seal), B(p, P.b.q(0), P.b.q(1), seal);
  Eigen::Matrix<S, -1, -1> o = old_matrix<S>(n, n), m = o;
  op.evaluateIntegrand(sp, P.a.q, P.b.q, &m);
  vc::check(tag + ".size", m.rows() == n && m.cols() == n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) vc::eq(tag, m(i, j), S(o(i, j) + spec(A, B, i, j)), 1e-7);
}
