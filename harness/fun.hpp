// specification of the evaluation of a discrete function
#pragma once
#include "spaces.hpp"
template <class Op> struct Fun {
  typedef Sca<Op> S; static constexpr int d = dim<Op>(), o = getFunctionSpaceOutputDimension<LinearOperatorTraits<Op>::Form>();
  DV<S> loc; int p, n, N, M; double h;
  Fun(const AnsatzSpace<Op> &as, const DV<S> &c) : p(as.get_polynomial_degree()), n((p + 1) * (p + 1)), N(as.get_number_of_elements()), M(as.get_refinement_level()), h(std::ldexp(1., -M)) { loc = mul<S>(as.get_transformation_matrix(), c, false); }
  S comp(int id, int c, const std::vector<double> &b) const { S s = S(double(0.)); for (int i = 0; i < n; ++i) s = s + loc((c * N + id) * n + i) * b[i]; return s; }
  Eigen::Matrix<S, -1, 1> value(int id, const SurfacePoint &q, const Tensor &T) const {
    Eigen::Matrix<S, -1, 1> v(o);
    if (d == 1) v(0) = comp(id, 0, T.v) / h;
    else { S a = comp(id, 0, T.v), b = comp(id, 1, T.v); for (int k = 0; k < o; ++k) v(k) = (a * q(6 + k) + b * q(9 + k)) / h; }
    return v;
  }
  S div(int id, const Tensor &T) const { return (comp(id, 0, T.dx) + comp(id, 1, T.dy)) / h / h; }
};
template <class Op> DV<Sca<Op>> coefs(const AnsatzSpace<Op> &as, const std::string &nm = "c") { int k = as.get_number_of_dofs(); DV<Sca<Op>> c(k); for (int i = 0; i < k; ++i) c(i) = scal<Sca<Op>>(S_(nm, i)); return c; }
struct Sp { SurfacePoint q; Eigen::Vector3d x, dx, dy, n; double k, w;  // an arbitrary surface point
  Sp() { for (int i = 0; i < 12; ++i) q(i) = vc::in(S_("p", i), i < 2 ? 0 : -1, 1); x = q.segment<3>(3); dx = q.segment<3>(6); dy = q.segment<3>(9); n = cross3(dx, dy); k = norm3(n); w = q(2); vc::require(vc::lt(.05, k)); } };
template <class T> const ElementTreeNode &element(const T &as, int k) { const ElementTree &et = as.get_superspace().get_mesh().get_element_tree(); auto it = et.cpbegin(); while (k--) ++it; return *it; }
