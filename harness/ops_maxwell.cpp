// P16: Maxwell single layer operator (EFIE)
#include "ops.hpp"
int main(int argc, char **argv) {
  for (int p = 1; p <= (vc::native ? 10 : 3); ++p) for (int M : {0, 1, 3, 6}) {
    if (vc::native ? p > 3 && M != (p % 2 ? 1 : 3) : p > 1 && M >= 3) continue;
    vc::add("single-layer/p" + std::to_string(p) + "M" + std::to_string(M), "MaxwellSingleLayerOperator::evaluateIntegrand_impl,evaluateFMMInterpolation_impl,evaluateKernel,set_wavenumber", [=] {
      Pair P; double kr = vc::in("kr", -3, 3), ki = vc::in("ki", -1, 1); vc::require(vc::lt(.1, kr * kr + ki * ki));
      MaxwellSingleLayerOperator op; set_k(op, kr, ki);
      C g = G(kr, ki, P.r), ik2 = C(double(1.), double(0.)) / (C(kr, ki) * C(kr, ki)); double hh = md(1 << 2 * M);
      int n = (p + 1) * (p + 1);
      integrand("integrand", op, M, p, P, 2, [&](auto &A, auto &B, int i, int j) {
        double v = dot3(i < n ? P.a.dx : P.a.dy, j < n ? P.b.dx : P.b.dy) * A.v[i % n] * B.v[j % n];
        double d = (i < n ? A.dx[i] : A.dy[i - n]) * (j < n ? B.dx[j] : B.dy[j - n]);
        return C(g * (P.a.w * P.b.w) * (C(v, 0.) - ik2 * (hh * d)));
      }, p > 1);
      auto f = op.evaluateFMMInterpolation(P.a.q, P.b.q);
      vc::check("fmm.size", f.rows() == 4 && f.cols() == 4);
      // components: (first tangent, its divergence, second tangent, its divergence)
      Eigen::Vector3d ta[2] = {P.a.dx, P.a.dy}, tb[2] = {P.b.dx, P.b.dy};
      for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) vc::eq("fmm", f(i, j), i % 2 != j % 2 ? C(double(0.), double(0.)) : i % 2 ? C(-g * ik2) : C(g * dot3(ta[i / 2], tb[j / 2])), 1e-7);
      // symmetry of the form
      auto ft = op.evaluateFMMInterpolation(P.b.q, P.a.q);
      for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) vc::eq("symmetric", f(i, j), ft(j, i), 1e-7);
    });
  }
  return vc::main_(argc, argv);
}
