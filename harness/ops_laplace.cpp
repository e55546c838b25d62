// P14: Laplace boundary operators
#include "ops.hpp"
int main(int argc, char **argv) {
  for (int p = 0; p <= (vc::native ? 10 : 4); ++p) for (int M : {0, 1, 3, 6}) {
    if (vc::native ? p > 3 && M != (p % 2 ? 1 : 3) : p > 2 && M >= 3) continue;
    std::string t = "/p" + std::to_string(p) + "M" + std::to_string(M);
    bool seal = p > 1;
    vc::add("single-layer" + t, "LaplaceSingleLayerOperator::evaluateIntegrand_impl,evaluateFMMInterpolation_impl,evaluateKernel", [=] {
      Pair P; LaplaceSingleLayerOperator op; double k = P.a.k * P.b.k / (4. * PI * P.r);
      integrand("integrand", op, M, p, P, 1, [&](auto &A, auto &B, int i, int j) { return k * P.a.w * P.b.w * A.v[i] * B.v[j]; }, seal);
      auto f = op.evaluateFMMInterpolation(P.a.q, P.b.q); vc::check("fmm.size", f.size() == 1); vc::eq("fmm", f(0, 0), k, 1e-7);
      vc::eq("kernel", op.evaluateKernel(P.a.x, P.b.x), 1. / (4. * PI * P.r));
    });
    vc::add("double-layer" + t, "LaplaceDoubleLayerOperator::evaluateIntegrand_impl,evaluateFMMInterpolation_impl,evaluateKernelGrad", [=] {
      Pair P; LaplaceDoubleLayerOperator op; double k = P.a.k * dot3(P.c, P.b.n) / (4. * PI * P.r * P.r2);
      integrand("integrand", op, M, p, P, 1, [&](auto &A, auto &B, int i, int j) { return k * P.a.w * P.b.w * A.v[i] * B.v[j]; }, seal);
      vc::eq("fmm", op.evaluateFMMInterpolation(P.a.q, P.b.q)(0, 0), k, 1e-7);
      // the kernel is the derivative of the fundamental solution in direction of the normal in y
      if (p == 0) {
        Eigen::Vector3d d = v3("d"); double e0 = vc::in("e", 0, 1); LaplaceSingleLayerOperator sl;
        auto y = [&](double e) { return Eigen::Vector3d(P.b.x + e * d); };
        Eigen::Vector3d c = P.a.x - y(e0); vc::require(vc::lt(.1, dot3(c, c)));
        vc::eq("normal-derivative", op.evaluateKernelGrad(P.a.x, y(e0), d), vc::deriv([&](double e) { return sl.evaluateKernel(P.a.x, y(e)); }, e0), 1e-3);
      }
    });
    vc::add("adjoint-double-layer" + t, "LaplaceAdjointDoubleLayerOperator::evaluateIntegrand_impl,evaluateFMMInterpolation_impl,evaluateKernelGrad", [=] {
      Pair P; LaplaceAdjointDoubleLayerOperator op; double k = -P.b.k * dot3(P.c, P.a.n) / (4. * PI * P.r * P.r2);
      integrand("integrand", op, M, p, P, 1, [&](auto &A, auto &B, int i, int j) { return k * P.a.w * P.b.w * A.v[i] * B.v[j]; }, seal);
      vc::eq("fmm", op.evaluateFMMInterpolation(P.a.q, P.b.q)(0, 0), k, 1e-7);
    });
    vc::add("transposed" + t, "LaplaceAdjointDoubleLayerOperator;LaplaceDoubleLayerOperator", [=] {
      Pair P; LaplaceAdjointDoubleLayerOperator ad; LaplaceDoubleLayerOperator dl; Geometry g = one();
      int n = (p + 1) * (p + 1); Mat u = Mat::Zero(n, n), v = Mat::Zero(n, n);
      Tensor A(p, P.a.q(0), P.a.q(1), true), B(p, P.b.q(0), P.b.q(1), true);
      ad.evaluateIntegrand(SuperSpace<LaplaceAdjointDoubleLayerOperator>(g, M, p), P.a.q, P.b.q, &u); dl.evaluateIntegrand(SuperSpace<LaplaceDoubleLayerOperator>(g, M, p), P.b.q, P.a.q, &v);
      Mat vt = v.transpose(); vc::eqm("transpose", u, vt, 1e-7);
      vc::eq("fmm-transpose", ad.evaluateFMMInterpolation(P.a.q, P.b.q)(0, 0), dl.evaluateFMMInterpolation(P.b.q, P.a.q)(0, 0), 1e-7);
    });
    vc::add("hypersingular" + t, "LaplaceHypersingularOperator::evaluateIntegrand_impl,evaluateFMMInterpolation_impl,evaluateKernel", [=] {
      Pair P; LaplaceHypersingularOperator op; double k = 1. / (4. * PI * P.r), hh = md(1 << 2 * M);
      integrand("integrand", op, M, p, P, 1, [&](auto &A, auto &B, int i, int j) { return k * P.a.w * P.b.w * hh * dot3(curl(P.a, A, i), curl(P.b, B, j)); }, seal);
      auto f = op.evaluateFMMInterpolation(P.a.q, P.b.q);
      vc::check("fmm.size", f.rows() == 2 && f.cols() == 2);
      // curl = dy d/dx - dx d/dy; components (d/dx, d/dy)
      Eigen::Vector3d ca[2] = {P.a.dy, -P.a.dx}, cb[2] = {P.b.dy, -P.b.dx};
      for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) vc::eq("fmm", f(i, j), k * dot3(ca[i], cb[j]), 1e-7);
    });
  }
  return vc::main_(argc, argv);
}
