// P15: Helmholtz boundary operators
#include "ops.hpp"
struct K { double r, i; K() : r(vc::in("kr", -3, 3)), i(vc::in("ki", -1, 1)) { if (vc::native && vc::choose("wave", 0, 2) == 1) { r = 20. * r; i = i < 0. ? 3. * i : .1 * i; } } C c() const { return C(r, i); } };
template <class Op> static Op mk(const K &k) { Op op; set_k(op, k.r, k.i); return op; }
template <class OpH, class OpL> static void zero(const std::string &n, int p, int M) {
  vc::add(n, "Helmholtz operators at wavenumber zero", [=] {
    Pair P; OpH h; h.set_wavenumber(C(double(0.), double(0.))); OpL l; Geometry g = one(); int m = (p + 1) * (p + 1);
    Tensor A(p, P.a.q(0), P.a.q(1), true), B(p, P.b.q(0), P.b.q(1), true);
    MatC u = MatC::Zero(m, m); Mat v = Mat::Zero(m, m);
    h.evaluateIntegrand(SuperSpace<OpH>(g, M, p), P.a.q, P.b.q, &u); l.evaluateIntegrand(SuperSpace<OpL>(g, M, p), P.a.q, P.b.q, &v);
    for (int j = 0; j < m; ++j) for (int i = 0; i < m; ++i) vc::eq("laplace", u(i, j), C(v(i, j), 0.), 1e-7);
    auto a = h.evaluateFMMInterpolation(P.a.q, P.b.q); auto b = l.evaluateFMMInterpolation(P.a.q, P.b.q);
    int o = a.rows() - b.rows();
    for (int j = 0; j < a.cols(); ++j) for (int i = 0; i < a.rows(); ++i) vc::eq("fmm-laplace", a(i, j), C(i < o || j < o ? double(0.) : b(i - o, j - o), 0.), 1e-7);
  });
}
int main(int argc, char **argv) {
  for (int p = 0; p <= (vc::native ? 10 : 3); ++p) for (int M : {0, 1, 3, 6}) {
    if (vc::native ? p > 3 && M != (p % 2 ? 1 : 3) : p > 1 && M >= 3) continue;
    std::string t = "/p" + std::to_string(p) + "M" + std::to_string(M);
    bool seal = p > 0;
    vc::add("single-layer" + t, "HelmholtzSingleLayerOperator::evaluateIntegrand_impl,evaluateFMMInterpolation_impl,evaluateKernel,set_wavenumber", [=] {
      Pair P; K k; auto op = mk<HelmholtzSingleLayerOperator>(k); C g = G(k.r, k.i, P.r), s = g * P.a.k * P.b.k;
      integrand("integrand", op, M, p, P, 1, [&](auto &A, auto &B, int i, int j) { return C(s * (P.a.w * P.b.w) * (A.v[i] * B.v[j])); }, seal);
      vc::eq("fmm", op.evaluateFMMInterpolation(P.a.q, P.b.q)(0, 0), s, 1e-7);
      vc::eq("kernel", op.evaluateKernel(P.a.x, P.b.x), g, 1e-7);
    });
    vc::add("double-layer" + t, "HelmholtzDoubleLayerOperator::evaluateIntegrand_impl,evaluateFMMInterpolation_impl,evaluateKernelGrad,set_wavenumber", [=] {
      Pair P; K k; auto op = mk<HelmholtzDoubleLayerOperator>(k); C s = dG(k.r, k.i, P.r) * dot3(P.c, P.b.n) * P.a.k;
      integrand("integrand", op, M, p, P, 1, [&](auto &A, auto &B, int i, int j) { return C(s * (P.a.w * P.b.w) * (A.v[i] * B.v[j])); }, seal);
      vc::eq("fmm", op.evaluateFMMInterpolation(P.a.q, P.b.q)(0, 0), s, 1e-7);
      if (p == 0 && M == 0) {
        Eigen::Vector3d d = v3("d"); double e0 = vc::in("e", 0, 1); HelmholtzSingleLayerOperator sl; sl.set_wavenumber(k.c());
        auto y = [&](double e) { return Eigen::Vector3d(P.b.x + e * d); };
        Eigen::Vector3d c = P.a.x - y(e0); vc::require(vc::lt(.1, dot3(c, c)));
        C got = op.evaluateKernelGrad(P.a.x, y(e0), d);
        vc::eq("normal-derivative.re", got.real(), vc::deriv([&](double e) { return sl.evaluateKernel(P.a.x, y(e)).real(); }, e0), 1e-3);
        vc::eq("normal-derivative.im", got.imag(), vc::deriv([&](double e) { return sl.evaluateKernel(P.a.x, y(e)).imag(); }, e0), 1e-3);
      }
    });
    vc::add("adjoint-double-layer" + t, "HelmholtzAdjointDoubleLayerOperator::evaluateIntegrand_impl,evaluateFMMInterpolation_impl,evaluateKernelGrad,set_wavenumber", [=] {
      Pair P; K k; auto op = mk<HelmholtzAdjointDoubleLayerOperator>(k); C s = -dG(k.r, k.i, P.r) * dot3(P.c, P.a.n) * P.b.k;
      integrand("integrand", op, M, p, P, 1, [&](auto &A, auto &B, int i, int j) { return C(s * (P.a.w * P.b.w) * (A.v[i] * B.v[j])); }, seal);
      vc::eq("fmm", op.evaluateFMMInterpolation(P.a.q, P.b.q)(0, 0), s, 1e-7);
      HelmholtzDoubleLayerOperator dl; dl.set_wavenumber(k.c());
      vc::eq("fmm-transpose", op.evaluateFMMInterpolation(P.a.q, P.b.q)(0, 0), dl.evaluateFMMInterpolation(P.b.q, P.a.q)(0, 0), 1e-7);
    });
    vc::add("hypersingular" + t, "HelmholtzHypersingularOperator::evaluateIntegrand_impl,evaluateFMMInterpolation_impl,evaluateKernel,set_wavenumber", [=] {
      Pair P; K k; auto op = mk<HelmholtzHypersingularOperator>(k); double hh = md(1 << 2 * M), nn = dot3(P.a.n, P.b.n);
      C g = G(k.r, k.i, P.r), k2 = k.c() * k.c();
      integrand("integrand", op, M, p, P, 1, [&](auto &A, auto &B, int i, int j) { return C(g * (P.a.w * P.b.w) * (hh * dot3(curl(P.a, A, i), curl(P.b, B, j)) - k2 * nn * (A.v[i] * B.v[j]))); }, seal);
      auto f = op.evaluateFMMInterpolation(P.a.q, P.b.q);
      Eigen::Vector3d ca[2] = {P.a.dy, -P.a.dx}, cb[2] = {P.b.dy, -P.b.dx};
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vc::eq("fmm", f(i, j), i && j ? C(g * dot3(ca[i - 1], cb[j - 1])) : i || j ? C(double(0.), double(0.)) : C(-g * k2 * nn), 1e-7);
    });
    zero<HelmholtzSingleLayerOperator, LaplaceSingleLayerOperator>("zero/single-layer" + t, p, M);
    zero<HelmholtzDoubleLayerOperator, LaplaceDoubleLayerOperator>("zero/double-layer" + t, p, M);
    zero<HelmholtzAdjointDoubleLayerOperator, LaplaceAdjointDoubleLayerOperator>("zero/adjoint-double-layer" + t, p, M);
    zero<HelmholtzHypersingularOperator, LaplaceHypersingularOperator>("zero/hypersingular" + t, p, M);
  }
  return vc::main_(argc, argv);
}
