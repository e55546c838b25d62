// P09: quadrature rules
#include "common.hpp"
#include <Bembel/Quadrature>
using namespace Bembel;
#ifdef VC_NATIVE
static constexpr int MAXO = 50, MAXS = 50;
#else
static constexpr int MAXO = 19, MAXS = 19;  // tabulated rules; higher orders come from an eigenvalue solver (native run)
#endif
static const GaussLegendre<MAXO> &GL() { static GaussLegendre<MAXO> *g = new GaussLegendre<MAXO>; return *g; }
static const GaussSquare<MAXS> &GS() { static GaussSquare<MAXS> *g = new GaussSquare<MAXS>; return *g; }
template <int k> static void small() {
  if constexpr (k >= 0) {
    GaussLegendre<k> a; GaussSquare<k> b;
    for (int i = 0; i <= k; ++i) { vc::eqm("line", a[i].xi_, GL()[i].xi_); vc::eqm("line", a[i].w_, GL()[i].w_); vc::eqm("square", b[i].xi_, GS()[i].xi_); vc::eqm("square", b[i].w_, GS()[i].w_); }
    small<k - 1>();
  }
}
int main(int argc, char **argv) {
  for (int i = 0; i <= MAXO; ++i) {
    md tol = i < 20 ? 4e-15 : 2e-13;
    vc::add("line/points" + std::to_string(i + 1), "GaussLegendreRule;QuadratureVector", [=] {
      auto &q = GL()[i]; int n = i + 1;
      vc::eq_int("points", q.xi_.cols(), n); vc::eq_int("weights", q.w_.size(), n);
      if (q.xi_.cols() != n || q.w_.size() != n) return;
      for (int k = 0; k < n; ++k) vc::prop("inside", vc::all({vc::lt(0., q.xi_(0, k)), vc::lt(q.xi_(0, k), 1.), vc::lt(0., q.w_(k))}));
      for (int d = 0; d <= 2 * n - 1; ++d) { double s = 0.; for (int k = 0; k < n; ++k) s = s + q.w_(k) * ip(q.xi_(0, k), d); vc::eq("exact", s, double(1) / double(d + 1), tol); }
    }, 1);
    if (i <= MAXS) vc::add("square/points" + std::to_string(i + 1), "GaussLegendreRule;TensorProductQuadratureVector", [=] {
      auto &q = GS()[i]; int n = i + 1;
      vc::eq_int("points", q.xi_.cols(), n * n); vc::eq_int("weights", q.w_.size(), n * n);
      if (q.xi_.cols() != n * n || q.w_.size() != n * n) return;
      for (int k = 0; k < n * n; ++k) vc::prop("inside", vc::all({vc::lt(0., q.xi_(0, k)), vc::lt(q.xi_(0, k), 1.), vc::lt(0., q.xi_(1, k)), vc::lt(q.xi_(1, k), 1.), vc::lt(0., q.w_(k))}));
      // all monomials up to 2n-1 in each variable (a subset for the large rules)
      int D = 2 * n - 1, st = n <= 8 ? 1 : n <= 20 ? 5 : 9;
      for (int a = 0; a <= D; a += (a + st <= D || a == D ? st : D - a)) for (int b = 0; b <= D; b += (b + st <= D || b == D ? st : D - b)) {
        double s = 0.; for (int k = 0; k < n * n; ++k) s = s + q.w_(k) * ip(q.xi_(0, k), a) * ip(q.xi_(1, k), b);
        vc::eq("exact", s, double(1) / double((a + 1) * (b + 1)), tol);
      }
    }, 1);
  }
  vc::add("containers", "QuadratureVector::operator[];TensorProductQuadratureVector::operator[]", [=] { small<12>(); }, 1);
  return vc::main_(argc, argv);
}
