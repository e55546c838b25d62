// P02: tensor-product basis, derivatives, curls, divergences, interactions
#include "tensor.hpp"
#include <Bembel/AnsatzSpace>
using namespace Bembel;
namespace Bembel {
struct OpR; struct OpC;
template <> struct LinearOperatorTraits<OpR> { typedef Eigen::VectorXd EigenType; typedef double Scalar; enum { OperatorOrder = 0, Form = DifferentialForm::Discontinuous }; };
template <> struct LinearOperatorTraits<OpC> { typedef Eigen::VectorXcd EigenType; typedef std::complex<double> Scalar; enum { OperatorOrder = 0, Form = DifferentialForm::Discontinuous }; };
}
static Geometry one() {
  std::vector<Eigen::Matrix<double, -1, -1>> cp(4, Eigen::Matrix<double, -1, -1>::Zero(2, 2));
  cp[0](0, 1) = cp[0](1, 1) = cp[1](1, 0) = cp[1](1, 1) = double(1.); cp[3].setConstant(double(1.));
  std::vector<double> kn = {0., 0., 1., 1.};
  return Geometry(PatchVector(1, Patch(cp, kn, kn)));
}
template <class S> struct W;
template <> struct W<double> { static double in(const std::string &n) { return vc::in(n, -1, 1); } };
template <> struct W<C> { static C in(const std::string &n) { return C(vc::in(n + "r", -1, 1), vc::in(n + "i", -1, 1)); } };
template <class S> using DM = Eigen::Matrix<S, -1, -1>;
template <class S> using DV = Eigen::Matrix<S, -1, 1>;
// the value stored before a call, different in every entry
template <class S> static DM<S> old(int r, int c, const std::string &n) { S o = W<S>::in(n); DM<S> m(r, c); for (int j = 0; j < c; ++j) for (int i = 0; i < r; ++i) m(i, j) = o + S(double(i + 37. * j)); return m; }
static bool some(int p, int i, int j) { return p <= 6 || (i * 7 + j * 3) % (p * p) == 0; }

template <class Op> static void vectors(int p, bool seal, const std::string &nm) {
  typedef typename LinearOperatorTraits<Op>::Scalar S;
  vc::add(nm + "vectors/p" + std::to_string(p), "SuperSpace::basis,basisDx,basisDy,basis1D,basis1DDx,addScaledBasis,addScaledBasisDx,addScaledBasisDy,addScaledBasis1D,addScaledBasis1DDx;Basis::phi_;Basis::phi_dx_;Basis::phiphi_;Basis::phiphi_dx_;Basis::phiphi_dy_", [=] {
    Geometry g = one(); SuperSpace<Op> sp(g, vc::native ? vc::choose("level", 0, 5) : p % 3, p);
    int n = (p + 1) * (p + 1);
    vc::eq_int("degree", sp.get_polynomial_degree(), p); vc::eq_int("degree-squared", sp.get_polynomial_degree_plus_one_squared(), n);
    double s = vc::in("s", 0, 1), t = vc::in("t", 0, 1); S w = W<S>::in("w");
    Tensor T(p, s, t, seal); Eigen::Vector2d q(s, t);
    DV<S> o = old<S>(n, 1, "o"), o1 = old<S>(p + 1, 1, "o");
    auto run = [&](const std::string &tag, const std::vector<double> &spec, const DV<S> &plain, const DV<S> &added, const DV<S> &before) {
      vc::eq_int(tag + ".size", plain.size(), spec.size()); vc::eq_int(tag + ".size", added.size(), spec.size());
      if (plain.size() != (long)spec.size() || added.size() != (long)spec.size()) return;
      for (size_t i = 0; i < spec.size(); ++i) { vc::eq(tag, plain(i), S(spec[i])); vc::eq(tag + ".add", added(i), S(before(i) + w * spec[i])); }
    };
    DV<S> a = o; sp.addScaledBasis(&a, w, q); run("basis", T.v, sp.basis(q), a, o);
    a = o; sp.addScaledBasisDx(&a, w, q); run("basisDx", T.dx, sp.basisDx(q), a, o);
    a = o; sp.addScaledBasisDy(&a, w, q); run("basisDy", T.dy, sp.basisDy(q), a, o);
    Tensor U(p, s, double(0.), seal);
    std::vector<double> b1, d1; for (int i = 0; i <= p; ++i) { b1.push_back(Bern(p, i, s)); d1.push_back(BernD(p, i, s)); }
    if (seal) { b1.assign(p + 1, 0.); d1.assign(p + 1, 0.); Basis::ShapeFunctionHandler::evalBasis(p, b1.data(), s); Basis::ShapeFunctionHandler::evalDerBasis(p, d1.data(), s); }
    a = o1; sp.addScaledBasis1D(&a, w, s); run("basis1D", b1, sp.basis1D(s), a, o1);
    a = o1; sp.addScaledBasis1DDx(&a, w, s); run("basis1DDx", d1, sp.basis1DDx(s), a, o1);
  }, 6);
}
template <class Op> static void pairs(int p, bool seal, const std::string &nm) {
  typedef typename LinearOperatorTraits<Op>::Scalar S;
  vc::add(nm + "interaction/p" + std::to_string(p), "SuperSpace::basisInteraction,addScaledBasisInteraction,addScaledVectorBasisDivergenceInteraction,vectorBasisDivergenceInteraction;Basis::Phi_times_Phi_;Basis::Div_Phi_times_Div_Phi_", [=] {
    Geometry g = one(); SuperSpace<Op> sp(g, vc::native ? vc::choose("level", 0, 5) : p % 3, p);
    int n = (p + 1) * (p + 1);
    Eigen::Vector2d s(vc::in("s0", 0, 1), vc::in("s1", 0, 1)), t(vc::in("t0", 0, 1), vc::in("t1", 0, 1)); S w = W<S>::in("w");
    Tensor A(p, s(0), s(1), seal), B(p, t(0), t(1), seal);
    DM<S> o = old<S>(n, n, "o"), m = o, k = sp.basisInteraction(s, t); sp.addScaledBasisInteraction(&m, w, s, t);
    vc::check("size", k.rows() == n && k.cols() == n && m.rows() == n && m.cols() == n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (some(p, i, j)) { vc::eq("product", k(i, j), S(A.v[i] * B.v[j])); vc::eq("product.add", m(i, j), S(o(i, j) + w * (A.v[i] * B.v[j]))); }
    if (p == 0) return;
    DM<S> oo = old<S>(2 * n, 2 * n, "o"), d = oo, e = sp.vectorBasisDivergenceInteraction(s, t); sp.addScaledVectorBasisDivergenceInteraction(&d, w, s, t);
    vc::check("div.size", e.rows() == 2 * n && e.cols() == 2 * n);
    for (int i = 0; i < 2 * n; ++i) for (int j = 0; j < 2 * n; ++j) if (some(p, i, j)) {
      double x = (i < n ? A.dx[i] : A.dy[i - n]) * (j < n ? B.dx[j] : B.dy[j - n]);
      vc::eq("divergence", e(i, j), S(x)); vc::eq("divergence.add", d(i, j), S(oo(i, j) + w * x));
    }
  }, 3);
}
// the same functions called by degree through Basis::BasisHandler
template <class S> static void dispatch(int p, bool seal, const std::string &nm) {
  vc::add(nm + "dispatch/p" + std::to_string(p), "Basis::BasisHandler::phi,phiDx,phiPhi,phiPhiDx,phiPhiDy,phiTimesPhi,divPhiTimesDivPhi,funPtrPhi,funPtrPhiDx,funPtrPhiPhi,funPtrPhiPhiDx,funPtrPhiPhiDy,funPtrPhiTimesPhi,funPtrDivPhiTimesDivPhi", [=] {
    typedef Basis::BasisHandler<S> H; int n = (p + 1) * (p + 1);
    Eigen::Vector2d s(vc::in("s0", 0, 1), vc::in("s1", 0, 1)), t(vc::in("t0", 0, 1), vc::in("t1", 0, 1)); S w = W<S>::in("w");
    Tensor A(p, s(0), s(1), seal), B(p, t(0), t(1), seal); DV<S> o = old<S>(n, 1, "o");
    auto vec = [&](const std::string &tag, const std::vector<double> &spec, std::function<void(DV<S> *)> f, std::function<void(DV<S> *)> g) {
      DV<S> a = o, b = o; f(&a); g(&b); for (int i = 0; i < n; ++i) { S x = o(i) + w * spec[i]; vc::eq(tag, a(i), x); vc::eq(tag + ".pointer", b(i), x); }
    };
    vec("phiPhi", A.v, [&](DV<S> *c) { H::phiPhi(p, c, w, s); }, [&](DV<S> *c) { H::funPtrPhiPhi(p)(c, w, s); });
    vec("phiPhiDx", A.dx, [&](DV<S> *c) { H::phiPhiDx(p, c, w, s); }, [&](DV<S> *c) { H::funPtrPhiPhiDx(p)(c, w, s); });
    vec("phiPhiDy", A.dy, [&](DV<S> *c) { H::phiPhiDy(p, c, w, s); }, [&](DV<S> *c) { H::funPtrPhiPhiDy(p)(c, w, s); });
    std::vector<double> b(p + 1), d(p + 1); for (int i = 0; i <= p; ++i) { b[i] = Bern(p, i, s(0)); d[i] = BernD(p, i, s(0)); }
    DV<S> q = old<S>(p + 1, 1, "o"), u = q, x = q, v = q, y = q; H::phi(p, &u, w, s(0)); H::phiDx(p, &v, w, s(0)); H::funPtrPhi(p)(&x, w, s(0)); H::funPtrPhiDx(p)(&y, w, s(0));
    for (int i = 0; i <= p; ++i) { S e = q(i) + w * b[i], g = q(i) + w * d[i]; vc::eq("phi", u(i), e); vc::eq("phi.pointer", x(i), e); vc::eq("phiDx", v(i), g); vc::eq("phiDx.pointer", y(i), g); }
    if (p > 9 && !vc::native) return;
    DM<S> oo = old<S>(2 * n, 2 * n, "o"), pq = oo.topLeftCorner(n, n), m = pq, k = pq, dm = oo, dk = oo;
    H::phiTimesPhi(p, &m, w, s, t); H::funPtrPhiTimesPhi(p)(&k, w, s, t);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (some(p, i, j)) { S e = pq(i, j) + w * (A.v[i] * B.v[j]); vc::eq("phiTimesPhi", m(i, j), e); vc::eq("phiTimesPhi.pointer", k(i, j), e); }
    if (p == 0) return;
    H::divPhiTimesDivPhi(p, &dm, w, s, t); H::funPtrDivPhiTimesDivPhi(p)(&dk, w, s, t);
    for (int i = 0; i < 2 * n; ++i) for (int j = 0; j < 2 * n; ++j) if (some(p, i, j)) {
      S e = oo(i, j) + w * ((i < n ? A.dx[i] : A.dy[i - n]) * (j < n ? B.dx[j] : B.dy[j - n])); vc::eq("divPhiTimesDivPhi", dm(i, j), e); vc::eq("divPhiTimesDivPhi.pointer", dk(i, j), e);
    }
  }, 2);
}
template <class Op> static void surface(int p, bool seal, const std::string &nm) {
  typedef typename LinearOperatorTraits<Op>::Scalar S;
  vc::add(nm + "surface/p" + std::to_string(p), "SuperSpace::addScaledSurfaceCurlInteraction,addScaledSurfaceGradientInteraction,addScaledVectorBasisInteraction,vectorBasisInteraction", [=] {
    Geometry g = one(); SuperSpace<Op> sp(g, vc::native ? vc::choose("level", 0, 5) : p % 3, p);
    int n = (p + 1) * (p + 1);
    SurfacePoint a, b; for (int i = 0; i < 12; ++i) { a(i) = vc::in(S_("a", i), i < 2 ? 0 : -1, 1); b(i) = vc::in(S_("b", i), i < 2 ? 0 : -1, 1); }
    S w = W<S>::in("w");
    Tensor A(p, a(0), a(1), seal), B(p, b(0), b(1), seal);
    Eigen::Vector3d ax = a.segment<3>(6), ay = a.segment<3>(9), bx = b.segment<3>(6), by = b.segment<3>(9);
    double k = norm3(cross3(ax, ay)), l = norm3(cross3(bx, by));
    vc::require(vc::lt(.05, k)); vc::require(vc::lt(.05, l));
    DM<S> o = old<S>(n, n, "o"), m = o, m2 = o;
    sp.addScaledSurfaceCurlInteraction(&m, w, a, b); sp.addScaledSurfaceGradientInteraction(&m2, w, a, b);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (some(p, i, j)) {
      Eigen::Vector3d u = (ay * A.dx[i] - ax * A.dy[i]), v = (by * B.dx[j] - bx * B.dy[j]);
      vc::eq("curl", m(i, j), S(o(i, j) + w * (dot3(u, v) / (k * l))), 1e-7);
      vc::eq("gradient-is-curl", m2(i, j), m(i, j));
    }
    DM<S> oo = old<S>(2 * n, 2 * n, "o"), q = oo; sp.addScaledVectorBasisInteraction(&q, w, a.segment<2>(0), b.segment<2>(0), ax, ay, bx, by);
    DM<S> r = sp.vectorBasisInteraction(a.segment<2>(0), b.segment<2>(0), ax, ay, bx, by);
    vc::check("vector.size", r.rows() == 2 * n && r.cols() == 2 * n);
    for (int i = 0; i < 2 * n; ++i) for (int j = 0; j < 2 * n; ++j) if (some(p, i, j)) {
      double x = dot3(i < n ? ax : ay, j < n ? bx : by) * (A.v[i % n] * B.v[j % n]);
      vc::eq("vector", r(i, j), S(x)); vc::eq("vector.add", q(i, j), S(oo(i, j) + w * x));
    }
  }, 4);
}
// gradient interaction of a point with itself is that of surface gradients
static void gradient(int p) {
  vc::add("surface-gradient/p" + std::to_string(p), "SuperSpace::addScaledSurfaceGradientInteraction", [=] {
    Geometry g = one(); SuperSpace<OpR> sp(g, vc::native ? vc::choose("level", 0, 5) : p % 3, p);
    int n = (p + 1) * (p + 1);
    SurfacePoint a; for (int i = 0; i < 12; ++i) a(i) = vc::in(S_("a", i), i < 2 ? 0 : -1, 1);
    double w = vc::in("w", -1, 1);
    Tensor A(p, a(0), a(1), p > 1);
    Eigen::Vector3d ax = a.segment<3>(6), ay = a.segment<3>(9);
    // first fundamental form and its inverse
    double E = dot3(ax, ax), F = dot3(ax, ay), G = dot3(ay, ay), D = E * G - F * F;
    vc::require(vc::lt(.05, D));
    Mat m = Mat::Zero(n, n); sp.addScaledSurfaceGradientInteraction(&m, w, a, a);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
      vc::eq("gradient", m(i, j), w * (G * A.dx[i] * A.dx[j] - F * (A.dx[i] * A.dy[j] + A.dy[i] * A.dx[j]) + E * A.dy[i] * A.dy[j]) / D, 1e-7);
  });
}
int main(int argc, char **argv) {
  for (int p = 0; p <= Constants::MaxP; ++p) {
    vectors<OpR>(p, p > 2, "real/"); vectors<OpC>(p, p > 2, "complex/");
    if (p <= 6 || p == Constants::MaxP || vc::native) { dispatch<double>(p, p > 1, "real/"); if (p <= 2 || (vc::native && p <= 6)) dispatch<C>(p, p > 1, "complex/"); }
    if (p <= 9 || p == 13 || vc::native || p == Constants::MaxP) { pairs<OpR>(p, p > 1, "real/"); if (p <= 5 || p == 8 || (vc::native && p <= 12)) pairs<OpC>(p, p > 1, "complex/"); }
    if (p <= 4 || (vc::native && (p <= 8 || p == 12))) { surface<OpR>(p, p > 0, "real/"); surface<OpC>(p, p > 0, "complex/"); }
    if (p <= 3 || (vc::native && (p <= 8 || p == 12))) gradient(p);
  }
  // affine map of an element to its patch
  vc::add("map2surface", "SuperSpace::map2surface;Patch::updateSurfacePoint", [=] {
    int M = vc::choose("level", 0, vc::native ? 6 : 3), N = 2 << 2 * M, k = N <= 32 ? vc::choose("element", 0, N - 1) : vc::choose("element", 0, 31) * (N / 32) + 5, i = 0;
    std::vector<Patch> pv = one().get_geometry(); std::vector<Eigen::Matrix<double, -1, -1>> cp(4, Eigen::Matrix<double, -1, -1>::Zero(3, 2));
    for (int j = 0; j < 3; ++j) for (int l = 0; l < 2; ++l) { cp[0](j, l) = 5. + l; cp[1](j, l) = .5 * j; cp[2](j, l) = .25 * l * j * (j - 1); cp[3](j, l) = j == 1 ? .75 : 1.; }
    std::vector<double> kx = {0., 0., 1., 1.}, ky = {0., 0., 0., 1., 1., 1.}; pv.push_back(Patch(cp, kx, ky)); Geometry g(pv); SuperSpace<OpR> sp(g, M, 1);
    Eigen::Vector2d xi = v2("xi"); double w = vc::in("w", -1, 1), h = std::ldexp(1., -M);
    vc::require(vc::le(0., xi(0))); vc::require(vc::le(xi(0), 1.)); vc::require(vc::le(0., xi(1))); vc::require(vc::le(xi(1), 1.));
    for (auto it = sp.get_mesh().get_element_tree().cpbegin(); it != sp.get_mesh().get_element_tree().cpend(); ++it, ++i) if (i == k) {
      SurfacePoint q, r; sp.map2surface(*it, xi, w, &q);
      Eigen::Vector2d st(it->llc_(0) + h * xi(0), it->llc_(1) + h * xi(1));
      g.get_geometry()[it->patch_].updateSurfacePoint(&r, st, w, xi);
      vc::eqm("surface-point", q, r);
    }
    vc::eq_int("elements", i, N); vc::eq_int("number_of_elements", sp.get_number_of_elements(), N); vc::eq_int("level", sp.get_refinement_level(), M); vc::eq_int("patches", sp.get_number_of_patches(), 2);
  });
  return vc::main_(argc, argv);
}
