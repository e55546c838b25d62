// P10: integration of element pairs
#include "spaces.hpp"
#include <Bembel/DuffyTrick>
#include <Bembel/Quadrature>
namespace Bembel {
struct Rec;
template <> struct LinearOperatorTraits<Rec> { typedef Eigen::Matrix<double, -1, 1> EigenType; typedef double Scalar; enum { OperatorOrder = 0, Form = DifferentialForm::Discontinuous, NumberOfFMMComponents = 1 }; };
// an integrand that keeps the sample pairs and sums arbitrary functions of them
struct Rec : public LinearOperatorBase<Rec> {
  mutable std::vector<std::pair<SurfacePoint, SurfacePoint>> calls; int deg = 0;
  template <class T> void evaluateIntegrand_impl(const T &, const SurfacePoint &a, const SurfacePoint &b, Eigen::Matrix<double, -1, -1> *m) const {
    calls.push_back({a, b});
    if (!deg) return;
    double w = a(2) * b(2); int k = 0; std::vector<double> pw[4]; double v[4] = {a(0), a(1), b(0), b(1)};
    for (int q = 0; q < 4; ++q) { pw[q].push_back(double(1.)); for (int i = 1; i < deg; ++i) pw[q].push_back(pw[q].back() * v[q]); }
    for (int i = 0; i < deg; ++i) for (int j = 0; i + j < deg; ++j) for (int l = 0; i + j + l < deg; ++l) for (int o = 0; i + j + l + o < deg; ++o) (*m)(k++, 0) += w * (pw[0][i] * pw[1][j] * pw[2][l] * pw[3][o]);
  }
};
// parameter domain only
struct Plane { void map2surface(const ElementTreeNode &e, const Eigen::Vector2d &xi, double w, SurfacePoint *q) const { for (int i = 0; i < 12; ++i) (*q)(i) = double(0.); (*q)(0) = xi(0); (*q)(1) = xi(1); (*q)(2) = w; (*q)(3) = double(e.id_); } };
}
static int monomials(int deg) { int k = 0; for (int i = 0; i < deg; ++i) for (int j = 0; i + j < deg; ++j) for (int l = 0; i + j + l < deg; ++l) for (int o = 0; i + j + l + o < deg; ++o) ++k; return k; }
static const char *rname[] = {"separated", "near", "identical", "edge", "vertex"};
static void run(int n, const Rec &op, const ElementTreeNode &a, int ra, const ElementTreeNode &b, int rb, const Cubature &Q, Eigen::Matrix<double, -1, -1> *m) {
  Plane P; double h = a.get_h(); ElementSurfacePoints f1, f2;
  for (int k = 0; k < Q.w_.size(); ++k) { SurfacePoint s; P.map2surface(a, Q.xi_.col(k), h * Q.w_(k), &s); f1.push_back(s); P.map2surface(b, Q.xi_.col(k), h * Q.w_(k), &s); f2.push_back(s); }
  switch (n) {
    case 0: DuffyTrick::integrate0(op, P, a, ra, b, rb, f1, f2, Q, m); break;
    case 1: DuffyTrick::integrate1(op, P, a, ra, b, rb, f1, f2, Q, m); break;
    case 2: DuffyTrick::integrate2(op, P, a, ra, b, rb, f1, f2, Q, m); break;
    case 3: DuffyTrick::integrate3(op, P, a, ra, b, rb, f1, f2, Q, m); break;
    case 4: DuffyTrick::integrate4(op, P, a, ra, b, rb, f1, f2, Q, m); break;
  }
}
static void elements(int n, int M, ElementTreeNode *a, ElementTreeNode *b) { a->level_ = b->level_ = M; a->id_ = 1; b->id_ = n == 2 ? 1 : 2; a->patch_ = b->patch_ = 0; a->llc_ = Eigen::Vector2d(0., 0.); b->llc_ = Eigen::Vector2d(0., 0.); }
// integrals of the Lagrange polynomials on equidistant nodes: exact rational arithmetic in the symbolic build
static Cubature closed_rule(int m) {
  std::vector<double> x, w; for (int k = 0; k <= m; ++k) x.push_back(double(k) / m);
  for (int k = 0; k <= m; ++k) {
    std::vector<double> c(1, double(1.)); double den = 1.;
    for (int l = 0; l <= m; ++l) if (l != k) { std::vector<double> d(c.size() + 1, double(0.)); for (size_t i = 0; i < c.size(); ++i) { d[i + 1] += c[i]; d[i] -= c[i] * x[l]; } c = d; den = den * (x[k] - x[l]); }
    double s = 0.; for (size_t i = 0; i < c.size(); ++i) s += c[i] / double(i + 1); w.push_back(s / den);
  }
  Cubature Q; Q.xi_.resize(2, (m + 1) * (m + 1)); Q.w_.resize((m + 1) * (m + 1));
  for (int i = 0; i <= m; ++i) for (int j = 0; j <= m; ++j) { Q.xi_(0, i * (m + 1) + j) = x[i]; Q.xi_(1, i * (m + 1) + j) = x[j]; Q.w_(i * (m + 1) + j) = w[i] * w[j]; }
  return Q;
}
static void polynomials(int n, int M, int r1, int r2, int deg) {
  vc::add(std::string("polynomials/") + rname[n] + S_("/M", M) + (n > 2 ? S_("r", r1, r2) : ""), "DuffyTrick::integrate" + std::to_string(n), [=] {
    Rec op; op.deg = deg; int k = monomials(deg); Eigen::Matrix<double, -1, -1> m(k, 1); double old = vc::in("old", -1, 1); m.setConstant(old);
    ElementTreeNode a, b; elements(n, M, &a, &b);
    run(n, op, a, r1, n == 2 ? a : b, r2, closed_rule(deg + 2), &m);
    double hh = std::ldexp(1., -2 * M); k = 0;
    for (int i = 0; i < deg; ++i) for (int j = 0; i + j < deg; ++j) for (int l = 0; i + j + l < deg; ++l) for (int o = 0; i + j + l + o < deg; ++o) vc::eq("integral-of-monomial", m(k++, 0), hh / ((i + 1.) * (j + 1.) * (l + 1.) * (o + 1.)), 1e-9);
  }, 1);
}
static Eigen::Vector2d unturn(double x, double y, int r) { switch (r) { case 1: return Eigen::Vector2d(y, 1. - x); case 2: return Eigen::Vector2d(1. - x, 1. - y); case 3: return Eigen::Vector2d(1. - y, x); default: return Eigen::Vector2d(x, y); } }
static double det4(double m[4][4]) {
  double d = 0.; int p[4] = {0, 1, 2, 3};
  do { int s = 1; for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) if (p[i] > p[j]) s = -s; d += double(s) * m[0][p[0]] * m[1][p[1]] * m[2][p[2]] * m[3][p[3]]; } while (std::next_permutation(p, p + 4));
  return d;
}
// all quadrature rules at once: two arbitrary nodes with arbitrary weights
static void samples(int n, int r1, int r2) {
  vc::add(std::string("samples/") + rname[n] + (n > 2 ? S_("/r", r1, r2) : ""), "DuffyTrick::integrate" + std::to_string(n) + "; DuffyTrick::tau", [=] {
    Rec op; ElementTreeNode a, b; int M = vc::choose("M", 0, 2); elements(n, M, &a, &b); Eigen::Matrix<double, -1, -1> m(1, 1); m.setConstant(double(1.));
    Cubature Q; Q.xi_.resize(2, 2); Q.w_.resize(2); std::vector<double> v;
    for (int k = 0; k < 2; ++k) { for (int c = 0; c < 2; ++c) { v.push_back(vc::in(S_("x", k, c), 0, 1)); Q.xi_(c, k) = v.back(); vc::require(vc::lt(0., v.back())); vc::require(vc::lt(v.back(), 1.)); } Q.w_(k) = vc::in(S_("w", k), 0, 1); vc::require(vc::lt(0., Q.w_(k))); }
    run(n, op, a, r1, n == 2 ? a : b, r2, Q, &m);
    double w01 = Q.w_(0) * Q.w_(1) * std::ldexp(1., -2 * M); int mixed = 0;
    vc::check("samples-exist", !op.calls.empty());
    for (auto &c : op.calls) {
      const SurfacePoint &p = c.first, &q = c.second;
      vc::eq("first-element", p(3), double(1.)); vc::eq("second-element", q(3), double(n == 2 ? 1 : 2));
      for (double z : {p(0), p(1), q(0), q(1)}) vc::prop("samples-in-elements", vc::all({vc::le(0., z), vc::le(z, 1.)}));
      vc::prop("positive-weights", vc::le(0., p(2) * q(2)));
      Eigen::Vector2d s = unturn(p(0), p(1), r1), t = unturn(q(0), q(1), r2);
      // the reference positions coincide: identical points / points of the common edge (run through in opposite directions) / the common vertex
      if (n == 2) vc::prop("off-the-singularity", vc::no(vc::all({vc::equ(p(0), q(0)), vc::equ(p(1), q(1))})));
      if (n == 3) vc::prop("off-the-singularity", vc::no(vc::all({vc::equ(s(1), 0.), vc::equ(t(1), 0.), vc::equ(s(0), 1. - t(0))})));
      if (n == 4) vc::prop("off-the-singularity", vc::no(vc::all({vc::equ(s(0), 0.), vc::equ(t(0), 0.), vc::equ(s(1), 0.), vc::equ(t(1), 0.)})));
      if (!vc::native) {  // every sample is a smooth image of the pair of nodes, weighted with the determinant of its derivative
        double J[4][4]; double y[4] = {p(0), p(1), q(0), q(1)};
        for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { double z = y[i]; J[i][j] = vc::deriv([=](double) { return z; }, v[j]); }
        double w2 = p(2) * q(2), both = vc::deriv([=](double) { return w2; }, Q.w_(0)), one = vc::deriv([=](double) { return both; }, Q.w_(1));
        double D = det4(J); mixed += 1;
        // the weight is w0 w1 h^2 |det| for a pair of different nodes; pairs of one node with itself have a degenerate map
        vc::prop("weight-is-the-jacobian", vc::any({vc::equ(w2 * w2, w01 * w01 * D * D), vc::all({vc::equ(D, 0.), vc::equ(one, 0.)})}));
      }
    }
  }, 10);
}
// classification of the element pairs of a geometry
static void classify(const geo::Mesh &mesh, int M) {
  vc::add("classification/" + mesh.name + S_("/M", M), "DuffyTrick::compareElements; DuffyTrick::tau; ClusterTree::init_ClusterTree", [=] {
    Geometry g(geo::patches(mesh)); ClusterTree ct(g, M); const ElementTree &et = ct.get_element_tree(); double x = vc::in("x", 0, 1);
    auto phys = [&](const ElementTreeNode &e, const Eigen::Vector2d &r) { return Eigen::Vector3d(g.get_geometry()[e.patch_].eval(Eigen::Vector2d(e.llc_ + std::ldexp(1., -M) * r))); };
    auto corners = [&](const ElementTreeNode &e) { std::vector<std::array<long, 3>> c; for (int k = 0; k < 4; ++k) c.push_back(geo::key(phys(e, Eigen::Vector2d(double(k == 1 || k == 2), double(k > 1))))); return c; };
    for (auto a = et.cpbegin(); a != et.cpend(); ++a) for (auto b = et.cpbegin(); b != et.cpend(); ++b) {
      double dist = -5.; Eigen::Vector3i c = DuffyTrick::compareElements(*a, *b, &dist);
      auto ca = corners(*a), cb = corners(*b); int common = 0; for (auto &k : ca) for (auto &l : cb) common += k == l;
      bool same = a->id_ == b->id_; Eigen::Vector3d z = a->midpoint_ - b->midpoint_; double d = norm3(z) - a->radius_ - b->radius_;
      vc::eq_int("kind", c(2), same ? 2 : common == 0 ? 0 : common == 1 ? 4 : 3);
      vc::eq("distance", dist, same || vc::value(d) < 0 ? double(0.) : d, 1e-10);
      if (c(2) == 3 || c(2) == 4) vc::check("rotations", c(0) >= 0 && c(0) < 4 && c(1) >= 0 && c(1) < 4);
      if (c(2) == 3) vc::eqm("common-edge", phys(*a, DuffyTrick::tau(x, double(0.), c(0))), phys(*b, DuffyTrick::tau(1. - x, double(0.), c(1))));
      if (c(2) == 4) vc::eqm("common-vertex", phys(*a, DuffyTrick::tau(double(0.), double(0.), c(0))), phys(*b, DuffyTrick::tau(double(0.), double(0.), c(1))));
    }
  }, 3);
}
static void rotations() {
  vc::add("rotations", "DuffyTrick::tau", [] {
    double x = vc::in("x", 0, 1), y = vc::in("y", 0, 1);
    for (int r = 0; r <= 4; ++r) { Eigen::Vector2d t = DuffyTrick::tau(x, y, r), b = unturn(t(0), t(1), r); vc::eq("inverse", b(0), x); vc::eq("inverse", b(1), y);
      // edge r (from corner r to corner r + 1) is the image of the lower edge
      int c0 = r % 4, c1 = (r + 1) % 4; Eigen::Vector2d u = DuffyTrick::tau(double(0.), double(0.), r), v = DuffyTrick::tau(double(1.), double(0.), r);
      vc::eq("first-corner", u(0), double(c0 == 1 || c0 == 2)); vc::eq("first-corner", u(1), double(c0 > 1)); vc::eq("second-corner", v(0), double(c1 == 1 || c1 == 2)); vc::eq("second-corner", v(1), double(c1 > 1)); }
  });
}
namespace Bembel {
template <class S, int F, int O> struct Bil;
template <class S, int F, int O> struct LinearOperatorTraits<Bil<S, F, O>> { typedef Eigen::Matrix<S, Eigen::Dynamic, 1> EigenType; typedef S Scalar; enum { OperatorOrder = O, Form = F, NumberOfFMMComponents = 1 }; };
// an arbitrary bilinear form: unconstrained per pair of surface points
template <class S, int F, int O> struct Bil : public LinearOperatorBase<Bil<S, F, O>> {
  template <class T> void evaluateIntegrand_impl(const T &, const SurfacePoint &a, const SurfacePoint &b, Eigen::Matrix<S, -1, -1> *m) const { S f = scal<S>("f" + key(a) + key(b)) * (a(2) * b(2)); for (int j = 0; j < m->cols(); ++j) for (int i = 0; i < m->rows(); ++i) (*m)(i, j) += f * (1. + i + 3. * j * j); }
};
}
template <class S, int F, int O> static void dispatch(int gk, int M, int p) {
  typedef Bil<S, F, O> Op;
  vc::add("pair/" + std::string(gname(gk)) + S_("/M", M) + S_("p", p) + S_("o", O + 2) + S_("f", F), "DuffyTrick::evaluateBilinearForm,computeFfieldQnodes,compareElements; LinearOperatorBase::getNearfieldQuadratureDegree,get_FarfieldQuadratureDegree", [=] {
    Geometry g = gnamed(gk); SuperSpace<Op> sp(g, M, p); Op op; GaussSquare<Constants::maximum_quadrature_degree> GS; const ElementTree &et = sp.get_mesh().get_element_tree();
    int ff = p - O + 1; vc::eq_int("far-field-degree", op.get_FarfieldQuadratureDegree(p), ff); auto nodes = DuffyTrick::computeFfieldQnodes(sp, GS[ff]); double h = std::ldexp(1., -M); int n = dim<Op>() * (p + 1) * (p + 1);
    vc::eq_int("nodes", nodes.size(), et.get_number_of_elements());
    auto at = [&](const ElementTreeNode &e, double s, double t, double w) { SurfacePoint P; g.get_geometry()[e.patch_].updateSurfacePoint(&P, Eigen::Vector2d(e.llc_(0) + h * s, e.llc_(1) + h * t), w, Eigen::Vector2d(s, t)); return P; };
    for (auto a = et.cpbegin(); a != et.cpend(); ++a) for (int k = 0; k < GS[ff].w_.size(); ++k) vc::eqm("node", nodes[a->id_][k], at(*a, GS[ff].xi_(0, k), GS[ff].xi_(1, k), h * GS[ff].w_(k)));
    int ia = std::vector<int>{0, et.get_number_of_elements() / 2 - 1, et.get_number_of_elements() - 1}[vc::choose("a", 0, 2)];
    auto a = et.cpbegin(); while (ia--) ++a;
    for (auto b = et.cpbegin(); b != et.cpend(); ++b) {
    double dist; auto c = DuffyTrick::compareElements(*a, *b, &dist); md d = vc::value(dist), lg = std::log((md)2), dl = d * (1 << M) < 1 ? -M * lg : std::log(d), al = 2 - O + 2 * p;
    int nf = (int)(0.5 * ((al + p) * M * lg - (2 - p + O) * dl) / ((M + 2) * lg + dl)); vc::eq_int("near-field-degree", op.getNearfieldQuadratureDegree(p, dist, M), nf);
    int deg = std::max(ff, nf); DM<S> m = oldm<S>(n, n), want = oldm<S>(n, n); auto &Q = GS[deg];
    DuffyTrick::evaluateBilinearForm(op, sp, *a, *b, GS, nodes[a->id_], nodes[b->id_], &m);
    switch (c(2)) {
      case 0: want.setConstant(S(double(0.))); for (int i = 0; i < Q.w_.size(); ++i) for (int j = 0; j < Q.w_.size(); ++j) op.evaluateIntegrand(sp, at(*a, Q.xi_(0, i), Q.xi_(1, i), h * Q.w_(i)), at(*b, Q.xi_(0, j), Q.xi_(1, j), h * Q.w_(j)), &want); break;
      case 2: DuffyTrick::integrate2(op, sp, *a, 0, *b, 0, nodes[a->id_], nodes[b->id_], Q, &want); break;
      case 3: DuffyTrick::integrate3(op, sp, *a, c(0), *b, c(1), nodes[a->id_], nodes[b->id_], Q, &want); break;
      case 4: DuffyTrick::integrate4(op, sp, *a, c(0), *b, c(1), nodes[a->id_], nodes[b->id_], Q, &want); break;
    }
    vc::eqm("integral", m, want);
    }
  }, 1);
}
int main(int argc, char **argv) {
  rotations();
  for (int n = 0; n < 5; ++n) for (int r1 = 0; r1 < (n > 2 ? 4 : 1); ++r1) for (int r2 = 0; r2 < (n > 2 ? 4 : 1); ++r2) { samples(n, r1, r2); for (int M = 0; M < 3; ++M) if (M == (r1 + r2) % 3 || n < 3) polynomials(n, M, r1, r2, 4); }
  for (int r1 = 0; r1 < 4; ++r1) for (int r2 = 0; r2 < 4; ++r2) { classify(geo::two(r1, r2, false, false), 0); classify(geo::two(r1, r2, false, false), 1); }
  for (int r = 0; r < 4; ++r) { classify(geo::star(r), 0); classify(geo::star(r), 1); classify(geo::sheet(r * 5), 1); classify(geo::cube(1234 + 1111 * r), 1); }
  classify(geo::square(), 3); classify(geo::cube(27), 2); classify(geo::scaled(geo::cube(99), 1. / (1 << 10)), 1);
  const int DIS = DifferentialForm::Discontinuous;
  dispatch<double, DIS, 0>(1, 1, 0); dispatch<double, DIS, 1>(0, 2, 1); dispatch<double, DIS, -1>(4, 1, 0); dispatch<C, DIS, 0>(3, 1, 1); dispatch<double, DIS, 0>(2, 1, 1); dispatch<double, DifferentialForm::DivConforming, -1>(1, 1, 1); dispatch<C, DIS, -1>(1, 2, 0);
  return vc::main_(argc, argv);
}
