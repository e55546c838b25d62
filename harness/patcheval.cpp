// P05: patch evaluation, Jacobian, normal, surface point
#include "common.hpp"
#include <Bembel/Geometry>
using namespace Bembel;
typedef Basis::ShapeFunctionHandler SH;
// a patch with any Bezier control data; ux/uy unique knots
static Patch mk(int px, int py, std::vector<double> ux, std::vector<double> uy, bool sym = true) {
  Patch p; p.polynomial_degree_x_ = px; p.polynomial_degree_y_ = py; p.unique_knots_x_ = ux; p.unique_knots_y_ = uy;
  int n = px * (ux.size() - 1) * py * (uy.size() - 1);
  for (int i = 0; i < n; ++i) for (int k = 0; k < 4; ++k) p.data_.push_back(vc::in(S_("c", i, k), k == 3 ? .5 : -1, k == 3 ? 2 : 1));
  return p;
}
// homogeneous coordinates from 1-D basis values; bx, by on the pieces sx, sy
static Eigen::Vector4d hom(const Patch &p, int sx, int sy, const std::vector<double> &bx, const std::vector<double> &by) {
  Eigen::Vector4d r = Eigen::Vector4d::Zero();
  int numy = (p.unique_knots_y_.size() - 1) * p.polynomial_degree_y_;
  for (int i = 0; i < p.polynomial_degree_x_; ++i) for (int j = 0; j < p.polynomial_degree_y_; ++j)
    for (int k = 0; k < 4; ++k) r(k) = r(k) + p.data_[4 * (numy * (p.polynomial_degree_x_ * sx + i) + p.polynomial_degree_y_ * sy + j) + k] * bx[i] * by[j];
  return r;
}
static void contract(Patch p, int sx, int sy, double s, double t, double x, double y, double hx, double hy, bool seal) {
  int px = p.polynomial_degree_x_, py = p.polynomial_degree_y_;
  std::vector<double> bx(px), by(py), dx(px), dy(py);
  // callee contracts (P01): values and derivatives of the Bernstein basis
  double sx_ = Spl::Rescale(x, p.unique_knots_x_[sx], p.unique_knots_x_[sx + 1]), sy_ = Spl::Rescale(y, p.unique_knots_y_[sy], p.unique_knots_y_[sy + 1]);
  if (seal) {
    SH::evalBasis(px - 1, bx.data(), sx_); SH::evalBasis(py - 1, by.data(), sy_); SH::evalDerBasis(px - 1, dx.data(), sx_); SH::evalDerBasis(py - 1, dy.data(), sy_);
    for (auto v : {&bx, &by, &dx, &dy}) for (auto &z : *v) vc::seal(z);
  } else {
    for (int i = 0; i < px; ++i) { bx[i] = Bern(px - 1, i, s); dx[i] = BernD(px - 1, i, s); }
    for (int i = 0; i < py; ++i) { by[i] = Bern(py - 1, i, t); dy[i] = BernD(py - 1, i, t); }
  }
  Eigen::Vector4d H = hom(p, sx, sy, bx, by), Hx = hom(p, sx, sy, dx, by) / hx, Hy = hom(p, sx, sy, bx, dy) / hy;
  Eigen::Vector2d r(x, y);
  Eigen::Vector3d P, Px, Py;
  for (int k = 0; k < 3; ++k) { P(k) = H(k) / H(3); Px(k) = (Hx(k) * H(3) - H(k) * Hx(3)) / (H(3) * H(3)); Py(k) = (Hy(k) * H(3) - H(k) * Hy(3)) / (H(3) * H(3)); }
  vc::eqm("eval", p.eval(r), P);
  vc::eqm("eval-xy", p.eval(x, y), P);
  Eigen::Matrix<double, 3, 2> J = p.evalJacobian(r), J2 = p.evalJacobian(x, y);
  for (int k = 0; k < 3; ++k) { vc::eq("jacobian-x", J(k, 0), Px(k)); vc::eq("jacobian-y", J(k, 1), Py(k)); vc::eq("jacobian-xy", J2(k, 0), Px(k)); vc::eq("jacobian-xy", J2(k, 1), Py(k)); }
  // normal = cross product of the Jacobian columns
  for (int c = 0; c < 2; ++c) for (int k = 0; k < 3; ++k) vc::seal(J(k, c));
  Eigen::Vector3d n = cross3(J.col(0), J.col(1));
  vc::eqm("normal", p.evalNormal(r), n);
  vc::eqm("normal-xy", p.evalNormal(x, y), n);
  SurfacePoint sp; double w = vc::in("w", -1, 1), a = vc::in("xi0", 0, 1), b = vc::in("xi1", 0, 1);
  for (int i = 0; i < 12; ++i) sp(i) = 77. + i;
  p.updateSurfacePoint(&sp, r, w, Eigen::Vector2d(a, b));
  vc::eq("sp.xi", sp(0), a); vc::eq("sp.xi", sp(1), b); vc::eq("sp.w", sp(2), w);
  for (int k = 0; k < 3; ++k) { vc::eq("sp.point", sp(3 + k), P(k)); vc::eq("sp.dx", sp(6 + k), Px(k)); vc::eq("sp.dy", sp(9 + k), Py(k)); }
}
int main(int argc, char **argv) {
  const std::string tg = "Patch::eval;Patch::evalJacobian;Patch::evalNormal;Patch::updateSurfacePoint";
  for (int px = 1; px <= 18; ++px) for (int py = 1; py <= 18; ++py) if (px * py <= 20 || (vc::native && ((px <= 9 && py <= 9) || px == py || px + py == 19)))
    vc::add("bezier/" + std::to_string(px) + "x" + std::to_string(py), tg, [=] {
      double s = vc::in("s", 0, 1), t = vc::in("t", 0, 1);
      vc::require(vc::le(0., s)); vc::require(vc::le(s, 1.)); vc::require(vc::le(0., t)); vc::require(vc::le(t, 1.));
      Patch p = mk(px, py, {0., 1.}, {0., 1.});
      contract(p, 0, 0, s, t, s, t, double(1.), double(1.), px * py > 6);
    });
  // end points of the reference domain belong to the last piece
  for (int c = 0; c < 4; ++c) vc::add("corner/" + std::to_string(c), tg, [=] {
    Patch p = mk(3, 2, {0., .25, 1.}, {0., .5, .75, 1.});
    double x = c & 1 ? 1. : 0., y = c & 2 ? 1. : 0.;
    contract(p, c & 1 ? 1 : 0, c & 2 ? 2 : 0, x, y, x, y, double(c & 1 ? .75 : .25), double(c & 2 ? .25 : .5), false);
  });
  for (int px = 1; px <= (vc::native ? 6 : 3); ++px) for (int py = 1; py <= (vc::native ? 6 : 3); ++py) for (int fine = 0; fine < (vc::native ? 2 : 1); ++fine)
    vc::add((fine ? "fine-pieces/" : "pieces/") + std::to_string(px) + "x" + std::to_string(py), tg, [=] {
      std::vector<double> ux = {0., .25, 1.}, uy = {0., .5, .75, 1.};
      if (fine) { ux = {0., .125, .5, .53125, 1.}; uy = {0., .0625, .125, .25, .75, .875, 1.}; }
      Patch p = mk(px, py, ux, uy);
      int ix = vc::choose("ix", 0, (int)ux.size() - 2), iy = vc::choose("iy", 0, (int)uy.size() - 2);
      double s = vc::in("s", 0, 1), t = vc::in("t", 0, 1);
      vc::require(vc::le(0., s)); vc::require(vc::lt(s, .99)); vc::require(vc::le(0., t)); vc::require(vc::lt(t, .99));
      double hx = ux[ix + 1] - ux[ix], hy = uy[iy + 1] - uy[iy];
      contract(p, ix, iy, s, t, ux[ix] + hx * s, uy[iy] + hy * t, hx, hy, px * py > 4);
    });
  // the derivatives are derivatives: d/dx of the evaluated point
  for (int c = 0; c < 4; ++c)
    vc::add("derivative/" + std::to_string(c), "Patch::eval;Patch::evalJacobian", [=] {
      int px = c == 3 ? 3 : 2, py = c == 2 ? 3 : 2;
      bool pieces = c == 1;
      std::vector<double> u = {0., 1.}; if (pieces) u = {0., .25, 1.};
      Patch p = mk(px, py, u, {0., 1.});
      double x = vc::in("x", 0, 1), y = vc::in("y", 0, 1);
      // inside a piece, with room for the difference quotients of the native build
      vc::require(vc::lt(pieces ? .28 : .03, x)); vc::require(vc::lt(x, .97)); vc::require(vc::lt(.03, y)); vc::require(vc::lt(y, .97));
      auto J = p.evalJacobian(x, y);
      for (int k = 0; k < 3; ++k) {
        vc::eq("d/dx", J(k, 0), vc::deriv([&](double z) { return p.eval(z, y)(k); }, x), 1e-4);
        vc::eq("d/dy", J(k, 1), vc::deriv([&](double z) { return p.eval(x, z)(k); }, y), 1e-4);
      }
    });
  return vc::main_(argc, argv);
}
