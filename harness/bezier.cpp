// P04: Bezier extraction, patches with internal knots, shredding
#include "common.hpp"
#include <Bembel/Spline>
#include <Bembel/Geometry>
using namespace Bembel;
// Cox - de Boor, degree d = order-1, on the span s (knots[s] <= x <= knots[s+1], knots[s]<knots[s+1])
static Vec cox(const std::vector<double> &k, int order, int s, double x) {
  int n = (int)k.size() - order;
  std::vector<double> N(k.size() - 1, double(0.));
  N[s] = 1.;
  for (int d = 1; d < order; ++d)
    for (int i = 0; i + d + 1 < (int)k.size(); ++i) {
      double v = 0.;
      if (k[i + d] > k[i]) v = v + (x - k[i]) / (k[i + d] - k[i]) * N[i];
      if (k[i + d + 1] > k[i + 1]) v = v + (k[i + d + 1] - x) / (k[i + d + 1] - k[i + 1]) * N[i + 1];
      N[i] = v;
    }
  Vec r(n); for (int i = 0; i < n; ++i) r(i) = N[i];
  return r;
}
struct K { const char *name; int order; std::vector<double> k; };
static std::vector<K> kinds() {
  return {{"o2i1", 2, {0., 0., .5, 1., 1.}},
          {"o2i2", 2, {0., 0., .25, .625, 1., 1.}},
          {"o3i0", 3, {0., 0., 0., 1., 1., 1.}},
          {"o3i1", 3, {0., 0., 0., .25, 1., 1., 1.}},
          {"o3rep", 3, {0., 0., 0., .5, .5, .75, 1., 1., 1.}},
          {"o4C0", 4, {0., 0., 0., 0., .5, .5, .5, 1., 1., 1., 1.}},
          {"o4i1", 4, {0., 0., 0., 0., .375, 1., 1., 1., 1.}},
          {"o2i0", 2, {0., 0., 1., 1.}},
          // strongly graded / nearly repeated knots
          {"o3graded", 3, {0., 0., 0., .015625, 1., 1., 1.}},
          {"o3close", 3, {0., 0., 0., .5, .50390625, 1., 1., 1.}}};
}
static std::vector<int> spans(const std::vector<double> &k) { std::vector<int> r; for (int i = 0; i + 1 < (int)k.size(); ++i) if (k[i] < k[i + 1]) r.push_back(i); return r; }
static double surf(const Vec &a, const Vec &b, const Mat &P) { double r = 0.; for (int i = 0; i < a.size(); ++i) for (int j = 0; j < b.size(); ++j) r = r + a(i) * b(j) * P(j, i); return r; }

int main(int argc, char **argv) {
  auto ks = kinds();
  for (int a = 0; a < (int)ks.size(); ++a) for (int b = 0; b < (int)ks.size(); ++b) {
    K A = ks[a], B = ks[b];
    int nx = A.k.size() - A.order, ny = B.k.size() - B.order;
    if (nx * ny > 36 || ((a > 7 || b > 7) && a != 7 && b != 7 && !(a == 8 && b == 9))) continue;
    std::string nm = std::string(A.name) + "x" + B.name;
    std::string tg = "Patch::init_Patch;Spl::MakeProjection;Spl::MakeInterpolationPoints;Spl::MakeInterpolationMask;Spl::ExtractUniqueKnotVector;Patch::eval;PatchShredder";
    for (int mode = 0; mode < 2; ++mode) vc::add((mode ? "weights/" : "coords/") + nm, tg, [=] {
      std::vector<Mat> cp(4, Mat(ny, nx));
      for (int k = 0; k < 4; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
        bool symb = mode ? k == 3 : k < 3;
        if (symb) cp[k](j, i) = vc::in("P" + std::to_string(k) + S_("_", j, i), mode ? .5 : -1, mode ? 2 : 1);
        else cp[k](j, i) = 1. + ((i + 2 * j + 3 * k * i * j) % 7) / 8.;
      }
      Patch p(cp, A.k, B.k);
      vc::eq_int("order_x", p.polynomial_degree_x_, A.order);
      vc::eq_int("order_y", p.polynomial_degree_y_, B.order);
      auto sx = spans(A.k), sy = spans(B.k);
      int cx = vc::choose("spanx", 0, (int)sx.size() - 1), cy = vc::choose("spany", 0, (int)sy.size() - 1);
      double x0 = A.k[sx[cx]], x1 = A.k[sx[cx] + 1], y0 = B.k[sy[cy]], y1 = B.k[sy[cy] + 1];
      double s = vc::in("s", 0, 1), t = vc::in("t", 0, 1);
      vc::require(vc::le(0., s)); vc::require(vc::lt(s, 1.)); vc::require(vc::le(0., t)); vc::require(vc::lt(t, 1.));
      double x = x0 + (x1 - x0) * s, y = y0 + (y1 - y0) * t;
      Vec Nx = cox(A.k, A.order, sx[cx], x), Ny = cox(B.k, B.order, sy[cy], y);
      double W = surf(Nx, Ny, cp[3]);
      Eigen::Vector3d e = p.eval(Eigen::Vector2d(x, y));
      for (int k = 0; k < 3; ++k) vc::eq("nurbs", e(k), surf(Nx, Ny, cp[k]) / W);
      std::vector<Patch> sh = PatchShredder(p);
      vc::eq_int("pieces", sh.size(), sx.size() * sy.size());
      if (sh.size() == sx.size() * sy.size()) {
        const Patch &q = sh[cx * sy.size() + cy];
        Eigen::Vector3d f = q.eval(Eigen::Vector2d(s, t));
        for (int k = 0; k < 3; ++k) vc::eq("shredded", f(k), surf(Nx, Ny, cp[k]) / W);
        vc::eq_int("piece_order_x", q.polynomial_degree_x_, A.order);
        vc::eq_int("piece_order_y", q.polynomial_degree_y_, B.order);
        vc::check("piece_knots", q.unique_knots_x_.size() == 2 && q.unique_knots_y_.size() == 2);
      }
    }, 4);
  }
  // shredding of several patches keeps order and leaves Bezier patches alone
  vc::add("shred-vector", "PatchShredder(vector)", [=] {
    std::vector<Patch> in;
    int o = vc::choose("order", 0, 7), sel[3] = {o & 3, (o + 1 + o / 4) & 3, (o / 2) & 3};
    int kx[4] = {2, 0, 7, 3}, ky[4] = {7, 1, 2, 7};
    std::vector<std::array<int, 3>> from;
    for (int n = 0; n < 3; ++n) {
      const K &A = ks[kx[sel[n]]], &B = ks[ky[sel[n]]];
      int nx = A.k.size() - A.order, ny = B.k.size() - B.order;
      std::vector<Mat> cp(4);
      for (int k = 0; k < 4; ++k) { cp[k].resize(ny, nx); for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) cp[k](j, i) = 1. + ((i + 2 * j + 3 * k + 5 * n) % 7) / 8. + n; }
      in.emplace_back(cp, A.k, B.k);
      for (int ix = 0; ix + 1 < (int)in[n].unique_knots_x_.size(); ++ix) for (int iy = 0; iy + 1 < (int)in[n].unique_knots_y_.size(); ++iy) from.push_back({n, ix, iy});
    }
    auto out = PatchShredder(in);
    vc::eq_int("count", out.size(), from.size());
    double s = vc::in("s", 0, 1), t = vc::in("t", 0, 1);
    vc::require(vc::le(0., s)); vc::require(vc::lt(s, 1.)); vc::require(vc::le(0., t)); vc::require(vc::lt(t, 1.));
    if (out.size() == from.size()) for (size_t n = 0; n < out.size(); ++n) {
      const Patch &p = in[from[n][0]];
      auto &ux = p.unique_knots_x_; auto &uy = p.unique_knots_y_; int ix = from[n][1], iy = from[n][2];
      vc::eqm("piece", out[n].eval(Eigen::Vector2d(s, t)), p.eval(Eigen::Vector2d(ux[ix] + (ux[ix + 1] - ux[ix]) * s, uy[iy] + (uy[iy + 1] - uy[iy]) * t)));
    }
  }, 3);
  return vc::main_(argc, argv);
}
