// P08: enclosing balls
#include "geoms.hpp"
#include <Bembel/ClusterTree>
using namespace Bembel;
static vc::P leq(double a, double b) { return vc::le(a, b + (vc::native ? 1e-9 : 0.)); }
// ball (m,r) contains ball (c,q):  |m-c| + q <= r
static void contains(const std::string &tag, const Eigen::Vector3d &m, double r, const Eigen::Vector3d &c, double q) {
  vc::prop(tag + ".radius", leq(q, r));
  vc::prop(tag, leq(dot3(m - c, m - c), (r - q) * (r - q)));
}
static void tree(const ElementTreeNode &n, const Mat &P) {
  if (n.sons_.empty()) { for (int j = 0; j < 4; ++j) { Eigen::Vector3d v = P.col(n.vertices_[j]); vc::check("vertex-in-ball", vc::value(norm3(v - n.midpoint_)) <= vc::value(n.radius_) + 1e-12); } }
  else for (auto &s : n.sons_) { vc::check("son-in-ball", vc::value(norm3(s.midpoint_ - n.midpoint_)) + vc::value(s.radius_) <= vc::value(n.radius_) + 1e-12); tree(s, P); }
}
int main(int argc, char **argv) {
  vc::add("two-balls", "util::computeEnclosingBall", [=] {
    Eigen::Vector3d a = v3("a"), b = v3("b"), m; double p = vc::in("p", 0, 2), q = vc::in("q", 0, 2), r;
    vc::require(vc::le(0., p)); vc::require(vc::le(0., q));
    util::computeEnclosingBall(&m, &r, a, p, b, q);
    contains("first-inside", m, r, a, p);
    contains("second-inside", m, r, b, q);
    // the smallest ball: its diameter is that of the union
    double n = norm3(a - b);
    vc::prop("smallest", vc::any({leq(r, p), leq(r, q), leq(2. * r, p + q + n)}));
  }, 400);
  vc::add("equal-centres", "util::computeEnclosingBall", [=] {
    Eigen::Vector3d a = v3("a"), m; double p = vc::in("p", 0, 2), q = vc::in("q", 0, 2), r;
    vc::require(vc::le(0., p)); vc::require(vc::le(0., q));
    util::computeEnclosingBall(&m, &r, a, p, a, q);
    vc::eqm("midpoint", m, a); vc::prop("radius", vc::any({vc::all({vc::le(q, p), vc::equ(r, p)}), vc::all({vc::le(p, q), vc::equ(r, q)})}));
    Eigen::Vector3d m2; double r2; util::computeEnclosingBall(&m2, &r2, a, p, a, p); vc::eqm("same", m2, a); vc::eq("same.radius", r2, p);
  });
  vc::add("points", "util::computeEnclosingBall", [=] {
    Eigen::Vector3d a = v3("a"), b = v3("b"), m; double r;
    util::computeEnclosingBall(&m, &r, a, double(0.), b, double(0.));
    vc::eqm("midpoint", m, (a + b) / 2.); vc::eq("radius", r, norm3(a - b) / 2.);
  });
  auto reg = [&](const std::string &n, PatchVector pv, int M1) {
    for (int M = 0; M <= M1; ++M) vc::add("tree/" + n + "/M" + std::to_string(M), "ElementTree::computeElementEnclosings;ElementTree::computeElementEnclosings_recursion;ElementTree::generatePointList;ElementTree::generateMidpointList;ElementTree::generateRadiusList;ClusterTree::init_ClusterTree", [=] {
      Geometry g(pv); ClusterTree c(g, M); auto &t = c.get_element_tree();
      Mat P = t.generatePointList();
      vc::eqm("points", c.get_points(), P);
      for (auto &s : t.root().sons_) tree(s, P);
      Mat mp = t.generateMidpointList(), rd = t.generateRadiusList(); int i = 0;
      for (auto it = t.pbegin(); it != t.pend(); ++it, ++i) { Eigen::Vector3d c = mp.col(i); vc::eqm("midpoint-list", c, it->midpoint_); vc::eq("radius-list", rd(i), it->radius_); }
      vc::eq_int("number_of_elements", c.get_number_of_elements(), i); vc::eq_int("max_level", c.get_max_level(), M);
    });
  };
  reg("square", geo::patches(geo::square()), 4);
  for (int c : {0, 1234}) reg(geo::cube(c).name, geo::patches(geo::cube(c)), 3);
  for (int r = 0; r < 4; ++r) reg(geo::star(r).name, geo::patches(geo::star(r)), 3);
  for (int r : {0, 6}) reg(geo::sheet(r).name, geo::patches(geo::sheet(r)), 3);
  for (int r : {0, 1, 6}) reg(geo::cap(r & 3, r / 4).name, geo::patches(geo::cap(r & 3, r / 4)), 3);
  for (auto &m : {geo::grid(3, 2), geo::islands(2), geo::torus(4, 3), geo::fan(5)}) reg(m.name, geo::patches(m), vc::native ? 4 : 2);
  reg("large", geo::patches(geo::scaled(geo::torus(3, 3), 1000.)), 2); reg("small", geo::patches(geo::scaled(geo::cube(5), 1. / (1 << 12))), 2);
  if (vc::native) { reg("square-fine", geo::patches(geo::square()), 6); reg("cube-fine", geo::patches(geo::cube(77)), 5); }
  // strongly graded and stretched elements: one ball inside the other
  reg("sliver", geo::patches({{{0, 0, 0}, {10, 0, 0}, {10, .01, 0}, {.01, .01, 0}}, {{0, 1, 2, 3}}, ""}), 3);
  reg("dart", geo::patches({{{0, 0, 0}, {1, 0, 0}, {.25, .25, 3}, {0, 1, 0}}, {{0, 1, 2, 3}}, ""}), 3);
  reg("degenerate", geo::patches({{{0, 0, 0}, {1, 0, 0}, {1, 0, 0}, {0, 1, 0}}, {{0, 1, 2, 3}}, ""}), 2);
  return vc::main_(argc, argv);
}
