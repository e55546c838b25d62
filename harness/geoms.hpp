// multi-patch test geometries built from quad meshes (both modes)
#pragma once
#include "common.hpp"
#include <Bembel/Geometry>
namespace geo {
using namespace Bembel;
typedef std::array<md, 3> P3;
typedef std::array<int, 4> Quad;
struct Mesh { std::vector<P3> v; std::vector<Quad> q; std::string name; };
// bilinear patch through four points (corner order 00,10,11,01)
inline Patch bilinear(const P3 &a, const P3 &b, const P3 &c, const P3 &d) {
  std::vector<Eigen::Matrix<double, -1, -1>> cp(4, Eigen::Matrix<double, -1, -1>(2, 2));
  for (int k = 0; k < 3; ++k) { cp[k](0, 0) = a[k]; cp[k](0, 1) = b[k]; cp[k](1, 1) = c[k]; cp[k](1, 0) = d[k]; }
  cp[3].setConstant(double(1.));
  std::vector<double> kn = {0., 0., 1., 1.};
  return Patch(cp, kn, kn);
}
inline PatchVector patches(const Mesh &m) {
  PatchVector r;
  for (auto &q : m.q) r.push_back(bilinear(m.v[q[0]], m.v[q[1]], m.v[q[2]], m.v[q[3]]));
  return r;
}
// dihedral relabelling of a quad: r rotations, then optional reflection
inline Quad turn(Quad q, int r, bool flip) {
  Quad o; for (int i = 0; i < 4; ++i) o[i] = q[(i + r) % 4];
  if (flip) std::swap(o[1], o[3]);
  return o;
}
inline Mesh square() { return {{{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}}, {{0, 1, 2, 3}}, "square"}; }
// two patches with a common edge whose midpoint is the origin
inline Mesh two(int r1, int r2, bool f1, bool f2) {
  Mesh m = {{{-1, -.5, .25}, {0, -.5, 0}, {1, -.5, .5}, {-1, .5, 0}, {0, .5, 0}, {1.5, .5, .125}}, {turn({0, 1, 4, 3}, r1, f1), turn({1, 2, 5, 4}, r2, f2)}, "two"};
  m.name += std::to_string(r1) + std::to_string(r2) + (f1 ? "f" : "") + (f2 ? "g" : "");
  return m;
}
inline Mesh cube(int code = 0) {
  Mesh m; m.name = "cube" + std::to_string(code);
  for (int i = 0; i < 8; ++i) m.v.push_back({(md)(i & 1), (md)(i >> 1 & 1), (md)(i >> 2 & 1)});
  Quad f[6] = {{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}};
  for (int i = 0; i < 6; ++i) { m.q.push_back(turn(f[i], code % 4, false)); code /= 4; }
  return m;
}
// three patches around an inner point
inline Mesh star(int r) {
  return {{{0, 0, 0}, {1, 0, 0}, {1, 1, .25}, {-.5, 1, 0}, {-1, .5, 0}, {-.5, -1, .5}, {.5, -1, .25}}, {turn({0, 1, 2, 3}, r, 0), turn({0, 3, 4, 5}, r + 1, 0), turn({0, 5, 6, 1}, 3 - r, 0)}, "star" + std::to_string(r)};
}
// 2 x 2 sheet, numbering of patches not along the sheet
inline Mesh sheet(int r) {
  Mesh m; m.name = "sheet" + std::to_string(r);
  for (int j = 0; j < 3; ++j) for (int i = 0; i < 3; ++i) m.v.push_back({(md)i, (md)j, .125 * i * j});
  auto q = [&](int i, int j) { return Quad{3 * j + i, 3 * j + i + 1, 3 * j + i + 4, 3 * j + i + 3}; };
  m.q = {turn(q(0, 0), r, 0), turn(q(1, 1), r / 4, 0), turn(q(1, 0), r / 2, 0), turn(q(0, 1), 1, 0)};
  return m;
}
// two patches which share two (adjacent) edges
inline Mesh cap(int r1, int r2) { return {{{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {.25, .75, 1}}, {turn({0, 1, 2, 3}, r1, 0), turn({2, 1, 0, 4}, r2, 0)}, "cap" + std::to_string(r1) + std::to_string(r2)}; }
// larger meshes: nx x ny sheet, patches that touch in a point or not at all, torus, k patches around a point
inline Mesh grid(int nx, int ny) {
  Mesh m; m.name = "grid" + std::to_string(nx) + "x" + std::to_string(ny);
  for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) m.v.push_back({(md)i, (md)j, .125 * i * j / (1 + i)});
  int n = nx + 1; for (int k = 0; k < nx * ny; ++k) { int s = ny % 7 ? 7 : 5, t = nx * ny % s ? k * s % (nx * ny) : k, i = t % nx, j = t / nx; m.q.push_back(turn({n * j + i, n * j + i + 1, n * j + n + i + 1, n * j + n + i}, k, 0)); }
  return m;
}
inline Mesh islands(int r, bool touch = true) {
  Mesh m; m.name = (touch ? "islands" : "apart") + std::to_string(r); auto at = [&](md x, md y, md z) { P3 p = {x, y, z}; for (int i = 0; i < (int)m.v.size(); ++i) if (m.v[i] == p) return i; m.v.push_back(p); return (int)m.v.size() - 1; };
  auto sq = [&](md x, md y, md z, int t) { m.q.push_back(turn({at(x, y, z), at(x + 1, y, z), at(x + 1, y + 1, z), at(x, y + 1, z)}, t, 0)); };
  sq(0, 0, 0, r); sq(touch ? 1 : 1.5, 1, 0, r + 1); sq(5, 0, 0, r + 2); sq(0, 0, 1, 3 - r); sq(1, 0, 1, r);  // 0 and 1 touch in a point, 3 and 4 share an edge, 0 and 3 lie close to each other
  return m;
}
inline Mesh torus(int a, int b) {
  Mesh m; m.name = "torus" + std::to_string(a) + "x" + std::to_string(b);
  for (int j = 0; j < b; ++j) for (int i = 0; i < a; ++i) { md u = 2 * 3.14159265358979323846L * i / a, v = 2 * 3.14159265358979323846L * j / b; m.v.push_back({(3 + __builtin_cos(v)) * __builtin_cos(u), (3 + __builtin_cos(v)) * __builtin_sin(u), __builtin_sin(v)}); }
  for (int j = 0; j < b; ++j) for (int i = 0; i < a; ++i) { int p = (i + 1) % a, q = (j + 1) % b; m.q.push_back(turn({j * a + i, j * a + p, q * a + p, q * a + i}, i + 2 * j, 0)); }
  return m;
}
inline Mesh fan(int k) {
  Mesh m; m.name = "fan" + std::to_string(k); m.v.push_back({0, 0, .5});
  for (int i = 0; i < 2 * k; ++i) { md a = 3.14159265358979323846L * i / k; m.v.push_back({(1 + i % 2) * __builtin_cos(a), (1 + i % 2) * __builtin_sin(a), 0}); }
  for (int i = 0; i < k; ++i) m.q.push_back(turn({0, 1 + 2 * i, 2 + 2 * i, 1 + (2 * i + 2) % (2 * k)}, i * i + 1, 0));
  return m;
}
// patches in any order and turned in any way
inline Mesh shuffled(Mesh m, unsigned seed) {
  unsigned x = seed * 2654435761u + 1; m.name += "-s" + std::to_string(seed);
  for (int i = (int)m.q.size() - 1; i > 0; --i) { x = x * 1103515245u + 12345u; std::swap(m.q[i], m.q[(x >> 16) % (i + 1)]); }
  for (auto &f : m.q) { x = x * 1103515245u + 12345u; f = turn(f, x >> 16 & 3, false); }
  return m;
}
inline md &res() { static md r = 1e7; return r; }  // resolution of the comparison of points
inline std::array<long, 3> key(const Eigen::Vector3d &p) { return {std::lround(vc::value(p(0)) * res()), std::lround(vc::value(p(1)) * res()), std::lround(vc::value(p(2)) * res())}; }
inline Mesh scaled(Mesh m, md f) { for (auto &v : m.v) for (auto &c : v) c *= f; m.name += "-scaled"; return m; }
// every patch with its own copy of the corners, off by rounding errors
inline PatchVector noisy(const Mesh &m) {
  PatchVector r; int k = 1;
  auto n = [&](P3 p) { for (auto &c : p) { k = (k * 37 + 11) % 101; c += (k - 50) * 1e-13; } return p; };
  for (auto &q : m.q) { P3 a = n(m.v[q[0]]), b = n(m.v[q[1]]), c = n(m.v[q[2]]), d = n(m.v[q[3]]); r.push_back(bilinear(a, b, c, d)); }
  return r;
}
}  // namespace geo
