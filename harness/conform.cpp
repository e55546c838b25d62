// P21: conforming spline spaces
#include "spaces.hpp"
#include <map>
static double bern(int p, int i, double t) { return binom(p, i) * ip(t, i) * ip(1. - t, p - i); }
// B-splines on [0, 1] with n equal elements, inner knots of multiplicity r, by their recursion; x lies in element k
struct Spline { int p, n, r; int dim() const { return p + 1 + r * (n - 1); }
  md knot(int i) const { if (i <= p) return 0; int j = (i - p - 1) / r + 1; return j >= n ? 1 : (md)j / n; }
  std::vector<double> at(double x, int k) const { int m = dim() + p + 1; std::vector<double> N(m - 1, double(0.));
    for (int i = 0; i + 1 < m; ++i) if (knot(i) * n <= k && knot(i + 1) * n >= k + 1) N[i] = double(1.);
    for (int q = 1; q <= p; ++q) for (int i = 0; i + q + 1 < m; ++i) { double s = 0.; md a = knot(i), b = knot(i + q), c = knot(i + 1), d = knot(i + q + 1); if (a < b) s += (x - a) / double(b - a) * N[i]; if (c < d) s += (d - x) / double(d - c) * N[i + 1]; N[i] = s; }
    N.resize(dim()); return N; } };
template <class Op> Spline spline(int p, int M, int r, int comp, int dir) { bool v = LinearOperatorTraits<Op>::Form == DifferentialForm::DivConforming; return Spline{v && comp == dir ? p : v ? p - 1 : p, 1 << M, r}; }
template <class Op> const char *kind() { return LinearOperatorTraits<Op>::Form == DifferentialForm::Discontinuous ? "discontinuous" : LinearOperatorTraits<Op>::Form == DifferentialForm::Continuous ? "continuous" : "div-conforming"; }
template <class Op> using Elements = std::map<std::array<int, 3>, int>;
// row block of the element in column i and row j of a patch
template <class Op> Elements<Op> elements(const SuperSpace<Op> &s, int M) { Elements<Op> r; int k = 0; for (auto e = s.get_mesh().get_element_tree().cpbegin(); e != s.get_mesh().get_element_tree().cpend(); ++e, ++k) r[{(int)e->patch_, (int)std::lround(std::ldexp(vc::value(e->llc_(0)), M)), (int)std::lround(std::ldexp(vc::value(e->llc_(1)), M))}] = k; return r; }
static double local(const Vec &c, int off, int p, double x, double y) { double s = 0.; for (int j = 0; j <= p; ++j) for (int i = 0; i <= p; ++i) s += c(off + j * (p + 1) + i) * bern(p, i, x) * bern(p, j, y); return s; }
template <class Op> void projector(int g, int p, int r, int M) {
  vc::add(std::string("splines/") + kind<Op>() + "/" + gname(g) + S_("/", p) + S_("-", r) + S_("-", M), "Projector::init_Projector,projector_matrixmaker_::makeMatrix,makeLocalProjectionTriplets,MakeInterpolationMask,MakeUniformKnotVector,DeBoor,ShapeFunctionHandler::evalBasis", [=] {
    Geometry geo = gnamed(g); SuperSpace<Op> ss(geo, M, p); Projector<Op> pr(ss, r); const Eigen::SparseMatrix<double> P = pr.get_projection_matrix();
    int n = 1 << M, np = ss.get_number_of_patches(), q = (p + 1) * (p + 1), N = np * n * n; auto el = elements<Op>(ss, M);
    vc::eq_int("elements", el.size(), N); vc::eq_int("repetition", pr.get_knot_repetition(), r);
    int dims = 0; for (int c = 0; c < dim<Op>(); ++c) dims += np * spline<Op>(p, M, r, c, 0).dim() * spline<Op>(p, M, r, c, 1).dim();
    vc::eq_int("dimension", P.cols(), dims); vc::eq_int("dimension", pr.get_dofs_after_projector(), dims); vc::eq_int("local-dimension", P.rows(), dim<Op>() * N * q);
    Vec c = vin("c", dims), l = mul<double>(P, c, false); double x = vc::in("x", 0, 1), y = vc::in("y", 0, 1);
    int off = 0; for (int comp = 0; comp < dim<Op>(); ++comp) { Spline sx = spline<Op>(p, M, r, comp, 0), sy = spline<Op>(p, M, r, comp, 1); int d = sx.dim() * sy.dim();
      for (int a = 0; a < np; ++a, off += d) for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) {
        std::vector<double> bx = sx.at((i + x) / double(n), i), by = sy.at((j + y) / double(n), j); double s = 0.;
        for (int v = 0; v < sy.dim(); ++v) for (int u = 0; u < sx.dim(); ++u) s += c(off + v * sx.dim() + u) * bx[u] * by[v];
        vc::eq("splines", local(l, (comp * N + el[{a, i, j}]) * q, p, x, y), s, 1e-7); } }
  });
}
struct Side { int patch, edge; };
static void at_edge(int e, double t, double &x, double &y) { double o = double(1.), z = double(0.); x = e == 0 ? t : e == 1 ? o : e == 2 ? o - t : z; y = e == 0 ? z : e == 1 ? t : e == 2 ? o : o - t; }
// edges of the mesh by the end points: sides and whether the second side runs the other way
struct Edge { std::vector<Side> s; bool reversed = false; int from; };
static std::map<std::pair<int, int>, Edge> edges(const geo::Mesh &m) { std::map<std::pair<int, int>, Edge> r; for (int a = 0; a < (int)m.q.size(); ++a) for (int e = 0; e < 4; ++e) { int u = m.q[a][e], v = m.q[a][(e + 1) % 4]; Edge &x = r[{std::min(u, v), std::max(u, v)}]; if (x.s.empty()) x.from = u; else x.reversed = x.from != u; x.s.push_back({a, e}); } return r; }
template <class Op> void glue(const geo::Mesh &m, int p, int r, int M) {
  vc::add(std::string("glue/") + kind<Op>() + "/" + m.name + S_("/", p) + S_("-", r) + S_("-", M), "AnsatzSpace::init_AnsatzSpace,Glue::init_Glue,Glue::assembleGlueMatrix,glue_identificationmaker_::makeIdentification,getEdgeDofIndices,reverseParametrized,glueCoefficientDivergenceConforming,ElementTree::patchTopologyInfo,Projector::init_Projector", [=] {
    Geometry geo(geo::patches(m)); AnsatzSpace<Op> as(geo, M, p, r); const Eigen::SparseMatrix<double> T = as.get_transformation_matrix(); const SuperSpace<Op> &ss = as.get_superspace();
    constexpr int form = LinearOperatorTraits<Op>::Form; int n = 1 << M, np = m.q.size(), q = (p + 1) * (p + 1), N = np * n * n; auto el = elements<Op>(ss, M); auto ed = edges(m);
    // dimension: functions of patches, edges and corners
    int D = spline<Op>(p, M, r, 0, 0).dim(), S = spline<Op>(p, M, r, 0, 1).dim(), want = np * D * D; std::set<int> vs; for (auto &f : m.q) vs.insert(f.begin(), f.end());
    if (form == DifferentialForm::Continuous) want = vs.size() + ed.size() * (D - 2) + np * (D - 2) * (D - 2);
    if (form == DifferentialForm::DivConforming) want = ed.size() * S + np * 2 * (D - 2) * S;
    vc::eq_int("dimension", as.get_number_of_dofs(), want); vc::eq_int("local-dimension", T.rows(), dim<Op>() * N * q); vc::eq_int("columns", T.cols(), want);
    Projector<Op> pr(ss, r); Glue<Op> gl(ss, pr); const Eigen::SparseMatrix<double> P = pr.get_projection_matrix(), G = gl.get_glue_matrix();
    vc::eq_int("glue-rows", G.rows(), P.cols()); vc::eq_int("glue-columns", G.cols(), want);
    // every spline of a patch belongs to exactly one global function, with sign one or minus one: full column rank
    std::vector<int> row(G.rows(), 0), col(G.cols(), 0); for (int k = 0; k < G.outerSize(); ++k) for (Eigen::SparseMatrix<double>::InnerIterator it(G, k); it; ++it) { vc::prop("sign", form == DifferentialForm::DivConforming ? vc::any({vc::equ(it.value(), double(1.)), vc::equ(it.value(), double(-1.))}) : vc::equ(it.value(), double(1.))); ++row[it.row()]; ++col[it.col()]; }
    bool once = true, full = true; for (int k : row) once = once && k == 1; for (int k : col) full = full && k >= 1; vc::prop("every-spline-once", vc::tru(once)); vc::prop("full-column-rank", vc::tru(full));
    Vec c = vin("c", want), l = mul<double>(T, c, false), k = mul<double>(P, mul<double>(G, c, false), false); for (int i = 0; i < l.size(); ++i) vc::eq("transformation-is-projector-times-glue", l(i), k(i));
    if (form == DifferentialForm::Discontinuous) return;
    double t = vc::in("t", 0, 1);
    auto trace = [&](Side s, int seg, double tau) { int i = s.edge == 0 ? seg : s.edge == 1 ? n - 1 : s.edge == 2 ? n - 1 - seg : 0, j = s.edge == 0 ? 0 : s.edge == 1 ? seg : s.edge == 2 ? n - 1 : n - 1 - seg; double x, y; at_edge(s.edge, tau, x, y); int e = el[{s.patch, i, j}];
      if (form == DifferentialForm::Continuous) return local(l, e * q, p, x, y);
      // outward flux through the edge
      double f = s.edge % 2 ? local(l, e * q, p, x, y) : local(l, (N + e) * q, p, x, y); return s.edge == 0 || s.edge == 3 ? -f : f; };
    for (auto &x : ed) { const Edge &e = x.second; vc::eq_int("sides", e.s.size() <= 2, 1); if (e.s.size() < 2) continue;
      for (int seg = 0; seg < n; ++seg) { double u = trace(e.s[0], seg, t), v = e.reversed ? trace(e.s[1], n - 1 - seg, 1. - t) : trace(e.s[1], seg, t); if (form == DifferentialForm::Continuous) vc::eq("traces-agree", u, v, 1e-7); else vc::eq("fluxes-cancel", u, -v, 1e-7); } }
  });
}
// two neighbouring corners shared by five patches each
static geo::Mesh hubs(int seed) {
  geo::Mesh m; m.name = "hubs" + std::to_string(seed); md c[5] = {1, .3, -.8, -.8, .3}, s[5] = {0, .95, .6, -.6, -.95}; m.v.push_back({0, 0, 0}); for (int i = 0; i < 5; ++i) m.v.push_back({c[i], s[i], 0}); for (int i = 0; i < 5; ++i) m.v.push_back({c[i] + c[(i + 1) % 5], s[i] + s[(i + 1) % 5], .25 * i});
  for (int i = 0; i < 3; ++i) m.v.push_back({4, (md)i - 1, 1. + i}); for (int i = 0; i < 2; ++i) m.v.push_back({3, i - .5, .5});
  for (int i = 0; i < 5; ++i) m.q.push_back({0, 1 + i, 6 + i, 1 + (i + 1) % 5}); m.q.push_back({1, 14, 11, 6}); m.q.push_back({1, 15, 12, 14}); m.q.push_back({1, 10, 13, 15});
  unsigned x = seed; for (int i = 7; i > 0; --i) { x = x * 1103515245u + 12345u; std::swap(m.q[i], m.q[(x >> 16) % (i + 1)]); } for (auto &f : m.q) { x = x * 1103515245u + 12345u; f = geo::turn(f, x >> 16 & 3, false); }
  return m;
}
int main(int argc, char **argv) {
  for (int p = 0; p <= 4; ++p) for (int r = 1; r <= p + 1; ++r) for (int M = 0; M <= (p < 4 ? 2 : 1); ++M) { projector<OpD>(M < 2 ? 1 : 0, p, r, M); if (p && r <= p) projector<OpV>(M < 2 ? 1 : 0, p, r, M); if (p && r <= p && M < 2) projector<OpK>(0, p, r, M); }
  projector<OpD>(0, 2, 1, 3); projector<OpV>(0, 2, 1, 3); projector<OpD>(0, 5, 1, 0);
  auto all = [&](const geo::Mesh &m, int p, int r, int M) { glue<OpK>(m, p, r, M); glue<OpV>(m, p, r, M); };
  for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) { geo::Mesh m = geo::two(a, b, false, false); all(m, 2, 1, 1); if (a == b) all(m, 1, 1, 0), all(m, 3, 2, 1), all(m, 1, 1, 2); }
  for (int a = 0; a < 4; ++a) all(geo::two(a, (a + 1) % 4, true, true), 2, 2, 1);
  for (int code : {0, 1234, 777, 2050, 4095}) { all(geo::cube(code), 1, 1, 0); all(geo::cube(code), 2, 1, 1); }
  for (int r = 0; r < 4; ++r) { all(geo::star(r), 1, 1, 1); all(geo::star(r), 2, 1, 0); all(geo::sheet(3 * r + 1), 2, 1, 1); all(geo::cap(r, 3 - r), 2, 1, 1); }
  for (int s : {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 1968, 2004, 2027, 2751}) { glue<OpK>(hubs(s), 1, 1, 0); if (s % 4 == 0) all(hubs(s), 2, 1, 1); }
  all(geo::cube(1234), 2, 2, 2); all(geo::cube(777), 3, 1, 1); all(geo::two(2, 1, false, false), 4, 1, 1); all(geo::scaled(geo::cube(2050), 1e-3), 1, 1, 1); all(geo::scaled(geo::sheet(2), 1e3), 1, 1, 1);
  glue<OpD>(geo::cube(1234), 1, 2, 1); glue<OpD>(geo::two(1, 2, false, false), 2, 1, 1); glue<OpD>(geo::star(1), 0, 1, 1); all(geo::square(), 2, 1, 2);
  for (auto &m : {geo::grid(3, 2), geo::islands(2, false), geo::torus(3, 3), geo::fan(5)}) { all(m, 1, 1, 1); if (vc::native) { all(m, 2, 1, 2); all(m, 3, 3, 1); all(m, 5, 2, 1); } }
  for (int k = 4; k <= 9; ++k) for (int s = 0; s < (vc::native ? 40 : 4); ++s) glue<OpK>(geo::shuffled(geo::fan(k), s), 1, 1, 0);
  all(geo::shuffled(geo::torus(4, 3), 1), 1, 1, 1); all(geo::shuffled(geo::grid(4, 3), 2), 2, 1, 0);
  if (vc::native) {
    all(geo::grid(5, 5), 2, 2, 1); all(geo::torus(5, 4), 1, 1, 2); all(geo::fan(7), 4, 4, 1); all(geo::cube(2222), 4, 2, 2); all(geo::cube(3333), 1, 1, 4); all(geo::two(3, 1, true, true), 6, 1, 2); all(geo::two(2, 3, false, false), 2, 1, 4); all(geo::two(0, 1, false, false), 9, 1, 1);
    for (int p = 5; p <= 9; ++p) for (int r : {1, 2, p, p + 1}) for (int M = 0; M <= 2; ++M) { projector<OpD>(1, p, r, M); if (r <= p) { projector<OpV>(1, p, r, M); projector<OpK>(0, p, r, M); } }
    projector<OpD>(0, 2, 1, 5); projector<OpV>(0, 3, 2, 4); projector<OpK>(1, 1, 1, 5); projector<OpD>(2, 0, 1, 4); projector<OpD>(0, 14, 1, 1); projector<OpV>(4, 12, 3, 0); projector<OpV>(0, 14, 1, 1); projector<OpK>(0, 12, 12, 1); projector<OpV>(0, 11, 2, 1);
  }
  return vc::main_(argc, argv);
}
