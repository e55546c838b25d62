// P25: copies, moves and assignments behave like the original
#include "h2.hpp"
#include "fun.hpp"
#include <Bembel/LinearOperator>
#include <Bembel/Identity>
#include <Bembel/H2Matrix>
#include <Bembel/LinearForm>
#include <Bembel/Potential>
#include <Bembel/Laplace>
#include <optional>
typedef std::vector<double> Print;  // everything a user can observe of an object, at arbitrary points
struct Point { double x, y; Point() : x(vc::in("x", .05, .45)), y(vc::in("y", .05, .45)) {} };
static std::shared_ptr<Point> at;
template <class T> static void add(Print &p, const T &m) { p.push_back(double((int)m.rows())); p.push_back(double((int)m.cols())); for (int j = 0; j < m.cols(); ++j) for (int i = 0; i < m.rows(); ++i) p.push_back(m(i, j)); }
static void add(Print &p, const Print &q) { p.insert(p.end(), q.begin(), q.end()); }
static Print print(const Patch &q) {
  Print r = {double(q.polynomial_degree_x_), double(q.polynomial_degree_y_)}; add(r, q.unique_knots_x_); add(r, q.unique_knots_y_); add(r, q.data_); add(r, q.eval(at->x, at->y)); add(r, q.evalJacobian(Eigen::Vector2d(at->x, at->y))); return r; }
static PatchVector pv(int k) { switch (k & 3) { case 0: return geo::patches(geo::square()); case 1: return gcurved().get_geometry(); case 2: return geo::patches(geo::star(1)); default: return geo::patches(geo::two(2, 1, false, false)); } }
static Geometry &gm(int k) { static std::map<int, std::shared_ptr<Geometry>> m; auto &g = m[k]; if (!g) g = std::make_shared<Geometry>(pv(k)); return *g; }
// kinds of objects: set up from a number, observe, modify
struct KPatch { typedef Patch T; static void init(T &o, int k) { if (k & 1) { auto g = gcurved(); o = g.get_geometry()[0]; } else { std::vector<Eigen::MatrixXd> c; for (int i = 0; i < 4; ++i) c.push_back(min_(S_("c", i), 2, 3)); std::vector<double> kx = {0., 0., .5, 1., 1.}, ky = {0., 0., 1., 1.}; o.init_Patch(c, kx, ky); } }
  static Print obs(const T &o) { return print(o); } static void modify(T &o) { for (auto &v : o.data_) v = v * 3. + 1.; } };
struct KGeometry { typedef Geometry T; static void init(T &o, int k) { o = Geometry(pv(k)); }
  static Print obs(const T &o) { Print r = {double((int)o.get_geometry().size())}; for (auto &q : o.get_geometry()) add(r, print(q)); return r; }
  static void modify(T &o) { for (auto &q : o.get_geometry()) for (size_t i = 0; i < q.data_.size(); ++i) q.data_[i] = q.data_[i] + double((int)i % 5); } };
template <class Op> static Print space(const SuperSpace<Op> &s) {
  Print r = {double(s.get_polynomial_degree()), double(s.get_polynomial_degree_plus_one_squared()), double(s.get_refinement_level()), double(s.get_number_of_elements()), double(s.get_number_of_patches())}; int n = s.get_polynomial_degree_plus_one_squared();
  Eigen::Vector2d x(at->x, at->y); SurfacePoint q; auto &et = s.get_mesh().get_element_tree(); for (auto e = et.cpbegin(); e != et.cpend(); ++e) { s.map2surface(*e, x, double(.5), &q); add(r, q); }
  DM<Sca<Op>> b = s.basis(x), dx = s.basisDx(x), dy = s.basisDy(x); DM<Sca<Op>> i1 = DM<Sca<Op>>::Constant(n, n, Sca<Op>(double(0.))), i2 = i1; DV<Sca<Op>> l = DV<Sca<Op>>::Constant(n, Sca<Op>(double(0.)));
  s.addScaledBasis(&l, Sca<Op>(double(2.)), x); s.addScaledBasisInteraction(&i1, Sca<Op>(double(2.)), x, Eigen::Vector2d(at->y, at->x)); s.addScaledSurfaceGradientInteraction(&i2, Sca<Op>(double(1.)), q, q); add(r, b); add(r, dx); add(r, dy); add(r, l); add(r, i1); add(r, i2); return r; }
struct KSuper { typedef SuperSpace<OpD> T; static void init(T &o, int k) { o.init_SuperSpace(gm(k), k & 1, 2 - (k & 1)); } static Print obs(const T &o) { return space(o); } static void modify(T &o) { o.init_SuperSpace(gm(3), 0, 1); } };
template <class Op> struct KAnsatz { typedef AnsatzSpace<Op> T; static void init(T &o, int k) { if (k & 1) o = T(gm(k), 1, 2, 2); else o.init_AnsatzSpace(gm(k), 1, 1, 1); }
  static Print obs(const T &o) { Print r = space(o.get_superspace()); add(r, {double(o.get_knot_repetition()), double(o.get_refinement_level()), double(o.get_polynomial_degree()), double(o.get_number_of_elements()), double(o.get_number_of_patches()), double(o.get_number_of_dofs())}); add(r, Eigen::MatrixXd(o.get_transformation_matrix())); return r; }
  static void modify(T &o) { o.init_AnsatzSpace(gm(3), 0, 3, 1); } };
template <class Op> static AnsatzSpace<Op> &sp(int k, int M = 1) { static std::map<std::pair<int, int>, std::shared_ptr<AnsatzSpace<Op>>> m; auto &s = m[{k, M}]; if (!s) s = std::make_shared<AnsatzSpace<Op>>(gm(k), M, 1 + (k & 1), 1); return *s; }
static Vec fun(int n, int k) { Vec c(n); for (int i = 0; i < n; ++i) c(i) = double(k + 1) + double(i * i % 7); return c; }
template <class Op> struct KFunction { typedef FunctionEvaluator<Op> T; static void init(T &o, int k) { auto &s = sp<Op>(k); if (k & 1) { o = T(s); o.set_function(fun(s.get_number_of_dofs(), k)); } else o.init_FunctionEvaluator(s, fun(s.get_number_of_dofs(), k)); }
  static Print obs(const T &o) { Print r; for (int p : {0}) { add(r, o.evaluateOnPatch(p, Eigen::Vector2d(double(.25), double(.75)))); add(r, o.evaluateOnPatch(p, Eigen::Vector2d(double(.5), double(.125)))); } return r; }
  static void modify(T &o) { auto &s = sp<Op>(2, 0); o.init_FunctionEvaluator(s, fun(s.get_number_of_dofs(), 5)); } };
struct KForm { typedef DiscreteLinearForm<DirichletTrace<double>, OpK> T; static void init(T &o, int k) { auto &s = sp<OpK>(k, 0); if (k & 1) o = T(s); else o.init_DiscreteLinearForm(s); double f = double(k + 2); o.get_linear_form().set_function([f](const Eigen::Vector3d &x) { return f + x(0); }); o.set_degree(k & 1); o.compute(); }
  static Print obs(const T &o) { T c(o); Print r; add(r, o.get_discrete_linear_form()); c.compute(); add(r, c.get_discrete_linear_form()); return r; } static void modify(T &o) { o.get_linear_form().set_function([](const Eigen::Vector3d &x) { return x(1); }); o.compute(); } };
struct KPotential { typedef DiscretePotential<LaplaceSingleLayerPotential<LaplaceSingleLayerOperator>, LaplaceSingleLayerOperator> T; static void init(T &o, int k) { auto &s = sp<LaplaceSingleLayerOperator>(k, 0); if (k & 1) o = T(s); else o.init_DiscretePotential(s); o.set_cauchy_data(fun(s.get_number_of_dofs(), k)); o.set_degree(2); }
  static Print obs(const T &o) { T c(o); Print r; Eigen::Matrix<double, -1, 3> x(1, 3); x << double(1.), double(2.), double(9.); add(r, c.evaluate(x)); return r; } static void modify(T &o) { auto &s = sp<LaplaceSingleLayerOperator>(2, 0); o.init_DiscretePotential(s); o.set_cauchy_data(fun(s.get_number_of_dofs(), 4)); } };
// discrete operators: the assembled matrix, and what a copy assembles
typedef Far<double, DifferentialForm::Discontinuous, 1> Kern;
struct KDense { typedef DiscreteOperator<Eigen::MatrixXd, Kern> T;
  static void kernel(T &o, int k) { o.get_linear_operator().pair = [k](const ElementTreeNode &a, const ElementTreeNode &b, const ElementSurfacePoints &, const ElementSurfacePoints &, Eigen::MatrixXd *m) { for (int j = 0; j < m->cols(); ++j) for (int i = 0; i < m->rows(); ++i) (*m)(i, j) = double(k + 1 + 7 * a.id_ + 31 * b.id_ + 3 * i + 5 * j); }; }
  static void init(T &o, int k) { auto &s = sp<Kern>(k, 1 - (k & 1)); if (k & 1) o = T(s); else o.init_DiscreteOperator(s); kernel(o, k); o.compute(); }
  static Print obs(const T &o) { T c(o); Print r; add(r, o.get_discrete_operator()); c.compute(); add(r, c.get_discrete_operator()); return r; } static void modify(T &o) { kernel(o, 11); o.compute(); } };
struct KLocal { typedef DiscreteLocalOperator<MassMatrixScalarDisc> T;
  static void init(T &o, int k) { auto &s = sp<MassMatrixScalarDisc>(k, 0); if (k & 1) o = T(s); else o.init_DiscreteOperator(s); o.compute(); }
  static Print obs(const T &o) { T c(o); Print r; add(r, Eigen::MatrixXd(o.get_discrete_operator())); c.compute(); add(r, Eigen::MatrixXd(c.get_discrete_operator())); return r; } static void modify(T &o) { o.init_DiscreteOperator(sp<MassMatrixScalarDisc>(2, 0)); o.compute(); } };
typedef TreeLeaf<Eigen::MatrixXd> Leaf; typedef BlockClusterTree<double> BCT;
struct KLeaf { typedef Leaf T; static void init(T &o, int k) { if (k & 1) { o = T(Eigen::MatrixXd(min_("l", 2, 1)), Eigen::MatrixXd(min_("r", 1, 2))); } else o = T(Eigen::MatrixXd(min_("f", 2, 2))); }
  static Print obs(const T &o) { Print r; add(r, o.get_F()); add(r, o.get_L()); add(r, const_cast<T &>(o).get_R()); r.push_back(double(const_cast<T &>(o).is_low_rank())); return r; } static void modify(T &o) { o.set_F(min_("g", 1, 2)); o.set_L(min_("h", 1, 1)); o.set_R(min_("i", 3, 1)); o.set_low_rank_flag(!o.is_low_rank()); } };
struct KMatrix { typedef GenericMatrix<Leaf> T; static void init(T &o, int k) { o = k & 1 ? T(2, 1) : T(); if (!(k & 1)) o.resize(1, 3); for (int j = 0; j < o.cols(); ++j) for (int i = 0; i < o.rows(); ++i) o(i, j) = Leaf(Eigen::MatrixXd(min_(S_("m", i, j), 1, 2))); }
  static Print obs(const T &o) { Print r = {double((int)o.rows()), double((int)o.cols())}; for (int j = 0; j < o.cols(); ++j) for (int i = 0; i < o.rows(); ++i) add(r, KLeaf::obs(o(i, j))); return r; } static void modify(T &o) { o.resize(3, 2); o(2, 1).set_F(min_("n", 1, 1)); o(0, 0).set_F(min_("n", 2, 1)); } };
struct Lin { int get_FarfieldQuadratureDegree(int p) const { return p + 1; } };
struct KBlocks { typedef BCT T;
  static const AnsatzSpace<OpD> &as(int k) { static std::map<int, std::shared_ptr<AnsatzSpace<OpD>>> m; auto &s = m[k & 3]; if (!s) s = std::make_shared<AnsatzSpace<OpD>>(gm(k), 1, 0); return *s; }
  static void init(T &o, int k) { if (k & 1) o = T(Lin(), as(k)); else { T t; t.set_parameters(double(2.), 0); t.init_BlockClusterTree(Lin(), as(k)); o = t; } int i = 0; for (auto l = o.lbegin(); l != o.lend(); ++l) (*l)->get_leaf().set_F(Eigen::MatrixXd::Constant(1, 1, double(k * 1000 + i++))); }
  static Print obs(const T &c) { T &o = const_cast<T &>(c); Print r = {double(o.rows()), double(o.cols()), double(o.get_cc()), double(o.get_level()), double(o.get_parameters().max_level_), o.get_parameters().eta_, double((int)std::distance(o.clbegin(), o.clend()))};
    for (auto l = o.lbegin(); l != o.lend(); ++l) { add(r, {double((*l)->get_cc()), double((*l)->rows()), double((*l)->cols()), double((*l)->get_level()), double((*l)->get_row_start_index()), double((*l)->get_row_end_index()), double((*l)->get_col_start_index()), double((*l)->get_col_end_index()), double((*l)->get_cluster1()->id_), double((*l)->get_cluster2()->id_)}); add(r, KLeaf::obs((*l)->get_leaf())); } return r; }
  static void modify(T &o) { int i = 0; for (auto l = o.lbegin(); l != o.lend(); ++l) (*l)->get_leaf().set_F(Eigen::MatrixXd::Constant(1, 2, double(-(i++)))); } };
// an object's meaning: how it was set up (-1: not yet or moved from), and whether it was modified since
struct Meaning { int setup = -1; bool modified = false, moved = false; };  // from a moved object nothing but assigning to it or destroying it is expected
template <class K> struct Machine {
  typedef typename K::T T; struct Slot { std::unique_ptr<T> o; Meaning m; }; std::vector<Slot> s; std::map<int, Print> expected; std::string log;
  Machine() { for (int k : {0, 1, 2}) for (int m = 0; m < 2; ++m) { T o; K::init(o, k); if (m) K::modify(o); expected[2 * k + m] = K::obs(o); } }
  void reset() { s.clear(); s.resize(3); log.clear(); for (int i = 0; i < 3; ++i) { s[i].o = std::make_unique<T>(); if (i < 2) { K::init(*s[i].o, i); s[i].m.setup = i; } } }
  static const int ops = 11;
  // false: the operation does not apply
  bool apply(int op, int a, int b) {
    Slot &x = s[a], &y = s[b]; if (a == b && op < 5) return false; if (a != b && op >= 5 && op != 10) return false; if (a >= b && op == 10) return false; if (x.m.moved && op != 6 && op != 8) return false; if (op == 10 && y.m.moved) return false; const char *n[] = {"copy", "move", "assign", "move-assign", "assign-temporary", "assign-self", "set-up", "modify", "recreate", "through-vector", "swap"};
    log += std::string(" ") + n[op] + std::to_string(a) + std::to_string(b);
    switch (op) {
      case 0: y.o = std::make_unique<T>(*x.o); y.m = x.m; break;
      case 1: y.o = std::make_unique<T>(std::move(*x.o)); y.m = x.m; x.m.setup = -1; x.m.moved = true; break;
      case 2: *y.o = *x.o; y.m = x.m; break;
      case 3: *y.o = std::move(*x.o); y.m = x.m; x.m.setup = -1; x.m.moved = true; break;
      case 4: { T t(*x.o); *y.o = T(t); y.m = x.m; } break;
      case 5: { T &r = *x.o; *x.o = r; } break;
      case 6: K::init(*x.o, 2); x.m = Meaning(); x.m.setup = 2; break;
      case 7: if (x.m.setup < 0 || x.m.modified) return false; K::modify(*x.o); x.m.modified = true; break;
      case 8: x.o.reset(); x.o = std::make_unique<T>(); x.m = Meaning(); break;
      case 9: { std::vector<T> v; for (int i = 0; i < 3; ++i) v.push_back(*x.o); v.resize(5); v.erase(v.begin()); *x.o = v[1]; } break;
      case 10: { T t(std::move(*x.o)); *x.o = std::move(*y.o); *y.o = std::move(t); std::swap(x.m, y.m); } break;
    }
    return true;
  }
  static bool same(const Print &a, const Print &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (vc::value(a[i]) != vc::value(b[i])) return false; return true; }
  void verify(bool symbolic) {
    for (int i = 0; i < 3; ++i) if (s[i].m.setup >= 0) { Print p = K::obs(*s[i].o), &e = expected[2 * s[i].m.setup + s[i].m.modified];
      if (!symbolic) { vc::check(same(p, e) ? "object-as-expected" : "object-as-expected after" + log, same(p, e)); continue; }
      vc::check("size", p.size() == e.size()); for (size_t j = 0; j < p.size() && j < e.size(); ++j) vc::eq("object-as-expected", p[j], e[j]); }
  }
};
// every history of the given length; the first operation is of kind part
template <class K> static void histories(const std::string &nm, const std::string &targets, int len, int part) {
  vc::add(nm + "/" + S_("length", len) + S_("/", part), targets, [=] {
    bool symbolic = len == 1; at = std::make_shared<Point>(); if (!symbolic) { at->x = double(.25); at->y = double(.625); }
    Machine<K> m; std::vector<std::array<int, 3>> all; for (int o = 0; o < m.ops; ++o) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) all.push_back({o, a, b});
    std::vector<int> i(len, 0); size_t N = all.size(), total = 1; for (int k = 0; k < len; ++k) total *= N;
    for (size_t h = 0; h < total; ++h) { size_t r = h; bool ok = true; if (part >= 0 && all[h % N][0] != part) continue; m.reset(); for (int k = 0; k < len && ok; ++k) { auto &o = all[r % N]; r /= N; ok = m.apply(o[0], o[1], o[2]); } if (ok) m.verify(symbolic); }
    at.reset();
  }, 1);
}
template <class K> static void kind(const std::string &nm, const std::string &targets, int len, int symbolic) { histories<K>(nm, targets, 1, -1); for (int l = 2; l <= (vc::native ? len : symbolic); ++l) for (int o = 0; o < Machine<K>::ops; ++o) histories<K>(nm, targets, l, o); }
int main(int argc, char **argv) {
  kind<KPatch>("patch", "Patch copy, move and assignment; Patch::init_Patch", 2, 2);
  kind<KGeometry>("geometry", "Geometry::Geometry,operator=,get_geometry", 2, 2);
  kind<KSuper>("superspace", "SuperSpace::SuperSpace,operator=,init_SuperSpace", 2, 1);
  kind<KAnsatz<OpK>>("ansatz/continuous", "AnsatzSpace::AnsatzSpace,operator=,init_AnsatzSpace", 2, 1);
  kind<KAnsatz<OpD>>("ansatz/discontinuous", "AnsatzSpace::AnsatzSpace,operator=,init_AnsatzSpace", 2, 1);
  kind<KFunction<OpK>>("function", "FunctionEvaluator::FunctionEvaluator,operator=,init_FunctionEvaluator,set_function", 2, 1);
  kind<KForm>("linear-form", "DiscreteLinearForm copy, move and assignment", 1, 1);
  kind<KPotential>("potential", "DiscretePotential copy, move and assignment", 2, 1);
  kind<KDense>("operator/dense", "DiscreteOperator copy, move and assignment; DiscreteOperator::init_DiscreteOperator", 1, 1);
  kind<KLocal>("operator/local", "DiscreteOperator copy, move and assignment; DiscreteOperator::init_DiscreteOperator", 1, 1);
  kind<KLeaf>("leaf", "TreeLeaf::TreeLeaf,operator=", 2, 2);
  kind<KMatrix>("matrix", "GenericMatrix::GenericMatrix,operator=,resize", 2, 2);
  kind<KBlocks>("blocks", "BlockClusterTree::BlockClusterTree,operator=,updateLeafPointers; GenericMatrix; TreeLeaf", 2, 1);
  return vc::main_(argc, argv);
}
