// P11: block cluster tree
#include "spaces.hpp"
#include <Bembel/H2Matrix>
struct Lin { int get_FarfieldQuadratureDegree(int p) const { return p + 1; } };
struct Super { const ClusterTree *ct; int p; const ClusterTree &get_mesh() const { return *ct; } int get_polynomial_degree() const { return p; } };
struct Space { Super s; const Super &get_superspace() const { return s; } };
typedef BlockClusterTree<double> BCT;
struct Clusters {  // every cluster by (level, id), with its parent and the ids of its elements
  std::map<std::pair<int, int>, const ElementTreeNode *> at; std::map<const ElementTreeNode *, const ElementTreeNode *> parent; std::map<const ElementTreeNode *, std::vector<int>> ids;
  std::vector<int> walk(const ElementTreeNode *e, const ElementTreeNode *p) { parent[e] = p; std::vector<int> v; if (e->sons_.empty()) v.push_back(e->id_); for (auto &s : e->sons_) { auto w = walk(&s, e); v.insert(v.end(), w.begin(), w.end()); } ids[e] = v; return v; }
};
static void leaves(const std::string &tag, BCT &b, Clusters &cl, int M, int mn, double eta, int p, int N) {
  std::vector<int> hits(N * N, 0); std::set<std::pair<const ElementTreeNode *, const ElementTreeNode *>> split; std::set<const void *> store; int n2 = (p + 1) * (p + 1);
  auto compressible = [&](const ElementTreeNode *x, const ElementTreeNode *y, bool is) {
    double d = norm3(x->midpoint_ - y->midpoint_) - x->radius_ - y->radius_;
    if (is) vc::prop(tag + ".compressed-only-if-distant", vc::all({vc::le(x->radius_, eta * d), vc::le(y->radius_, eta * d)}));
    else vc::prop(tag + ".distant-clusters-are-compressed", vc::any({vc::le(eta * d, x->radius_), vc::le(eta * d, y->radius_)}));
  };
  bool known = true, levels = true, once = true, ranges = true, sizes = true;
  for (auto it = b.lbegin(); it != b.lend(); ++it) {
    const ElementTreeNode *x = (*it)->get_cluster1(), *y = (*it)->get_cluster2();
    if (!cl.ids.count(x) || !cl.ids.count(y)) { known = false; continue; }
    auto &r = cl.ids[x]; auto &c = cl.ids[y]; int lev = x->level_;
    for (int i : r) for (int j : c) hits[i * N + j]++;
    levels = levels && x->level_ == y->level_ && (*it)->get_level() == lev;
    sizes = sizes && (*it)->rows() == (int)r.size() && (*it)->cols() == (int)c.size();
    auto first = [](const std::vector<int> &v) { return *std::min_element(v.begin(), v.end()); }; auto last = [](const std::vector<int> &v) { return *std::max_element(v.begin(), v.end()) + 1; };
    ranges = ranges && (*it)->get_row_start_index() == n2 * first(r) && (*it)->get_row_end_index() == n2 * last(r) && (*it)->get_col_start_index() == n2 * first(c) && (*it)->get_col_end_index() == n2 * last(c) && last(r) - first(r) == (int)r.size() && last(c) - first(c) == (int)c.size();
    int cc = (*it)->get_cc(); vc::check(tag + ".kind-of-leaf", cc == BlockClusterAdmissibility::LowRank || cc == BlockClusterAdmissibility::Dense);
    if (cc == BlockClusterAdmissibility::Dense) vc::check(tag + ".dense-only-on-the-finest-clusters", M - lev <= mn);
    compressible(x, y, cc == BlockClusterAdmissibility::LowRank);
    store.insert(&(*it)->get_leaf());
    for (auto u = cl.parent[x], v = cl.parent[y]; u && v; u = cl.parent[u], v = cl.parent[v]) split.insert({u, v});
  }
  for (int h : hits) once = once && h == 1;
  vc::check(tag + ".clusters-of-the-mesh", known); vc::check(tag + ".every-pair-in-exactly-one-leaf", once); vc::check(tag + ".same-level", levels); vc::check(tag + ".size", sizes); vc::check(tag + ".index-range", ranges);
  vc::check(tag + ".own-storage", (int)store.size() == std::distance(b.lbegin(), b.lend()));
  for (auto &s : split) { compressible(s.first, s.second, false); vc::check(tag + ".split-above-the-finest-clusters", M - s.first->level_ > mn); }
}
// the balls are inputs here (P08 decides them): use their machine values
static void rounded(Clusters &cl) { for (auto &c : cl.ids) if (c.first->level_ >= 0) { ElementTreeNode *e = const_cast<ElementTreeNode *>(c.first); for (int i = 0; i < 3; ++i) e->midpoint_(i) = double(vc::value(e->midpoint_(i))); e->radius_ = double(vc::value(e->radius_)); } }
static void root(const std::string &tag, BCT &b, const ElementTree &et, int p) {
  int N = et.get_number_of_elements(); vc::check(tag + ".root", b.get_cluster1() == &et.root() && b.get_cluster2() == &et.root() && b.rows() == N && b.cols() == N && b.get_row_start_index() == 0 && b.get_row_end_index() == N * (p + 1) * (p + 1) && b.get_col_start_index() == 0 && b.get_col_end_index() == N * (p + 1) * (p + 1));
}
// mesh, level, minimal cluster level; symbolic: which two clusters of level sl get an arbitrary ball
static void partition(const geo::Mesh &mesh, int M, int mn, int kind, int p, int sl = -1, bool full = true) {
  vc::add("partition/" + mesh.name + S_("/M", M) + S_("min", mn) + S_("k", kind) + (sl >= 0 ? S_("s", sl) + (full ? "" : "radius") : ""), "BlockClusterTree::init_BlockClusterTree,appendSubtree,compareCluster,updateLeafPointers,set_parameters,get_row_start_index,get_row_end_index,get_col_start_index,get_col_end_index; BlockClusterTree copies", [=] {
    Geometry g(geo::patches(mesh)); ClusterTree ct(g, M); const ElementTree &et = ct.get_element_tree(); Space as{{&ct, p}}; Lin lin;
    Clusters cl; cl.walk(&et.root(), nullptr); rounded(cl);
    if (sl >= 0) {
      std::vector<const ElementTreeNode *> v; for (auto &c : cl.ids) if (c.first->level_ == sl) v.push_back(c.first);
      std::sort(v.begin(), v.end(), [](const ElementTreeNode *a, const ElementTreeNode *b) { return a->id_ < b->id_; });
      int a = vc::choose("a", 0, (int)v.size() - 2), b = vc::choose("b", 1, (int)v.size() - 1); vc::require(vc::tru(a < b));
      for (int k : {a, b}) if (full || k == a) { ElementTreeNode *e = const_cast<ElementTreeNode *>(v[k]); if (full) e->midpoint_ = v3(S_("m", k), -2, 2); e->radius_ = vc::in(S_("r", k), 0, 1); vc::require(vc::lt(.001, e->radius_)); }
    }
    double eta = kind == 0 ? double(1.6) : kind == 1 ? double(.5) : kind == 2 ? double(20.) : vc::in("eta", 0, 3);
    if (kind == 3) vc::require(vc::lt(.01, eta));
    BCT b; b.set_parameters(eta, mn); b.init_BlockClusterTree(lin, as); int N = et.get_number_of_elements();
    vc::eq("eta", b.get_parameters().eta_, eta); vc::eq_int("min-cluster-level", b.get_parameters().min_cluster_level_, mn); vc::eq_int("max-level", b.get_parameters().max_level_, M);
    leaves("tree", b, cl, M, mn, eta, p, N); root("tree", b, et, p);
    if (sl >= 0) return;
    { BCT c(b); leaves("copy", c, cl, M, mn, eta, p, N); root("copy", c, et, p);
      bool own = true; for (auto i = b.lbegin(), j = c.lbegin(); i != b.lend() && j != c.lend(); ++i, ++j) own = own && *i != *j && &(*i)->get_leaf() != &(*j)->get_leaf(); vc::check("copy.independent", own);
      BCT d; d.set_parameters(); d.init_BlockClusterTree(lin, as); d = c; leaves("assigned", d, cl, M, mn, eta, p, N); leaves("source", c, cl, M, mn, eta, p, N);
      BCT e(std::move(d)); leaves("moved", e, cl, M, mn, eta, p, N); root("moved", e, et, p); }
    leaves("original", b, cl, M, mn, eta, p, N);
  }, sl >= 0 ? 40 : 1);
}
static void defaults() {
  vc::add("defaults", "BlockClusterTree::set_parameters,BlockClusterTree(linear_operator, ansatz_space)", [] {
    Geometry g(geo::patches(geo::cube(5))); ClusterTree ct(g, 2); Space as{{&ct, 1}}; Lin lin; BCT b(lin, as); Clusters cl; cl.walk(&ct.get_element_tree().root(), nullptr); rounded(cl);
    leaves("default", b, cl, 2, b.get_parameters().min_cluster_level_, b.get_parameters().eta_, 1, 96); vc::eq_int("polynomial-degree", b.get_parameters().polynomial_degree_, 1); vc::eq_int("far-field-degree", b.get_parameters().ffield_deg_, 2);
    // leaf data
    Eigen::Matrix<double, -1, -1> F(2, 3); for (int i = 0; i < 6; ++i) F(i % 2, i / 2) = vc::in(S_("F", i), -1, 1);
    (*b.lbegin())->get_leaf().set_F(F); (*b.lbegin())->get_leaf().set_low_rank_flag(true); BCT c(b);
    Eigen::Matrix<double, -1, -1> Z = F; Z.setConstant(double(0.)); (*b.lbegin())->get_leaf().set_F(Z); (*b.lbegin())->get_leaf().set_low_rank_flag(false);
    vc::eqm("copied-leaf", (*c.lbegin())->get_leaf().get_F(), F); vc::check("copied-flag", (*c.lbegin())->get_leaf().is_low_rank()); vc::eqm("changed-leaf", (*b.lbegin())->get_leaf().get_F(), Z); vc::check("changed-flag", !(*b.lbegin())->get_leaf().is_low_rank());
  });
}
int main(int argc, char **argv) {
  geo::Mesh two = geo::two(1, 2, false, false), sq = geo::square(), star = geo::star(1);
  for (int M = 0; M < 4; ++M) for (int mn = 0; mn < 4; ++mn) for (int k = 0; k < 3; ++k) { if (M < 3) partition(two, M, mn, k, k); partition(sq, M, mn, k, 1); }
  for (int k = 0; k < 3; ++k) { partition(geo::cube(1234), 2, 1, k, 0); partition(geo::cube(77), 1, 0, k, 2); partition(star, 2, k % 2, k, 1); partition(geo::sheet(3), 1, 1, k, 0); partition(geo::sheet(7), 2, 0, k, 0); partition(geo::scaled(geo::cube(9), 1000.), 2, 1, k, 0); partition(geo::scaled(geo::cube(9), .001), 2, 1, k, 0); }
  for (auto &m : {geo::grid(3, 2), geo::islands(1), geo::torus(3, 3), geo::fan(5)}) for (int k = 0; k < 3; ++k) { partition(m, 1, k % 2, k, 1); if (vc::native) { partition(m, 2, 1, k, 0); partition(m, 3, k, k, 0); } }
  if (vc::native) for (int k = 0; k < 3; ++k) { partition(sq, 4, k, k, 0); partition(sq, 5, 3 - k, k, 1); partition(two, 4, 1 + k, k, 0); partition(geo::cube(3210), 3, k, k, 0); }
  // arbitrary balls and parameters
  for (int mn = 0; mn < 2; ++mn) { partition(two, 0, mn, 3, 0, 0); partition(two, 1, 1, mn ? 3 : 0, 0, 0); partition(star, 1, 1, mn, 0, 0, false); partition(geo::cube(5), 1, 1, mn, 0, 0, false); partition(two, 1, mn, 0, 0, 0, false); partition(sq, 1, 0, mn, 0, 1, false); partition(sq, 2, 1, mn, 0, 1, false); partition(sq, 2, 0, mn, 0, 1, false); }
  defaults();
  return vc::main_(argc, argv);
}
