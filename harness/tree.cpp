// P07: element tree, neighbourhood, numbering
#include "geoms.hpp"
#include <Bembel/ClusterTree>
using namespace Bembel;
typedef std::array<long, 3> Key;
static const md CX[4] = {0, 1, 1, 0}, CY[4] = {0, 0, 1, 1};
static Key corner(const PatchVector &g, const ElementTreeNode &e, int j) { double h = 1. / (1 << e.level_); return geo::key(g[e.patch_].eval(Eigen::Vector2d(e.llc_(0) + h * CX[j], e.llc_(1) + h * CY[j]))); }
static Key mid(const PatchVector &g, const ElementTreeNode &e, int j) { double h = 1. / (1 << e.level_); return geo::key(g[e.patch_].eval(Eigen::Vector2d(e.llc_(0) + h * (CX[j] + CX[(j + 1) % 4]) / 2., e.llc_(1) + h * (CY[j] + CY[(j + 1) % 4]) / 2.))); }
typedef std::array<Key, 3> EdgeKey;
static EdgeKey edge(const PatchVector &g, const ElementTreeNode &e, int j) { Key a = corner(g, e, j), b = corner(g, e, (j + 1) % 4); if (b < a) std::swap(a, b); return {a, b, mid(g, e, j)}; }

static void walk(const ElementTree &t, const ElementTreeNode &n, int M, const std::vector<const ElementTreeNode *> &leaves, int per) {
  // leaves below n form the contiguous range of its id
  int l = n.level_, w = 1 << 2 * (M - l), first = n.id_ * w;
  vc::check("cluster.range", first + w <= (int)leaves.size() && n.cbegin().operator->() == leaves[first] && (first + w == (int)leaves.size() ? n.cend().operator->() == nullptr : n.cend().operator->() == leaves[first + w]));
  { auto b = t.cluster_begin(n), c = b; auto d = c++; vc::check("cluster.iterators", n.begin() == n.cbegin() && n.end() == n.cend() && t.cluster_begin(n) == n.cbegin() && t.cluster_end(n) == n.cend() && d == b && &*c == b->next_ && ++b == c && !(b != c)); }
  vc::check("cluster.front-back", &n.front() == leaves[first] && &n.back() == leaves[first + w - 1]);
  vc::eq_int("cluster.level", n.get_level(), l);
  if (l == M) { vc::check("leaf.no-sons", n.sons_.empty()); return; }
  vc::eq_int("four-sons", n.sons_.size(), 4);
  if (n.sons_.size() != 4) return;
  std::set<std::pair<long, long>> pos;
  for (int i = 0; i < 4; ++i) {
    auto &s = n.sons_[i];
    vc::eq_int("son.level", s.level_, l + 1); vc::eq_int("son.patch", s.patch_, n.patch_); vc::eq_int("son.id", s.id_, 4 * n.id_ + i);
    md h = std::ldexp(1., -l - 1), dx = (vc::value(s.llc_(0)) - vc::value(n.llc_(0))) / h, dy = (vc::value(s.llc_(1)) - vc::value(n.llc_(1))) / h;
    vc::check("son.quarter", (dx == 0 || dx == 1) && (dy == 0 || dy == 1));
    pos.insert({(long)dx, (long)dy});
    walk(t, s, M, leaves, per);
  }
  vc::eq_int("sons-tile", pos.size(), 4);
}
static void contract(const PatchVector &pv, int M, bool incremental) {
  Geometry g(pv);
  ElementTree t;
  if (incremental) { t.init_ElementTree(g, 0); for (int i = 0; i < M; ++i) { if (i & 1) t.refineUniformly(); else for (int p = 0; p < (int)pv.size(); ++p) t.refinePatch((p * (pv.size() % 5 ? 5 : 7) + 1) % pv.size()); } }
  else t.init_ElementTree(g, M);
  const int np = pv.size(), per = 1 << 2 * M, n1 = 1 << M, N = np * per;
  vc::eq_int("number_of_elements", t.get_number_of_elements(), N);
  vc::eq_int("max_level", t.get_max_level(), M);
  std::vector<const ElementTreeNode *> lv;
  for (auto it = t.pbegin(); it != t.pend(); ++it) { lv.push_back(it.operator->()); if ((int)lv.size() > N) break; }
  vc::eq_int("iterated", lv.size(), N);
  vc::check("iterators", t.cpbegin() == t.pbegin() && t.cpend() == t.pend());
  if ((int)lv.size() != N) return;
  // ids, patches, tiling
  std::map<std::array<long, 3>, int> at;
  md h = std::ldexp(1., -M);
  for (int i = 0; i < N; ++i) {
    auto &e = *lv[i];
    vc::eq_int("id-in-order", e.id_, i); vc::eq_int("patch", e.patch_, i / per); vc::eq_int("level", e.get_level(), M);
    vc::eq("h", e.get_h(), double(h));
    long ix = std::lround(vc::value(e.llc_(0)) / h), iy = std::lround(vc::value(e.llc_(1)) / h);
    vc::eq("llc", e.llc_(0), double(ix * h)); vc::eq("llc", e.llc_(1), double(iy * h));
    vc::check("llc-inside", ix >= 0 && iy >= 0 && ix < n1 && iy < n1);
    vc::check("tile-once", at.emplace(std::array<long, 3>{e.patch_, ix, iy}, i).second);
    vc::eq("midpoint", e.referenceMidpoint()(0), double((ix + .5) * h)); vc::eq("midpoint", e.referenceMidpoint()(1), double((iy + .5) * h));
    vc::eq_int("global_id", t.compute_global_id(e), np * ((per - 1) / 3) + i);
  }
  if (!lv.empty()) {
    vc::check("linked", lv[0]->prev_ == nullptr && lv[N - 1]->next_ == nullptr);
    bool ok = true; for (int i = 1; i < N; ++i) ok = ok && lv[i]->prev_ == lv[i - 1] && lv[i - 1]->next_ == lv[i];
    vc::check("linked", ok);
  }
  vc::eq_int("patches", t.root().sons_.size(), np);
  for (int p = 0; p < np; ++p) { vc::eq_int("patch-root", t.root().sons_[p].patch_, p); vc::eq_int("patch-root-level", t.root().sons_[p].level_, 0); vc::eq_int("patch-root-id", t.root().sons_[p].id_, p); walk(t, t.root().sons_[p], M, lv, per); }
  // reordering: patch-wise lexicographic, x fastest
  auto re = t.computeReorderingVector();
  vc::eq_int("reordering.size", re.size(), N);
  if ((int)re.size() == N) for (auto &kv : at) vc::eq_int("reordering", re[kv.first[0] * per + kv.first[2] * n1 + kv.first[1]], kv.second);
  auto lab = t.generateElementLabels(); vc::eq_int("labels.size", lab.size(), N);
  for (int i = 0; i < N && i < lab.size(); ++i) vc::eq_int("labels", lab(i), np * ((per - 1) / 3) + i);
  for (int p = 0; p < np; ++p) { auto v = t.identifyPatch(p); for (int i = 0; i < N; ++i) vc::eq_int("identifyPatch", v(i), i / per == p); }
  // neighbours share exactly the edge
  std::map<EdgeKey, std::vector<std::pair<int, int>>> E;
  for (int i = 0; i < N; ++i) for (int j = 0; j < 4; ++j) E[edge(pv, *lv[i], j)].push_back({i, j});
  auto bl = t.generatePatchBoundaryLabels();
  for (int i = 0; i < N; ++i) {
    bool free = false, other = false;
    vc::eq_int("adjacency.size", lv[i]->adjcents_.size(), 4);
    for (int j = 0; j < 4; ++j) {
      auto &v = E[edge(pv, *lv[i], j)];
      const ElementTreeNode *want = nullptr; for (auto &q : v) if (q.first != i) want = lv[q.first];
      vc::check("neighbour", lv[i]->adjcents_[j] == want, "element " + std::to_string(i) + " edge " + std::to_string(j) + " has " + (lv[i]->adjcents_[j] ? std::to_string(lv[i]->adjcents_[j]->id_) : "none") + " wants " + (want ? std::to_string(want->id_) : "none"));
      if (!want) free = true; else if (want->patch_ != lv[i]->patch_) other = true;
    }
    vc::check("boundary-label", free ? bl(i) == -1 : other ? bl(i) > 0 : bl(i) == 0);
  }
  // vertices name points
  std::map<Key, int> pts; int np2 = 0; std::map<Key, int> cnt;
  auto el = t.generateElementList();
  Eigen::VectorXi idct; auto P = t.generatePointList(&idct); auto P2 = t.generatePointList();
  vc::eq_int("points", P.cols(), t.get_number_of_points());
  for (int i = 0; i < N; ++i) for (int j = 0; j < 4; ++j) {
    Key k = corner(pv, *lv[i], j); int id = lv[i]->vertices_.at(j);
    auto it = pts.emplace(k, id); vc::check("vertex-names-point", it.first->second == id);
    ++cnt[k];
    vc::eq_int("element-list", el(j, i), id);
    vc::check("point-id", id >= 0 && id < P.cols());
    if (id >= 0 && id < P.cols()) { Eigen::Vector3d c = P.col(id), c2 = P2.col(id); vc::check("point-list", geo::key(c) == k && geo::key(c2) == k); }
  }
  vc::eq_int("number_of_points", t.get_number_of_points(), pts.size());
  std::set<int> ids; for (auto &kv : pts) { ids.insert(kv.second); if (kv.second >= 0 && kv.second < idct.size()) vc::eq_int("incidence", idct(kv.second), cnt[kv.first]); }
  vc::eq_int("distinct-ids", ids.size(), pts.size());
  // patch topology
  std::set<std::array<int, 4>> got, want;
  auto info = t.patchTopologyInfo(); for (auto &a : info) got.insert(a);
  vc::eq_int("topology.no-duplicates", got.size(), info.size());
  std::map<EdgeKey, std::vector<std::pair<int, int>>> PE;
  for (int p = 0; p < np; ++p) for (int j = 0; j < 4; ++j) PE[edge(pv, t.root().sons_[p], j)].push_back({p, j});
  for (auto &kv : PE) { auto v = kv.second; std::sort(v.begin(), v.end()); if (v.size() == 1) want.insert({v[0].first, -1, v[0].second, -1}); else want.insert({v[0].first, v[1].first, v[0].second, v[1].second}); }
  vc::check("topology", got == want);
}
int main(int argc, char **argv) {
  const std::string tg = "ElementTree::init_ElementTree;ElementTree::refineUniformly;ElementTree::refineLeaf;ElementTree::updateTopology;ElementTree::patchTopologyInfo;ElementTree::computeReorderingVector;ElementTree::generatePointList;ElementTree::generateElementList;ElementTree::compute_global_id;ElementTreeNode::begin/end/front/back";
  auto reg = [&](const std::string &n, PatchVector pv, int M0, int M1, md res = 1e7) {
    for (int M = M0; M <= M1; ++M) vc::add(n + "/M" + std::to_string(M), tg, [=] { geo::res() = res; contract(pv, M, false); });
    vc::add(n + "/incremental", tg + ";ElementTree::refinePatch", [=] { geo::res() = res; contract(pv, std::min(M1, 2), true); });
  };
  reg("square", geo::patches(geo::square()), 0, 4);
  for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) for (int f = 0; f < 4; ++f) { auto m = geo::two(a, b, f & 1, f & 2); reg(m.name, geo::patches(m), f ? 1 : 0, 2); }
  for (int c : {0, 27, 1234, 4000, 777, 2222}) { auto m = geo::cube(c); reg(m.name, geo::patches(m), 0, c == 777 ? 3 : 2); }
  for (int r = 0; r < 4; ++r) { auto m = geo::star(r); reg(m.name, geo::patches(m), 0, 2); }
  for (int r = 0; r < 16; r += 3) { auto m = geo::sheet(r); reg(m.name, geo::patches(m), 0, 2); }
  for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) reg(geo::cap(a, b).name, geo::patches(geo::cap(a, b)), 0, 2);
  if (vc::native) { reg("square-fine", geo::patches(geo::square()), 5, 6); reg("two-fine", geo::patches(geo::two(1, 2, false, false)), 3, 5); reg("cube-fine", geo::patches(geo::cube(3210)), 3, 4); }
  for (auto &m : {geo::grid(4, 3), geo::grid(1, 13), geo::islands(0), geo::islands(3), geo::torus(3, 3), geo::torus(5, 4), geo::fan(5), geo::fan(7), geo::fan(4)}) reg(m.name, geo::patches(m), 0, vc::native ? 3 : 1);
  if (vc::native) reg("grid12x11", geo::patches(geo::grid(12, 11)), 0, 2);
  // small geometries (features of some micrometres) and corners that agree up to rounding only
  for (auto &m : {geo::two(1, 2, false, false), geo::cube(1234), geo::star(2), geo::sheet(3)}) {
    md f = std::ldexp(1., -18); auto q = geo::scaled(m, f); reg(q.name, geo::patches(q), 0, 1, 1e4 / f);
    reg(m.name + "-rounded", geo::noisy(m), 0, 2);
  }
  // the reference element: affine map of every element, for every point of it
  for (int M = 0; M <= (vc::native ? 7 : 4); ++M) vc::add(S_("mapToReferenceElement/M", M), "ElementTreeNode::mapToReferenceElement", [=] {
    Geometry g(geo::patches(geo::square())); ElementTree t(g, M);
    double s = vc::in("s", 0, 1), r = vc::in("t", 0, 1);
    vc::require(vc::le(0., s)); vc::require(vc::le(s, 1.)); vc::require(vc::le(0., r)); vc::require(vc::le(r, 1.));
    for (auto it = t.pbegin(); it != t.pend(); ++it) {
      double h = std::ldexp(1., -M);
      Eigen::Vector2d q = (*it).mapToReferenceElement(Eigen::Vector2d(it->llc_(0) + h * s, it->llc_(1) + h * r));
      vc::eq("reference", q(0), s); vc::eq("reference", q(1), r);
    }
  });
  return vc::main_(argc, argv);
}
