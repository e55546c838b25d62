// P13: algebra of compressed matrices
#include "h2.hpp"
template <class S> static DV<S> vec(const std::string &nm, int k) { DV<S> v(k); for (int i = 0; i < k; ++i) v(i) = value<S>(S_(nm, i), arb().x, nm); return v; }
template <class S, int F, int K> struct Setup {
  typedef Far<S, F, K> Op; Geometry g; AnsatzSpace<Op> as; Eigen::H2Matrix<S> H, G; int n, low;
  Setup(const PatchVector &pv, int M, int p, int pts) : g(pv), as(g, M, p) {
    Op op; H.init_H2Matrix(op, as, pts); G.init_H2Matrix(op, as, pts); scramble<S>(H, "F"); scramble<S>(G, "G"); n = as.get_number_of_dofs(); low = 0;
    auto &t = H.get_block_cluster_tree()(0, 0); for (auto l = t.clbegin(); l != t.clend(); ++l) low += (*l)->get_cc() == BlockClusterAdmissibility::LowRank;
  }
};
static PatchVector pv(int k) {
  geo::Mesh m = geo::square(); PatchVector r;
  switch (k) {
    case 0: return geo::patches(m);
    case 1: { r = geo::patches(m); for (auto &v : m.v) { v[0] += 8; v[2] += .5 * v[1]; } r.push_back(geo::patches(m)[0]); return r; }
    case 2: return geo::patches(geo::star(1));
    default: return geo::patches(geo::two(1, 2, false, false));
  }
}
struct Mode { const char *n; Arbitrary a; };
static const Mode modes[] = {{"/all", {true, true, true, true}}, {"/blocks", {true, true, false, false}}, {"/moments", {true, false, true, false}}, {"/transfer", {false, false, false, true}}, {"/fixed", {false, false, false, false}}};
static const char *gn[] = {"square", "far", "star", "two"};
// a*H1 + b*H2 ... on the vector; spec by the represented matrices
template <class S, int F, int K> static void product(int gk, int M, int p, int pts, bool low, int mode) {
  std::string id = std::string(gn[gk]) + S_("/M", M) + S_("p", p) + S_("n", pts) + S_("f", F) + S_("k", K) + (std::is_same<S, C>::value ? "c" : "") + modes[mode].n;
  vc::add("product/" + id, "H2_time_dense_product_impl::run; H2Multipole::forwardTransformation,backwardTransformation; H2Matrix::rows,cols", [=] {
    arb() = modes[mode].a; Setup<S, F, K> s(pv(gk), M, p, pts); vc::check("tree-has-low-rank-blocks", low == (s.low > 0)); vc::eq_int("rows", s.H.rows(), s.n); vc::eq_int("cols", s.H.cols(), s.n);
    Represented<S> A(s.H, s.as); DV<S> x = vec<S>("x", s.n), x0 = x, y = s.H * x; vc::eqm("represented-matrix-times-vector", y, A(x)); vc::eqm("argument-unchanged", x, x0);
  }, 1);
}
template <class S, int F, int K> static void algebra(int gk, int M, int p, int pts) {
  std::string id = std::string(gn[gk]) + S_("/M", M) + S_("p", p) + S_("n", pts) + S_("f", F) + S_("k", K) + (std::is_same<S, C>::value ? "c" : "");
  vc::add("algebra/" + id, "H2 expressions: generic_product_impl<..., H2, DenseShape>, CwiseBinaryOpImpl<..., H2>, H2Matrix::operator*", [=] {
    arb() = {true, true, true, true}; Setup<S, F, K> s(pv(gk), M, p, pts); Represented<S> A(s.H, s.as), B(s.G, s.as); int n = s.n; DV<S> x = vec<S>("x", n), z = vec<S>("z", n), o = vec<S>("o", n), Ax = A(x), Bx = B(x), Az = A(z), y; S a = scal<S>("a"), b = scal<S>("b");
    y = o; y += s.H * x; vc::eqm("add-to", y, o + Ax); y = o; y -= s.H * x; vc::eqm("subtract-from", y, o - Ax);
    y = o; y.noalias() += s.H * x; vc::eqm("add-to-noalias", y, o + Ax); y = o; y.noalias() = s.H * x; vc::eqm("assign-noalias", y, Ax);
    y = a * (s.H * x); vc::eqm("scaled-product", y, a * Ax); y = o + s.H * x - b * x; vc::eqm("in-expression", y, o + Ax - b * x);
    y = s.H * (a * x + z); vc::eqm("linear", y, a * Ax + Az);
    y = (a * s.H) * x; vc::eqm("scaled-matrix", y, a * Ax); y = o; y += (a * s.H) * x; vc::eqm("add-scaled-matrix", y, o + a * Ax);
    y = (s.H + s.G) * x; vc::eqm("sum", y, Ax + Bx); y = (s.H - s.G) * x; vc::eqm("difference", y, Ax - Bx); y = o; y -= (s.H - s.G) * x; vc::eqm("subtract-difference", y, o - Ax + Bx);
    y = (a * s.H + b * s.G) * x; vc::eqm("linear-combination", y, a * Ax + b * Bx); y = (a * (s.H - b * s.G)) * x; vc::eqm("scaled-combination", y, a * Ax - a * b * Bx); y = ((s.H + s.G) - a * s.H) * x; vc::eqm("three-terms", y, Ax + Bx - a * Ax);
    DM<S> D(n, n), X(n, 2); for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) D(i, j) = scal<S>(S_("D", i, j)); X.col(0) = x; X.col(1) = z; DV<S> Dx = DV<S>::Constant(n, S(double(0.))); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) Dx(i) = Dx(i) + D(i, j) * x(j);
    y = (s.H + D) * x; vc::eqm("plus-dense", y, Ax + Dx); y = (D - s.H) * x; vc::eqm("dense-minus", y, Dx - Ax); y = (D + s.H) * x; vc::eqm("dense-plus", y, Ax + Dx); y = (s.H - D) * x; vc::eqm("minus-dense", y, Ax - Dx);
    Eigen::SparseMatrix<S> Q(n, n); Q.insert(0, n - 1) = a; Q.insert(n / 2, 0) = b; Q.makeCompressed(); DV<S> Qx = DV<S>::Constant(n, S(double(0.))); Qx(0) = a * x(n - 1); Qx(n / 2) = Qx(n / 2) + b * x(0);
    y = (s.H + Q) * x; vc::eqm("plus-sparse", y, Ax + Qx); y = (Q - s.H) * x; vc::eqm("sparse-minus", y, Qx - Ax); y = (Q + s.H) * x; vc::eqm("sparse-plus", y, Ax + Qx); y = (s.H - Q) * x; vc::eqm("minus-sparse", y, Ax - Qx);
    DM<S> Y = s.H * X; vc::eqm("first-column", Y.col(0), Ax); vc::eqm("second-column", Y.col(1), Az); Y = (s.H + s.G) * X; vc::eqm("sum-times-matrix", Y.col(0), Ax + Bx);
    Y = s.H * X.rightCols(1); vc::eqm("block-of-columns", Y.col(0), Az); Y.setConstant(S(double(1.))); Y.col(0) += s.H * X.col(0); vc::eqm("into-column", Y.col(0), Ax + DV<S>::Constant(n, S(double(1.))));
    DM<S> Z(2, n); Z.row(0) = z.transpose(); Z.row(1) = x.transpose(); y = s.H * Z.row(1).transpose(); vc::eqm("row-of-a-matrix", y, Ax); Z.row(0).transpose() += s.H * x; vc::eqm("into-a-row", Z.row(0).transpose(), z + Ax); vc::eqm("other-row", Z.row(1).transpose(), x);
    DV<S> w(2 * n); for (int i = 0; i < n; ++i) { w(2 * i) = x(i); w(2 * i + 1) = z(i); } y = s.H * Eigen::Map<DV<S>, 0, Eigen::InnerStride<2>>(w.data(), n); vc::eqm("strided-vector", y, Ax); y = (s.H + s.G) * Eigen::Map<const DV<S>, 0, Eigen::InnerStride<2>>(w.data() + 1, n); vc::eqm("sum-times-strided-vector", y, Az + B(z)); y = s.H * x.reverse().reverse(); vc::eqm("reversed-vector", y, Ax); y = s.H * w.head(n).cwiseProduct(DV<S>::Constant(n, a)); vc::eqm("expression-vector", y, A(DV<S>(a * w.head(n))));
    DM<S> X5(n, 5); for (int j = 0; j < 5; ++j) X5.col(j) = j % 2 ? z : x; X5.col(4) = a * x; DM<S> Y5 = DM<S>::Constant(n, 5, b); Y5.noalias() -= s.H * X5; for (int j = 0; j < 5; ++j) vc::eqm(S_("column", j), Y5.col(j), DV<S>(DV<S>::Constant(n, b) - (j == 4 ? DV<S>(a * Ax) : j % 2 ? Az : Ax)));
    DM<S> E = s.H.get_dense(); vc::check("dense-size", E.rows() == n && E.cols() == n); DV<S> Ex = DV<S>::Constant(n, S(double(0.))); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) Ex(i) = Ex(i) + E(i, j) * x(j); vc::eqm("dense-copy", Ex, Ax);
    y = x; y = s.H * y; vc::eqm("aliased", y, Ax); y = x; y = (s.H + s.G) * y; vc::eqm("sum-aliased", y, Ax + Bx); y = x; y += s.H * y; vc::eqm("add-aliased", y, x + Ax); y = x; y = o - s.H * y; vc::eqm("expression-aliased", y, o - Ax); y = x; y = a * (s.H * y); vc::eqm("scaled-aliased", y, a * Ax);
    y = s.H * x; vc::eqm("operands-unchanged", y, Ax); vc::eqm("vector-unchanged", x, vec<S>("x", n));
  }, 2);
}
int main(int argc, char **argv) {
  const int DIS = DifferentialForm::Discontinuous, CON = DifferentialForm::Continuous, DIV = DifferentialForm::DivConforming;
  const int ALL = 0, BLOCKS = 1, MOMENTS = 2, TRANSFER = 3, FIXED = 4;
  product<C, DIS, 1>(1, 1, 0, 2, true, ALL); product<double, DIS, 1>(1, 0, 1, 2, false, ALL); product<double, CON, 1>(0, 0, 1, 1, false, ALL); product<double, DIV, 3>(3, 0, 1, 2, false, ALL); product<double, DIV, 1>(3, 1, 2, 1, false, ALL); product<C, DIV, 2>(1, 1, 1, 1, true, ALL); product<C, CON, 2>(1, 1, 1, 1, true, ALL);
  product<double, DIS, 1>(1, 2, 0, 1, true, BLOCKS); product<double, CON, 1>(0, 3, 1, 1, true, BLOCKS); product<double, CON, 3>(1, 2, 2, 1, true, BLOCKS); product<double, CON, 2>(2, 2, 1, 1, true, BLOCKS); product<double, DIV, 1>(1, 2, 1, 1, true, BLOCKS); product<C, DIV, 2>(1, 1, 2, 1, true, BLOCKS); product<C, DIS, 2>(1, 2, 0, 1, true, BLOCKS); product<double, DIV, 2>(3, 2, 1, 1, true, BLOCKS);
  product<double, DIS, 2>(1, 2, 0, 1, true, MOMENTS); product<double, CON, 3>(1, 2, 1, 1, true, MOMENTS); product<C, DIV, 2>(1, 1, 1, 1, true, MOMENTS); product<double, DIS, 1>(1, 1, 1, 3, true, MOMENTS);
  product<double, DIS, 1>(1, 2, 0, 2, true, TRANSFER); product<double, DIS, 1>(1, 3, 0, 2, true, FIXED); product<double, CON, 3>(1, 3, 1, 2, true, FIXED); product<C, DIV, 1>(1, 2, 1, 2, true, FIXED); product<double, DIV, 2>(1, 2, 1, 2, true, TRANSFER); product<double, CON, 3>(1, 2, 2, 2, true, TRANSFER);
  algebra<double, DIS, 1>(1, 1, 0, 2); algebra<C, DIS, 1>(1, 1, 0, 1); algebra<double, CON, 2>(1, 1, 1, 1); algebra<C, DIV, 2>(1, 0, 1, 1); algebra<double, DIV, 1>(3, 1, 1, 1); algebra<double, DIS, 1>(1, 2, 0, 1);
  return vc::main_(argc, argv);
}
