// Symbolic-execution engine: the scalar type `sym::Real` that replaces
// `double` when the real headers of /repo are compiled for verification.
// Arithmetic on Real builds terms over exact rationals; a comparison of
// symbolic terms forks the execution (deterministic re-execution DFS).
#pragma once
#include <gmpxx.h>
#include <quadmath.h>
#include <z3++.h>
#include <bits/stdc++.h>

namespace sym {

enum Op : uint8_t { CST, VAR, ADD, MUL, DIV, SQRT, EXP, SIN, COS, ABS, LOG, UF };

struct Node {
  Op op;
  int a, b;  // children / var index / const index
};

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };
struct ContractStop : std::runtime_error { using std::runtime_error::runtime_error; };
struct PathInfeasible {};

int mkconst(const mpq_class &q);
int mkd(double d);

// ---------------------------------------------------------------------------
struct Real {
  double c;
  int id;
  constexpr Real() : c(0), id(-1) {}
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type>
  constexpr Real(T v) : c(static_cast<double>(v)), id(-1) {}
  struct Raw {};
  constexpr Real(Raw, int i) : c(0), id(i) {}
  long toint() const;
  template <class T, class = typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type>
  operator T() const { return (T)toint(); }
  explicit operator double() const;
  explicit operator float() const { return (float)(double)*this; }
  explicit operator bool() const;
  Real &operator+=(const Real &o);
  Real &operator-=(const Real &o);
  Real &operator*=(const Real &o);
  Real &operator/=(const Real &o);
  Real &operator++();
  Real &operator--();
  Real operator++(int) { Real r = *this; ++*this; return r; }
  Real operator--(int) { Real r = *this; --*this; return r; }
};

inline int nid(const Real &r) { return r.id >= 0 ? r.id : mkd(r.c); }

struct Arena {
  std::vector<Node> nodes;
  std::vector<mpq_class> consts;
  std::unordered_map<uint64_t, std::vector<int>> hc;
  std::map<mpq_class, int> cmap;
  std::unordered_map<double, int> dmap;
  struct Var { std::string name; double lo, hi; bool internal; };
  std::vector<Var> vars;
  std::map<std::string, int> varmap;
  std::vector<std::string> ufnames;
  std::map<std::string, int> ufmap;
  // node 0 is zero: memory cleared by memset or calloc reads as 0
  Arena() { nodes.reserve(1 << 20); consts.push_back(0); intern(CST, 0, 0); cmap.emplace(mpq_class(0), 0); }
  int intern(Op op, int a, int b) {
    uint64_t h = (uint64_t(op) * 1000003u) ^ (uint64_t(uint32_t(a)) * 0x9E3779B97F4A7C15ull) ^
                 (uint64_t(uint32_t(b)) * 0xC2B2AE3D27D4EB4Full);
    auto &v = hc[h];
    for (int i : v)
      if (nodes[i].op == op && nodes[i].a == a && nodes[i].b == b) return i;
    nodes.push_back({op, a, b});
    v.push_back((int)nodes.size() - 1);
    return (int)nodes.size() - 1;
  }
};
inline Arena &A() { static Arena *a = new Arena; return *a; }

inline int mkconst(const mpq_class &q) {
  auto it = A().cmap.find(q);
  if (it != A().cmap.end()) return it->second;
  A().consts.push_back(q);
  int i = A().intern(CST, (int)A().consts.size() - 1, 0);
  A().cmap.emplace(q, i);
  return i;
}
inline int mkd(double d) {
  auto it = A().dmap.find(d);
  if (it != A().dmap.end()) return it->second;
  if (std::isinf(d)) { mpq_class h(mpz_class(1) << 1000); return mkconst(d > 0 ? h : mpq_class(-h)); }  // infinity: a number beyond every double
  if (!std::isfinite(d)) throw Unsupported("non-finite constant");
  int i = mkconst(mpq_class(d));
  A().dmap[d] = i;
  return i;
}
inline bool isc(int i) { return A().nodes[i].op == CST; }
inline const mpq_class &cv(int i) { return A().consts[A().nodes[i].a]; }
inline bool isconst(const Real &r) { return r.id < 0 || isc(r.id); }
inline mpq_class cval(const Real &r) { return r.id < 0 ? mpq_class(r.c) : cv(r.id); }
inline Real R(int i) { return Real(Real::Raw(), i); }
inline Real mkR(const mpq_class &q) { return R(mkconst(q)); }
inline bool small_int(double d) { return std::fabs(d) < 67108864.0 && d == std::floor(d); }

constexpr Real operator+(const Real &x, const Real &y) {
  if (std::is_constant_evaluated()) return Real(x.c + y.c);
  if (x.id < 0 && y.id < 0) {
    if (small_int(x.c) && small_int(y.c)) return Real(x.c + y.c);
    if (!std::isfinite(x.c) || !std::isfinite(y.c)) return Real(x.c + y.c);
    return mkR(mpq_class(x.c) + mpq_class(y.c));
  }
  if (x.id < 0 && x.c == 0) return y;
  if (y.id < 0 && y.c == 0) return x;
  int a = nid(x), b = nid(y);
  if (isc(a) && isc(b)) return mkR(cv(a) + cv(b));
  if (isc(a) && cv(a) == 0) return y;
  if (isc(b) && cv(b) == 0) return x;
  if (a > b) std::swap(a, b);
  return R(A().intern(ADD, a, b));
}
constexpr Real operator*(const Real &x, const Real &y) {
  if (std::is_constant_evaluated()) return Real(x.c * y.c);
  if (x.id < 0 && y.id < 0) {
    if (small_int(x.c) && small_int(y.c)) { double p = x.c * y.c; return Real(p == 0 ? 0. : p); }
    if (!std::isfinite(x.c) || !std::isfinite(y.c)) return Real(x.c * y.c);
    return mkR(mpq_class(x.c) * mpq_class(y.c));
  }
  if (x.id < 0 && x.c == 0) return Real(0);
  if (y.id < 0 && y.c == 0) return Real(0);
  if (x.id < 0 && x.c == 1) return y;
  if (y.id < 0 && y.c == 1) return x;
  int a = nid(x), b = nid(y);
  if (isc(a) && isc(b)) return mkR(cv(a) * cv(b));
  if (isc(b)) std::swap(a, b);
  if (isc(a)) {
    if (cv(a) == 0) return Real(0);
    if (cv(a) == 1) return R(b);
    const Node nb = A().nodes[b];
    if (nb.op == MUL && isc(nb.a)) return R(A().intern(MUL, mkconst(cv(a) * cv(nb.a)), nb.b)) * Real(1);
    if (nb.op == CST) return mkR(cv(a) * cv(b));
    return R(A().intern(MUL, a, b));
  }
  if (a > b) std::swap(a, b);
  return R(A().intern(MUL, a, b));
}
constexpr Real operator-(const Real &x) {
  if (std::is_constant_evaluated()) return Real(-x.c);
  if (x.id < 0) return Real(-x.c);
  return Real(-1) * x;
}
inline Real operator+(const Real &x) { return x; }
constexpr Real operator-(const Real &x, const Real &y) {
  if (std::is_constant_evaluated()) return Real(x.c - y.c);
  if (x.id < 0 && y.id < 0 && small_int(x.c) && small_int(y.c)) return Real(x.c - y.c);
  if (x.id >= 0 && x.id == y.id) return Real(0);
  return x + (-y);
}
struct DivByZero : ContractStop { DivByZero() : ContractStop("division by zero") {} };
constexpr Real operator/(const Real &x, const Real &y) {
  if (std::is_constant_evaluated()) return Real(x.c / y.c);
  int a = nid(x), b = nid(y);
  if (isc(b)) {
    if (cv(b) == 0) throw DivByZero();
    if (cv(b) == 1) return x;
    if (isc(a)) return mkR(cv(a) / cv(b));
    return mkR(mpq_class(1) / cv(b)) * x;
  }
  if (isc(a) && cv(a) == 0) return Real(0);
  if (a == b) return Real(1);
  return R(A().intern(DIV, a, b));
}
inline Real &Real::operator+=(const Real &o) { return *this = *this + o; }
inline Real &Real::operator-=(const Real &o) { return *this = *this - o; }
inline Real &Real::operator*=(const Real &o) { return *this = *this * o; }
inline Real &Real::operator/=(const Real &o) { return *this = *this / o; }
inline Real &Real::operator++() { return *this = *this + Real(1); }
inline Real &Real::operator--() { return *this = *this - Real(1); }
#define SYM_MIX(op)                                                                    \
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type> \
  constexpr Real operator op(const Real &x, T y) { return x op Real(y); }                 \
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type> \
  constexpr Real operator op(T x, const Real &y) { return Real(x) op y; }
SYM_MIX(+) SYM_MIX(-) SYM_MIX(*) SYM_MIX(/)
#undef SYM_MIX

// ---------------------------------------------------------------------------
// unary functions
inline bool perfect_sqrt(const mpq_class &q, mpq_class &r) {
  if (q < 0) return false;
  mpz_class n, d;
  if (!mpz_perfect_square_p(q.get_num().get_mpz_t()) || !mpz_perfect_square_p(q.get_den().get_mpz_t())) return false;
  n = ::sqrt(q.get_num()); d = ::sqrt(q.get_den());
  r = mpq_class(n, d); r.canonicalize();
  return true;
}
inline Real un(Op op, const Real &x) { return R(A().intern(op, nid(x), 0)); }
inline Real sqrt(const Real &x) {
  if (isconst(x)) {
    mpq_class r, v = cval(x);
    if (v < 0) throw ContractStop("sqrt of a negative constant");
    if (perfect_sqrt(v, r)) return mkR(r);
  }
  return un(SQRT, x);
}
inline Real exp(const Real &x) { if (isconst(x) && cval(x) == 0) return Real(1); return un(EXP, x); }
inline Real log(const Real &x) { if (isconst(x) && cval(x) == 1) return Real(0); return un(LOG, x); }
inline Real sin(const Real &x) { if (isconst(x) && cval(x) == 0) return Real(0); return un(SIN, x); }
inline Real cos(const Real &x) { if (isconst(x) && cval(x) == 0) return Real(1); return un(COS, x); }
inline Real tan(const Real &x) { return sin(x) / cos(x); }
inline Real abs(const Real &x) { if (isconst(x)) { mpq_class v = cval(x); return mkR(::abs(v)); } return un(ABS, x); }
inline Real fabs(const Real &x) { return abs(x); }
inline Real abs2(const Real &x) { return x * x; }
inline Real hypot(const Real &x, const Real &y) { return sqrt(x * x + y * y); }
inline Real fma(const Real &x, const Real &y, const Real &z) { return x * y + z; }
inline Real ipow(const Real &x, long n) {
  if (n < 0) return Real(1) / ipow(x, -n);
  Real r(1), b(x);
  while (n) { if (n & 1) r = r * b; n >>= 1; if (n) b = b * b; }
  return r;
}
inline Real pow(const Real &x, const Real &y) {
  if (isconst(y)) {
    mpq_class v = cval(y);
    if (v.get_den() == 1 && v.get_num().fits_slong_p()) return ipow(x, v.get_num().get_si());
    if (v.get_den() == 2 && v.get_num().fits_slong_p()) return ipow(sqrt(x), v.get_num().get_si());
  }
  throw Unsupported("pow with a non-integer exponent");
}
template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type>
inline Real pow(const Real &x, T y) { return pow(x, Real(y)); }
template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type>
inline Real pow(T x, const Real &y) { return pow(Real(x), y); }
// the concrete interpretation of an opaque function used for counterexamples
inline double ufhash(const std::string &n) { unsigned h = 2166136261u; for (char c : n) h = (h ^ (unsigned char)c) * 16777619u; return (h % 1009) / 101.0; }
// opaque function application (contract stub for an unknown function)
inline Real uf(const std::string &name, const Real &x) {
  auto &m = A().ufmap;
  auto it = m.find(name);
  int k;
  if (it == m.end()) { k = (int)A().ufnames.size(); A().ufnames.push_back(name); m[name] = k; } else k = it->second;
  return R(A().intern(UF, nid(x), k));
}

// ---------------------------------------------------------------------------
// variables
inline Real mkvar(const std::string &name, double lo, double hi, bool internal = false) {
  auto it = A().varmap.find(name);
  int k;
  if (it == A().varmap.end()) {
    k = (int)A().vars.size();
    A().vars.push_back({name, lo, hi, internal});
    A().varmap[name] = k;
  } else k = it->second;
  return R(A().intern(VAR, k, 0));
}

// ---------------------------------------------------------------------------
// numeric evaluation in binary128
typedef __float128 Q;
typedef std::vector<Q> Assign;  // by var index
inline Q q2f(const mpq_class &q) {
  // exact-ish conversion mpq -> binary128 through hi/lo doubles
  mpf_class f(q, 300);
  double a = f.get_d(); f -= a;
  double b = f.get_d(); f -= b;
  double c = f.get_d();
  return (Q)a + (Q)b + (Q)c;
}
struct Evaluator {
  const Assign &as;
  std::vector<Q> val;
  std::vector<char> done;
  explicit Evaluator(const Assign &a) : as(a) {}
  Q eval(int root) {
    if ((int)val.size() < (int)A().nodes.size()) { val.resize(A().nodes.size()); done.resize(A().nodes.size(), 0); }
    std::vector<int> st{root};
    while (!st.empty()) {
      int i = st.back();
      if (done[i]) { st.pop_back(); continue; }
      const Node &n = A().nodes[i];
      switch (n.op) {
        case CST: val[i] = q2f(cv(i)); done[i] = 1; st.pop_back(); continue;
        case VAR: if (n.a >= (int)as.size()) throw std::runtime_error("unassigned variable"); val[i] = as[n.a]; done[i] = 1; st.pop_back(); continue;
        case ADD: case MUL: case DIV:
          if (!done[n.a]) { st.push_back(n.a); if (!done[n.b]) st.push_back(n.b); continue; }
          if (!done[n.b]) { st.push_back(n.b); continue; }
          if (n.op == ADD) val[i] = val[n.a] + val[n.b];
          else if (n.op == MUL) val[i] = val[n.a] * val[n.b];
          else { val[i] = val[n.b] == 0 ? nanq("") : val[n.a] / val[n.b]; }
          break;
        default:
          if (!done[n.a]) { st.push_back(n.a); continue; }
          Q x = val[n.a];
          switch (n.op) {
            case SQRT: val[i] = x < 0 ? (x > (Q)-1e-30 ? (Q)0 : nanq("")) : sqrtq(x); break;
            case EXP: val[i] = expq(x); break;
            case LOG: val[i] = x <= 0 ? nanq("") : logq(x); break;
            case SIN: val[i] = sinq(x); break;
            case COS: val[i] = cosq(x); break;
            case ABS: val[i] = fabsq(x); break;
            case UF: { double h = ufhash(A().ufnames[n.b]); val[i] = sinq(x * (Q)(1.37 + 0.61 * h) + (Q)(0.3 + h)) * 2 + (Q)(0.11 * (h + 1)) * x; } break;
            default: break;
          }
      }
      done[i] = 1;
      st.pop_back();
    }
    return val[root];
  }
};

// ---------------------------------------------------------------------------
// algebraic normal form: quotient of polynomials over atoms
typedef std::vector<std::pair<int, int>> Mono;  // (atom, exponent) sorted by atom
struct MonoHash { size_t operator()(const Mono &m) const { size_t h = 1469598103934665603ull; for (auto &p : m) { h = (h ^ p.first) * 1099511628211ull; h = (h ^ p.second) * 1099511628211ull; } return h; } };
typedef std::map<Mono, mpq_class> Poly;
struct TooBig : std::runtime_error { TooBig() : std::runtime_error("normal form budget exceeded") {} };

struct Normaliser {
  size_t budget = 400000;
  size_t work = 0, work_budget = 60000000;
  struct Atom { int kind; int node; Poly n, d; };  // kind 0 var, 1 sqrt, 2 abs, 3 exp/.., 4 uf
  std::vector<Atom> atoms;
  std::map<std::pair<int, int>, int> varatom;
  std::map<std::tuple<int, int, Poly, Poly>, int> fatom;
  std::vector<Poly> factors;  // interned monic non-monomial denominators
  std::map<Poly, int> factorid;
  struct RF { Poly n; std::map<int, int> den; };  // den: factor id -> exponent (monomial dens are kept via negative exponents in n)
  std::unordered_map<int, std::shared_ptr<RF>> memo;
  std::unordered_set<int> sealed;

  static Poly constant(const mpq_class &c) { Poly p; if (c != 0) p[Mono()] = c; return p; }
  static Mono mmul(const Mono &a, const Mono &b) {
    Mono r; r.reserve(a.size() + b.size());
    size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
      if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
      else if (i >= a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
      else { int e = a[i].second + b[j].second; if (e) r.push_back({a[i].first, e}); ++i; ++j; }
    }
    return r;
  }
  void padd(Poly &r, const Poly &b, const mpq_class &f) {
    for (auto &t : b) {
      auto it = r.find(t.first);
      if (it == r.end()) r.emplace(t.first, t.second * f);
      else { it->second += t.second * f; if (it->second == 0) r.erase(it); }
    }
    work += b.size();
    if (r.size() > budget || work > work_budget) throw TooBig();
  }
  Poly pmul(const Poly &a, const Poly &b) {
    Poly r;
    if (a.size() * b.size() > 30 * budget) throw TooBig();
    for (auto &s : a)
      for (auto &t : b) {
        Mono m = mmul(s.first, t.first);
        mpq_class c = s.second * t.second;
        auto it = r.find(m);
        if (it == r.end()) r.emplace(std::move(m), std::move(c));
        else { it->second += c; if (it->second == 0) r.erase(it); }
      }
    work += a.size() * b.size();
    if (r.size() > budget || work > work_budget) throw TooBig();
    return reduce(std::move(r));
  }
  // reduce S^2 when S^2 is a plain polynomial (denominator 1)
  Poly reduce(Poly p) {
    for (;;) {
      int which = -1;
      for (auto &t : p) {
        for (auto &f : t.first)
          if ((atoms[f.first].kind == 1 || atoms[f.first].kind == 2) && (f.second >= 2 || f.second <= -2) && atoms[f.first].d.size() == 1 && atoms[f.first].d.begin()->first.empty()) {
            // negative powers only for constant radicands
            if (f.second < 0 && !(atoms[f.first].n.size() == 1)) continue;
            which = std::max(which, f.first);
          }
      }
      if (which < 0) return p;
      Poly r;
      for (auto &t : p) {
        int e = 0;
        for (auto &f : t.first) if (f.first == which) e = f.second;
        int k = e >= 0 ? e / 2 : -((-e) / 2);
        if (k == 0) { Poly q; q[t.first] = t.second; padd(r, q, 1); continue; }
        Mono m;
        for (auto &f : t.first) { if (f.first == which) { if (e - 2 * k) m.push_back({which, e - 2 * k}); } else m.push_back(f); }
        Poly q; q[m] = t.second;
        Poly base = atoms[which].n;
        if (atoms[which].d.begin()->second != 1) { Poly b2; padd(b2, base, mpq_class(1) / atoms[which].d.begin()->second); base = b2; }
        if (k < 0) { Poly inv; Mono im; for (auto &f : base.begin()->first) im.push_back({f.first, -f.second}); inv[im] = mpq_class(1) / base.begin()->second; base = inv; k = -k; }
        for (int i = 0; i < k; ++i) q = pmul_raw(q, base);
        padd(r, q, 1);
      }
      p.swap(r);
    }
  }
  Poly pmul_raw(const Poly &a, const Poly &b) {
    Poly r;
    for (auto &s : a)
      for (auto &t : b) {
        Mono m = mmul(s.first, t.first);
        mpq_class c = s.second * t.second;
        auto it = r.find(m);
        if (it == r.end()) r.emplace(std::move(m), std::move(c));
        else { it->second += c; if (it->second == 0) r.erase(it); }
      }
    work += a.size() * b.size();
    if (r.size() > budget || work > work_budget) throw TooBig();
    return r;
  }
  Poly ppow(const Poly &a, int e) { Poly r = constant(1); for (int i = 0; i < e; ++i) r = pmul(r, a); return r; }
  int newatom(int kind, int node, Poly n = Poly(), Poly d = Poly()) { atoms.push_back({kind, node, std::move(n), std::move(d)}); return (int)atoms.size() - 1; }
  static Poly single(int atom, int e = 1) { Poly p; p[Mono{{atom, e}}] = 1; return p; }
  Poly denpoly(const RF &r) { Poly d = constant(1); for (auto &f : r.den) d = pmul(d, ppow(factors[f.first], f.second)); return d; }
  // clear negative exponents: returns (n,d) both with non-negative exponents
  void clear(const Poly &p, Poly &n, Mono &m) {
    std::map<int, int> mn;
    for (auto &t : p) for (auto &f : t.first) if (f.second < 0) mn[f.first] = std::min(mn[f.first], f.second);
    m.clear();
    for (auto &k : mn) m.push_back({k.first, -k.second});
    n.clear();
    for (auto &t : p) n[mmul(t.first, m)] = t.second;
  }
  RF radd(const RF &x, const RF &y) {
    RF r;
    if (x.den == y.den) { r.n = x.n; padd(r.n, y.n, 1); r.den = x.den; if (r.n.empty()) r.den.clear(); return r; }
    r.den = x.den;
    for (auto &f : y.den) { auto &e = r.den[f.first]; e = std::max(e, f.second); }
    Poly a = x.n, b = y.n;
    for (auto &f : r.den) {
      auto ix = x.den.find(f.first); int ex = f.second - (ix == x.den.end() ? 0 : ix->second);
      auto iy = y.den.find(f.first); int ey = f.second - (iy == y.den.end() ? 0 : iy->second);
      if (ex) a = pmul(a, ppow(factors[f.first], ex));
      if (ey) b = pmul(b, ppow(factors[f.first], ey));
    }
    r.n = a; padd(r.n, b, 1);
    if (r.n.empty()) r.den.clear();
    return r;
  }
  // try to cancel a factor against the numerator (exact equality up to a constant)
  void cancel(RF &r) {
    if (r.n.size() < 2 || r.den.empty()) return;
    for (auto it = r.den.begin(); it != r.den.end();) {
      const Poly &f = factors[it->first];
      bool hit = false;
      if (f.size() == r.n.size()) {
        mpq_class ratio = r.n.begin()->second / f.begin()->second;
        // allow a common monomial shift
        Mono inv; for (auto &q : f.begin()->first) inv.push_back({q.first, -q.second});
        Mono shift = mmul(r.n.begin()->first, inv);
        Poly s; for (auto &t : f) s[mmul(t.first, shift)] = t.second * ratio;
        if (s == r.n) { Poly q; q[shift] = ratio; r.n = q; hit = true; }
      }
      if (hit) { if (--it->second == 0) it = r.den.erase(it); break; } else ++it;
    }
  }
  RF rmul(const RF &x, const RF &y) {
    RF r; r.n = pmul(x.n, y.n); r.den = x.den;
    for (auto &f : y.den) r.den[f.first] += f.second;
    if (r.n.empty()) r.den.clear();
    cancel(r);
    return r;
  }
  RF rinv(const RF &x) {
    if (x.n.empty()) throw DivByZero();
    RF r; r.n = denpoly(x);
    if (x.n.size() == 1) {
      Mono m; for (auto &f : x.n.begin()->first) m.push_back({f.first, -f.second});
      Poly q; q[m] = mpq_class(1) / x.n.begin()->second;
      r.n = pmul(r.n, q);
      return r;
    }
    // non-monomial: intern monic with content monomial removed
    Poly n; Mono neg; clear(x.n, n, neg);
    // content monomial
    std::map<int, int> mn; bool first = true;
    for (auto &t : n) {
      std::map<int, int> cur; for (auto &f : t.first) cur[f.first] = f.second;
      if (first) { mn = cur; first = false; }
      else { for (auto it = mn.begin(); it != mn.end();) { auto c = cur.find(it->first); if (c == cur.end()) it = mn.erase(it); else { it->second = std::min(it->second, c->second); ++it; } } }
    }
    Mono cm; for (auto &k : mn) cm.push_back({k.first, -k.second});
    mpq_class lc = n.begin()->second;
    Poly f; for (auto &t : n) f[mmul(t.first, cm)] = t.second / lc;
    auto it = factorid.find(f);
    int id;
    if (it == factorid.end()) { id = (int)factors.size(); factors.push_back(f); factorid[f] = id; } else id = it->second;
    // 1/(lc * f * m^-1.. ) : x.n = lc * f * cm^-1 * neg^-1
    Mono back = mmul(cm, neg);
    Poly q; q[back] = mpq_class(1) / lc;
    r.n = pmul(r.n, q);
    r.den[id] += 1;
    cancel(r);
    return r;
  }
  static bool neglead(const Poly &p) { return !p.empty() && p.begin()->second < 0; }
  RF of(int root) {
    std::vector<int> st{root};
    while (!st.empty()) {
      int i = st.back();
      if (memo.count(i)) { st.pop_back(); continue; }
      const Node n = A().nodes[i];
      if (n.op == ADD || n.op == MUL || n.op == DIV) {
        bool w = false;
        if (!memo.count(n.a)) { st.push_back(n.a); w = true; }
        if (!memo.count(n.b)) { st.push_back(n.b); w = true; }
        if (w) continue;
      } else if (n.op != CST && n.op != VAR) {
        if (!memo.count(n.a)) { st.push_back(n.a); continue; }
      }
      auto r = std::make_shared<RF>();
      switch (n.op) {
        case CST: r->n = constant(cv(i)); break;
        case VAR: {
          auto k = std::make_pair((int)VAR, n.a);
          auto it = varatom.find(k);
          int a = it == varatom.end() ? (varatom[k] = newatom(0, i)) : it->second;
          r->n = single(a);
        } break;
        case ADD: *r = radd(*memo[n.a], *memo[n.b]); break;
        case MUL: *r = rmul(*memo[n.a], *memo[n.b]); break;
        case DIV: *r = rmul(*memo[n.a], rinv(*memo[n.b])); break;
        default: *r = func(n, i); break;
      }
      memo[i] = r;
      st.pop_back();
    }
    return *memo[root];
  }
  int primesqrt(long p) {
    Poly n = constant(p), d = constant(1);
    auto key = std::make_tuple((int)SQRT, 0, n, d);
    auto it = fatom.find(key);
    if (it != fatom.end()) return it->second;
    int a = newatom(1, nid(sym::sqrt(Real((double)p))), n, d);
    fatom[key] = a;
    return a;
  }
  RF func(const Node &n, int i) {
    RF x = *memo[n.a];
    Poly num, d = denpoly(x); Mono neg;
    clear(x.n, num, neg);
    { Poly q; q[neg] = 1; d = pmul(d, q); }
    RF r;
    bool flip = false;
    if (n.op == SQRT) {
      // constant radicand: split into prime square roots
      bool cst = (num.size() <= 1 && d.size() == 1 && (num.empty() || num.begin()->first.empty()) && d.begin()->first.empty());
      if (cst) {
        if (num.empty()) return r;
        mpq_class q = num.begin()->second / d.begin()->second;
        mpz_class m = q.get_num() * q.get_den();
        mpq_class coef(1, q.get_den()); coef.canonicalize();
        if (m > 0 && mpz_sizeinbase(m.get_mpz_t(), 2) < 200) {
          Poly p = constant(1);
          for (long f = 2; f < 2000 && m > 1; ++f) {
            int e = 0;
            while (mpz_divisible_ui_p(m.get_mpz_t(), f)) { m /= f; ++e; }
            for (int k = 0; k < e / 2; ++k) coef *= f;
            if (e & 1) p = pmul_raw(p, single(primesqrt(f)));
          }
          if (m > 1) {
            if (mpz_perfect_square_p(m.get_mpz_t())) coef *= mpq_class(::sqrt(m));
            else {
              Poly nn = constant(mpq_class(m)), dd = constant(1);
              auto key = std::make_tuple((int)SQRT, 0, nn, dd);
              auto it = fatom.find(key);
              int a = it == fatom.end() ? (fatom[key] = newatom(1, mkR(mpq_class(m)).id >= 0 ? nid(sym::sqrt(mkR(mpq_class(m)))) : i, nn, dd)) : it->second;
              p = pmul_raw(p, single(a));
            }
          }
          padd(r.n, p, coef);
          return r;
        }
      }
      // pull a rational square content out of the radicand
      if (!num.empty() && d.size() == 1 && d.begin()->first.empty()) {
        mpq_class dc = d.begin()->second; Poly t; padd(t, num, mpq_class(1) / dc); num = t; d = constant(1);
        mpq_class c = num.begin()->second; if (c < 0) c = -c;
        mpq_class s;
        if (perfect_sqrt(c, s) && c != 1) { Poly u; padd(u, num, mpq_class(1) / c); num = u; return sqrtatom(num, d, i, s); }
      }
      return sqrtatom(num, d, i, mpq_class(1));
    }
    if (n.op == ABS || n.op == COS || n.op == SIN) {
      if (num.empty()) { if (n.op == COS) r.n = constant(1); return r; }
      // normalise d leading coeff positive
      if (neglead(d)) { Poly t; padd(t, d, -1); d = t; Poly u; padd(u, num, -1); num = u; }
      if (neglead(num)) { Poly u; padd(u, num, -1); num = u; flip = (n.op == SIN); }
    }
    if (num.empty() && n.op == EXP) { r.n = constant(1); return r; }
    auto key = std::make_tuple((int)n.op, n.op == UF ? n.b : 0, num, d);
    auto it = fatom.find(key);
    int a;
    if (it == fatom.end()) {
      int kind = n.op == ABS ? 2 : 3;
      if (n.op == ABS) a = newatom(kind, i, pmul(num, num), pmul(d, d)); else a = newatom(kind, i);
      fatom[key] = a;
    } else a = it->second;
    padd(r.n, single(a), flip ? -1 : 1);
    return r;
  }
  RF sqrtatom(const Poly &num, const Poly &d, int i, const mpq_class &s) {
    RF r;
    auto key = std::make_tuple((int)SQRT, 0, num, d);
    auto it = fatom.find(key);
    int a = it == fatom.end() ? (fatom[key] = newatom(1, i, num, d)) : it->second;
    padd(r.n, single(a), s);
    return r;
  }
  // numerator polynomial identically zero (modulo the sqrt/abs relations)?
  bool zero(Poly p) {
    { Poly q; Mono m; clear(p, q, m); p.swap(q); }
    for (;;) {
      p = reduce(std::move(p));
      if (p.empty()) return true;
      int which = -1;
      for (auto &t : p) for (auto &f : t.first) if ((atoms[f.first].kind == 1 || atoms[f.first].kind == 2) && f.second >= 2) which = std::max(which, f.first);
      if (which < 0) return false;
      // S^(2k+e) -> N^k D^(K-k) S^e
      int K = 0;
      for (auto &t : p) for (auto &f : t.first) if (f.first == which) K = std::max(K, f.second / 2);
      Poly r;
      for (auto &t : p) {
        int e = 0; Mono m;
        for (auto &f : t.first) { if (f.first == which) e = f.second; else m.push_back(f); }
        if (e & 1) m = mmul(m, Mono{{which, 1}});
        Poly q; q[m] = t.second;
        q = pmul_raw(q, praw(atoms[which].n, e / 2));
        q = pmul_raw(q, praw(atoms[which].d, K - e / 2));
        padd(r, q, 1);
      }
      Poly q; Mono m; clear(r, q, m); p.swap(q);
    }
  }
  Poly praw(const Poly &a, int e) { Poly r = constant(1); for (int i = 0; i < e; ++i) r = pmul_raw(r, a); return r; }
};

// ---------------------------------------------------------------------------
// boolean terms (for requires / ensures; no forking)
enum Cmp : uint8_t { LT, LE, EQ, NE };
struct Prop {
  enum K { T, F, CMP, AND, OR, NOT } k = T;
  Cmp c = LT;
  int d = 0;  // node of (lhs - rhs)
  std::vector<Prop> ch;
};
inline Prop cmpP(Cmp c, const Real &a, const Real &b) { Prop p; p.k = Prop::CMP; p.c = c; p.d = nid(a - b); return p; }
inline Prop lt(const Real &a, const Real &b) { return cmpP(LT, a, b); }
inline Prop le(const Real &a, const Real &b) { return cmpP(LE, a, b); }
inline Prop gt(const Real &a, const Real &b) { return cmpP(LT, b, a); }
inline Prop ge(const Real &a, const Real &b) { return cmpP(LE, b, a); }
inline Prop eqp(const Real &a, const Real &b) { return cmpP(EQ, a, b); }
inline Prop nep(const Real &a, const Real &b) { return cmpP(NE, a, b); }
inline Prop andp(std::vector<Prop> v) { Prop p; p.k = Prop::AND; p.ch = std::move(v); return p; }
inline Prop orp(std::vector<Prop> v) { Prop p; p.k = Prop::OR; p.ch = std::move(v); return p; }
inline Prop notp(const Prop &q) { Prop p; p.k = Prop::NOT; p.ch = {q}; return p; }
inline Prop impl(const Prop &a, const Prop &b) { return orp({notp(a), b}); }
inline Prop boolp(bool b) { Prop p; p.k = b ? Prop::T : Prop::F; return p; }

// ---------------------------------------------------------------------------
struct Engine {
  Normaliser nf;
  std::vector<Prop> path;                   // requires + decisions of this run
  std::vector<std::pair<int, bool>> known;  // decided (node<=0?) cache
  struct Dec { bool val; bool other_open; };
  std::vector<Dec> prefix;
  size_t pos = 0;
  struct Sample { Assign as; Evaluator ev; Sample() : ev(as) {} };
  std::vector<std::unique_ptr<Sample>> pool;  // sample assignments
  Evaluator &sample(size_t i) { extend(pool[i]->as); return pool[i]->ev; }
  void seed_pool(int n) { for (int i = 0; i < n; ++i) pool.emplace_back(new Sample); }
  std::mt19937_64 rng{1};
  long forks = 0, z3calls = 0, paths = 0;
  double z3time = 0;
  std::vector<char> alive;  // pool samples satisfying the current path
  unsigned z3timeout = 3000;
  z3::context ctx;
  std::unordered_map<int, std::shared_ptr<z3::expr>> zmemo;
  std::unordered_map<int, std::vector<z3::expr>> zside;

  Q uniform(double lo, double hi) { double u = std::uniform_real_distribution<double>(0, 1)(rng); return (Q)lo + (Q)u * ((Q)hi - (Q)lo); }
  void extend(Assign &as) { while (as.size() < A().vars.size()) { auto &v = A().vars[as.size()]; as.push_back(uniform(v.lo, v.hi)); } }
  int ev(const Prop &p, Evaluator &e) {  // 1 true, 0 false, -1 unknown
    switch (p.k) {
      case Prop::T: return 1;
      case Prop::F: return 0;
      case Prop::CMP: {
        Q v = e.eval(p.d);
        if (isnanq(v)) return -1;
        if ((p.c == LT || p.c == LE) && v != 0 && fabsq(v) < (Q)1e-24) return -1;  // tie up to rounding
        if (p.c == LT) return v < 0; if (p.c == LE) return v <= 0;
        if (p.c == EQ) return fabsq(v) < (Q)1e-25; return fabsq(v) >= (Q)1e-25;
      }
      case Prop::NOT: { int r = ev(p.ch[0], e); return r < 0 ? r : !r; }
      case Prop::AND: { int r = 1; for (auto &c : p.ch) { int q = ev(c, e); if (q == 0) return 0; if (q < 0) r = -1; } return r; }
      case Prop::OR: { int r = 0; for (auto &c : p.ch) { int q = ev(c, e); if (q == 1) return 1; if (q < 0) r = -1; } return r; }
    }
    return -1;
  }
  bool sat_path(Evaluator &e) { for (auto &p : path) if (ev(p, e) != 1) return false; return true; }

  // --- z3 translation
  z3::expr zpoly_(int root) {
    std::vector<int> st{root};
    while (!st.empty()) {
      int i = st.back();
      if (zmemo.count(i)) { st.pop_back(); continue; }
      const Node n = A().nodes[i];
      bool w = false;
      if (n.op == ADD || n.op == MUL || n.op == DIV) { if (!zmemo.count(n.a)) { st.push_back(n.a); w = true; } if (!zmemo.count(n.b)) { st.push_back(n.b); w = true; } }
      else if (n.op != CST && n.op != VAR) { if (!zmemo.count(n.a)) { st.push_back(n.a); w = true; } }
      if (w) continue;
      z3::expr e(ctx);
      switch (n.op) {
        case CST: e = ctx.real_val(cv(i).get_str().c_str()); break;
        case VAR: e = ctx.real_const(("v!" + A().vars[n.a].name).c_str()); break;
        case ADD: e = *zmemo[n.a] + *zmemo[n.b]; break;
        case MUL: e = *zmemo[n.a] * *zmemo[n.b]; break;
        case DIV: e = *zmemo[n.a] / *zmemo[n.b]; zside[i].push_back(*zmemo[n.b] != 0); break;
        case SQRT: { e = ctx.real_const(("sqrt!" + std::to_string(i)).c_str()); zside[i].push_back(e >= 0 && e * e == *zmemo[n.a]); } break;
        case ABS: { e = z3::ite(*zmemo[n.a] >= 0, *zmemo[n.a], -*zmemo[n.a]); } break;
        case EXP: { auto f = ctx.function("exp!", ctx.real_sort(), ctx.real_sort()); e = f(*zmemo[n.a]); zside[i].push_back(e > 0); } break;
        case LOG: { auto f = ctx.function("log!", ctx.real_sort(), ctx.real_sort()); e = f(*zmemo[n.a]); } break;
        case SIN: { auto f = ctx.function("sin!", ctx.real_sort(), ctx.real_sort()); e = f(*zmemo[n.a]); zside[i].push_back(e >= -1 && e <= 1); } break;
        case COS: { auto f = ctx.function("cos!", ctx.real_sort(), ctx.real_sort()); e = f(*zmemo[n.a]); zside[i].push_back(e >= -1 && e <= 1); } break;
        case UF: { auto f = ctx.function(("uf!" + A().ufnames[n.b]).c_str(), ctx.real_sort(), ctx.real_sort()); e = f(*zmemo[n.a]); } break;
      }
      zmemo[i] = std::make_shared<z3::expr>(e);
      st.pop_back();
    }
    return *zmemo[root];
  }
  z3::expr zprop(const Prop &p) {
    switch (p.k) {
      case Prop::T: return ctx.bool_val(true);
      case Prop::F: return ctx.bool_val(false);
      case Prop::CMP: { z3::expr e = zpoly_(p.d); if (p.c == LT) return e < 0; if (p.c == LE) return e <= 0; if (p.c == EQ) return e == 0; return e != 0; }
      case Prop::NOT: return !zprop(p.ch[0]);
      case Prop::AND: { z3::expr_vector v(ctx); for (auto &c : p.ch) v.push_back(zprop(c)); return z3::mk_and(v); }
      case Prop::OR: { z3::expr_vector v(ctx); for (auto &c : p.ch) v.push_back(zprop(c)); return z3::mk_or(v); }
    }
    return ctx.bool_val(true);
  }
  // is path /\ extra satisfiable?  unsat / sat / unknown ; model -> out
  z3::check_result zcheck(const std::vector<Prop> &extra, Assign *out, unsigned timeout) {
    auto t0 = std::chrono::steady_clock::now();
    ++z3calls;
    z3::check_result r = z3::unknown;
    try {
      bool uf = false;
      std::vector<z3::expr> all;
      for (auto &p : path) all.push_back(zprop(p));
      for (auto &p : extra) all.push_back(zprop(p));
      std::unordered_set<int> seen;
      std::vector<int> st;
      for (auto &p : path) roots(p, st);
      for (auto &p : extra) roots(p, st);
      while (!st.empty()) {
        int i = st.back(); st.pop_back();
        if (!seen.insert(i).second) continue;
        const Node &n = A().nodes[i];
        if (n.op >= EXP && n.op != ABS) uf = true;
        auto it = zside.find(i);
        if (it != zside.end()) for (auto &e : it->second) all.push_back(e);
        if (n.op == CST || n.op == VAR) continue;
        st.push_back(n.a);
        if (n.op == ADD || n.op == MUL || n.op == DIV) st.push_back(n.b);
      }
      z3::solver s(ctx, "QF_NRA");
      if (uf) s = z3::solver(ctx);
      z3::params pr(ctx); pr.set("timeout", timeout); s.set(pr);
      for (auto &e : all) s.add(e);
      r = s.check();
      if (r == z3::sat && out) {
        z3::model m = s.get_model();
        out->clear();
        for (auto &v : A().vars) {
          z3::expr e = m.eval(ctx.real_const(("v!" + v.name).c_str()), true);
          std::string ds = e.is_algebraic() || e.is_numeral() ? e.get_decimal_string(40) : "0";
          if (!ds.empty() && ds.back() == '?') ds.pop_back();
          out->push_back(strtoflt128(ds.c_str(), nullptr));
        }
      }
    } catch (z3::exception &e) { r = z3::unknown; }
    z3time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    return r;
  }
  static void roots(const Prop &p, std::vector<int> &o) { if (p.k == Prop::CMP) o.push_back(p.d); for (auto &c : p.ch) roots(c, o); }
  std::unordered_set<int> bounded;  // inputs whose range is part of the path
  std::unordered_map<int, std::pair<mpq_class, mpq_class>> box;  // those ranges, by node of the input
  // bounds of a polynomial over the ranges of the inputs
  bool poly_range(const Poly &p, mpq_class &lo, mpq_class &hi) {
    lo = hi = 0;
    for (auto &t : p) {
      mpq_class a = t.second, b = t.second;
      for (auto &f : t.first) {
        if (f.second < 1 || nf.atoms[f.first].kind != 0) return false;
        auto it = box.find(nf.atoms[f.first].node);
        if (it == box.end()) return false;
        mpq_class u = 1, v = 1; const mpq_class &l = it->second.first, &h = it->second.second;
        for (int k = 0; k < f.second; ++k) { u *= l; v *= h; }
        if (f.second % 2 == 0 && l < 0) { if (h > 0) { if (u > v) v = u; u = 0; } else std::swap(u, v); }
        else if (u > v) std::swap(u, v);
        mpq_class c[4] = {a * u, a * v, b * u, b * v};
        a = *std::min_element(c, c + 4); b = *std::max_element(c, c + 4);
      }
      lo += a; hi += b;
    }
    return true;
  }
  void reset_run() { path.clear(); bounded.clear(); box.clear(); known.clear(); pos = 0; alive.assign(pool.size(), 1); }
  void filter(const Prop &p) {
    for (size_t i = 0; i < pool.size(); ++i) {
      if (!alive[i]) continue;
      if (ev(p, sample(i)) != 1) alive[i] = 0;
    }
  }
  bool any_alive() const { for (char c : alive) if (c) return true; return false; }
  int alive_index() const { for (size_t i = 0; i < alive.size(); ++i) if (alive[i]) return (int)i; return -1; }
  // number of variables occurring below node
  bool has_var(int root) {
    std::vector<int> st{root}; std::unordered_set<int> seen;
    while (!st.empty()) { int i = st.back(); st.pop_back(); if (!seen.insert(i).second) continue; const Node &n = A().nodes[i]; if (n.op == VAR) return true; if (n.op == CST) continue; st.push_back(n.a); if (n.op == ADD || n.op == MUL || n.op == DIV) st.push_back(n.b); }
    return false;
  }
  bool const_cmp(Cmp c, int d, bool &out) {
    if (isc(d)) { int s = sgn(cv(d)); out = c == LT ? s < 0 : c == LE ? s <= 0 : c == EQ ? s == 0 : s != 0; return true; }
    if (!has_var(d)) {
      Assign none; Evaluator e(none); Q v = e.eval(d);
      int s;
      if (fabsq(v) > (Q)1e-22) s = v < 0 ? -1 : 1;
      else {
        bool z = false;
        try { z = nf.zero(nf.of(d).n); } catch (TooBig &) { z = false; }
        if (!z && fabsq(v) > (Q)1e-29) { s = v < 0 ? -1 : 1; }
        else s = 0;
      }
      out = c == LT ? s < 0 : c == LE ? s <= 0 : c == EQ ? s == 0 : s != 0;
      return true;
    }
    // normal form constant?
    try {
      auto rf = nf.of(d);
      if (rf.n.empty()) { out = c == LE || c == EQ; return true; }
      if (rf.den.empty() && rf.n.size() == 1 && rf.n.begin()->first.empty()) {
        int s = sgn(rf.n.begin()->second); out = c == LT ? s < 0 : c == LE ? s <= 0 : c == EQ ? s == 0 : s != 0; return true;
      }
      mpq_class lo, hi;
      if (rf.den.empty() && rf.n.size() <= 64 && poly_range(rf.n, lo, hi)) {
        if (hi < 0) { out = c != EQ; return true; }
        if (lo > 0) { out = c == NE; return true; }
        if (c == LE && hi <= 0) { out = true; return true; }
        if (c == LT && lo >= 0) { out = false; return true; }
      }
    } catch (TooBig &) {}
    return false;
  }
  bool decide(Cmp c, const Real &a, const Real &b) {
    if (a.id < 0 && b.id < 0) { return c == LT ? a.c < b.c : c == LE ? a.c <= b.c : c == EQ ? a.c == b.c : a.c != b.c; }
    if (a.id < 0 && std::isinf(a.c)) return (c == LT || c == LE) ? a.c < 0 : c == NE;
    if (b.id < 0 && std::isinf(b.c)) return (c == LT || c == LE) ? b.c > 0 : c == NE;
    Real d = a - b;
    int dn = nid(d);
    bool out;
    if (const_cmp(c, dn, out)) return out;
    Prop p; p.k = Prop::CMP; p.c = c; p.d = dn;
    if (pos < prefix.size()) {
      bool v = prefix[pos++].val;
      push(v ? p : notp(p));
      return v;
    }
    // which sides are feasible?
    bool can[2] = {false, false};
    for (size_t i = 0; i < pool.size(); ++i)
      if (alive[i]) { int r = ev(p, sample(i)); if (r >= 0) can[r] = true; }
    for (int s = 0; s < 2; ++s)
      if (!can[s]) {
        Assign m;
        z3::check_result r = zcheck({s ? p : notp(p)}, &m, z3timeout);
        if (r == z3::sat) { can[s] = true; addsample(m, s ? p : notp(p)); }
        else if (r == z3::unknown) can[s] = true;
      }
    if (!can[0] && !can[1]) throw PathInfeasible();
    bool v = can[1];
    ++forks;
    prefix.push_back({v, can[0] && can[1]});
    pos = prefix.size();
    push(v ? p : notp(p));
    return v;
  }
  void addsample(const Assign &m, const Prop &extra) {
    pool.emplace_back(new Sample);
    pool.back()->as = m;
    Evaluator &e = sample(pool.size() - 1);
    bool ok = sat_path(e) && ev(extra, e) == 1;
    alive.push_back(ok);
  }
  void push(const Prop &p) { path.push_back(p); filter(p); }
  bool next_path() {  // advance DFS; false when exhausted
    while (!prefix.empty() && !prefix.back().other_open) prefix.pop_back();
    if (prefix.empty()) return false;
    prefix.back().val = !prefix.back().val;
    prefix.back().other_open = false;
    return true;
  }
};
inline Engine &E() { static Engine *e = new Engine; return *e; }

// forking comparisons -------------------------------------------------------
#define SYM_CMP(op, expr)                                                              \
  constexpr bool operator op(const Real &x, const Real &y) { if (std::is_constant_evaluated()) return x.c op y.c; return expr; }               \
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type> \
  constexpr bool operator op(const Real &x, T y) { return x op Real(y); }                 \
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type> \
  constexpr bool operator op(T x, const Real &y) { return Real(x) op y; }
SYM_CMP(<, E().decide(LT, x, y))
SYM_CMP(>, E().decide(LT, y, x))
SYM_CMP(<=, E().decide(LE, x, y))
SYM_CMP(>=, E().decide(LE, y, x))
SYM_CMP(==, E().decide(EQ, x, y))
SYM_CMP(!=, E().decide(NE, x, y))
#undef SYM_CMP
inline Real::operator bool() const { return *this != Real(0); }

inline double todouble(const Real &r) {
  if (r.id < 0) return r.c;
  if (isc(r.id)) return cv(r.id).get_d();
  if (E().has_var(r.id)) throw Unsupported("concretisation of a symbolic value");
  Assign none; Evaluator e(none); return (double)e.eval(r.id);
}
inline Real::operator double() const { return todouble(*this); }
inline mpz_class floorz(const Real &x) {
  if (isconst(x)) { mpq_class q = cval(x); mpz_class r; mpz_fdiv_q(r.get_mpz_t(), q.get_num().get_mpz_t(), q.get_den().get_mpz_t()); return r; }
  // symbolic: fork over the integers, starting at a sampled value
  Engine &en = E();
  long k = 0;
  int s = en.alive_index();
  if (s >= 0) { k = (long)floorq(en.sample(s).eval(nid(x))); }
  while (en.decide(LT, x, Real((double)k))) --k;
  while (!en.decide(LT, x, Real((double)(k + 1)))) ++k;
  return mpz_class(k);
}
inline Real floor(const Real &x) { return mkR(mpq_class(floorz(x))); }
inline Real ceil(const Real &x) { return mkR(mpq_class(-floorz(-x))); }
inline Real round(const Real &x) { return x < Real(0) ? ceil(x - Real(0.5)) : floor(x + Real(0.5)); }
inline Real trunc(const Real &x) { return x < Real(0) ? ceil(x) : floor(x); }
inline Real rint(const Real &x) { Real f = floor(x); Real d = x - f; if (d < Real(0.5)) return f; if (Real(0.5) < d) return f + Real(1); return floorz(f * Real(0.5)) * 2 == floorz(f) ? f : f + Real(1); }
inline Real nearbyint(const Real &x) { return rint(x); }
inline bool signbit(const Real &x) { return x < Real(0); }
inline Real fmod(const Real &x, const Real &y) { return x - y * trunc(x / y); }
inline Real modf(const Real &x, Real *i) { *i = trunc(x); return x - *i; }
inline Real fmax(const Real &x, const Real &y) { return x < y ? y : x; }
inline Real fmin(const Real &x, const Real &y) { return y < x ? y : x; }
inline Real fdim(const Real &x, const Real &y) { return y < x ? x - y : Real(0); }
inline Real copysign(const Real &x, const Real &y) { return y < Real(0) ? -abs(x) : abs(x); }
inline Real ldexp(const Real &x, int n) { return x * ipow(Real(2), n); }
inline Real scalbn(const Real &x, int n) { return ldexp(x, n); }
inline Real lerp(const Real &a, const Real &b, const Real &t) { return a + t * (b - a); }
inline Real midpoint(const Real &a, const Real &b) { return (a + b) / Real(2); }
inline Real sinh(const Real &x) { return (exp(x) - exp(-x)) / Real(2); }
inline Real cosh(const Real &x) { return (exp(x) + exp(-x)) / Real(2); }
inline Real tanh(const Real &x) { Real e = exp(Real(2) * x); return (e - Real(1)) / (e + Real(1)); }
inline Real expm1(const Real &x) { return exp(x) - Real(1); }
inline Real log1p(const Real &x) { return log(Real(1) + x); }
inline Real exp2(const Real &x) { return exp(x * log(Real(2))); }
inline Real log2(const Real &x) { return log(x) / log(Real(2)); }
inline Real log10(const Real &x) { return log(x) / log(Real(10)); }
#define SYM_CONST1(f) inline Real f(const Real &x) { if (!isconst(x)) throw Unsupported(#f " of a symbolic value"); return Real(std::f(todouble(x))); }
SYM_CONST1(acos) SYM_CONST1(asin) SYM_CONST1(atan) SYM_CONST1(cbrt) SYM_CONST1(tgamma) SYM_CONST1(lgamma) SYM_CONST1(erf)
#undef SYM_CONST1
inline Real atan2(const Real &y, const Real &x) { if (!isconst(x) || !isconst(y)) throw Unsupported("atan2 of a symbolic value"); return Real(std::atan2(todouble(y), todouble(x))); }
inline long Real::toint() const {
  if (id < 0) return (long)c;
  return (*this < Real(0)) ? -floorz(-*this).get_si() : floorz(*this).get_si();
}
inline bool isfinite(const Real &x) { return x.id >= 0 || std::isfinite(x.c); }
inline bool isnan(const Real &x) { return x.id < 0 && std::isnan(x.c); }
inline bool isinf(const Real &x) { return x.id < 0 && std::isinf(x.c); }
inline const Real &(max)(const Real &a, const Real &b) { return a < b ? b : a; }
inline const Real &(min)(const Real &a, const Real &b) { return b < a ? b : a; }

// text i/o: constants print as decimals, symbolic values as tokens <@id@>
inline std::ostream &operator<<(std::ostream &o, const Real &r) {
  if (r.id >= 0 && !isc(r.id)) {
    std::string t = "@" + std::to_string(r.id) + "@";
    return o << t;
  }
  return o << todouble(r);
}
inline bool token(const std::string &s, size_t at, Real &out, size_t &end) {
  if (at >= s.size() || s[at] != '@') return false;
  size_t e = s.find('@', at + 1);
  if (e == std::string::npos) return false;
  out = R(std::atoi(s.c_str() + at + 1));
  end = e + 1;
  return true;
}
inline std::istream &operator>>(std::istream &i, Real &r) {
  i >> std::ws;
  if (i.peek() == '@') {
    std::string s; char c; i.get(c); s += c;
    while (i.get(c)) { s += c; if (c == '@') break; }
    size_t e;
    if (!token(s, 0, r, e)) i.setstate(std::ios::failbit);
    return i;
  }
  double d; i >> d; if (i) r = Real(d); return i;
}

inline Real vstod(const std::string &s, size_t *n = nullptr) {
  size_t b = s.find_first_not_of(" \t\r\n");
  Real r; size_t e;
  if (b != std::string::npos && token(s, b, r, e)) { if (n) *n = e; return r; }
  return Real(std::stod(s, n));
}
inline Real vatof(const char *c) {
  std::string s(c);
  size_t b = s.find_first_not_of(" \t\r\n");
  Real r; size_t e;
  if (b != std::string::npos && token(s, b, r, e)) return r;
  return Real(::atof(c));
}

inline Real vstrtod(const char *c, char **end) {
  std::string s(c);
  size_t b = s.find_first_not_of(" \t\r\n");
  Real r; size_t e;
  if (b != std::string::npos && token(s, b, r, e)) { if (end) *end = const_cast<char *>(c) + e; return r; }
  return Real(::strtod(c, end));
}

// derivative of a term with respect to a variable ---------------------------
inline Real diff(const Real &f, const Real &var) {
  if (f.id < 0) return Real(0);
  int vn = nid(var);
  std::unordered_map<int, Real> memo;
  std::function<Real(int)> go = [&](int i) -> Real {
    auto it = memo.find(i);
    if (it != memo.end()) return it->second;
    Node n = A().nodes[i];
    Real r(0);
    switch (n.op) {
      case CST: break;
      case VAR: r = i == vn ? Real(1) : Real(0); break;
      case ADD: r = go(n.a) + go(n.b); break;
      case MUL: r = go(n.a) * R(n.b) + R(n.a) * go(n.b); break;
      case DIV: { Real da = go(n.a), db = go(n.b); r = da / R(n.b) - R(n.a) * db / (R(n.b) * R(n.b)); } break;
      case SQRT: { Real d = go(n.a); r = d / (Real(2) * R(i)); } break;
      case EXP: r = go(n.a) * R(i); break;
      case LOG: r = go(n.a) / R(n.a); break;
      case SIN: r = go(n.a) * cos(R(n.a)); break;
      case COS: r = -(go(n.a) * sin(R(n.a))); break;
      case ABS: { Real d = go(n.a); if (!(isconst(d) && cval(d) == 0)) r = d * R(n.a) / R(i); } break;
      case UF: { Real d = go(n.a); if (!(isconst(d) && cval(d) == 0)) r = d * uf(A().ufnames[n.b] + "'", R(n.a)); } break;
    }
    memo.emplace(i, r);
    return r;
  };
  return go(f.id);
}
// substitute a variable by a term
inline Real subst(const Real &f, const std::vector<std::pair<Real, Real>> &s) {
  if (f.id < 0) return f;
  std::unordered_map<int, Real> memo;
  for (auto &p : s) memo.emplace(nid(p.first), p.second);
  std::function<Real(int)> go = [&](int i) -> Real {
    auto it = memo.find(i);
    if (it != memo.end()) return it->second;
    Node n = A().nodes[i];
    Real r = R(i);
    switch (n.op) {
      case CST: case VAR: break;
      case ADD: r = go(n.a) + go(n.b); break;
      case MUL: r = go(n.a) * go(n.b); break;
      case DIV: { Real x = go(n.a), y = go(n.b); r = x / y; } break;
      case SQRT: r = sqrt(go(n.a)); break;
      case EXP: r = exp(go(n.a)); break;
      case LOG: r = log(go(n.a)); break;
      case SIN: r = sin(go(n.a)); break;
      case COS: r = cos(go(n.a)); break;
      case ABS: r = abs(go(n.a)); break;
      case UF: r = uf(A().ufnames[n.b], go(n.a)); break;
    }
    memo.emplace(i, r);
    return r;
  };
  return go(f.id);
}
}  // namespace sym

namespace std {
// complex numbers over Real: as the primary template, with the conversions
// from integers that complex<double> has
template <>
class complex<sym::Real> {
  sym::Real re, im;
  template <class T> using arith = typename enable_if<is_arithmetic<T>::value || is_enum<T>::value>::type;
 public:
  typedef sym::Real value_type;
  constexpr complex(const sym::Real &r = sym::Real(), const sym::Real &i = sym::Real()) : re(r), im(i) {}
  template <class T, class = arith<T>> constexpr complex(T r) : re(r), im() {}
  template <class U> complex(const complex<U> &o) : re(o.real()), im(o.imag()) {}
  constexpr complex(const complex &) = default;
  constexpr complex &operator=(const complex &) = default;
  constexpr complex __rep() const { return *this; }
  constexpr sym::Real real() const { return re; }
  constexpr sym::Real imag() const { return im; }
  void real(sym::Real v) { re = v; }
  void imag(sym::Real v) { im = v; }
  complex &operator=(const sym::Real &v) { re = v; im = sym::Real(); return *this; }
  template <class T, class = arith<T>> complex &operator=(T v) { re = sym::Real(v); im = sym::Real(); return *this; }
  complex &operator+=(const sym::Real &v) { re += v; return *this; }
  complex &operator-=(const sym::Real &v) { re -= v; return *this; }
  complex &operator*=(const sym::Real &v) { re *= v; im *= v; return *this; }
  complex &operator/=(const sym::Real &v) { re /= v; im /= v; return *this; }
  template <class U> complex &operator+=(const complex<U> &o) { re += o.real(); im += o.imag(); return *this; }
  template <class U> complex &operator-=(const complex<U> &o) { re -= o.real(); im -= o.imag(); return *this; }
  template <class U> complex &operator*=(const complex<U> &o) { sym::Real r = re * o.real() - im * o.imag(); im = re * o.imag() + im * o.real(); re = r; return *this; }
  template <class U> complex &operator/=(const complex<U> &o) {
    sym::Real c = o.real(), d = o.imag(), r = re * c + im * d, n = c * c + d * d; im = (im * c - re * d) / n; re = r / n; return *this;
  }
};
using sym::sqrt;
using sym::exp;
using sym::log;
using sym::sin;
using sym::cos;
using sym::tan;
using sym::abs;
using sym::fabs;
using sym::floor;
using sym::ceil;
using sym::round;
using sym::trunc;
using sym::hypot;
using sym::fma;
using sym::pow;
using sym::rint; using sym::nearbyint; using sym::signbit; using sym::fmod; using sym::modf; using sym::fmax; using sym::fmin; using sym::fdim; using sym::copysign; using sym::ldexp; using sym::scalbn; using sym::lerp; using sym::midpoint;
using sym::sinh; using sym::cosh; using sym::tanh; using sym::expm1; using sym::log1p; using sym::exp2; using sym::log2; using sym::log10; using sym::acos; using sym::asin; using sym::atan; using sym::atan2; using sym::cbrt; using sym::tgamma; using sym::lgamma; using sym::erf;
inline sym::Real vc_stod(const string &s, size_t *n = nullptr) { return sym::vstod(s, n); }
inline sym::Real vc_atof(const char *c) { return sym::vatof(c); }
inline sym::Real vc_strtod(const char *c, char **e) { return sym::vstrtod(c, e); }
inline long long llround(const sym::Real &x) { return sym::floorz(sym::round(x)).get_si(); }
inline long lrint(const sym::Real &x) { return sym::floorz(sym::rint(x)).get_si(); }
using sym::isfinite;
using sym::isnan;
using sym::isinf;
inline long lround(const sym::Real &x) { return sym::floorz(sym::round(x)).get_si(); }
inline string to_string(const sym::Real &x) { ostringstream o; if (sym::isconst(x)) return to_string(sym::todouble(x)); o << x; return o.str(); }
// stod on tokens: see STOD macro in vc.hpp
template <>
struct numeric_limits<sym::Real> : numeric_limits<double> {
  static constexpr sym::Real infinity() noexcept { return sym::Real(numeric_limits<double>::infinity()); }
  static constexpr sym::Real max() noexcept { return sym::Real(numeric_limits<double>::max()); }
  static constexpr sym::Real min() noexcept { return sym::Real(numeric_limits<double>::min()); }
  static constexpr sym::Real lowest() noexcept { return sym::Real(numeric_limits<double>::lowest()); }
  static constexpr sym::Real epsilon() noexcept { return sym::Real(numeric_limits<double>::epsilon()); }
};
template <> struct hash<sym::Real> { size_t operator()(const sym::Real &r) const { return (size_t)sym::nid(r); } };
}  // namespace std

