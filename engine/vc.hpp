// Verification-condition API.  A harness registers contracts (vc::add) that
// call the real functions of /repo between `require` and `ensure` clauses.
//   symbolic build : every clause is an obligation proved for all inputs
//                    (exact normal form / z3), path by path;
//   native build   : the same contracts run on machine doubles (replay of
//                    counterexamples, bounded stand-in).
#pragma once
#include "prelude.hpp"
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <sys/stat.h>

namespace vc {
typedef vc_machine_double md;
struct Ob { std::string name, targets; std::function<void()> f; int samples; };
inline std::vector<Ob> &obs() { static std::vector<Ob> *v = new std::vector<Ob>; return *v; }
inline void add(const std::string &name, const std::string &targets, std::function<void()> f, int samples = 0) { obs().push_back({name, targets, std::move(f), samples}); }

enum Status { HELD = 0, UNDECIDED = 1, REFUTED = 2 };
struct Goal { long n = 0, held = 0; std::map<std::string, long> by; int st = HELD; std::string note, cex; };
struct State {
  std::string ob;
  std::map<std::string, Goal> goals;
  long paths = 0, reached = 0, infeasible = 0, cut = 0;
  std::chrono::steady_clock::time_point t0;
  md budget = 60;
  std::vector<std::pair<std::string, long>> choices;  // of the current path
  std::map<std::string, md> replay; bool replaying = false;
  std::vector<std::pair<std::string, md>> inputs;  // native: inputs drawn
  std::set<std::string> notes;
  long attempts = 0;
};
inline State &S() { static State *s = new State; return *s; }
struct Discard {};
struct OutOfTime {};
inline md elapsed() { return std::chrono::duration<md>(std::chrono::steady_clock::now() - S().t0).count(); }
inline void note(const std::string &s) { S().notes.insert(s); }
inline void tick() { if (elapsed() > S().budget) throw OutOfTime(); }

#ifndef VC_NATIVE
typedef sym::Prop P;
inline P lt(const sym::Real &a, const sym::Real &b) { return sym::lt(a, b); }
inline P le(const sym::Real &a, const sym::Real &b) { return sym::le(a, b); }
inline P equ(const sym::Real &a, const sym::Real &b) { return sym::eqp(a, b); }
inline P all(std::vector<P> v) { return sym::andp(std::move(v)); }
inline P any(std::vector<P> v) { return sym::orp(std::move(v)); }
inline P no(const P &p) { return sym::notp(p); }
inline P tru(bool b) { return sym::boolp(b); }
inline std::string num(sym::Q v) { char b[64]; quadmath_snprintf(b, sizeof b, "%.30Qg", v); return b; }
inline std::string cexjson(const sym::Assign &as) {
  std::ostringstream o; o << "{";
  bool first = true;
  for (size_t i = 0; i < sym::A().vars.size() && i < as.size(); ++i) {
    if (sym::A().vars[i].internal) continue;
    o << (first ? "" : ",") << "\"" << sym::A().vars[i].name << "\":" << num(as[i]); first = false;
  }
  for (auto &c : S().choices) { o << (first ? "" : ",") << "\"#" << c.first << "\":" << c.second; first = false; }
  o << "}"; return o.str();
}
inline void record(const std::string &tag, int st, const std::string &by, const std::string &nt = "", const std::string &cex = "") {
  Goal &g = S().goals[tag]; ++g.n;
  if (st == HELD) { ++g.held; ++g.by[by]; return; }
  if (st > g.st) { g.st = st; g.note = nt; g.cex = cex; }
}
inline bool branch() {  // demonic free choice
  auto &e = sym::E();
  if (e.pos < e.prefix.size()) return e.prefix[e.pos++].val;
  e.prefix.push_back({true, true}); e.pos = e.prefix.size(); return true;
}
inline int choose(const std::string &name, int lo, int hi) {
  int v = hi;
  for (int k = lo; k < hi; ++k) if (branch()) { v = k; break; }
  S().choices.push_back({name, v});
  return v;
}
inline void require(const P &p) {
  auto &e = sym::E();
  e.push(p);
  if (!e.any_alive()) {
    sym::Assign m;
    auto r = e.zcheck({}, &m, 4000);
    if (r == z3::unsat) throw sym::PathInfeasible();
    if (r == z3::sat) { e.pool.emplace_back(new sym::Engine::Sample); e.pool.back()->as = m; auto &ev = e.sample(e.pool.size() - 1); e.alive.push_back(e.sat_path(ev)); }
  }
}
inline sym::Real in(const std::string &name, md lo, md hi) {
  sym::Real x = sym::mkvar(name, lo, hi);
  auto &e = sym::E();
  if (e.bounded.insert(sym::nid(x)).second) e.box[sym::nid(x)] = {mpq_class(lo), mpq_class(hi)}, e.push(sym::andp({sym::le(sym::Real(lo), x), sym::le(x, sym::Real(hi))}));
  return x;
}
// a positive auxiliary etc. is just in() + require()
inline sym::Real opaque(const std::string &n, const sym::Real &x) { return sym::uf(n, x); }
// Modular reasoning: from here on the normal form treats this term (the result
// of a callee proved under its own contract) as an arbitrary value.
inline void seal(const sym::Real &r) {
  if (sym::isconst(r)) return;
  auto &nf = sym::E().nf;
  if (nf.memo.count(r.id) && nf.sealed.count(r.id)) return;
  nf.sealed.insert(r.id);
  auto rf = std::make_shared<sym::Normaliser::RF>();
  rf->n = nf.single(nf.newatom(0, r.id));
  nf.memo[r.id] = rf;
}
inline int witness(const std::function<int(sym::Evaluator &)> &bad) {  // index of an alive sample that refutes
  auto &e = sym::E();
  for (size_t i = 0; i < e.pool.size(); ++i) if (e.alive[i]) { int r = bad(e.sample(i)); if (r == 1) return (int)i; }
  return -1;
}
inline bool more_samples(const std::function<int(sym::Evaluator &)> &bad, std::string &cex) {
  auto &e = sym::E();
  for (int k = 0; k < 24; ++k) {
    e.pool.emplace_back(new sym::Engine::Sample);
    auto &ev = e.sample(e.pool.size() - 1);
    bool ok = e.sat_path(ev);
    e.alive.push_back(ok);
    if (ok && bad(ev) == 1) { cex = cexjson(e.pool.back()->as); return true; }
  }
  return false;
}
inline void eq(const std::string &tag, const sym::Real &a, const sym::Real &s, md tol = 1e-8) {
  using namespace sym;
  tick();
  if (a.id >= 0 && a.id == s.id) { record(tag, HELD, "identity"); return; }
  if (isconst(a) && isconst(s)) {
    mpq_class d = cval(a) - cval(s);
    if (d == 0) record(tag, HELD, "exact-arithmetic");
    else {
      md x = cval(a).get_d(), y = cval(s).get_d();
      if (std::fabs(x - y) <= tol * std::max(1., std::max(std::fabs(x), std::fabs(y)))) record(tag, HELD, "rational-arithmetic-within-tolerance");
      else { Assign none; std::ostringstream o; o << "got " << x << " expected " << y; auto &e = E(); int i = e.alive_index(); if (i >= 0) { e.sample(i); none = e.pool[i]->as; } record(tag, REFUTED, "", o.str(), cexjson(none)); }
    }
    return;
  }
  int na = nid(a), ns = nid(s);
  auto bad = [&](Evaluator &ev) { Q x = ev.eval(na), y = ev.eval(ns); if (isnanq(x) || isnanq(y)) return 0; Q sc = fmaxq(fabsq(x), fabsq(y)); return fabsq(x - y) > (tol == 1e-8 ? (Q)1e-11 * fmaxq((Q)1e-4, sc) : (Q)tol * fmaxq(1, sc)) ? 1 : 0; };
  auto &e = E();
  int w = witness(bad);
  if (w >= 0) {
    Evaluator &ev = e.sample(w);
    record(tag, REFUTED, "", "got " + num(ev.eval(na)) + " expected " + num(ev.eval(ns)), cexjson(e.pool[w]->as));
    return;
  }
  std::string why;
  try {
    auto rf = e.nf.of(nid(a - s));
    if (e.nf.zero(rf.n)) { record(tag, HELD, "normal-form"); return; }
    // coefficient-wise rounding residue (literals such as 1e-16 or tables)
    if (rf.den.empty()) {
      mpq_class big = 0, ref = 0;
      for (auto &t : rf.n) if (::abs(t.second) > big) big = ::abs(t.second);
      auto rs = e.nf.of(ns);
      for (auto &t : rs.n) if (::abs(t.second) > ref) ref = ::abs(t.second);
      auto ra = e.nf.of(na);
      for (auto &t : ra.n) if (::abs(t.second) > ref) ref = ::abs(t.second);
      if (big * (long)rf.n.size() <= mpq_class(1e-11) * (ref > 1 ? ref : mpq_class(1))) { record(tag, HELD, "normal-form-up-to-literal-rounding"); return; }
    }
    why = "normal form of the difference is not zero";
  } catch (TooBig &) { why = "normal form too large"; }
  // maybe the path condition makes them equal
  if (!e.path.empty()) {
    Assign m;
    auto r = e.zcheck({nep(a, s)}, &m, 8000);
    if (r == z3::unsat) { record(tag, HELD, "z3"); return; }
    if (r == z3::sat) {
      e.pool.emplace_back(new Engine::Sample); e.pool.back()->as = m; auto &ev = e.sample(e.pool.size() - 1); bool ok = e.sat_path(ev); e.alive.push_back(ok);
      if (ok && bad(ev) == 1) { record(tag, REFUTED, "", "got " + num(ev.eval(na)) + " expected " + num(ev.eval(ns)), cexjson(m)); return; }
    }
  }
  std::string cex;
  if (more_samples(bad, cex)) { record(tag, REFUTED, "", "difference at a sampled input", cex); return; }
  record(tag, UNDECIDED, "", why + "; no numeric difference at the samples");
}
// comparisons whose difference is identically zero are decided by the normal form
inline sym::Prop simp(const sym::Prop &p) {
  using namespace sym;
  if (p.k == Prop::CMP) {
    auto &nf = E().nf; bool out;
    if (!isc(p.d) && !E().has_var(p.d) && E().const_cmp(p.c, p.d, out)) return boolp(out);
    try { auto rf = nf.of(p.d); if (nf.zero(rf.n)) return boolp(p.c == LE || p.c == EQ); } catch (TooBig &) {}
    return p;
  }
  Prop q = p; q.ch.clear();
  for (auto &c : p.ch) {
    Prop r = simp(c);
    if (p.k == Prop::AND && r.k == Prop::F) return r;
    if (p.k == Prop::OR && r.k == Prop::T) return r;
    if (p.k == Prop::NOT && (r.k == Prop::T || r.k == Prop::F)) return boolp(r.k == Prop::F);
    if ((p.k == Prop::AND && r.k == Prop::T) || (p.k == Prop::OR && r.k == Prop::F)) continue;
    q.ch.push_back(r);
  }
  if (q.ch.empty()) { if (p.k == Prop::AND) return boolp(true); if (p.k == Prop::OR) return boolp(false); }
  return q;
}
inline void prop(const std::string &tag, const P &p_) {
  using namespace sym;
  tick();
  P p = simp(p_);
  if (p.k == Prop::T) { record(tag, HELD, "exec"); return; }
  auto &e = E();
  auto bad = [&](Evaluator &ev) { return e.ev(p, ev) == 0 ? 1 : 0; };
  if (p.k == Prop::F) { int i = e.alive_index(); if (i >= 0) e.sample(i); record(tag, REFUTED, "", "false on this path", cexjson(i >= 0 ? e.pool[i]->as : Assign())); return; }
  int w = witness(bad);
  if (w >= 0) { record(tag, REFUTED, "", "clause false", cexjson(e.pool[w]->as)); return; }
  Assign m;
  auto r = e.zcheck({notp(p)}, &m, 15000);
  if (r == z3::unsat) { record(tag, HELD, "z3"); return; }
  if (r == z3::sat) {
    e.pool.emplace_back(new Engine::Sample); e.pool.back()->as = m; auto &ev = e.sample(e.pool.size() - 1); bool ok = e.sat_path(ev); e.alive.push_back(ok);
    if (ok && bad(ev) == 1) { record(tag, REFUTED, "", "clause false", cexjson(m)); return; }
  }
  std::string cex;
  if (more_samples(bad, cex)) { record(tag, REFUTED, "", "clause false at a sampled input", cex); return; }
  record(tag, UNDECIDED, "", r == z3::sat ? "spurious model" : "z3: unknown");
}
inline void check(const std::string &tag, bool b, const std::string &nt = "") {
  if (b) { record(tag, HELD, "exec"); return; }
  auto &e = sym::E(); int i = e.alive_index(); if (i >= 0) e.sample(i);
  // the path itself must be feasible to blame the code
  if (i < 0) { sym::Assign m; auto r = e.zcheck({}, &m, 8000); if (r == z3::unsat) throw sym::PathInfeasible(); if (r == z3::unknown) { record(tag, UNDECIDED, "", "false on a path of unknown feasibility " + nt); return; } record(tag, REFUTED, "", nt, cexjson(m)); return; }
  record(tag, REFUTED, "", nt.empty() ? "false on this path" : nt, cexjson(e.pool[i]->as));
}
// f(x) differentiated with respect to the input x
template <class F> inline sym::Real deriv(F f, const sym::Real &x) { return sym::diff(f(x), x); }
inline md value(const sym::Real &r) { auto &e = sym::E(); if (sym::isconst(r)) return sym::todouble(r); int i = e.alive_index(); return i < 0 ? 0 : (md)e.sample(i).eval(sym::nid(r)); }
inline constexpr bool native = false;
#else
typedef bool P;
inline P lt(md a, md b) { return a < b; }
inline P le(md a, md b) { return a <= b + 1e-9 * std::max(1., std::max(std::fabs(a), std::fabs(b))); }
inline P equ(md a, md b) { return std::fabs(a - b) <= 1e-9 * std::max(1., std::max(std::fabs(a), std::fabs(b))); }
inline P all(std::vector<bool> v) { for (bool b : v) if (!b) return false; return true; }
inline P any(std::vector<bool> v) { for (bool b : v) if (b) return true; return false; }
inline P no(P p) { return !p; }
inline P tru(bool b) { return b; }
struct Nat { std::mt19937_64 rng; std::vector<std::pair<int, int>> prefix; size_t pos = 0; bool chain = false; };
inline Nat &N() { static Nat *n = new Nat; return *n; }
inline std::string cexjson() {
  std::ostringstream o; o.precision(17); o << "{"; bool first = true;
  for (auto &p : S().inputs) { o << (first ? "" : ",") << "\"" << p.first << "\":" << p.second; first = false; }
  for (auto &c : S().choices) { o << (first ? "" : ",") << "\"#" << c.first << "\":" << c.second; first = false; }
  o << "}"; return o.str();
}
inline void record(const std::string &tag, int st, const std::string &nt = "") {
  Goal &g = S().goals[!N().chain ? tag : st == HELD ? std::string("same-after-other-contracts") : S().ob + "/" + tag]; ++g.n;
  if (st == HELD) { ++g.held; ++g.by["run"]; return; }
  if (st > g.st) { g.st = st; g.note = nt; g.cex = cexjson(); }
}
inline int choose(const std::string &name, int lo, int hi) {
  int v;
  auto it = S().replay.find("#" + name);
  if (S().replaying && it != S().replay.end()) v = (int)it->second;
  else {
    auto &n = N();
    if (n.chain) v = std::uniform_int_distribution<int>(lo, hi)(n.rng);
    else if (n.pos < n.prefix.size()) v = n.prefix[n.pos].first;
    else { v = lo; n.prefix.push_back({lo, hi}); }
    ++n.pos;
  }
  S().choices.push_back({name, v});
  return v;
}
inline void require(P p) { if (!p) throw Discard(); }
inline md in(const std::string &name, md lo, md hi) {
  for (auto &p : S().inputs) if (p.first == name) return p.second;
  md v;
  auto it = S().replay.find(name);
  if (S().replaying && it != S().replay.end()) v = it->second;
  else v = std::uniform_real_distribution<md>(lo, hi)(N().rng);
  S().inputs.push_back({name, v});
  return v;
}
inline md ufhash(const std::string &n) { unsigned h = 2166136261u; for (char c : n) h = (h ^ (unsigned char)c) * 16777619u; return (h % 1009) / 101.0; }
inline md opaque(const std::string &n, md x) { md h = ufhash(n); return std::sin(x * (1.37 + 0.61 * h) + (0.3 + h)) * 2 + (0.11 * (h + 1)) * x; }
inline void eq(const std::string &tag, md a, md s, md tol = 1e-8) {
  bool ok = std::fabs(a - s) <= tol * std::max(1., std::max(std::fabs(a), std::fabs(s)));
  std::ostringstream o; if (!ok) { o.precision(17); o << "got " << a << " expected " << s; }
  record(tag, ok ? HELD : REFUTED, o.str());
}
inline void prop(const std::string &tag, P p) { record(tag, p ? HELD : REFUTED, p ? "" : "clause false"); }
inline void check(const std::string &tag, bool b, const std::string &nt = "") { record(tag, b ? HELD : REFUTED, b ? "" : (nt.empty() ? "clause false" : nt)); }
template <class F> inline md deriv(F f, md x) {
  // Richardson-extrapolated central differences
  md h = 2e-2, T[4][4];
  for (int i = 0; i < 4; ++i, h /= 2) {
    T[i][0] = (f(x + h) - f(x - h)) / (2 * h);
    md p = 4;
    for (int j = 1; j <= i; ++j, p *= 4) T[i][j] = (p * T[i][j - 1] - T[i - 1][j - 1]) / (p - 1);
  }
  return T[3][3];
}
inline md value(md r) { return r; }
inline void seal(md) {}
inline constexpr bool native = true;
#endif

// ---- mode independent helpers (T is the scalar of the build) ----------------
#ifndef VC_NATIVE
typedef sym::Real Sc;
#else
typedef md Sc;
#endif
typedef std::complex<Sc> Cx;
inline void eq(const std::string &tag, const Cx &a, const Cx &s, md tol = 1e-8) { eq(tag, a.real(), s.real(), tol); eq(tag, a.imag(), s.imag(), tol); }
template <class D1, class D2>
inline void eqm(const std::string &tag, const Eigen::MatrixBase<D1> &a_, const Eigen::MatrixBase<D2> &s_, md tol = 1e-8) {
  typename D1::PlainObject a = a_; typename D2::PlainObject s = s_;
  check(tag + ".size", a.rows() == s.rows() && a.cols() == s.cols());
  if (a.rows() != s.rows() || a.cols() != s.cols()) return;
  for (int j = 0; j < a.cols(); ++j) for (int i = 0; i < a.rows(); ++i) eq(tag, a(i, j), s(i, j), tol);
}
inline void eq_int(const std::string &tag, long a, long b) { check(tag, a == b, a == b ? "" : "got " + std::to_string(a) + " expected " + std::to_string(b)); }
// expect that evaluating f is a declared error: not used for now
inline std::string esc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
inline std::string &phase() { static std::string *s = new std::string; return *s; }

inline void emit(FILE *f, const Ob &o, const std::string &err, int errst) {
  State &s = S();
  std::ostringstream j; j.precision(6);
  j << "{\"ob\":\"" << esc(o.name) << "\",\"targets\":\"" << esc(o.targets) << "\",\"paths\":" << s.paths << ",\"reached\":" << s.reached << ",\"infeasible\":" << s.infeasible << ",\"wall\":" << elapsed()
#ifndef VC_NATIVE
    << ",\"z3calls\":" << sym::E().z3calls << ",\"z3time\":" << sym::E().z3time << ",\"nodes\":" << sym::A().nodes.size()
#endif
    << ",\"err\":\"" << esc(err) << "\",\"errst\":" << errst << ",\"notes\":[";
  bool first = true; for (auto &n : s.notes) { j << (first ? "" : ",") << "\"" << esc(n) << "\""; first = false; }
  j << "],\"goals\":{";
  first = true;
  for (auto &g : s.goals) {
    j << (first ? "" : ",") << "\"" << esc(g.first) << "\":{\"n\":" << g.second.n << ",\"held\":" << g.second.held << ",\"st\":" << g.second.st << ",\"note\":\"" << esc(g.second.note) << "\",\"cex\":" << (g.second.cex.empty() ? "null" : g.second.cex) << ",\"by\":{";
    bool f2 = true; for (auto &b : g.second.by) { j << (f2 ? "" : ",") << "\"" << b.first << "\":" << b.second; f2 = false; }
    j << "}}"; first = false;
  }
  j << "}}\n";
  std::string t = j.str();
  fwrite(t.data(), 1, t.size(), f); fflush(f);
}
inline std::string stopnote(const std::exception &e) { return e.what(); }

struct Stop : std::runtime_error { using std::runtime_error::runtime_error; };

inline void run_ob(const Ob &o, FILE *out, md budget, int nsamp, unsigned long seed) {
  State &s = S();
  s.ob = o.name; s.t0 = std::chrono::steady_clock::now(); s.budget = budget;
  std::string err; int errst = HELD;
#ifndef VC_NATIVE
  auto &e = sym::E();
  e.rng.seed(seed * 1000003 + 17);
  e.seed_pool(48);
  try {
    do {
      tick();
      e.reset_run(); s.choices.clear(); ++s.paths;
      try {
        o.f();
        // vacuity: the path must be reachable
        if (e.any_alive()) ++s.reached;
        else { sym::Assign m; auto r = e.zcheck({}, &m, 5000); if (r == z3::sat) ++s.reached; else if (r == z3::unsat) ++s.infeasible; }
      } catch (sym::PathInfeasible &) { ++s.infeasible; }
      catch (Discard &) { ++s.infeasible; }
      catch (Stop &x) { check("no-failed-assertion", false, x.what()); }
      catch (sym::ContractStop &x) { check("defined-arithmetic", false, x.what()); }
      catch (sym::Unsupported &x) { record("engine", UNDECIDED, "", x.what()); }
      catch (sym::TooBig &x) { record("engine", UNDECIDED, "", x.what()); }
    } while (e.next_path());
  } catch (OutOfTime &) { err = "time budget exhausted after " + std::to_string(s.paths) + " paths"; errst = UNDECIDED; }
  catch (std::bad_alloc &) { err = "memory budget exhausted"; errst = UNDECIDED; }
  catch (sym::PathInfeasible &) { }
  catch (std::exception &x) { err = std::string("exception: ") + x.what(); errst = REFUTED; if (std::string(x.what()) == "unassigned variable") errst = UNDECIDED; }
#else
  auto &n = N();
  n.rng.seed(seed * 7919 + 5);
  if (o.samples) nsamp = o.samples;
  try {
    if (s.replaying) {
      s.choices.clear(); ++s.paths; ++s.attempts;
      try { o.f(); ++s.reached; } catch (Discard &) { ++s.infeasible; } catch (Stop &x) { check("no-failed-assertion", false, x.what()); }
    } else
    for (;;) {
      int done = 0;
      for (int k = 0; k < nsamp * 40 && done < nsamp; ++k) {
        tick();
        n.pos = 0; s.choices.clear(); s.inputs.clear(); ++s.attempts; ++s.paths;
        try { o.f(); ++s.reached; ++done; } catch (Discard &) { ++s.infeasible; } catch (Stop &x) { check("no-failed-assertion", false, x.what()); ++done; }
        if (s.inputs.empty()) break;
      }
      n.prefix.resize(std::min(n.prefix.size(), n.pos));
      while (!n.prefix.empty() && n.prefix.back().first == n.prefix.back().second) n.prefix.pop_back();
      if (n.prefix.empty()) break;
      ++n.prefix.back().first;
    }
  } catch (OutOfTime &) { err = "time budget exhausted"; errst = UNDECIDED; }
  catch (std::bad_alloc &) { err = "memory budget exhausted"; errst = UNDECIDED; }
  catch (std::exception &x) { err = std::string("exception: ") + x.what() + " inputs " + cexjson(); errst = REFUTED; }
#endif
  emit(out, o, err, errst);
}

#ifdef VC_NATIVE
// history: one sample of every contract in one process, one after the other in a random order, so that a result which
// depends on what was computed before (a cache, a static buffer) is seen
inline void run_chain(int k, const std::vector<int> &list, FILE *out, md budget, unsigned long seed) {
  State &s = S(); auto &n = N(); n.chain = true; n.rng.seed(seed * 104729 + 31 * k + 7);
  Ob o = {"history/" + std::to_string(k), "all functions under contract, one after the other in one process", {}, 0};
  s.t0 = std::chrono::steady_clock::now(); s.budget = budget;
  std::vector<int> l;
  for (int r = 0; r < 3; ++r) { std::vector<int> t = list; std::shuffle(t.begin(), t.end(), n.rng); l.insert(l.end(), t.begin(), t.end()); }
  std::string err; int errst = HELD;
  try {
    for (int i : l) {
      s.ob = obs()[i].name;
      for (int a = 0; a < 6; ++a) {
        tick(); n.pos = 0; s.choices.clear(); s.inputs.clear(); ++s.paths;
        try { obs()[i].f(); ++s.reached; break; } catch (Discard &) { ++s.infeasible; } catch (Stop &x) { check("no-failed-assertion", false, x.what()); break; }
      }
    }
  } catch (OutOfTime &) { }
  catch (std::bad_alloc &) { }
  catch (std::exception &x) { err = "after other contracts, " + s.ob + ": exception: " + x.what() + " inputs " + cexjson(); errst = REFUTED; }
  emit(out, o, err, errst);
}
#endif

inline int main_(int argc, char **argv) {
  // args: OUT JOBS OB_BUDGET TOTAL_BUDGET NSAMP SEED [only=<regex>] [replay <ob> <name=value>...]
  std::string outf = argv[1];
  int jobs = atoi(argv[2]);
  md budget = VC_STRTOD(argv[3], nullptr), total = VC_STRTOD(argv[4], nullptr);
  int nsamp = atoi(argv[5]);
  unsigned long seed = strtoul(argv[6], nullptr, 10);
  std::string only, rep;
  for (int i = 7; i < argc; ++i) {
    std::string a = argv[i];
    if (a.rfind("only=", 0) == 0) only = a.substr(5);
    else if (a == "replay") {
      rep = argv[++i]; S().replaying = true;
      for (++i; i < argc; ++i) { std::string b = argv[i]; auto e = b.rfind('='); S().replay[b.substr(0, e)] = VC_STRTOD(b.c_str() + e + 1, nullptr); }
    }
  }
  auto start = std::chrono::steady_clock::now();
  auto tot = [&] { return std::chrono::duration<md>(std::chrono::steady_clock::now() - start).count(); };
  std::vector<int> todo;
  for (size_t i = 0; i < obs().size(); ++i) {
    if (!rep.empty()) { if (obs()[i].name != rep) continue; }
    else if (!only.empty() && !std::regex_search(obs()[i].name, std::regex(only))) continue;
    todo.push_back((int)i);
  }
  FILE *out = fopen(outf.c_str(), "w");
  fprintf(out, "{\"registered\":%zu,\"scheduled\":%zu}\n", obs().size(), todo.size()); fflush(out);
  std::map<pid_t, std::pair<int, md>> running;
  size_t next = 0;
  auto part = [&](int i) { return outf + ".p" + std::to_string(i); };
  std::map<int, md> cost;  // seconds per run of the contracts which finished
  auto reap = [&](pid_t p, int stt) {
    int i = running[p].first; md since = tot() - running[p].second; running.erase(p);
    bool got = false;
    { std::ifstream f(part(i)); std::string l; while (std::getline(f, l)) if (!l.empty()) { got = true; size_t q = l.find("\"paths\":"); int np = q == std::string::npos ? 1 : std::max(1, atoi(l.c_str() + q + 8)); cost[i] = since / np; fprintf(out, "%s\n", l.c_str()); } }
    std::string log; { std::ifstream f(part(i) + ".err"); std::stringstream b; b << f.rdbuf(); log = b.str(); if (log.size() > 600) log = log.substr(log.size() - 600); }
    unlink(part(i).c_str()); unlink((part(i) + ".err").c_str());
    if (!got) {
      int st = UNDECIDED; std::string why;
      if (WIFSIGNALED(stt)) {
        int sg = WTERMSIG(stt); why = "terminated by signal " + std::to_string(sg);
        if (sg == SIGSEGV || sg == SIGABRT || sg == SIGFPE || sg == SIGBUS || sg == SIGILL) st = REFUTED;
        if (log.find("bad_alloc") != std::string::npos) st = UNDECIDED;
      } else { why = "exit status " + std::to_string(WEXITSTATUS(stt)); if (WEXITSTATUS(stt) != 0) st = REFUTED; }
      fprintf(out, "{\"ob\":\"%s\",\"targets\":\"%s\",\"paths\":0,\"reached\":0,\"infeasible\":0,\"wall\":0,\"err\":\"%s %s\",\"errst\":%d,\"notes\":[],\"goals\":{}}\n", esc(obs()[i].name).c_str(), esc(obs()[i].targets).c_str(), why.c_str(), esc(log).c_str(), st);
    }
    fflush(out);
  };
  while (next < todo.size() || !running.empty()) {
    while (next < todo.size() && (int)running.size() < jobs) {
      if (tot() > total) {
        for (; next < todo.size(); ++next) fprintf(out, "{\"ob\":\"%s\",\"targets\":\"%s\",\"paths\":0,\"reached\":0,\"infeasible\":0,\"wall\":0,\"err\":\"total time budget exhausted\",\"errst\":1,\"notes\":[],\"goals\":{}}\n", esc(obs()[todo[next]].name).c_str(), esc(obs()[todo[next]].targets).c_str());
        break;
      }
      int i = todo[next++];
      fflush(stdout); fflush(stderr); fflush(out);
      pid_t p = fork();
      if (p == 0) {
        struct rlimit rl = {(rlim_t)6 << 30, (rlim_t)6 << 30}; setrlimit(RLIMIT_AS, &rl);
        rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        rl = {(rlim_t)512 << 20, (rlim_t)1024 << 20}; setrlimit(RLIMIT_STACK, &rl);
        FILE *f = fopen(part(i).c_str(), "w");
        if (!freopen((part(i) + ".err").c_str(), "w", stderr)) {}
        if (!freopen("/dev/null", "w", stdout)) {}
        std::string dir = part(i) + ".dir"; mkdir(dir.c_str(), 0700); if (chdir(dir.c_str())) {}
        run_ob(obs()[i], f, std::min(budget, std::max(1., total - tot())), nsamp, seed);
        fclose(f);
        _exit(0);
      }
      running[p] = {i, tot()};
    }
    if (running.empty()) continue;
    int stt; pid_t p = waitpid(-1, &stt, WNOHANG);
    if (p > 0) { reap(p, stt); continue; }
    md now = tot();
    for (auto &r : running) if (now - r.second.second > budget + 30) kill(r.first, SIGKILL);
    usleep(2000);
  }
#ifdef VC_NATIVE
#ifdef VC_TRACK
  jobs = 0;
#endif
  if (rep.empty() && only.empty() && todo.size() > 1) {
    std::vector<int> cheap; for (int i : todo) if (cost.count(i) && cost[i] < .4) cheap.push_back(i);
    std::map<pid_t, int> ch;
    for (int k = 0; k < jobs && total - tot() > 5; ++k) {
      fflush(stdout); fflush(stderr); fflush(out);
      pid_t p = fork();
      if (p == 0) {
        struct rlimit rl = {(rlim_t)6 << 30, (rlim_t)6 << 30}; setrlimit(RLIMIT_AS, &rl);
        rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        rl = {(rlim_t)512 << 20, (rlim_t)1024 << 20}; setrlimit(RLIMIT_STACK, &rl);
        FILE *f = fopen(part(-1 - k).c_str(), "w");
        if (!freopen((part(-1 - k) + ".err").c_str(), "w", stderr)) {}
        if (!freopen("/dev/null", "w", stdout)) {}
        std::string dir = part(-1 - k) + ".dir"; mkdir(dir.c_str(), 0700); if (chdir(dir.c_str())) {}
        run_chain(k, cheap, f, std::min(std::min((md)20, budget), std::max((md)1, total - tot())), seed);
        fclose(f);
        _exit(0);
      }
      ch[p] = k;
    }
    md t1 = tot();
    while (!ch.empty()) {
      int stt; pid_t p = waitpid(-1, &stt, WNOHANG);
      if (p > 0 && ch.count(p)) {
        int k = ch[p]; ch.erase(p); bool got = false;
        { std::ifstream f(part(-1 - k)); std::string l; while (std::getline(f, l)) if (!l.empty()) { got = true; fprintf(out, "%s\n", l.c_str()); } }
        std::string log; { std::ifstream f(part(-1 - k) + ".err"); std::stringstream b; b << f.rdbuf(); log = b.str(); if (log.size() > 600) log = log.substr(log.size() - 600); }
        unlink(part(-1 - k).c_str()); unlink((part(-1 - k) + ".err").c_str());
        int sg = WIFSIGNALED(stt) ? WTERMSIG(stt) : 0;
        if (!got && log.find("bad_alloc") == std::string::npos && (sg == SIGSEGV || sg == SIGABRT || sg == SIGFPE || sg == SIGBUS || sg == SIGILL))
          fprintf(out, "{\"ob\":\"history/%d\",\"targets\":\"\",\"paths\":0,\"reached\":0,\"infeasible\":0,\"wall\":0,\"err\":\"terminated by signal %d %s\",\"errst\":%d,\"notes\":[],\"goals\":{}}\n", k, sg, esc(log).c_str(), REFUTED);
        fflush(out); continue;
      }
      if (tot() - t1 > 60) for (auto &c : ch) kill(c.first, SIGKILL);
      usleep(2000);
    }
  }
#endif
  fclose(out);
  return 0;
}
}  // namespace vc

[[noreturn]] inline void vc_assert_fail(const char *what, const char *file, int line) { throw vc::Stop(std::string(what) + " at " + std::string(file).substr(std::string(file).rfind('/') + 1) + ":" + std::to_string(line)); }
