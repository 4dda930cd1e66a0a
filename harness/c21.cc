// C21: the real local solvers on random Hermitian local problems of known spectrum.
#include "sweep.h"
#include "qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h"
#include "qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h"
using namespace sw;
using Q = U1QN;
static long d9(double x) { return std::isfinite(x) ? (long) std::min(1e9, std::round(std::abs(x) * 1e9)) : 1000000000L; }
static std::ofstream out;
static Rng *rng;
static double uni() { return ((*rng)(2001) - 1000.0) / 1000.0; }
static Q qn(int c) { return Q({QNCard("Sz", U1QNVal(c))}); }
using Mat = std::vector<Vec>;
struct Lab { std::vector<int> s; std::vector<size_t> inv; Index<Q> ix; };
template <typename E> E rnd() { if constexpr (std::is_same_v<E, double>) return uni(); else return E(uni(), uni()); }
static double cj(double x) { return x; } static C cj(C x) { return std::conj(x); }

template <typename E> struct Problem {
  using Ten = QLTensor<E, Q>;
  size_t sites;                                               // 1 or 2 free sites
  Index<Q> bl, ph[2], br; Lab lab[3]; Q div;
  std::vector<std::vector<std::vector<E>>> Lo, Ro;            // [label][bra][ket]
  std::vector<std::vector<std::vector<std::vector<E>>>> Mo[2];
  std::vector<CoorsT> basis; Mat H; std::vector<double> w; std::vector<Vec> ev;
  Problem(size_t s) : sites(s) {}
  Lab labels() {
    Lab r; size_t z = rng->range(1, 2), pm = (*rng)(3) ? 1 : 0;
    QNSectorVec<Q> sv; sv.emplace_back(qn(0), z); for (size_t i = 0; i < z; ++i) { r.s.push_back(0); r.inv.push_back(i); }
    if (pm) { sv.emplace_back(qn(2), 1); sv.emplace_back(qn(-2), 1); r.s.push_back(2); r.s.push_back(-2); r.inv.push_back(z + 1); r.inv.push_back(z); }
    r.ix = Index<Q>(sv, OUT); return r;
  }
  int ch(const Index<Q> &i, size_t k) { return i.GetQNSctFromActualCoor(k).GetQn().Val(0); }
  template <typename F> std::vector<std::vector<E>> fill(size_t d, F ok) { std::vector<std::vector<E>> m(d, std::vector<E>(d, E(0))); for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < d; ++j) if (ok(i, j)) m[i][j] = rnd<E>(); return m; }
  static std::vector<std::vector<E>> dag(const std::vector<std::vector<E>> &m) { auto r = m; for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < m.size(); ++j) r[i][j] = cj(m[j][i]); return r; }
  static std::vector<std::vector<E>> herm(const std::vector<std::vector<E>> &m) { auto d = dag(m), r = m; for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < m.size(); ++j) r[i][j] = (m[i][j] + d[i][j]) * 0.5; return r; }
  Index<Q> bond() { QNSectorVec<Q> sv; int par = (*rng)(2), n = 0; for (int c = -2 + par; c <= 2; c += 2) if ((*rng)(3)) { sv.emplace_back(qn(c), rng->range(1, 2)); ++n; } if (!n) sv.emplace_back(qn(par), rng->range(1, 2)); return Index<Q>(sv, OUT); }
  bool build(size_t lo, size_t hi, double range) {
    bool plain = (*rng)(4) == 0;
    auto p = [&](size_t d) { return Index<Q>({QNSector<Q>(qn(0), d)}, OUT); };
    bl = InverseIndex(plain ? p(rng->range(1, 3)) : bond()); br = plain ? p(rng->range(1, 3)) : bond();
    ph[0] = ph[1] = plain ? p(2) : Index<Q>({QNSector<Q>(qn(1), 1), QNSector<Q>(qn(-1), 1)}, OUT);
    for (auto &l : lab) l = labels();
    std::vector<Index<Q>> ix{bl, ph[0]}; if (sites == 2) ix.push_back(ph[1]); ix.push_back(br);
    Ten probe{IndexVec<Q>(ix)}; std::vector<CoorsT> all; probe.Each([&](const CoorsT &c, size_t) { all.push_back(c); });
    div = probe.Flux(all[(*rng)(all.size())]); basis.clear(); for (auto &c : all) if (probe.Flux(c) == div) basis.push_back(c);
    if (basis.size() < lo || basis.size() > hi) return false;
    auto op = [&](auto &L, const Lab &lb, const Index<Q> &b) {
      L.resize(lb.s.size());
      for (size_t a = 0; a < lb.s.size(); ++a) { if (lb.inv[a] < a) { L[a] = dag(L[lb.inv[a]]); continue; } L[a] = fill(b.dim(), [&](size_t i, size_t j) { return ch(b, i) == ch(b, j) + lb.s[a]; }); if (lb.inv[a] == a) L[a] = herm(L[a]); }
    };
    op(Lo, lab[0], bl); op(Ro, lab[sites], br);
    for (size_t k = 0; k < sites; ++k) {
      auto &A = lab[k], &B = lab[k + 1]; auto &M = Mo[k]; M.assign(A.s.size(), {}); for (auto &x : M) x.resize(B.s.size());
      for (size_t a = 0; a < A.s.size(); ++a) for (size_t b = 0; b < B.s.size(); ++b) {
        size_t ia = A.inv[a], ib = B.inv[b];
        if (ia * 100 + ib < a * 100 + b) { M[a][b] = dag(M[ia][ib]); continue; }
        bool zero = (*rng)(5) == 0;
        M[a][b] = fill(ph[k].dim(), [&](size_t i, size_t j) { return !zero && ch(ph[k], i) == ch(ph[k], j) + A.s[a] - B.s[b]; });
        if (ia == a && ib == b) M[a][b] = herm(M[a][b]);
      }
    }
    dense(); eigh(H, w, ev);
    double sp = std::max(std::abs(w.front()), std::abs(w.back())); if (sp < 1e-3) return false;
    for (auto &L : Lo) for (auto &x : L) for (auto &y : x) y *= range / sp;
    dense(); eigh(H, w, ev);
    return true;
  }
  void dense() {                                              // independent of the tensor products of the library
    size_t n = basis.size(); H.assign(n, Vec(n, C(0)));
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
      const auto &x = basis[i], &y = basis[j];                // x bra, y ket
      std::vector<C> v(lab[0].s.size()); for (size_t a = 0; a < v.size(); ++a) v[a] = cplx(Lo[a][x[0]][y[0]]);
      for (size_t k = 0; k < sites; ++k) { std::vector<C> u(lab[k + 1].s.size()); for (size_t a = 0; a < v.size(); ++a) for (size_t b = 0; b < u.size(); ++b) u[b] += v[a] * cplx(Mo[k][a][b][x[1 + k]][y[1 + k]]); v = u; }
      for (size_t c = 0; c < v.size(); ++c) H[i][j] += v[c] * cplx(Ro[c][x[1 + sites]][y[1 + sites]]);
    }
  }
  Vec mulH(const Vec &v) const { Vec r(v.size()); for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) r[i] += H[i][j] * v[j]; return r; }
  Ten *tensor(const Vec &v) const {
    std::vector<Index<Q>> ix{bl, ph[0]}; if (sites == 2) ix.push_back(ph[1]); ix.push_back(br);
    auto *t = new Ten{IndexVec<Q>(ix)}; t->SetDiv(div);
    for (size_t i = 0; i < v.size(); ++i) { if constexpr (std::is_same_v<E, double>) (*t)(basis[i]) = v[i].real(); else (*t)(basis[i]) = v[i]; }
    return t;
  }
  // the amplitudes in the sector; anything outside is reported as missing weight
  Vec vec(const Ten &t, double &outside) const {
    Vec r; double s = 0, all = 0; std::vector<size_t> sh{bl.dim(), ph[0].dim()}; if (sites == 2) sh.push_back(ph[1].dim()); sh.push_back(br.dim());
    if (std::vector<size_t>(t.GetShape()) != sh) { outside = 1e9; return Vec(basis.size()); }
    for (auto &c : basis) { r.push_back(cplx(t.GetElem(c))); s += std::norm(r.back()); }
    t.Each([&](const CoorsT &c, size_t) { all += std::norm(cplx(t.GetElem(c))); });
    outside = all - s; return r;
  }
  std::vector<Ten *> mpo() const {
    std::vector<Ten *> e;
    auto *L = new Ten({bl, lab[0].ix, InverseIndex(bl)}); for (size_t a = 0; a < Lo.size(); ++a) for (size_t i = 0; i < bl.dim(); ++i) for (size_t j = 0; j < bl.dim(); ++j) if (Lo[a][i][j] != E(0)) (*L)({i, a, j}) = Lo[a][i][j];
    e.push_back(L);
    for (size_t k = 0; k < sites; ++k) {
      auto *M = new Ten({InverseIndex(lab[k].ix), InverseIndex(ph[k]), ph[k], lab[k + 1].ix});
      for (size_t a = 0; a < Mo[k].size(); ++a) for (size_t b = 0; b < Mo[k][a].size(); ++b) for (size_t i = 0; i < ph[k].dim(); ++i) for (size_t j = 0; j < ph[k].dim(); ++j) if (Mo[k][a][b][i][j] != E(0)) (*M)({a, j, i, b}) = Mo[k][a][b][i][j];
      e.push_back(M);
    }
    auto *R = new Ten({br, InverseIndex(lab[sites].ix), InverseIndex(br)}); for (size_t a = 0; a < Ro.size(); ++a) for (size_t i = 0; i < br.dim(); ++i) for (size_t j = 0; j < br.dim(); ++j) if (Ro[a][i][j] != E(0)) (*R)({i, a, j}) = Ro[a][i][j];
    e.push_back(R); return e;
  }
  static Ten *op1(const Index<Q> &i, const std::vector<std::vector<E>> &m) {
    auto *t = new Ten({InverseIndex(i), i}); bool any = false;
    for (size_t a = 0; a < m.size(); ++a) for (size_t b = 0; b < m.size(); ++b) if (m[a][b] != E(0)) { (*t)({b, a}) = m[a][b]; any = true; }
    if (!any) { delete t; return nullptr; }
    return t;
  }
  SuperBlockHamiltonianTerms<Ten> terms(std::vector<Ten *> &own) const {
    SuperBlockHamiltonianTerms<Ten> r;
    for (size_t b = 0; b < lab[1].s.size(); ++b) {
      BlockSiteHamiltonianTermGroup<Ten> f; SiteBlockHamiltonianTermGroup<Ten> g;
      for (size_t a = 0; a < Lo.size(); ++a) { auto *x = op1(bl, Lo[a]), *y = op1(ph[0], Mo[0][a][b]); if (x && y) { f.push_back({x, y}); own.push_back(x); own.push_back(y); } else { delete x; delete y; } }
      for (size_t c = 0; c < Ro.size(); ++c) { auto *x = op1(ph[1], Mo[1][b][c]), *y = op1(br, Ro[c]); if (x && y) { g.push_back({x, y}); own.push_back(x); own.push_back(y); } else { delete x; delete y; } }
      if (f.size() && g.size()) r.push_back({f, g});
    }
    return r;
  }
};
// ---- exact Krylov reference
struct Krylov {
  std::vector<Vec> v; std::vector<double> a, b; std::vector<std::vector<double>> ritz; std::vector<Mat> y; size_t kd = 0; bool clear = true;
  template <typename P> Krylov(const P &p, Vec s) {
    auto nrm = [](Vec &x) { double n = std::sqrt(norm2(x)); for (auto &z : x) z /= n; return n; };
    nrm(s); v.push_back(s);
    for (;;) {
      Vec g = p.mulH(v.back()); a.push_back(dot(v.back(), g).real());
      for (int k = 0; k < 3; ++k) for (auto &u : v) { C o = dot(u, g); for (size_t i = 0; i < g.size(); ++i) g[i] -= o * u[i]; }
      size_t n = a.size(); Mat t(n, Vec(n)); for (size_t i = 0; i < n; ++i) { t[i][i] = a[i]; if (i) t[i][i - 1] = t[i - 1][i] = b[i - 1]; }
      std::vector<double> w; Mat e; eigh(t, w, e); ritz.push_back(w); y.push_back(e);
      double r = std::sqrt(norm2(g));
      if (r < 1e-10 || n == s.size()) break;
      if (r < 1e-3) clear = false;
      b.push_back(r); nrm(g); v.push_back(g);
    }
    kd = a.size();
  }
  Vec coef(size_t n, double dt) const { Vec c(n); for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) c[i] += y[n - 1][j][i] * std::exp(C(0, -dt * ritz[n - 1][j])) * std::conj(y[n - 1][j][0]); return c; }
  Vec lift(const Vec &c) const { Vec r(v[0].size()); for (size_t j = 0; j < c.size(); ++j) for (size_t i = 0; i < r.size(); ++i) r[i] += c[j] * v[j][i]; return r; }
  double step(size_t n, bool ex, double dt) const {            // what the stop rule compares with the error limit after n vectors, n >= 2
    if (!ex) return ritz[n - 2][0] - ritz[n - 1][0];
    Vec p = n >= 3 ? coef(n - 1, dt) : Vec(1), q = coef(n, dt); p.resize(n); double s = 0; for (size_t i = 0; i < n; ++i) s += std::norm(p[i] - q[i]); return std::sqrt(s);
  }
};
static const void *cur_problem; static const Krylov *cur_k; static long cur_i; static const std::vector<double> *cur_st;   // step sizes; the recursion without reorthogonalisation is only compared while they are far above rounding
template <typename E> using Fn = QLTensor<E, Q> *(*)(const std::vector<QLTensor<E, Q> *> &, QLTensor<E, Q> *);
template <typename E> QLTensor<E, Q> *watch(const std::vector<QLTensor<E, Q> *> &h, QLTensor<E, Q> *s) {
  auto &p = *(const Problem<E> *) cur_problem; double o = 0, o2 = 0; Vec x = p.vec(*s, o);
  QLTensor<E, Q> *r = p.sites == 2 ? eff_ham_mul_two_site_state(h, s) : eff_ham_mul_single_site_state(h, s);
  Vec y = p.vec(*r, o2), z = p.mulH(x); double e = 0; for (size_t i = 0; i < y.size(); ++i) e += std::norm(y[i] - z[i]);
  bool known = (size_t) cur_i < cur_k->kd && cur_i < 12; for (long n = 2; n <= cur_i && known; ++n) known = std::abs((*cur_st)[n - 2]) > 1e-8;
  out << "{\"e\":\"mul\",\"k\":" << cur_i << ",\"nrm\":" << d9(std::sqrt(norm2(x)) - 1) << ",\"dir\":" << (known ? d9(1 - std::abs(dot(cur_k->v[cur_i], x))) : 0) << ",\"out\":" << d9(o + o2) << ",\"prod\":" << d9(std::sqrt(e)) << "}\n";
  ++cur_i; return r;
}
template <typename E> size_t checksum(const std::vector<QLTensor<E, Q> *> &t) { size_t h = 1469; for (auto *x : t) { for (auto &v : x->Data()) { double d[2] = {cplx(v).real(), cplx(v).imag()}; unsigned long u[2]; memcpy(u, d, 16); h = (h ^ u[0]) * 1099511628211UL; h = (h ^ u[1]) * 1099511628211UL; } h = h * 31 + x->Data().size(); } return h; }

struct Prog { std::string kind; size_t kd = 0, lim = 200; long stop = -1; };   // stop: 0 the limit is never reached, n the rule fires first after n vectors, -1 any
template <typename E> bool solve(const Prog &g, bool replay) {
  bool ex = g.kind[0] == 'e', one = g.kind == "one" || g.kind == "exp1";
  Problem<E> p(one ? 1 : 2);
  static const double RANGE[] = {0.3, 1, 3, 9};
  if (!p.build(std::max<size_t>(g.kd, 1), replay ? 12 : 16, RANGE[(*rng)(4)])) return false;
  Vec s(p.basis.size());
  size_t kd = g.kd ? g.kd : ((*rng)(2) ? 0 : rng->range(1, std::min<size_t>(6, s.size())));
  if (kd) {                                                  // a start in an invariant subspace of dimension kd
    std::vector<size_t> pick; double gap = 0.04 * (p.w.back() - p.w.front());
    for (int t = 0; t < 60 && pick.size() < kd; ++t) { size_t x = (*rng)(s.size()); bool ok = true; for (auto q : pick) ok = ok && std::abs(p.w[q] - p.w[x]) > gap; if (ok) pick.push_back(x); }
    if (pick.size() < kd || (kd > 1 && gap < 1e-3)) return false;
    for (auto x : pick) { double m = 0.4 + 0.6 * std::abs(uni()); C f = std::is_same_v<E, double> ? C((*rng)(2) ? m : -m) : m * std::exp(C(0, 3.14159 * uni())); for (size_t i = 0; i < s.size(); ++i) s[i] += f * p.ev[x][i]; }
  } else for (auto &x : s) x = cplx(rnd<E>());
  { double n = std::sqrt(norm2(s)); if (n < 1e-3) return false; double want[] = {0.02, 1, 1, 6}; double f = want[(*rng)(4)] / n; for (auto &x : s) x *= f; }
  Krylov K(p, s); if (!K.clear || (kd && K.kd != kd)) return false;
  double n0 = std::sqrt(norm2(s)), dt = (0.02 + 0.5 * std::abs(uni())) * ((*rng)(3) ? 1 : -1);
  std::vector<double> st; for (size_t n = 2; n <= K.kd; ++n) st.push_back(K.step(n, ex, dt));
  static const double ERRS[] = {1e-2, 1e-4, 1e-7, 1e-10, 1e-14, 0};
  double err = replay ? (g.stop == 0 ? -1 : st.size() + 1 >= (size_t) g.stop ? st[g.stop - 2] * 1.01 : -2) : ERRS[(*rng)(6)];
  if (err == -2) return false;
  if (replay && g.stop > 0) { if (err < 1e-11) return false; for (long n = 2; n < g.stop; ++n) if (st[n - 2] < err * 1.02) return false; }
  std::vector<std::string> cls; for (double d : st) cls.push_back(std::abs(d - err) < 1e-4 * std::abs(err) + 1e-12 ? "near" : d < err ? "below" : "above");
  std::vector<long> rz; for (auto &r : K.ritz) rz.push_back(q6(r[0]));
  long live0 = stub::live, obj0 = stub::objects;
  {
    auto *start = p.tensor(s);
    std::vector<QLTensor<E, Q> *> own; SuperBlockHamiltonianTerms<QLTensor<E, Q>> tm;
    if (g.kind == "dmrg") tm = p.terms(own); else own = p.mpo();
    if (g.kind == "dmrg" && tm.empty()) { for (auto *t : own) delete t; delete start; return false; }
    size_t h0 = checksum<E>(own); long l1 = stub::live, o1 = stub::objects;
    std::string sc = "[", sr = "["; for (size_t i = 0; i < cls.size(); ++i) sc += (i ? "," : "") + ("\"" + cls[i] + "\""); for (size_t i = 0; i < rz.size(); ++i) sr += (i ? "," : "") + std::to_string(rz[i]);
    double lowS = K.ritz.back()[0];
    out << "{\"e\":\"reset\",\"kind\":\"" << g.kind << "\",\"cplx\":" << (std::is_same_v<E, double> ? "false" : "true") << ",\"dim\":" << s.size() << ",\"kd\":" << K.kd << ",\"lim\":" << g.lim << ",\"stop\":" << g.stop
        << ",\"cls\":" << sc << "],\"ritz\":" << sr << "],\"least\":" << q6(p.w[0]) << ",\"reach\":" << q6(lowS) << "}\n"; out.flush();
    cur_problem = &p; cur_k = &K; cur_i = 0; cur_st = &st;
    LanczosParams par(err, g.lim);
    size_t iters = 0; double eng = 0; QLTensor<E, Q> *res = nullptr;
    Quiet quiet;
    if (g.kind == "dmrg") {
      double o = 0; auto *t = super_block_hamiltonian_mul_two_site_state(tm, (const QLTensor<E, Q> *) start); Vec y = p.vec(*t, o), z = p.mulH(s); delete t; double e = 0; for (size_t i = 0; i < y.size(); ++i) e += std::norm(y[i] - z[i]);
      out << "{\"e\":\"product\",\"out\":" << d9(o) << ",\"prod\":" << d9(std::sqrt(e)) << "}\n";
      auto r = LanczosSolver(tm, start, par); iters = r.iters; eng = r.gs_eng; res = r.gs_vec;
    } else if (!ex) { auto r = LanczosSolver<QLTensor<E, Q>>(own, start, (Fn<E>) &watch<E>, par); iters = r.iters; eng = r.gs_eng; res = r.gs_vec; }
    else if constexpr (!std::is_same_v<E, double>) { auto r = LanczosExpmvSolver<QLTensor<E, Q>>(own, start, (Fn<E>) &watch<E>, dt, par); iters = r.iters; res = r.expmv; }
    double o = 0; Vec x = p.vec(*res, o); double n1 = std::sqrt(norm2(x)); size_t n = std::min(iters, K.kd);
    Vec hx = p.mulH(x); double ray = dot(x, hx).real() / (n1 * n1);
    double dir = 0, exact = 0;
    if (!ex) { Vec y(n); for (size_t i = 0; i < n; ++i) y[i] = K.y[n - 1][0][i]; Vec u = K.lift(y); bool gap = n < 2 || K.ritz[n - 1][1] - K.ritz[n - 1][0] > 1e-2 * (p.w.back() - p.w.front()); dir = gap ? 1 - std::abs(dot(u, x)) / n1 : 0; exact = 0; }
    else {
      Vec u = K.lift(K.coef(n, dt)), w(s.size()); double e = 0, f = 0;
      Vec t = s; for (size_t k = 1; k < 80; ++k) { for (size_t i = 0; i < w.size(); ++i) w[i] += t[i]; t = p.mulH(t); for (auto &z : t) z *= C(0, -dt / k); }   // the series; |H dt| < 5
      for (size_t i = 0; i < w.size(); ++i) { e += std::norm(n0 * u[i] - x[i]); f += std::norm(w[i] - x[i]); }
      dir = std::sqrt(e) / n0; exact = std::sqrt(f) / n0;
    }
    bool same = h0 == checksum<E>(own); delete res;
    long dl = stub::live - (l1 - 1), dob = stub::objects - (o1 - 1);
    out << "{\"e\":\"done\",\"iters\":" << iters << ",\"muls\":" << cur_i << ",\"eng\":" << q6(ex ? ray : eng) << ",\"ray\":" << q6(ray) << ",\"nrm\":" << d9(ex ? n1 / n0 - 1 : n1 - 1) << ",\"dir\":" << d9(dir) << ",\"exact\":" << d9(exact) << ",\"out\":" << d9(o) << ",\"same\":" << (same ? "true" : "false") << ",\"left\":" << dl << ",\"objs\":" << dob << "}\n";
    for (auto *t : own) delete t;
  }
  if (stub::live != live0 || stub::objects != obj0) out << "{\"e\":\"unbalanced\"}\n";
  return true;
}
static bool one(const Prog &g, bool replay) { bool c = g.kind[0] == 'e' || (*rng)(2); return c ? solve<C>(g, replay) : solve<double>(g, replay); }
int main(int argc, char **argv) {
  std::string mode = argv[1]; out.open(argv[argc - 1]);
  if (mode == "replay") {
    std::ifstream f(argv[2]); std::string line; long lo = atol(argv[3]), hi = atol(argv[4]), rep = atol(argv[5]), i = 0;
    while (std::getline(f, line)) {
      long k = i++; if (k < lo || k >= hi) continue;
      auto str = [&](const char *n) { auto p = line.find(std::string("\"") + n + "\":\"") + strlen(n) + 4; return line.substr(p, line.find('"', p) - p); };
      auto num = [&](const char *n) { return atol(line.c_str() + line.find(std::string("\"") + n + "\":") + strlen(n) + 3); };
      Prog g{str("kind"), (size_t) num("kd"), (size_t) num("lim"), num("stop")};
      Rng r(4000 + k); rng = &r; long got = 0;
      for (int t = 0; t < 40000 && got < rep; ++t) got += one(g, true);
      if (!got) { fprintf(stderr, "no problem found for %s\n", line.c_str()); return 3; }
    }
  } else {
    Rng r(atol(argv[2])); rng = &r; long n = atol(argv[3]);
    static const char *K[] = {"two", "one", "dmrg", "exp2", "exp1"};
    while (n > 0) { Prog g{K[r(5)], 0, 200, -1}; size_t q = r(3); g.lim = q == 0 ? 200 : q == 1 ? r.range(1, 4) : r.range(2, 14); if (one(g, false)) --n; }
  }
}
