// Optimisation driver: c13 replay <programs> <from> <to> <judge> <trace> | c13 random|split|agree <seed> <nseg> <alg> <judge> <trace>
#include "sweep.h"
#include "qlmps/algorithm/vmps/vmps_init.h"
#include "qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h"
#include "qlmps/algorithm/vmps/single_site_update_finite_vmps_impl.h"
#include "qlmps/third_party/nlohmann/json.hpp"
#include <atomic>
#include <csignal>
#include <iomanip>
#include "qlmps/memory_monitor.h"
#include "qlmps/one_dim_tn/mpo/mat_repr_mpo.h"
#define private public
#include "qlmps/algorithm/dmrg/dmrg.h"
#ifdef DIST
#include "dist.h"
#include "qlmps/algo_mpi/dmrg/dmrg_mpi.h"
#endif
#undef private
using namespace sw; using nlohmann::json;
#ifndef ALGS
#define ALGS 13      // 1: two-site operator chain, 4: single-site, 8: block operators
#endif
#ifndef SITES
#define SITES 7      // 1: spins, 2: spins with complex elements, 4: t-J, 8: five spins 1
#endif
#ifdef DIST
constexpr bool DISTR = true;
#else
constexpr bool DISTR = false;
#endif
static Trace tr;
static std::string dir;
struct RunPlan { size_t sweeps, dmin, dmax; double terr; double lerr; size_t liter; std::vector<double> noises; bool drop; double inc = kVMPSNoiseIncreaseRate, dec = kVMPSNoiseDecreaseRate, alpha = kVMPSNoiseAlpha, cap = kVMPSMaxNoise; size_t w = 1, seed = 1; bool sync = false, late = false, plain = false; };   // drop: remove the runtime directory first
// stop requests sent at given ticks of a run: a tick is a file operation or a line of output
struct Sender {
  std::vector<std::pair<long, int>> plan; long tick = 0; bool on = false; std::function<void()> settle;
  void step(bool line) {
    if (!on) return;
    ++tick;
    for (auto &p : plan) if (p.first == tick) { if (line && settle) settle(); tr.ev({{"e", "signal"}, {"now", p.second == SIGINT || p.second == SIGTERM}}); raise(p.second); }
  }
};
static Sender sender;
struct LineBuf : std::streambuf {
  int overflow(int c) override { if (c == '\n') sender.step(true); return c; }
  std::streamsize xsputn(const char *s, std::streamsize k) override { for (std::streamsize i = 0; i < k; ++i) if (s[i] == '\n') sender.step(true); return k; }
};
template <typename E, typename Q> struct Opt {
  using Ten = QLTensor<E, Q>; using M = FiniteMPS<E, Q>;
  Rng &r; Model<E, Q> md; std::string alg; M *m = nullptr; Watch<E, Q> w; Vec init; double e0 = 0; bool full = false; size_t dmax = 0; double terr = 0;
  bool fullL = false, clear = true, noisy = false, count = false, partial = false;                // partial: few Lanczos steps, still the same ones along every history
  Opt(const std::vector<Index<Q>> &outs, Rng &rr, const std::string &a) : r(rr), md(outs, rr), alg(a), w(tr, md, dir + "/mps", dir + "/tmp", false) {}
  ~Opt() { delete m; }
  void open(size_t states, size_t deg, bool longr, const std::string &judge) {
    md.build(longr); judge_ = judge;
    m = new M(md.sv);
    for (int t = 0;; ++t) { md.mk.fill(*m, states, deg, 2, r(md.n)); { M &c = *m; (void) c; } m->Centralize(0); if (norm2(state((const M &) *m)) > 1e-3) break; }
    if (r(3)) m->operator[](0) *= E(1 / std::sqrt(norm2(state((const M &) *m))));
    empty_dir(dir, false);
    m->Dump(w.mps, true);
    w.start(); init = whole(w.cur); e0 = md.ground(w.sector);
    tr.ev({{"e", "reset"}, {"alg", alg}, {"n", md.n}, {"judge", judge}, {"exact", q6(e0)}, {"en", q6(md.energy(init))}, {"norm", q6(norm2(init))}, {"centre", w.canonical(w.cur, 0)}});
  }
  // exact local problems that an update of these sites may have solved
  Jv facts(const std::vector<Site> &a, const std::vector<Site> &b, const V &ch) {
    Vec va = whole(a), vb = whole(b); size_t lo = ch.front(), hi = ch.back(), w = alg == "single" ? 1 : 2; std::vector<Jv> o;
    size_t from = lo, to = w == 1 ? hi : hi - (hi > lo);                 // the first free site
    if (w == 2 && hi == lo + 1) to = lo; else if (hi == lo) { from = lo - (lo > 0); if (w == 1) to = hi + (hi + 1 < md.n); }
    if (w == 2 && noisy) { from = hi < 2 ? 0 : hi - 2; to = lo + 1; }      // expansion also changes the site behind the pair
    if (hi - lo <= 2) for (size_t t = from; t <= to && t + w <= md.n; ++t) {
      auto l = local(md, a, t, t + w - 1, va);
      clear = clear && l.ortho && (partial || (l.ov > 1e-3 && fullL && l.gap > 1e-2)) && (w == 1 || !tie(md, l.g, t + 1, dmax));
      o.push_back(jobj({{"t", t}, {"emin", q6(l.emin)}, {"reach", l.ov > 1e-3 && fullL}, {"distinct", l.gap > 1e-2}, {"fid", q6(std::norm(dot(l.g, vb)) / norm2(vb))},
                        {"lost", q6(w == 2 ? discarded(md, l.g, t + 1, dmax) : std::max(t ? discarded(md, l.g, t, dmax) : 0.0, t + 1 < md.n ? discarded(md, l.g, t + 1, dmax) : 0.0))}, {"ortho", l.ortho}}));
    }
    return jobj({{"c", Jv(o)}});
  }
  // the noise of a run, for the schedule; values in units of 1e-9
  static long nine(double x) { return std::lround(x * 1e9); }
  static bool told(const RunPlan &p) { return !p.noises.empty() && p.inc * p.dec == 1 && (p.inc == 1 || p.inc == 2); }
  static Jv plan(const RunPlan &p) {
    V v; for (double x : p.noises) v.push_back(nine(x));
    return jobj({{"told", told(p)}, {"v", Jv(v)}, {"rate", (long) p.inc}, {"down", p.alpha == 0}, {"cap", nine(p.cap)}});
  }
  // the number a tensor is multiplied by, if it is a value of the noise: a listed one or the cap, times a power of the rate
  void scaled(const RunPlan &p, double x) {
    auto of = [&](double y, long j) { int a, b; if (y == 0 || std::frexp(x, &a) != std::frexp(y, &b)) return false; tr.ev({{"e", "noise"}, {"j", j}, {"k", a - b}, {"v", nine(x)}}); return true; };
    for (size_t i = 0; i < p.noises.size(); ++i) if (of(p.noises[i], i + 1)) return;
    of(p.cap, 0);
  }
  // one call of the optimiser
  void run(const RunPlan &p) {
    if (p.drop) empty_dir(w.temp, true);
    bool had = !access(w.temp.c_str(), 4);
    dmax = p.dmax; terr = p.terr; noisy = !p.noises.empty(); fullL = p.lerr < 1e-9 && p.liter >= 100; w.ops = alg == "dmrg" || alg == "mdmrg";
    FiniteVMPSSweepParams sp(p.sweeps, p.dmin, p.dmax, p.terr, LanczosParams(p.lerr, p.liter), p.noises, p.cap, p.inc, p.dec, p.alpha, w.mps, w.temp);
    w.start(); w.known(); Vec s0 = whole(w.cur); size_t n = md.n;
    size_t bmax = 1; { size_t a = 1; for (size_t i = 0; i < n; ++i) { a *= md.dims[i]; size_t b = 1; for (size_t j = i + 1; j < n; ++j) b *= md.dims[j]; bmax = std::max(bmax, std::min(a, b)); } }
    full = p.dmax >= (noisy ? 100 : bmax) && p.terr == 0;        // an expanded bond exceeds the rank of the state
    bool para = alg[0] == 'm'; std::string as = !para || p.w ? alg : alg == "mdmrg" ? "dmrg" : "vmps";       // one rank: the serial algorithm
    std::string kind = alg == "single" ? "single" : (para && p.w) || alg == "mdmrg" || alg == "dmrg" || (alg == "bound" && !p.noises.empty()) || ((para || alg == "vmps") && sp.noise_valid) ? "bound" : "pair";
    std::vector<Jv> nz; for (double x : p.noises) nz.push_back(Jv(std::abs(x) > 1e-9)); V b0; for (size_t i = 0; i + 1 < n; ++i) b0.push_back(w.cur[i].r);
    std::vector<long> cs0; for (size_t i = 0; i < n; ++i) if (w.canonical(w.cur, i)) cs0.push_back(i);
    V room; for (size_t i = 0; i + 1 < n; ++i) room.push_back(md.room(i, w.sector));
    tr.ev({{"e", "call"}, {"room", Jv(room)}, {"alg", as}, {"plain", p.plain}, {"late", p.late}, {"kind", kind}, {"sweeps", p.sweeps}, {"dmax", p.dmax}, {"terr", q6(p.terr)}, {"full", full}, {"lanczos", fullL}, {"had", had}, {"noises", Jv(nz)}, {"plan", plan(p)}, {"bonds", Jv(b0)},
           {"en", q6(md.energy(s0))}, {"centres", Jv(cs0)}, {"blocks", Jv(w.present())}, {"good", Jv(w.fresh(w.cur))}});
    double ret = 0; std::string out = "ok"; bool empty = true;
    w.extra = nullptr; if (judge_ != "C17") w.extra = [this](auto &a, auto &b, auto &c) { return facts(a, b, c); };
    if (told(p) && !para) stub::scaled = [this, &p](double x) { if (rec.on && !rec.guard) scaled(p, x); };
    struct Off { ~Off() { stub::scaled = nullptr; } } off;
    try {
      Quiet quiet;
      if (para) {
#ifdef DIST
        dist::late = p.late; dist::Setup su{p.w, p.seed, p.sync, p.noises};
        if (alg != "mdmrg") { delete m; m = new M(md.sv); M &x = *m; if (!p.plain) w.mem = [&x](size_t i) { return ((const M &) x)(i); }; }
        dist::tick = [this] { if (rec.on && !rec.guard && !w.pend.empty()) { ++rec.guard; w.flush(); --rec.guard; } };
        std::string why = dist::together<Ten>(p.w ? alg : "serial", su, [&](int rank) {
          if (alg == "mdmrg") {
            auto mat = md.mat; const FiniteVMPSSweepParams &q = sp;
            if (p.plain) { M x(md.sv); double e; if (!rank) { e = FiniteDMRG(x, mat, q, dist::comm); ret = e; empty = x.empty(); } else FiniteDMRG(x, mat, q, dist::comm); }
            else if (rank) { DMRGMPISlaveExecutor<E, Q> ex(mat, dist::comm); ex.Execute(); }
            else {
              DMRGMPIMasterExecutor<E, Q> ex(mat, q, dist::comm); auto &x = ex.mps_; w.mem = [&x](size_t i) { return ((const M &) x)(i); };
              { On on; ex.Execute(); } ++rec.guard; w.flush(); --rec.guard; w.mem = nullptr; ret = ex.GetEnergy(); empty = x.empty();
            }
          } else {
            auto mpo = md.mpo;
            if (rank) { M x(md.sv); TwoSiteFiniteVMPS(x, mpo, sp, dist::comm); }
            else { bool watch = !p.plain; if (watch) rec.on = true; try { ret = TwoSiteFiniteVMPS(*m, mpo, sp, dist::comm); } catch (...) { rec.on = false; throw; } rec.on = false; }
          }
        });
        dist::tick = nullptr;
        if (why != "") out = why;
#endif
      } else if (alg == "dmrg") {
        if constexpr (ALGS & 8) {
          DMRGExecutor<E, Q> ex(md.mat, sp); auto &x = ex.mps_; w.mem = [&x](size_t i) { return ((const M &) x)(i); };
          auto inner = rec.event; rec.event = [inner](char k, const std::string &f) { inner(k, f); sender.step(false); };
          sender.tick = 0; sender.settle = [this] { ++rec.guard; if (!w.pend.empty()) w.flush(); --rec.guard; };
          LineBuf lines; auto *old = std::cout.rdbuf(&lines);
          try { On on; sender.on = !sender.plan.empty() || count; ex.Execute(); } catch (...) { out = "error"; }
          sender.on = false; std::cout.rdbuf(old); ++rec.guard; w.flush(); --rec.guard; w.mem = nullptr; ret = ex.GetEnergy(); empty = x.empty();
        }
      } else {
        delete m; m = new M(md.sv); M &x = *m; w.mem = [&x](size_t i) { return ((const M &) x)(i); };
        On on;
        if (alg == "vmps") { if constexpr (ALGS & 1) ret = TwoSiteFiniteVMPS(x, md.mpo, sp); }
        else if (alg == "bound") { if constexpr (ALGS & 1) ret = TwoSiteFiniteVMPSWithNoise(x, md.mpo, sp); }
        else if constexpr (ALGS & 4) ret = SingleSiteFiniteVMPS(x, md.mpo, sp);
      }
      if (alg != "dmrg" && alg != "mdmrg") empty = m->empty();
    } catch (const std::exception &x) { out = "error"; }
    ++rec.guard; if (!p.plain) w.flush(); w.mem = nullptr; std::vector<Site> c; bool whole_ = w.snapshot(c); --rec.guard;
    if (!whole_) { tr.ev({{"e", "done"}, {"out", out}, {"whole", false}}); return; }
    Vec v = whole(c); V bonds; for (size_t i = 0; i + 1 < n; ++i) bonds.push_back(c[i].r);
    std::vector<long> cs; for (size_t i = 0; i < n; ++i) if (w.canonical(c, i)) cs.push_back(i);
    tr.ev({{"e", "done"}, {"out", out}, {"whole", true}, {"empty", empty}, {"ret", q6(ret)}, {"en", q6(md.energy(v))}, {"var", q6(md.variance(v))}, {"norm", q6(norm2(v))}, {"bonds", Jv(bonds)}, {"charge", md.pure(v, w.sector)},
           {"centres", Jv(cs)}, {"files", Jv(w.present())}, {"good", Jv(w.fresh(c))}});
  }
  void keep() { empty_dir(w.temp, true); empty_dir(dir + "/save", true); Quiet q; int rc = system(("cp -r '" + w.mps + "' '" + dir + "/save'").c_str()); (void) rc; }
  void back() { empty_dir(w.temp, true); empty_dir(w.mps, true); int rc = system(("cp -r '" + dir + "/save' '" + w.mps + "'").c_str()); (void) rc; }
  // a new segment from the state on disk
  void again() {
    w.mem = nullptr; w.start(); Vec v = whole(w.cur); e0 = md.ground(w.sector);
    tr.ev({{"e", "reset"}, {"alg", alg}, {"n", md.n}, {"judge", judge_}, {"exact", q6(e0)}, {"en", q6(md.energy(v))}, {"norm", q6(norm2(v))}, {"centre", w.canonical(w.cur, 0)}});
  }
  void recentre() {
    try { Quiet q; M x(md.sv); x.Load(w.mps); x.Centralize(0); x.Dump(w.mps, true); } catch (const std::exception &) {}
    again();
  }
  std::string judge_;
  // the same optimisation along several histories
  struct End { Vec v; double en; };
  End end() { std::vector<Site> c; w.mem = nullptr; if (!w.snapshot(c)) return {Vec(md.D, C(0)), 1e9}; Vec v = whole(c); return {v, md.energy(v)}; }
  void same(const std::vector<End> &e) {
    std::vector<long> en, fid; for (auto &x : e) { en.push_back(q6(x.en)); fid.push_back(q6(std::norm(dot(x.v, e[0].v)) / norm2(x.v) / norm2(e[0].v))); }
    tr.ev({{"e", "same"}, {"clear", clear}, {"en", Jv(en)}, {"fid", Jv(fid)}});
  }
  void history(const std::vector<RunPlan> &p, std::vector<End> &e) { back(); for (auto &x : p) run(x); e.push_back(end()); }
};
template <typename T> struct QnOf; template <typename Q> struct QnOf<std::vector<Index<Q>>> { using type = Q; };
template <typename F> void any_sites(Rng &r, size_t cap, F f) {
  std::vector<int> ks; if (SITES & 1) ks.insert(ks.end(), {0, 1, 2, 3, 7}); if (SITES & 2) ks.push_back(4); if (SITES & 4) ks.insert(ks.end(), {5, 6}); if (SITES & 8) ks = {8};
  int k = ks[r((int) ks.size())]; size_t n = 3 + r(cap - 2); if (cap == 7 && r(16) == 0) n = 8 + r(2); else if (cap == 6 && r(8) == 0) n = 7 + r(2);
  if (k < 4) { if constexpr (SITES & 1) f(spin_sites<U1QN>(n), double()); }
  else if (k < 5) { if constexpr (SITES & 2) f(spin_sites<U1QN>(std::min<size_t>(n, 5)), C()); }
  else if (k < 7) { if constexpr (SITES & 4) f(tj_sites<U1U1QN>(std::min<size_t>(n, 4)), double()); }
  else if constexpr (SITES & 9) { std::vector<Index<U1QN>> o = spin_sites<U1QN>(SITES & 8 ? 5 : std::min<size_t>(n, 5)); auto q = [](int a) { return U1QN({QNCard("Sz", U1QNVal(a))}); };
    for (size_t i = 0; i < o.size(); i += k == 8 ? 1 : 2) o[i] = Index<U1QN>({QNSector<U1QN>(q(2), 1), QNSector<U1QN>(q(0), 1), QNSector<U1QN>(q(-2), 1)}, OUT);
    f(o, double()); }
}
// the ranks of a parallel run
static void spread(RunPlan &p, Rng &r, const std::string &alg, bool some = false) {
  p.w = !some && r(8) == 0 ? 0 : 1 + r(4); p.seed = 1 + r(1 << 20); p.sync = r(2); p.late = alg == "mnoise" && r(3) == 0; p.plain = alg == "mdmrg" && (!p.w || r(5) == 0);
}
template <typename E, typename Q> void seg(const std::vector<Index<Q>> &outs, Rng &r, const std::string &mode, const std::string &judge) {
  std::string alg = mode == "noise" ? (r(3) ? "vmps" : "bound") : mode == "snoise" ? "single" : mode; bool noisy = mode == "noise" || mode == "snoise" || mode == "mnoise";
  Opt<E, Q> o(outs, r, alg); o.open(1 + r(3), 1 + r(2), r(2), judge);
  int runs = 1 + (r(3) == 0) + (r(6) == 0); bool full = r(3) > 0, vary = r(3) == 0; size_t dm = 1 + r(4), had = 0; bool direct = r(3) == 0;
  for (int i = 0; i < runs + vary; ++i) {
    if (vary) { full = r(2); dm = 1 + r(4); }
    RunPlan p; p.sweeps = 1 + r(3); p.dmax = full ? 100 : dm; p.dmin = 1 + r((int) std::min<size_t>(p.dmax, 3)); p.terr = full ? 0 : (r(2) ? 0 : 1e-4); if (full) p.dmin = p.dmax;
    bool lf = r(4) > 0; p.lerr = lf ? 1e-13 : 1e-6; p.liter = lf ? 150 : 1 + r(5); p.drop = i && r(3) == 0;
    if (noisy && !(alg == "bound" && direct)) { int k = 1 + r(3); for (int j = 0; j < k; ++j) p.noises.push_back(alg == "bound" || r(3) ? (1 + r(100)) / 1000.0 : 0.0);
      if (alg == "vmps" || alg == "mnoise") { bool any = false; for (double x : p.noises) any = any || x > 0; if (!any) p.noises[r(k)] = 0.01; } }
    if (noisy && !p.noises.empty() && r(3)) {            // rates that are powers of two, so that values can be told from each other
      for (size_t i = 0; i < p.noises.size(); ++i) for (bool ok = p.noises[i] == 0; !ok;) {
        p.noises[i] = (10001 + 2 * r(490000)) * 1e-7; int a, b; ok = true; for (size_t j = 0; j < i; ++j) ok = ok && std::frexp(p.noises[i], &a) != std::frexp(p.noises[j], &b); }
      bool vary2 = r(2); p.inc = vary2 ? 2 : 1; p.dec = 1 / p.inc; p.alpha = r(3) ? 0.3 * r(4) : 1e6; if (r(2)) { p.cap = 1.3 * p.noises[r((int) p.noises.size())]; if (p.cap == 0) p.cap = 0.013; if (p.alpha > 1) { p.dmax = p.dmin = 2 + r(2); } }
    }
    if (alg[0] == 'm') { spread(p, r, alg); }
    // a lower limit moves the range, and one rank may mean another algorithm: the centre must not lie behind where that starts
    if (i && (p.dmax < had || (alg[0] == 'm' && !p.w && alg != "mdmrg")) && alg != "dmrg" && alg != "mdmrg" && alg != "single") { o.recentre(); p.drop = true; }
    had = p.dmax;
    o.run(p);
  }
}
// S1 + S2 sweeps at once, in two runs with the runtime directory kept, and with it removed in between
template <typename E, typename Q> void split(const std::vector<Index<Q>> &outs, Rng &r, const std::string &alg, const std::string &judge) {
  Opt<E, Q> o(outs, r, alg); o.open(1 + r(2), 1 + r(2), r(2), judge); o.keep();
  RunPlan p; p.dmax = r(2) ? 100 : 1 + r(4); p.dmin = p.dmax; p.terr = 0; p.lerr = 1e-13; p.liter = 150; p.drop = false; if (alg == "bound") p.noises = {0.0};
  size_t a = 1 + r(2), b = 1 + r(2); std::vector<typename Opt<E, Q>::End> e; auto with = [&](size_t s, bool d) { RunPlan q = p; q.sweeps = s; q.drop = d; if (alg[0] == 'm') spread(q, r, alg, true); return q; };
  o.history({with(a + b, false)}, e); o.history({with(a, false), with(b, false)}, e); o.history({with(a, false), with(b, true)}, e);
  if (r(2)) o.history({with(1, false), with(a + b - 1, r(2))}, e);
  o.same(e);
}
// runs with changing limits, on chains whose ends differ: the range of the sweeps moves on one side only
static void shift(Rng &r, const std::string &alg, const std::string &judge) {
  if constexpr (SITES & 1) {
  auto q = [](int a) { return U1QN({QNCard("Sz", U1QNVal(a))}); };
  std::vector<Index<U1QN>> outs = spin_sites<U1QN>(5 + r(2)); size_t ones = 0;
  for (auto &o : outs) if (ones < 3 && r(2)) { ++ones; o = Index<U1QN>({QNSector<U1QN>(q(2), 1), QNSector<U1QN>(q(0), 1), QNSector<U1QN>(q(-2), 1)}, OUT); }
  Opt<double, U1QN> o(outs, r, alg); o.open(1 + r(2), 1 + r(2), r(2), judge);
  const size_t lim[] = {1, 2, 3, 4, 6, 9, 100}; int runs = 3 + r(3); size_t had = 0;
  for (int i = 0; i < runs; ++i) {
    RunPlan p; p.sweeps = 1 + r(2); p.dmax = lim[r(7)]; p.dmin = p.dmax; p.terr = 0; p.lerr = 1e-13; p.liter = 150; p.drop = i && r(8) == 0;
    if (alg == "bound") { p.noises = {0.0}; if (i && p.dmax < had) { o.recentre(); p.drop = true; } }      // the centre must not lie behind the range
    had = p.dmax; o.run(p);
  }
  }
}
// block operators against the operator chain, from the same start
template <typename E, typename Q> void agree(const std::vector<Index<Q>> &outs, Rng &r, const std::string &judge) {
  Opt<E, Q> o(outs, r, "dmrg"); o.open(1 + r(2), 1 + r(2), r(2), judge); o.keep();
  RunPlan p; p.sweeps = 1 + r(3); p.dmax = r(2) ? 100 : 1 + r(4); p.dmin = p.dmax; p.terr = 0; p.lerr = 1e-13; p.liter = 150; p.drop = false;
  std::vector<typename Opt<E, Q>::End> e; o.history({p}, e);
  o.alg = "bound"; p.noises = {0.0}; o.history({p}, e);
  o.same(e);
}
// parallel against serial, with several numbers of ranks and schedules
template <typename E, typename Q> void parallel(const std::vector<Index<Q>> &outs, Rng &r, const std::string &alg, const std::string &judge) {
  Opt<E, Q> o(outs, r, alg == "mdmrg" ? "dmrg" : "bound"); o.partial = r(2) && alg != "mnoise"; o.open(1 + r(2), 1 + r(2), r(2), judge); o.keep();
  RunPlan p; p.sweeps = 1 + r(3); p.dmax = r(2) || alg == "mnoise" ? 100 : 1 + r(4); p.dmin = p.dmax; p.terr = 0; p.lerr = 1e-13; p.liter = o.partial ? 1 + r(4) : 150; p.drop = false; p.w = 0;
  if (alg != "mdmrg") p.noises = {alg == "mnoise" ? (1 + r(50)) / 1000.0 : 0.0};
  std::vector<typename Opt<E, Q>::End> e; o.history({p}, e);
  if (alg == "mvmps") p.noises.clear();
  o.alg = alg; for (int k = 0; k < 3; ++k) { spread(p, r, alg, true); p.late = false; o.history({p}, e); }
  o.same(e);
}
// every point of a run at which a stop request can arrive, followed by an undisturbed run in the same process
template <typename E, typename Q> void signals(const std::vector<Index<Q>> &outs, Rng &r, const std::string &judge, long stride) {
  if constexpr (!(ALGS & 8)) return;
  Opt<E, Q> o(outs, r, "dmrg"); o.open(1 + r(2), 1 + r(2), r(2), judge); o.keep();
  RunPlan p; p.sweeps = 1 + r(3); p.dmax = r(2) ? 100 : 1 + r(4); p.dmin = p.dmax; p.terr = 0; p.lerr = 1e-13; p.liter = 150; p.drop = false;
  o.count = true; sender.plan.clear(); o.run(p); long all = sender.tick; o.count = false;
  const int kinds[] = {SIGUSR1, SIGINT, SIGUSR2, SIGTERM};
  for (long t = 1 + r((int) stride); t <= all; t += stride) for (int k = 0; k < 3; ++k) {
    o.back(); o.again();
    int a = kinds[(k == 1) + 2 * r(2)]; bool now = a == SIGINT || a == SIGTERM; sender.plan = {{t, a}};
    if (k == 2) { int b = kinds[r(4)]; now = now || b == SIGINT || b == SIGTERM; sender.plan.push_back({t + r((int) (all - t) + 3), b}); }
    o.run(p);
    sender.plan.clear();
    if (now) o.recentre();
    RunPlan q = p; q.sweeps = 1 + r(2); q.drop = now || r(2);
    if (r(4) == 0) { int b = kinds[r(4)]; raise(b); tr.ev({{"e", "idle"}, {"now", b == SIGINT || b == SIGTERM}}); }          // between two runs
    o.run(q);
  }
}
// a history of runs exported by the specification: [sweeps, kept, size of the bonds]
static void replay(const json &g, long num, const std::string &judge) {
  if constexpr (SITES & 1) {
  Rng r(991 + num); std::string kind = g["kind"]; size_t n = g["n"]; std::string alg = g["alg"];
  Opt<double, U1QN> o(spin_sites<U1QN>(n), r, alg); o.open(1 + r(2), 1 + r(2), r(2), judge);
  bool first = true; size_t had = 0;
  for (auto &x : g["prog"]) {
    RunPlan p; p.sweeps = x[0]; size_t sz = x[2]; p.dmax = sz == 0 ? 1 : sz == 1 ? 3 : 100; p.dmin = p.dmax; p.terr = 0; p.lerr = 1e-13; p.liter = 150; p.drop = !first && x[1] == 0; first = false;
    if (alg == "bound") p.noises = {0.0};
    if (alg[0] == 'm') spread(p, r, alg, true);
    if (alg == "mnoise") { p.noises = {0.01}; p.late = false; }
    if ((alg == "bound" || alg == "mvmps") && p.dmax < had) { o.recentre(); p.drop = true; }     // the centre must not lie behind the range
    had = p.dmax; o.run(p);
  }
  }
}
int main(int argc, char **argv) {
  std::string mode = argv[1], t = argv[argc - 1];
  char b[64]; snprintf(b, 64, "%s.d", t.substr(t.rfind('/') + 1).c_str()); dir = t.substr(0, t.rfind('/') + 1) + b;
  tr.open(t.c_str()); Scratch sc(dir);
#ifdef DIST
  dist::mt.flush = false; dist::mt.open((t + ".mpi").c_str());
#endif
  if (mode == "replay") {
    std::ifstream f(argv[2]); std::string l; long i = 0, from = atol(argv[3]), to = atol(argv[4]);
    while (std::getline(f, l)) { if (i >= from && i < to) replay(json::parse(l), i, argv[5]); ++i; }
    return 0;
  }
  Rng r(atol(argv[2])); long n = atol(argv[3]); std::string alg = argv[4], judge = argv[5];
  if (mode == "shift") { for (long i = 0; i < n; ++i) shift(r, alg, judge); return 0; }
  for (long i = 0; i < n; ++i)
    any_sites(r, mode == "random" ? 7 : mode == "signals" ? 5 : 6, [&](auto outs, auto e) {
      using Q = typename QnOf<std::decay_t<decltype(outs)>>::type; using E = decltype(e);
      if (mode == "signals") signals<E, Q>(outs, r, judge, std::max(1L, atol(argv[4]))); else if (mode == "random") seg<E, Q>(outs, r, alg, judge); else if (mode == "split") split<E, Q>(outs, r, alg, judge); else if (mode == "parallel") { if constexpr (DISTR) parallel<E, Q>(outs, r, alg, judge); } else agree<E, Q>(outs, r, judge);
    });
  return 0;
}
