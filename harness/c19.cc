// Time evolution driver: c19 replay <programs> <from> <to> <trace> | c19 random <programs> <seed> <nseg> <trace>
// The operations of a step come from the specification (plans); the driver carries them out on the dense state, in lock step with
// the tensors the code puts on disk, and records how the two compare.
#include "sweep.h"
#include "qlmps/algorithm/vmps/vmps_init.h"
#include "qlmps/algorithm/tdvp/tdvp_evolve_params.h"
#include "qlmps/third_party/nlohmann/json.hpp"
#ifdef DIST
#include "dist.h"
#include "qlmps/algo_mpi/tdvp/two_site_update_finite_tdvp_mpi.h"
#endif
#include <iomanip>
using namespace sw; using nlohmann::json;
#ifdef DIST
constexpr bool DISTR = true;      // on several ranks; the state is kept normalised there and the results carry its first norm
#else
constexpr bool DISTR = false;
#endif
static Trace tr;
static std::string dir;
struct Op { char k; size_t s, h; };
static std::map<size_t, std::vector<Op>> plans;
struct CallPlan { size_t site0, steps; bool keep; };
template <typename Q> struct Evo {
  using E = C; using Ten = QLTensor<E, Q>; using M = FiniteMPS<E, Q>;
  Rng &r; Model<E, Q> md; M *m; Watch<E, Q> w; std::string initial, meas;
  double tau = 0; size_t dmax = 0, dmin = 0; double terr = 0, eref = 0; Vec psi, expect, exact0; bool clean = true, nn = true, sweeping = false, expecting = false;
  size_t at = 0; std::vector<Site> disk; std::vector<int> writes; std::vector<std::pair<char, size_t>> blocks; std::vector<Vec> seen_states; double hnorm = 0, weight = 1; bool scaled = false; size_t made = 0; bool dirty = true;
  std::vector<std::string> ref;
  Evo(const std::vector<Index<Q>> &outs, Rng &rr) : r(rr), md(outs, rr), w(tr, md, dir + "/mps", dir + "/tmp", false), initial(dir + "/initial"), meas(dir + "/meas") { m = nullptr; }
  ~Evo() { delete m; }
  void open(size_t states, size_t deg, bool longr) {
    md.build(longr); nn = !longr; m = new M(md.sv);
    for (;;) { md.mk.fill(*m, states, deg, 2, r(md.n)); m->Centralize(0); if (norm2(state((const M &) *m)) > 1e-3) break; }
    m->operator[](0) *= E(1 / std::sqrt(norm2(state((const M &) *m))));
    empty_dir(dir, false); m->Dump(w.mps, true); load();
    double s = 0; for (auto &row : md.H) { double t = 0; for (auto &x : row) t += std::abs(x); s = std::max(s, t); } hnorm = s;
    tr.ev({{"e", "reset"}, {"n", md.n}});
  }
  bool load() { disk.assign(md.n, Site()); for (size_t i = 0; i < md.n; ++i) if (!w.disk(i, disk[i])) return false; return fits(disk); }
  std::string mtile(size_t i) const { return GenMPSTenName(initial, i); }
  // ---- dense operations
  // projection of v on (left basis) x (sites a..b) x (right basis)
  static Vec project(const std::vector<Vec> &L, const std::vector<Vec> &R, const Vec &v) {
    size_t ld = L[0].size(), rd = R[0].size(), md_ = v.size() / (ld * rd); Vec t(L.size() * md_ * rd, C(0)), u(L.size() * md_ * R.size(), C(0)), o(v.size(), C(0));
    for (size_t i = 0; i < L.size(); ++i) for (size_t x = 0; x < ld; ++x) { C c = std::conj(L[i][x]); if (c != C(0)) for (size_t y = 0; y < md_ * rd; ++y) t[i * md_ * rd + y] += c * v[x * md_ * rd + y]; }
    for (size_t i = 0; i < L.size() * md_; ++i) for (size_t k = 0; k < R.size(); ++k) { C s(0); for (size_t y = 0; y < rd; ++y) s += std::conj(R[k][y]) * t[i * rd + y]; u[i * R.size() + k] = s; }
    std::fill(t.begin(), t.end(), C(0));
    for (size_t i = 0; i < L.size() * md_; ++i) for (size_t k = 0; k < R.size(); ++k) { C c = u[i * R.size() + k]; if (c != C(0)) for (size_t y = 0; y < rd; ++y) t[i * rd + y] += c * R[k][y]; }
    for (size_t i = 0; i < L.size(); ++i) for (size_t x = 0; x < ld; ++x) { C c = L[i][x]; if (c != C(0)) for (size_t y = 0; y < md_ * rd; ++y) o[x * md_ * rd + y] += c * t[i * md_ * rd + y]; }
    return o;
  }
  Vec evolve(Vec v, const std::vector<Vec> &L, const std::vector<Vec> &R, C z) const {      // exp(z P H P) v
    Vec s = v; for (int k = 1; k < 200; ++k) { v = project(L, R, md.apply(v)); double n2 = 0; for (auto &x : v) { x *= z / (double) k; n2 += std::norm(x); } for (size_t i = 0; i < s.size(); ++i) s[i] += v[i]; if (n2 < 1e-30) break; }
    return s;
  }
  Vec evolve(const Vec &v, C z) const { Vec s = v, t = v; for (int k = 1; k < 400; ++k) { t = md.apply(t); double n2 = 0; for (auto &x : t) { x *= z / (double) k; n2 += std::norm(x); } for (size_t i = 0; i < s.size(); ++i) s[i] += t[i]; if (n2 < 1e-30) break; } return s; }
  bool prefix(size_t k) const { for (size_t i = 0; i < k; ++i) if (disk[i].a.empty() || (i ? disk[i].l != disk[i - 1].r : disk[i].l != 1)) return false; return true; }
  bool suffix(size_t k) const { for (size_t i = md.n; i-- > k;) if (disk[i].a.empty() || (i + 1 < md.n ? disk[i].r != disk[i + 1].l : disk[i].r != 1)) return false; return true; }
  static double far(const Vec &a, const Vec &b) { double s = 0; if (a.size() != b.size()) return 1e9; for (size_t i = 0; i < a.size(); ++i) s += std::norm(a[i] - b[i]); return std::sqrt(s); }
  Vec site_op(const Vec &v, const Ten &t, size_t s) const {
    size_t d = md.dims[s], in = 1; for (size_t i = s + 1; i < md.n; ++i) in *= md.dims[i]; Vec o(v.size(), C(0));
    for (size_t x = 0; x < v.size(); ++x) if (v[x] != C(0)) { size_t c = x / in % d; for (size_t q = 0; q < d; ++q) { C e = cplx(t.GetElem({c, q})); if (e != C(0)) o[x + (q - c) * in] += e * v[x]; } }
    return o;
  }
  // ---- observation
  bool same_block(char d, size_t k) const {              // the stored block is that of the tensors on disk
    if (k >= md.n + 1 || (d == 'l' ? !prefix(k) : !suffix(md.n - k))) return false;
    Vec b = w.block(disk, d, k); size_t bd = k == 0 ? 1 : d == 'l' ? disk[k - 1].r : disk[md.n - k].l, wl = b.size() / (bd * bd); double sc = 1e-9; for (auto &x : b) sc = std::max(sc, std::abs(x));
    try {
      std::ifstream f(w.bfile(d, k), std::ifstream::binary); if (!f.good()) return false; Ten t; f >> t; if (t.GetShape() != ShapeT({bd, wl, bd})) return false;
      for (size_t x = 0; x < bd; ++x) for (size_t y = 0; y < wl; ++y) for (size_t z = 0; z < bd; ++z) if (!(std::abs(cplx(t.GetElem({x, y, z})) - b[(x * wl + y) * bd + z]) < 1e-7 * sc)) return false;
    } catch (...) { return false; }
    return true;
  }
  void settle() {                                        // contents of the files written since the last event
    for (int s : writes) { Site x; bool ok = w.disk(s, x); if (ok) disk[s] = x; if (sweeping) step(s, ok); else tr.ev({{"e", "mwrite"}, {"s", s}}); dirty = true; }
    writes.clear();
    for (auto &b : blocks) tr.ev({{"e", "wrote"}, {"b", std::string(1, b.first) + std::to_string(b.second)}, {"ok", same_block(b.first, b.second)}});
    blocks.clear();
  }
  void step(int s, bool ok) {                            // a tensor of the sweep went to disk: carry out the plan up to there
    auto &pl = plans[md.n]; auto lost = [&] { clean = false; tr.ev({{"e", "site"}, {"s", s}, {"clean", false}}); };
    if (!clean || !ok) return lost();
    Vec before;
    while (at < pl.size() && pl[at].k != 'W') { if (!advance(pl[at])) return lost(); ++at; }
    if (at == pl.size() || (int) pl[at].s != s) return lost();
    bool tail = at + 1 == pl.size(), near_end = at + 2 >= pl.size();
    size_t D = 0; double gone = 0, best = 0, all = norm2(psi), keep = 0; bool ortho = true; size_t bond = 0;
    if (!tail) {
      size_t p = s; bool left = !(at > 0 && pl[at - 1].k == 'F' && pl[at - 1].s + 1 == p) || near_end;
      if (left) { if (!prefix(p + 1)) return lost(); auto B = left_basis(disk, p + 1); ortho = orthonormal(B); D = disk[p].r; bond = p + 1; std::vector<Vec> one{Vec{C(1)}}; Vec q = project(B, one, psi); gone = 1 - norm2(q) / all; cand(bond, D, best, keep); psi = q; }
      else { if (!suffix(p)) return lost(); auto B = right_basis(disk, p); ortho = orthonormal(B); D = disk[p].l; bond = p; std::vector<Vec> one{Vec{C(1)}}; Vec q = project(one, B, psi); gone = 1 - norm2(q) / all; cand(bond, D, best, keep); psi = q; }
    }
    for (++at; at < pl.size() && pl[at].k == 'B'; ++at) if (!advance(pl[at])) return lost();      // with the other tensors as they are now
    bool end = at == pl.size();
    if (!tail) tr.ev({{"e", "site"}, {"s", s}, {"clean", true}, {"ortho", ortho}, {"d", D}, {"gone", q6(gone)}, {"best", q6(best)}, {"fewer", q6(keep)}, {"inspan", inspan}});
    else tr.ev({{"e", "site"}, {"s", s}, {"clean", true}, {"ortho", true}, {"d", 0}, {"gone", 0}, {"best", 0}, {"fewer", 2000000}, {"inspan", inspan}});
    if (end) { at = 0; sweeping = false; expect = psi; expecting = true; ++made; }
  }
  bool inspan = true;
  void cand(size_t bond, size_t D, double &best, double &fewer) const { best = discarded(md, psi, bond, D); fewer = D > 1 ? discarded(md, psi, bond, D - 1) : 2; }
  bool advance(const Op &o) {
    size_t a = o.s, b = o.k == 'F' ? o.s + 1 : o.s;
    if (!prefix(a) || !suffix(b + 1)) return false;
    auto L = left_basis(disk, a), R = right_basis(disk, b + 1);
    if (!orthonormal(L) || !orthonormal(R)) { inspan = false; return true; }
    Vec q = project(L, R, psi); inspan = inspan && far(q, psi) < 1e-6 * std::sqrt(norm2(psi));
    psi = evolve(q, L, R, C(0, (o.k == 'F' ? -1 : 1) * tau * (double) o.h / 2));
    return true;
  }
  void measured() {                                      // a measurement is made of what is on disk
    sweeping = true; at = 0; inspan = true;
    bool ok = load(); tr.ev({{"e", "state"}, {"whole", ok}});
    if (!ok) { clean = false; return; }
    Vec v = whole(disk); double nv = std::sqrt(norm2(v)), ne = std::sqrt(norm2(expect));
    if (seen_states.empty()) weight = scaled ? ne : 1;
    if (scaled) { for (auto &x : expect) x *= nv / ne; ne = nv; }
    std::vector<std::string> good; for (char d : {'l', 'r'}) for (size_t k = 0; k < md.n; ++k) if (same_block(d, k)) good.push_back(std::string(1, d) + std::to_string(k));
    if (seen_states.empty()) { exact0 = v; eref = md.energy(v); }
    double t = tau * (double) seen_states.size(); Vec x = evolve(exact0, C(0, -t)); double steps = (double) seen_states.size();
    bool smooth = nn && full() && std::abs(tau) * hnorm < 0.2;
    std::vector<long> cs; for (size_t i = 0; i < md.n; ++i) if (w.canonical(disk, i)) cs.push_back(i);
    tr.ev({{"e", "facts"}, {"clean", clean}, {"off", q6(far(v, expect) / ne)}, {"norm", q6(nv / std::sqrt(norm2(exact0)))}, {"en", q6(md.energy(v))}, {"en0", q6(eref)}, {"full", full()}, {"smooth", smooth}, {"drift", q6(far(v, x) / nv)},
           {"allow", q6(std::min(100.0, 4 * steps * std::pow(std::abs(tau) * hnorm, 3)))}, {"good", Jv(good)}, {"centres", Jv(cs)}, {"charge", md.pure(v, md.charge_of(v))}});
    seen_states.push_back(v); psi = v; expecting = false;
  }
  size_t fullb() const { size_t bmax = 1, a = 1; for (size_t i = 0; i < md.n; ++i) { a *= md.dims[i]; size_t b = 1; for (size_t j = i + 1; j < md.n; ++j) b *= md.dims[j]; bmax = std::max(bmax, std::min(a, b)); } return bmax; }
  bool full() const { return dmax >= fullb() && terr == 0; }
  void file(char k, const std::string &p) {
    settle();
    if (p.compare(0, w.mps.size() + 1, w.mps + "/") == 0) {
      std::string s = p.substr(w.mps.size() + 1); unsigned long i; int used = 0; if (sscanf(s.c_str(), "mps_ten%lu.qlten%n", &i, &used) != 1 || used != (int) s.size() || i >= md.n) return;
      if (k == 'w') writes.push_back(i); else tr.ev({{"e", k == 'r' ? "mread" : "mremove"}, {"s", (size_t) i}});
      return;
    }
    if (p.compare(0, initial.size() + 1, initial + "/") == 0) { if (k != 'r') tr.ev({{"e", "iwrite"}}); return; }
    if (p.compare(0, meas.size() + 1, meas + "/") == 0) { if (k == 'w' && p == GenEnvTenName("r", 0, meas)) measured(); return; }
    char d; size_t len, c; if (!w.named(p, d, len, c)) return;
    if (k == 'w') blocks.push_back({d, len}); else if (k == 'r') tr.ev({{"e", "read"}, {"b", std::string(1, d) + std::to_string(len)}, {"ok", same_block(d, len)}});
    else tr.ev({{"e", "remove"}, {"b", std::string(1, d) + std::to_string(len)}});
  }
  // ---- one call
  bool call(const CallPlan &p, double t, size_t dn, size_t dx, double te, double e0, bool identity, bool strings, bool whole_chain) {
    tau = t; dmax = dx; dmin = dn; terr = te; clean = true; sweeping = false; seen_states.clear(); writes.clear(); blocks.clear(); made = 0;
    if (!load()) return false;
    Vec v0 = whole(disk); Q zero = md.mk.charge(0, 0) - md.mk.charge(0, 0); Ten op0, in0, op1, in1;
    std::vector<long> cs; for (size_t i = 0; i < md.n; ++i) if (w.canonical(disk, i)) cs.push_back(i);
    bool had = access(initial.c_str(), 4) == 0; if (!p.keep && had) { empty_dir(initial, true); had = false; }
    Vec bra = v0; if (had) { std::vector<Site> c(md.n); for (size_t i = 0; i < md.n; ++i) { Ten x; std::ifstream f(mtile(i), std::ifstream::binary); f >> x; c[i] = site_of(x); } bra = whole(c); }
    auto cb = md.charge_of(bra), ck = md.charge_of(v0);
    Q q = zero;
    for (int k = 0;; ++k) {                              // an operator that does not annihilate the state
      if (k > 200) return false;
      q = identity ? zero : md.mk.charge(p.site0, r(md.dims[p.site0])) - md.mk.charge(p.site0, r(md.dims[p.site0]));
      op0 = Ten({InverseIndex(md.outs[0]), md.outs[0]});
      if (identity) for (size_t c = 0; c < md.dims[0]; ++c) op0({c, c}) = C(1); else op0 = md.op(p.site0, q);
      if (op0.Get2Norm() == 0) continue;
      in0 = Ten(); if (strings) { in0 = Ten({InverseIndex(md.outs[0]), md.outs[0]}); for (size_t c = 0; c < md.dims[0]; ++c) in0({c, c}) = c % 3 == 2 ? C(1) : C(-1) * C(0.6, 0.8); }
      expect = site_op(v0, op0, p.site0); if (strings) for (size_t i = 0; i < p.site0; ++i) expect = site_op(expect, in0, i);
      if (norm2(expect) > 1e-4 * norm2(v0)) break;
    }
    auto ce = md.charge_of(expect); bool meas_ok = false;
    for (int k = 0; k < 200 && !meas_ok; ++k) {          // an operator that can lead back to the reference
      Q q1 = md.mk.charge(0, r(md.dims[0])) - md.mk.charge(0, r(md.dims[0])); auto a = comps(q1); bool fit = true;
      for (size_t i = 0; i < a.size(); ++i) fit = fit && ce[i] + a[i] == cb[i];
      if (!fit) continue;
      op1 = md.op(0, q1); meas_ok = op1.Get2Norm() > 0;
    }
    if (!meas_ok) return false;
    in1 = Ten(); if (strings) { in1 = Ten({InverseIndex(md.outs[0]), md.outs[0]}); for (size_t c = 0; c < md.dims[0]; ++c) in1({c, c}) = c % 2 ? C(1, 0.5) : C(-0.7, 0.2); }
    size_t wk = 0; bool sync = false; uint64_t ms = 0;
#ifdef DIST
    wk = r(4) ? 1 + r(4) : 0; sync = r(4) == 0; ms = r(100000); using SP = MPITDVPSweepParams<Q>;
#else
    using SP = TDVPEvolveParams<Q>;
#endif
    scaled = DISTR && wk > 0;
    SP sp(tau, p.steps, p.site0, op0, in0, op1, in1, e0, dmin, dmax, terr, LanczosParams(1e-13, 150), w.mps, initial, w.temp, meas);
    sp.local_op_corr = !whole_chain;
    ref.assign(md.n, ""); if (had) for (size_t i = 0; i < md.n; ++i) ref[i] = slurp(mtile(i));
    else for (size_t i = 0; i < md.n; ++i) ref[i] = slurp(w.mfile(i));
    delete m; m = new M(md.sv); dirty = true; std::string base = dir + "/out";
    tr.ev({{"e", "call"}, {"steps", p.steps}, {"site", p.site0}, {"dmax", dmax}, {"dmin", dmin}, {"terr", q6(terr)}, {"had", had}, {"centres", Jv(cs)}, {"full", full()}});
    rec.mps = w.mps; rec.temp = w.temp; rec.more = {initial, meas}; rec.event = [this](char k, const std::string &f) { file(k, f); };
    DynamicMeasuRes<C> res; std::string out = "ok";
#ifdef DIST
    {
      Quiet quiet;
      std::string why = dist::together<Ten>(wk ? "mtdvp" : "serial", dist::Setup{wk, ms, sync}, [&](int rank) {
        auto mpo = md.mpo; auto q = sp;
        if (rank) { M x(md.sv); TwoSiteFiniteTDVP(x, mpo, q, dir + "/not", dist::comm); }
        else { On on; res = TwoSiteFiniteTDVP(*m, mpo, q, base, dist::comm); }
      });
      if (why != "") out = why;
    }
#else
    (void) ms; (void) sync;
    try { Quiet quiet; On on; res = TwoSiteFiniteTDVP(*m, md.mpo, sp, base); } catch (...) { out = "error"; }
#endif
    ++rec.guard; settle(); --rec.guard; rec.event = [](char, const std::string &) {};
    // results and their file against the states that were measured
    std::vector<Jv> pts; size_t n = md.n; bool kept = true; for (size_t i = 0; i < n; ++i) kept = kept && slurp(mtile(i)) == ref[i];
    json js; bool parsed = true; try { js = json::parse(slurp(base + ".json")); } catch (...) { parsed = false; }
    bool shape = res.size() == n * seen_states.size(), shown = parsed && js.size() == res.size();
    double scale = std::sqrt(norm2(bra) * norm2(expect)) * 3 + 1e-12;
    for (size_t k = 0; shape && k < seen_states.size(); ++k) {
      bool val = true, lab = true, same = shown;
      Vec pre = seen_states[k]; C ph = weight * std::exp(C(0, e0 * tau * (double) k));
      for (size_t i = 0; i < n; ++i) {
        Vec x = site_op(pre, op1, i); C wv = dot(bra, x) * ph; auto &e = res[k * n + i];
        val = val && std::abs(e.avg - wv) < 1e-7 * scale;
        lab = lab && e.sites == V({p.site0, i}) && e.times.size() == 2 && e.times[0] == 0 && std::abs(e.times[1] - tau * (double) k) < 1e-12;
        if (shown) { auto &j = js[k * n + i]; same = same && j.size() == 3 && j[0] == json(e.sites) && j[1].size() == 2 && std::abs(j[1][0].get<double>()) < 1e-12 && std::abs(j[1][1].get<double>() - e.times[1]) < 1e-9 * (1 + std::abs(e.times[1])) && std::abs(j[2][0].get<double>() - e.avg.real()) < 1e-10 * (1 + std::abs(e.avg)) && std::abs(j[2][1].get<double>() - e.avg.imag()) < 1e-10 * (1 + std::abs(e.avg)); }
        if (strings) pre = site_op(pre, in1, i);
      }
      pts.push_back(jobj({{"val", val}, {"lab", lab}, {"file", same}}));
    }
    tr.ev({{"e", "done"}, {"out", out}, {"empty", m->empty()}, {"shape", shape}, {"pts", Jv(pts)}, {"kept", kept}});
    return out == "ok";
  }
};
template <typename T> struct QnOf; template <typename Q> struct QnOf<std::vector<Index<Q>>> { using type = Q; };
static void load_plans(const char *f) { std::ifstream g(f); std::string l; while (std::getline(g, l)) { auto j = json::parse(l); if (j.contains("plan")) { auto &v = plans[j["n"]]; v.clear(); for (auto &o : j["plan"]) v.push_back({o[0].get<std::string>()[0], o[1], o[2]}); } } }
template <typename Q> void seg(const std::vector<Index<Q>> &outs, Rng &r, const std::vector<CallPlan> &cs) {
  Evo<Q> o(outs, r); o.open(1 + r(3), 1 + r(2), r(3) == 0);
  bool full = r(3) > 0, small = r(2); size_t dm = 1 + r(4); double te = full ? 0 : r(2) ? 0 : 1e-3;
  bool first = true;
  for (auto &p : cs) {
    double t = (small ? 0.1 / o.hnorm : (20 + r(280)) / 1000.0) * (r(5) ? 1 : -1);
    bool id = !first && (p.keep || r(2));
    if (!o.call(p, t, full ? (r(2) ? 100 : 1) : 1 + r((int) dm), full ? 100 : dm, te, (r(4000) - 2000) / 1000.0, id || r(6) == 0, r(2), r(4) == 0)) break;
    first = false;
  }
}
template <typename F> void any_sites(Rng &r, size_t n, F f) {
  int k = r(6); if (n == 0) { n = 3 + r(k < 4 ? 3 : 2); if (k < 4 && !DISTR && r(20) == 0) n = 6 + r(3); } if (!plans.count(n)) n = 3;
  if (k < 4) f(spin_sites<U1QN>(n)); else if (k < 5) f(tj_sites<U1U1QN>(std::min<size_t>(n, 4)));
  else { auto q = [](int a) { return U1QN({QNCard("Sz", U1QNVal(a))}); }; f(std::vector<Index<U1QN>>(std::min<size_t>(n, 4), Index<U1QN>({QNSector<U1QN>(q(2), 1), QNSector<U1QN>(q(0), 1), QNSector<U1QN>(q(-2), 1)}, OUT))); }
}
int main(int argc, char **argv) {
  std::string mode = argv[1], t = argv[argc - 1];
  char b[64]; snprintf(b, 64, "%s.d", t.substr(t.rfind('/') + 1).c_str()); dir = t.substr(0, t.rfind('/') + 1) + b;
  tr.open(t.c_str()); Scratch sc(dir); load_plans(argv[2]);
#ifdef DIST
  dist::mt.flush = false; dist::mt.open((t + ".mpi").c_str());
#endif
  if (mode == "replay") {
    std::ifstream f(argv[2]); std::string l; long i = 0, from = atol(argv[3]), to = atol(argv[4]);
    while (std::getline(f, l)) {
      auto j = json::parse(l); if (!j.contains("prog")) continue;
      if (i >= from && i < to) { Rng r(4001 + i); std::vector<CallPlan> cs; for (auto &x : j["prog"]) cs.push_back({x[0], x[1], x[2] == 1}); seg<U1QN>(spin_sites<U1QN>(j["n"]), r, cs); }
      ++i;
    }
    return 0;
  }
  Rng r(atol(argv[3])); long n = atol(argv[4]);
  for (long i = 0; i < n; ++i) any_sites(r, 0, [&](auto outs) {
    using Q = typename QnOf<std::decay_t<decltype(outs)>>::type; size_t m = outs.size(); std::vector<CallPlan> cs; size_t k = 1 + (r(3) == 0) + (r(6) == 0), centre = 0;
    for (size_t x = 0; x < k; ++x) { CallPlan p{centre + r((int) (m - centre)), (size_t) r(4), (bool) r(2)}; cs.push_back(p); centre = p.steps ? 1 : 0; }
    seg<Q>(outs, r, cs);
  });
  return 0;
}
