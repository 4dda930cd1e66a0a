// Shared by the optimisation harnesses: random Hermitian chains, exact reference data, and a recorder that observes every
// file operation of a run together with the represented state at that moment.
#pragma once
#include "mps.h"
#include "qlmps/one_dim_tn/mpo/mpo.h"
#include "qlmps/one_dim_tn/mpo/mpogen/mpogen.h"
#include "qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h"
#include <dlfcn.h>
#include <functional>
#include <set>
namespace sw {
using namespace mio;
using V = std::vector<size_t>;
inline long q6(double v) { return std::isfinite(v) ? (long) std::min(2e9, std::max(-2e9, std::round(v * 1e6))) : -2000000001L; }
inline C dot(const Vec &a, const Vec &b) { C s(0); for (size_t i = 0; i < a.size(); ++i) s += std::conj(a[i]) * b[i]; return s; }
// ---- Hermitian eigenproblem (through the real symmetric double where needed); eigenvectors as rows
inline void eigh(const std::vector<Vec> &m, std::vector<double> &w, std::vector<Vec> &v) {
  size_t n = m.size(); bool re = true; for (auto &r : m) for (auto &x : r) re = re && x.imag() == 0;
  size_t k = re ? n : 2 * n; std::vector<double> a(k * k), ww, vv;
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
    a[i * k + j] = m[i][j].real();
    if (!re) { a[(i + n) * k + j + n] = m[i][j].real(); a[i * k + j + n] = -m[i][j].imag(); a[(i + n) * k + j] = m[i][j].imag(); }
  }
  stub_lapack::sym((int) k, a, ww, vv);
  std::vector<size_t> o(k); for (size_t i = 0; i < k; ++i) o[i] = i;
  std::stable_sort(o.begin(), o.end(), [&](size_t x, size_t y) { return ww[x] < ww[y]; });
  w.clear(); v.clear();
  for (size_t i = 0; i < k; i += re ? 1 : 2) { w.push_back(ww[o[i]]); Vec x(n); for (size_t j = 0; j < n; ++j) x[j] = re ? C(vv[j * k + o[i]]) : C(vv[j * k + o[i]], vv[(j + n) * k + o[i]]); v.push_back(x); }
}
// ---- Hermitian chain
template <typename E, typename Q> struct Model {
  using Ten = QLTensor<E, Q>;
  std::vector<Index<Q>> outs; SiteVec<E, Q> sv; Rng &r; Maker<E, Q> mk; size_t n; V dims; long D = 1;
  MPO<Ten> mpo{0}; std::vector<SparMat<Ten>> mat; std::vector<Vec> H; std::vector<std::vector<int>> charge;   // H dense, total charge of every basis state
  std::vector<std::vector<std::vector<std::pair<long, C>>>> rows;
  Model(const std::vector<Index<Q>> &o, Rng &rr) : outs(o), sv(IndexVec<Q>(o)), r(rr), mk{o, rr}, n(o.size()) { for (auto &x : outs) { dims.push_back(x.dim()); D *= x.dim(); } }
  double rd() { return (r(1999) - 999) / 1000.0; }
  E re() { if constexpr (std::is_same_v<E, double>) return rd(); else return E(rd(), rd()); }
  Ten op(size_t s, const Q &q) {
    Ten t({InverseIndex(outs[s]), outs[s]}); size_t d = dims[s];
    for (size_t c = 0; c < d; ++c) for (size_t w = 0; w < d; ++w) if (mk.charge(s, w) - mk.charge(s, c) == q) t({c, w}) = re();
    return t;
  }
  Ten dag(const Ten &t, size_t s) { Ten u({InverseIndex(outs[s]), outs[s]}); for (size_t c = 0; c < dims[s]; ++c) for (size_t w = 0; w < dims[s]; ++w) { E v = t.GetElem({w, c}); if (v != E(0)) u({c, w}) = conj_(v); } return u; }
  static double conj_(double x) { return x; } static C conj_(const C &x) { return std::conj(x); }
  // neighbour couplings on every bond, some longer ones, a field on every site; with matrices, no MPO
  void build(bool long_range) {
    Q zero = mk.charge(0, 0) - mk.charge(0, 0);
    MPOGenerator<E, Q> g(sv, zero);
    auto pair = [&](size_t i, size_t j) {
      Q q = zero; for (int k = 0; k < 9 && q == zero; ++k) q = mk.charge(i, r(dims[i])) - mk.charge(i, r(dims[i]));
      Ten a = op(i, q), b = op(j, zero - q);
      if (a.Get2Norm() == 0 || b.Get2Norm() == 0) return;
      if (q == zero) { Ten x = diag(i), y = diag(j); g.AddTerm(E(rd()), {x, y}, {i, j}); return; }
      E c = E(1); g.AddTerm(c, {a, b}, {i, j}); g.AddTerm(c, {dag(a, i), dag(b, j)}, {i, j});
      Ten x = diag(i), y = diag(j); g.AddTerm(E(rd()), {x, y}, {i, j});
    };
    { Quiet quiet;
      for (size_t i = 0; i + 1 < n; ++i) pair(i, i + 1);
      if (long_range) for (size_t k = 0; k < 2; ++k) { size_t i = r(n), j = r(n); if (i + 1 < j) pair(i, j); }
      for (size_t i = 0; i < n; ++i) g.AddTerm(E(1), diag(i), i);
      mpo = g.Gen(); mat = g.GenMatReprMPO(); }
    dense(dense_mpo(mpo, n));
  }
  Ten diag(size_t s) { Ten t({InverseIndex(outs[s]), outs[s]}); for (size_t c = 0; c < dims[s]; ++c) t({c, c}) = E(rd() + (c == 0 ? 1.5 : 0)); return t; }
  void dense(const Sp &sp) {
    H.assign(D, Vec(D, C(0))); for (auto &k : sp) H[k.first.first][k.first.second] = k.second;
    charge.clear();
    for (long x = 0; x < D; ++x) { long y = x; Q q = mk.charge(0, 0) - mk.charge(0, 0); for (size_t i = n; i-- > 0;) { q += mk.charge(i, y % dims[i]); y /= dims[i]; } charge.push_back(comps(q)); }
  }
  Vec apply(const Vec &v) const { Vec u(D, C(0)); for (long i = 0; i < D; ++i) { C s(0); for (long j = 0; j < D; ++j) s += H[i][j] * v[j]; u[i] = s; } return u; }
  double energy(const Vec &v) const { return dot(v, apply(v)).real() / norm2(v); }
  double variance(const Vec &v) const { Vec u = apply(v); double e = energy(v); return norm2(u) / norm2(v) - e * e; }
  std::vector<long> sector(const std::vector<int> &q) const { std::vector<long> s; for (long x = 0; x < D; ++x) if (charge[x] == q) s.push_back(x); return s; }
  std::vector<int> charge_of(const Vec &v) const { long b = 0; for (long x = 0; x < D; ++x) if (std::abs(v[x]) > std::abs(v[b])) b = x; return charge[b]; }
  // what a bond between sites k and k + 1 has to hold for every state of the sector
  long room(size_t k, const std::vector<int> &q) const {
    long rd = 1; for (size_t i = k + 1; i < n; ++i) rd *= dims[i];
    std::map<std::vector<int>, long> a, b; long s = 0;
    for (long x = 0; x < D; x += rd) ++a[charge[x]];
    for (long y = 0; y < rd; ++y) ++b[charge[y]];
    for (auto &c : a) { std::vector<int> o = q; for (size_t i = 0; i < o.size(); ++i) o[i] += charge[0][i] - c.first[i]; auto f = b.find(o); if (f != b.end()) s += std::min(c.second, f->second); }
    return s;
  }
  bool pure(const Vec &v, const std::vector<int> &q) const { double s = 0; for (long x = 0; x < D; ++x) if (charge[x] != q) s += std::norm(v[x]); return s <= 1e-18 * norm2(v); }
  double ground(const std::vector<int> &q) const {
    auto s = sector(q); std::vector<Vec> m(s.size(), Vec(s.size())); std::vector<double> w; std::vector<Vec> v;
    for (size_t i = 0; i < s.size(); ++i) for (size_t j = 0; j < s.size(); ++j) m[i][j] = (H[s[i]][s[j]] + std::conj(H[s[j]][s[i]])) / 2.0;
    eigh(m, w, v); return w[0];
  }
};
// ---- the chain as plain arrays
struct Site { size_t l = 0, p = 0, r = 0; Vec a; C at(size_t i, size_t j, size_t k) const { return a[(i * p + j) * r + k]; } };
template <typename T> Site site_of(const T &t) {
  Site s; auto sh = t.GetShape(); if (sh.size() != 3) return s; s.l = sh[0]; s.p = sh[1]; s.r = sh[2]; s.a.resize(s.l * s.p * s.r);
  for (size_t i = 0; i < s.l; ++i) for (size_t j = 0; j < s.p; ++j) for (size_t k = 0; k < s.r; ++k) s.a[(i * s.p + j) * s.r + k] = cplx(t.GetElem({i, j, k}));
  return s;
}
inline bool fits(const std::vector<Site> &c) { for (size_t i = 0; i < c.size(); ++i) if (c[i].a.empty() || (i ? c[i].l != c[i - 1].r : c[i].l != 1)) return false; return c.back().r == 1; }
// vectors of the block of sites [a, b): first over the outer bond for a left block, last for a right block
inline std::vector<Vec> left_basis(const std::vector<Site> &c, size_t k) {
  std::vector<Vec> acc(1, Vec{C(1)});
  for (size_t i = 0; i < k; ++i) { std::vector<Vec> nx(c[i].r, Vec(acc[0].size() * c[i].p, C(0)));
    for (size_t a = 0; a < c[i].l; ++a) for (size_t p = 0; p < c[i].p; ++p) for (size_t b = 0; b < c[i].r; ++b) { C v = c[i].at(a, p, b); if (v != C(0)) for (size_t x = 0; x < acc[a].size(); ++x) nx[b][x * c[i].p + p] += acc[a][x] * v; }
    acc = nx; }
  return acc;
}
inline std::vector<Vec> right_basis(const std::vector<Site> &c, size_t k) {   // sites k..n-1
  std::vector<Vec> acc(1, Vec{C(1)});
  for (size_t i = c.size(); i-- > k;) { size_t m = acc[0].size(); std::vector<Vec> nx(c[i].l, Vec(m * c[i].p, C(0)));
    for (size_t a = 0; a < c[i].l; ++a) for (size_t p = 0; p < c[i].p; ++p) for (size_t b = 0; b < c[i].r; ++b) { C v = c[i].at(a, p, b); if (v != C(0)) for (size_t x = 0; x < m; ++x) nx[a][p * m + x] += acc[b][x] * v; }
    acc = nx; }
  return acc;
}
inline bool orthonormal(const std::vector<Vec> &b) { for (size_t i = 0; i < b.size(); ++i) for (size_t j = 0; j <= i; ++j) if (std::abs(dot(b[j], b[i]) - C(i == j)) > 1e-6) return false; return true; }
inline Vec whole(const std::vector<Site> &c) { auto b = left_basis(c, c.size()); return b[0]; }
// ---- recorder
struct Recorder {
  std::vector<std::string> more;                             // further directories of interest
  Trace *tr = nullptr; bool on = false; int guard = 0; std::string mps, temp;
  std::function<void()> before;                              // called ahead of every event: state changes since the last one
  std::function<void(char, const std::string &)> event;      // 'r' read, 'w' write, 'x' remove; path
};
inline Recorder rec;
inline void seen(char k, const char *p) {
  if (!rec.on || rec.guard) return;
  std::string s(p); bool in = !s.compare(0, rec.mps.size() + 1, rec.mps + "/") || !s.compare(0, rec.temp.size() + 1, rec.temp + "/");
  for (auto &d : rec.more) in = in || !s.compare(0, d.size() + 1, d + "/");
  if (!in) return;
  ++rec.guard; rec.event(k, s); --rec.guard;
}
}
extern "C" FILE *fopen(const char *p, const char *m) { static auto f = (FILE * (*) (const char *, const char *)) dlsym(RTLD_NEXT, "fopen"); sw::seen(m[0] == 'r' ? 'r' : 'w', p); return f(p, m); }
extern "C" FILE *fopen64(const char *p, const char *m) { static auto f = (FILE * (*) (const char *, const char *)) dlsym(RTLD_NEXT, "fopen64"); sw::seen(m[0] == 'r' ? 'r' : 'w', p); return f(p, m); }
extern "C" int remove(const char *p) noexcept { static auto f = (int (*)(const char *)) dlsym(RTLD_NEXT, "remove"); sw::seen('x', p); return f(p); }
extern "C" int unlink(const char *p) noexcept { static auto f = (int (*)(const char *)) dlsym(RTLD_NEXT, "unlink"); sw::seen('x', p); return f(p); }
namespace sw {
// ---- observation of one optimisation run
template <typename E, typename Q> struct Watch {
  using Ten = QLTensor<E, Q>;
  Trace &tr; Model<E, Q> &md; std::string mps, temp; bool ops;          // ops: block-operator files
  std::function<const Ten *(size_t)> mem;                                // tensor of a site held in memory, if any
  std::function<Jv(const std::vector<Site> &, const std::vector<Site> &, const V &)> extra;      // further facts about an update
  std::vector<Site> cur; std::map<std::pair<char, size_t>, bool> lazy; std::vector<std::pair<std::pair<char, size_t>, bool>> pend;
  std::vector<int> sector; bool broken = false; long events = 0;
  Watch(Trace &t, Model<E, Q> &m, const std::string &a, const std::string &b, bool o) : tr(t), md(m), mps(a), temp(b), ops(o) {}
  std::string mfile(size_t i) const { return GenMPSTenName(mps, i); }
  bool disk(size_t i, Site &s) const { std::ifstream f(mfile(i), std::ifstream::binary); if (!f.good()) return false; try { Ten t; f >> t; s = site_of(t); } catch (...) { return false; } return !s.a.empty(); }
  bool snapshot(std::vector<Site> &c) const {
    c.assign(md.n, Site()); for (size_t i = 0; i < md.n; ++i) { const Ten *t = mem ? mem(i) : nullptr; if (t && !t->IsDefault()) c[i] = site_of(*t); else if (!disk(i, c[i])) return false; }
    return fits(c);
  }
  // block of k sites at side d, as [bra][mpo][ket] (or per component [ket][bra])
  Vec block(const std::vector<Site> &c, char d, size_t k) const {
    Vec acc{C(1)}; size_t wl = 1, bl = 1;
    for (size_t x = 0; x < k; ++x) {
      size_t i = d == 'l' ? x : md.n - 1 - x; auto &s = c[i]; size_t b2 = d == 'l' ? s.r : s.l;
      std::vector<std::tuple<size_t, size_t, size_t, size_t, C>> w; size_t w2;   // mpo elements: in bond, ket, bra, out bond
      if (ops) { auto &m = md.mat[i]; w2 = d == 'l' ? m.cols : m.rows;
        for (size_t a = 0; a < m.rows; ++a) for (size_t b = 0; b < m.cols; ++b) if (!m.IsNull(a, b)) for (size_t p = 0; p < s.p; ++p) for (size_t q = 0; q < s.p; ++q) { C v = cplx(m(a, b).GetElem({p, q})); if (v != C(0)) w.push_back(d == 'l' ? std::make_tuple(a, p, q, b, v) : std::make_tuple(b, p, q, a, v)); }
      } else { auto &t = md.mpo[i]; auto sh = t.GetShape(); w2 = d == 'l' ? sh[3] : sh[0];
        for (size_t a = 0; a < sh[0]; ++a) for (size_t b = 0; b < sh[3]; ++b) for (size_t p = 0; p < s.p; ++p) for (size_t q = 0; q < s.p; ++q) { C v = cplx(t.GetElem({a, p, q, b})); if (v != C(0)) w.push_back(d == 'l' ? std::make_tuple(a, p, q, b, v) : std::make_tuple(b, p, q, a, v)); } }
      Vec nx(b2 * w2 * b2, C(0));
      for (auto &e : w) { auto [a, p, q, b, v] = e;
        for (size_t u = 0; u < bl; ++u) for (size_t k2 = 0; k2 < bl; ++k2) { C t = acc[(u * wl + a) * bl + k2] * v; if (t == C(0)) continue;
          for (size_t y = 0; y < b2; ++y) { C br = std::conj(d == 'l' ? s.at(u, q, y) : s.at(y, q, u)); if (br == C(0)) continue;
            for (size_t z = 0; z < b2; ++z) nx[(y * w2 + b) * b2 + z] += t * br * (d == 'l' ? s.at(k2, p, z) : s.at(z, p, k2)); } } }
      acc = nx; wl = w2; bl = b2;
    }
    return acc;
  }
  size_t comps_of(char d, size_t k) const { return d == 'l' ? md.mat[k].rows : md.mat[md.n - 1 - k].cols; }
  std::string bfile(char d, size_t k, size_t c = 0) const { std::string s(1, d); return temp + "/" + s + (ops ? "op" + std::to_string(k) + "Comp" + std::to_string(c) : "env" + std::to_string(k)) + ".qlten"; }
  bool holds(char d, size_t k, const std::vector<Site> &c) const {       // the stored block is the block of the chain c
    if (k >= md.n) return false;
    Vec b = block(c, d, k); size_t bd = d == 'l' ? c[k].l : c[md.n - 1 - k].r, w = b.size() / (bd * bd); double sc = 1e-9; for (auto &x : b) sc = std::max(sc, std::abs(x));
    auto near = [&](C x, C y) { return std::abs(x - y) < 1e-7 * sc; };
    try {
      if (!ops) {
        std::ifstream f(bfile(d, k), std::ifstream::binary); if (!f.good()) return false; Ten t; f >> t; if (t.GetShape() != ShapeT({bd, w, bd})) return false;
        for (size_t x = 0; x < bd; ++x) for (size_t y = 0; y < w; ++y) for (size_t z = 0; z < bd; ++z) if (!near(cplx(t.GetElem({x, y, z})), b[(x * w + y) * bd + z])) return false;
      } else for (size_t y = 0; y < w; ++y) {
        std::ifstream f(bfile(d, k, y), std::ifstream::binary); if (!f.good()) return false; Ten t; f >> t; if (t.GetShape() != ShapeT({bd, bd})) return false;
        for (size_t x = 0; x < bd; ++x) for (size_t z = 0; z < bd; ++z) if (!near(cplx(t.GetElem({z, x})), b[(x * w + y) * bd + z])) return false;
      }
    } catch (...) { return false; }
    return true;
  }
  bool named(const std::string &path, char &d, size_t &k, size_t &c) const {
    std::string s = path.substr(path.rfind('/') + 1); c = 0; unsigned long a, b; char e; int used = 0;
    if (!ops && sscanf(s.c_str(), "%cenv%lu.qlten%n", &e, &a, &used) == 2 && used == (int) s.size()) { d = e; k = a; return e == 'l' || e == 'r'; }
    if (ops && sscanf(s.c_str(), "%cop%luComp%lu.qlten%n", &e, &a, &b, &used) == 3 && used == (int) s.size()) { d = e; k = a; c = b; return e == 'l' || e == 'r'; }
    return false;
  }
  static bool same(const Site &a, const Site &b) { if (a.l != b.l || a.p != b.p || a.r != b.r) return false; for (size_t i = 0; i < a.a.size(); ++i) if (std::abs(a.a[i] - b.a[i]) > 1e-13) return false; return true; }
  void flush() {                                                         // facts about what happened since the last event
    std::vector<Site> now;
    if (!snapshot(now)) { if (!broken) tr.ev({{"e", "lost"}}); broken = true; return; }
    broken = false;
    V ch; for (size_t i = 0; i < md.n; ++i) if (!same(now[i], cur[i])) ch.push_back(i);
    if (!ch.empty()) {
      Vec a = whole(cur), b = whole(now); double na = norm2(a), nb = norm2(b), ov = std::norm(dot(a, b));
      bool gauge = nb > 0 && std::abs(ov / (na * nb) - 1) < 1e-11 && std::abs(na - nb) < 1e-9 * na;
      std::vector<std::string> ok;
      for (char d : {'l', 'r'}) for (size_t k = 0; k < md.n; ++k) if (have.count({d, k}) && holds(d, k, now)) ok.push_back(std::string(1, d) + std::to_string(k));
      V bonds; for (size_t i = 0; i + 1 < md.n; ++i) bonds.push_back(now[i].r);
      tr.ev({{"e", "upd"}, {"s", Jv(ch)}, {"gauge", gauge}, {"valid", Jv(ok)}, {"bonds", Jv(bonds)}, {"charge", md.pure(b, sector)}, {"en0", q6(md.energy(a))}, {"en", q6(md.energy(b))}, {"norm", q6(nb)},
             {"x", extra && !gauge ? extra(cur, now, ch) : jobj({{"c", Jv(std::vector<Jv>())}})}});
      ++events;
    }
    cur = now;
    for (auto &p : pend) { bool ok = holds(p.first.first, p.first.second, cur); tr.ev({{"e", "wrote"}, {"b", Jv(std::string(1, p.first.first) + std::to_string(p.first.second))}, {"ok", ok}}); have.insert(p.first); ++events; }
    pend.clear();
  }
  std::set<std::pair<char, size_t>> have;                                // blocks on disk, as far as seen
  struct Parts { std::set<size_t> r, w, x; bool ok = true; };            // components of a block (one, for tensors) touched so far
  std::map<std::pair<char, size_t>, Parts> parts;
  bool part(const std::pair<char, size_t> &b, size_t c) const {          // component c of the stored block is the one of the current chain
    return ops ? component(b.first, b.second, c) : holds(b.first, b.second, cur);
  }
  bool component(char d, size_t k, size_t c) const {
    if (k >= md.n) return false;
    Vec b = block(cur, d, k); size_t bd = d == 'l' ? cur[k].l : cur[md.n - 1 - k].r, w = b.size() / (bd * bd); double sc = 1e-9; for (auto &x : b) sc = std::max(sc, std::abs(x));
    if (c >= w) return false;
    try {
      std::ifstream f(bfile(d, k, c), std::ifstream::binary); if (!f.good()) return false; Ten t; f >> t; if (t.GetShape() != ShapeT({bd, bd})) return false;
      for (size_t x = 0; x < bd; ++x) for (size_t z = 0; z < bd; ++z) if (!(std::abs(cplx(t.GetElem({z, x})) - b[(x * w + c) * bd + z]) < 1e-7 * sc)) return false;
    } catch (...) { return false; }
    return true;
  }
  void file(char k, const std::string &p) {
    char d; size_t len, c;
    flush();
    if (p.compare(0, mps.size() + 1, mps + "/") == 0) {
      std::string s = p.substr(mps.size() + 1); unsigned long i; int used = 0;
      if (sscanf(s.c_str(), "mps_ten%lu.qlten%n", &i, &used) == 1 && used == (int) s.size()) { tr.ev({{"e", k == 'r' ? "mread" : k == 'w' ? "mwrite" : "mremove"}, {"s", (size_t) i}}); ++events; }
      return;
    }
    if (!named(p, d, len, c)) { tr.ev({{"e", "other"}, {"k", std::string(1, k)}, {"f", p.substr(p.rfind('/') + 1)}}); return; }
    std::pair<char, size_t> b{d, len}; std::string nm = std::string(1, d) + std::to_string(len);
    size_t all = !ops ? 1 : len < md.n ? comps_of(d, len) : 1;
    auto &q = parts[b];
    if (k == 'w') { if (q.w.insert(c); q.w.size() >= all) { pend.push_back({b, false}); q = Parts(); } }
    else if (k == 'r') { if (q.r.empty()) q.ok = true; q.ok = part(b, c) && q.ok; q.r.insert(c); if (q.r.size() >= all) { tr.ev({{"e", "read"}, {"b", nm}, {"ok", q.ok}}); ++events; q.r.clear(); } }
    else { q.x.insert(c); if (q.x.size() >= all) { tr.ev({{"e", "remove"}, {"b", nm}}); have.erase(b); ++events; q = Parts(); } }
  }
  void start() {
    mem = nullptr; snapshot(cur); Vec v = whole(cur); sector = md.charge_of(v); have.clear(); parts.clear(); pend.clear(); broken = false;
    rec.mps = mps; rec.temp = temp; rec.event = [this](char k, const std::string &p) { file(k, p); };
  }
  void known() {                                                         // what is on disk before the run starts
    for (char d : {'l', 'r'}) for (size_t k = 0; k < md.n; ++k) if (access(bfile(d, k).c_str(), 4) == 0) have.insert({d, k});
  }
  std::vector<std::string> fresh(const std::vector<Site> &c) const { std::vector<std::string> o; for (char d : {'l', 'r'}) for (size_t k = 0; k < md.n; ++k) if (holds(d, k, c)) o.push_back(std::string(1, d) + std::to_string(k)); return o; }
  std::vector<std::string> present() const {
    std::set<std::string> o; for (auto &f : ls(temp)) { char d; size_t k, c; o.insert(named("/" + f, d, k, c) ? std::string(1, d) + std::to_string(k) : f); } return std::vector<std::string>(o.begin(), o.end());
  }
  bool canonical(const std::vector<Site> &c, size_t centre) const { return orthonormal(left_basis(c, centre)) && orthonormal(right_basis(c, centre + 1)); }
};
struct On { On() { rec.on = true; } ~On() { rec.on = false; } };
// ground state of the Hamiltonian restricted to the given sites: exact energy, overlap of the start with it, best achievable overlap
template <typename E, typename Q> struct Local {
  double emin = 0, gap = 0, ov = 0; Vec g; bool ortho = true;
};
template <typename E, typename Q> Local<E, Q> local(const Model<E, Q> &md, const std::vector<Site> &c, size_t a, size_t b, const Vec &start) {   // sites a..b free, others as in c
  Local<E, Q> o; auto L = left_basis(c, a), R = right_basis(c, b + 1); o.ortho = orthonormal(L) && orthonormal(R);
  size_t m = 1; for (size_t i = a; i <= b; ++i) m *= c[i].p;
  auto q = md.charge_of(start); std::vector<Vec> basis;
  for (auto &l : L) for (size_t s = 0; s < m; ++s) for (auto &r : R) {
    Vec v(md.D, C(0)); for (size_t x = 0; x < l.size(); ++x) if (l[x] != C(0)) for (size_t y = 0; y < r.size(); ++y) v[(x * m + s) * r.size() + y] = l[x] * r[y];
    bool in = norm2(v) > 1e-12; for (long k = 0; k < md.D && in; ++k) in = std::abs(v[k]) < 1e-12 || md.charge[k] == q;
    if (in) basis.push_back(v);
  }
  size_t k = basis.size(); std::vector<Vec> hb(k), hm(k, Vec(k)); for (size_t i = 0; i < k; ++i) hb[i] = md.apply(basis[i]);
  for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < k; ++j) hm[i][j] = dot(basis[i], hb[j]);
  for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < i; ++j) { C x = (hm[i][j] + std::conj(hm[j][i])) / 2.0; if (x.imag() == 0) x = x.real(); hm[i][j] = x; hm[j][i] = std::conj(x); }
  for (size_t i = 0; i < k; ++i) hm[i][i] = hm[i][i].real();
  std::vector<double> w; std::vector<Vec> v; eigh(hm, w, v);
  o.emin = w[0]; o.gap = k > 1 ? w[1] - w[0] : 1e9; o.g.assign(md.D, C(0));
  for (size_t i = 0; i < k; ++i) for (long x = 0; x < md.D; ++x) o.g[x] += v[0][i] * basis[i][x];
  o.ov = std::norm(dot(o.g, start)) / norm2(start);
  return o;
}
template <typename E, typename Q> std::vector<double> schmidt(const Model<E, Q> &, const Vec &, size_t);
// the D-th and the following Schmidt weight are hard to tell apart
template <typename E, typename Q> bool tie(const Model<E, Q> &md, const Vec &v, size_t k, size_t Dmax) { auto w = schmidt(md, v, k); size_t s = w.size(); return s > Dmax && w[s - Dmax] - w[s - Dmax - 1] < 1e-5 * norm2(v); }
// weight beyond the D largest Schmidt coefficients at the bond behind the first k sites
template <typename E, typename Q> std::vector<double> schmidt(const Model<E, Q> &md, const Vec &v, size_t k) {
  size_t rows = 1; for (size_t i = 0; i < k; ++i) rows *= md.dims[i]; size_t cols = v.size() / rows; bool flip = rows > cols; size_t s = flip ? cols : rows;
  std::vector<Vec> g(s, Vec(s));
  for (size_t i = 0; i < s; ++i) for (size_t j = 0; j < s; ++j) { C x(0); if (!flip) for (size_t y = 0; y < cols; ++y) x += v[i * cols + y] * std::conj(v[j * cols + y]); else for (size_t y = 0; y < rows; ++y) x += v[y * cols + i] * std::conj(v[y * cols + j]); g[i][j] = x; }
  for (size_t i = 0; i < s; ++i) { g[i][i] = g[i][i].real(); for (size_t j = 0; j < i; ++j) g[j][i] = std::conj(g[i][j]); }
  std::vector<double> w; std::vector<Vec> u; eigh(g, w, u); return w;
}
template <typename E, typename Q> double discarded(const Model<E, Q> &md, const Vec &v, size_t k, size_t Dmax) { auto w = schmidt(md, v, k); double t = 0; for (size_t i = 0; i + Dmax < w.size(); ++i) t += std::max(0.0, w[i]); return t / norm2(v); }
}
