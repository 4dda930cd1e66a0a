// C10 driver: c10 replay <programs> <from> <to> <trace> | c10 random <seed> <nseg> <trace>
#include "mps.h"
#include "qlmps/third_party/nlohmann/json.hpp"
using namespace mio; using nlohmann::json;
static Trace tr;
template <typename Q> std::vector<Index<Q>> degenerate_sites(size_t n) {  // sectors with more than one state, two kinds of site
  auto q = [](int a) { return Q({QNCard("N", U1QNVal(a))}); };
  std::vector<Index<Q>> v;
  for (size_t i = 0; i < n; ++i) v.push_back(i % 2 ? Index<Q>({QNSector<Q>(q(1), 1), QNSector<Q>(q(0), 1)}, OUT) : Index<Q>({QNSector<Q>(q(1), 2), QNSector<Q>(q(0), 1)}, OUT));
  return v;
}
template <typename E, typename Q> struct Run {
  using M = FiniteMPS<E, Q>; using V = std::vector<size_t>;
  std::vector<Index<Q>> outs; SiteVec<E, Q> sv; M *m; Rng &r; Maker<E, Q> mk; size_t n; Vec now; bool form = false;
  Run(const std::vector<Index<Q>> &o, Rng &rr) : outs(o), sv(IndexVec<Q>(o)), m(new M(sv)), r(rr), mk{o, rr}, n(o.size()) {
    V dims; std::string c = "["; for (auto &x : outs) { dims.push_back(x.dim()); c += (c.size() > 1 ? "," : "") + charges(x).s; }
    tr.ev({{"e", "reset"}, {"dims", Jv(dims)}, {"ch", Jv::raw(c + "]")}});
  }
  ~Run() { delete m; }
  V bonds(const M &c) { V b; for (size_t i = 0; i + 1 < n; ++i) b.push_back(c[i].GetShape()[2]); return b; }
  Jv obs(const M &c) {
    Ex ex(1); Vec v = state(c); std::string dv = "[", am = "[", su = "[";
    bool f = true;
    for (size_t i = 0; i < n; ++i) dv += (i ? "," : "") + Jv(comps(Div(c[i]))).s;
    for (size_t i = 0; i < v.size(); ++i) if (std::abs(v[i]) > 1e-10) {
      su += (f ? "" : ",") + std::to_string(i);
      am += (f ? "" : ",") + Jv(std::vector<long>{(long) i, std::lround(v[i].real() * 1e6), std::lround(v[i].imag() * 1e6)}).s; f = false;
    }
    now = v; Jv p = vec_list(v, ex); bool chain = c[0].GetShape()[0] == 1 && c[n - 1].GetShape()[2] == 1 && !v.empty();
    return jobj({{"c", c.GetCenter()}, {"psi", p}, {"exact", ex.exact && chain}, {"amps", Jv::raw(am + "]")}, {"supp", Jv::raw(su + "]")}, {"div", Jv::raw(dv + "]")},
                 {"right", Jv(comps(c[n - 1].GetIndex(2).GetQNSctFromActualCoor(0).GetQn()))}, {"bonds", Jv(bonds(c))}, {"norm", (long) std::min(1e8, std::round(1e6 * std::sqrt(norm2(v))))}});
  }
  void fresh() { if (r(2)) { delete m; m = new M(sv); } }     // or reuse the occupied one
  void product(const V &lab, bool zero) {
    form = zero; fresh(); { Quiet q; if (zero) DirectStateInitZeroDivMps(*m, lab); else DirectStateInitMps(*m, lab); }
    tr.ev({{"e", "op"}, {"o", zero ? "zeroproduct" : "product"}, {"lab", Jv(lab)}, {"out", "ok"}, {"obs", obs(*m)}});
  }
  void scale(M &b, int re, int im) { size_t s = r(n); b[s] *= mio::mk<E>(re, im); }
  void add_to(M *b, const V &lab, int re, int im, const Jv &other) {
    auto *c = new M(sv); if (r(2)) { V l2(n, 0); Quiet q; DirectStateInitMps(*c, l2); }
    Vec va = state((const M &) *m), vb = state((const M &) *b); V ba = bonds(*m), bb = bonds(*b);
    int side = r(2); { Quiet q; if (side) FiniteMPSAdd(*m, *b, *c); else FiniteMPSAdd(*b, *m, *c); }
    bool kept = state((const M &) *m) == va && state((const M &) *b) == vb;
    for (size_t i = 0; i + 1 < n; ++i) ba[i] += bb[i];
    delete m; if (b != m) delete b; m = c;
    tr.ev({{"e", "op"}, {"o", "add"}, {"lab", Jv(lab)}, {"w", Jv(std::vector<int>{re, im})}, {"other", other}, {"kept", kept}, {"bonds", Jv(ba)}, {"out", "ok"}, {"obs", obs(*m)}});
  }
  void add(const V &lab, int re, int im) {
    auto *b = new M(sv); { Quiet q; if (form) DirectStateInitZeroDivMps(*b, lab); else DirectStateInitMps(*b, lab); }
    scale(*b, re, im); add_to(b, lab, re, im, Jv::raw("[]"));
  }
  void random(const std::vector<V> &sets, int enl) {
    fresh(); { Quiet q; ExtendDirectRandomInitMps(*m, sets, enl); }
    tr.ev({{"e", "op"}, {"o", "random"}, {"sets", Jv(sets)}, {"enl", enl}, {"out", "ok"}, {"obs", obs(*m)}});
  }
  void truncate(int dmax, int dmin, int err, bool any) {
    Vec before = state((const M &) *m); V full; std::vector<long> d, lost; Quiet *q = new Quiet();
    size_t left = 1, all = before.size(); for (size_t i = 0; i + 1 < n; ++i) { left *= outs[i].dim(); full.push_back(std::min(left, all / left)); }
    TruncateMPS(*m, err / 1000.0, dmin, dmax);
    std::string line; while (std::getline(q->cap, line)) {
      auto a = line.find("TruncErr = "), b = line.find(" D = "); if (a == std::string::npos || b == std::string::npos) continue;
      lost.push_back(std::lround(1e6 * strtod(line.c_str() + a + 11, nullptr))); d.push_back(strtol(line.c_str() + b + 5, nullptr, 10));
    }
    delete q;
    Vec after = state((const M &) *m); C ov(0); for (size_t i = 0; i < before.size() && i < after.size(); ++i) ov += std::conj(before[i]) * after[i];
    long f = std::lround(1e4 * std::norm(ov) / (norm2(before) * norm2(after)));
    tr.ev({{"e", "op"}, {"o", any ? "anytruncate" : "truncate"}, {"dmax", dmax}, {"dmin", dmin}, {"err", err}, {"d", Jv(d)}, {"lost", Jv(lost)}, {"full", Jv(full)}, {"overlap", f}, {"out", "ok"}, {"obs", obs(*m)}});
  }
};
static const int ERRS[] = {0, 0, 1, 7, 30, 100, 250};
template <typename E, typename Q> void random_seg(const std::vector<Index<Q>> &outs, Rng &r) {
  using V = std::vector<size_t>; Run<E, Q> x(outs, r); size_t n = outs.size(); [[maybe_unused]] bool cx = std::is_same_v<E, C>;
  auto w = [&] { int v = r.range(1, 9); return r(2) ? v : -v; };
  switch (r(5)) {
    case 0: for (int k = 0; k < 3; ++k) x.product(x.mk.random_labels(nullptr), r(2)); break;
    case 1: for (int k = 0; k < 2; ++k) {
      auto a = x.mk.random_labels(nullptr); auto tot = x.mk.total(a); std::vector<V> sets{a};
      int c = r.range(1, 4); for (int j = 1; j < c; ++j) sets.push_back(x.mk.random_labels(&tot));
      x.random(sets, r.range(1, 3)); if (r(2)) x.truncate(r.range(1, 6), 1, ERRS[r(7)], true);
    } break;
    case 2: {
      auto a = x.mk.random_labels(nullptr); auto tot = x.mk.total(a); x.product(a, r(2));
      int c = r.range(1, 6);
      for (int j = 0; j < c; ++j) if (r(6) == 0 && norm2(x.now) > 0) { auto *cp = new FiniteMPS<E, Q>(*x.m); Ex ex(1); x.add_to(r(2) ? cp : (delete cp, x.m), {}, 0, 0, vec_list(x.now, ex)); }
        else x.add(x.mk.random_labels(&tot), w(), cx ? (int) r(3) - 1 : 0);
      if (norm2(x.now) > 0) { int dm = r.range(1, 6); x.truncate(dm, std::min(dm, (int) r.range(1, 3)), ERRS[r(7)], true); };
    } break;
    default: {                                                   // states with known Schmidt vectors: one or two mirrored pieces
      size_t cut = n >= 4 && r(2) ? (size_t) r.range(2, n - 2) : n; V base(n);
      for (size_t i = 0; i < n; ++i) base[i] = r(outs[i].dim());
      std::map<V, int> piece[2]; V sz{cut, n - cut}, at{0, cut};
      for (int p = 0; p < 2; ++p) {
        int terms = sz[p] < 2 ? 1 : r.range(1, p || cut < n ? 4 : 9);
        std::vector<std::vector<std::pair<size_t, size_t>>> match(sz[p] / 2);  // per mirrored pair: labels of equal total charge, one to one
        for (size_t i = 0; i < match.size(); ++i) {
          size_t u = at[p] + i, v = at[p] + sz[p] - 1 - i; match[i] = x.mk.matching(u, base[u], v, base[v]);
        }
        for (int t = 0; t < terms; ++t) {
          V lab(base.begin() + at[p], base.begin() + at[p] + sz[p]);
          for (size_t i = 0; i < match.size(); ++i) { auto &c = match[i][r(match[i].size())]; lab[i] = c.first; lab[sz[p] - 1 - i] = c.second; }
          piece[p][lab] = sz[p] == 0 ? 1 : cut < n ? (r(2) ? 1 : -1) * r.range(1, 3) : w();
        }
      }
      bool first = true;
      for (auto &a : piece[0]) for (auto &b : piece[1]) {
        V lab = a.first; lab.insert(lab.end(), b.first.begin(), b.first.end());
        if (first) { x.product(lab, r(2)); int f = a.second * b.second - 1; if (f) x.add(lab, f, 0); first = false; }
        else x.add(lab, a.second * b.second, 0);
      }
      int dmax = r.range(1, 7);
      x.truncate(dmax, r.range(1, dmax), ERRS[r(7)], false); if (r(2)) x.truncate(r.range(1, dmax), 1, ERRS[r(7)], false);
    }
  }
}
int main(int argc, char **argv) {
  std::string mode = argv[1]; tr.open(argv[mode == "replay" ? 5 : 4]);
  if (mode == "replay") {
    std::ifstream f(argv[2]); std::string line; long k = 0, from = atol(argv[3]), to = atol(argv[4]);
    while (std::getline(f, line)) {
      if (k++ < from) continue; if (k > to) break;
      json p = json::parse(line); Rng r(k); std::vector<size_t> dims = p["dims"];
      std::vector<Index<U1QN>> o; bool spin = true; for (auto d : dims) spin = spin && d == 2;
      if (spin) o = spin_sites<U1QN>(dims.size()); else for (auto d : dims) o.push_back(plain_sites<U1QN>(1, d)[0]);
      auto go = [&](auto &x) { for (auto &s : p["prog"]) {
        std::vector<size_t> v = s[1]; int w = s[2];
        if (s[0] == "product") x.product(v, r(2)); else if (s[0] == "add") x.add(v, w, 0); else x.truncate(v[0], v[1], v[2], false);
      } };
      if (k % 2) { Run<double, U1QN> x(o, r); go(x); } else { Run<C, U1QN> x(o, r); go(x); }
    }
  } else {
    Rng r(atoll(argv[2])); long nseg = atol(argv[3]);
    for (long i = 0; i < nseg; ++i) switch (i % 6) {
      case 0: random_seg<double>(spin_sites<U1QN>(r.range(2, 7)), r); break;
      case 1: random_seg<C>(spin_sites<U1QN>(r.range(2, 6)), r); break;
      case 2: random_seg<C>(tj_sites<U1U1QN>(r.range(2, 5)), r); break;
      case 3: random_seg<double>(plain_sites<U1QN>(r.range(2, 6), r.range(2, 3)), r); break;
      case 4: random_seg<C>(plain_sites<U1QN>(r.range(2, 5), 3), r); break;
      default: random_seg<double>(degenerate_sites<U1QN>(r.range(2, 5)), r);
    }
  }
}
