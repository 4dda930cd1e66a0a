// Shared by the matrix-product-state harnesses: random chains with integer entries, exact state vectors, scratch directories.
#pragma once
#include "modelio.h"
#include "qlmps/site_vec.h"
#include "qlmps/one_dim_tn/mps_all.h"
#include <dirent.h>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
namespace mio {
using namespace qlmps; using namespace qlten; using qlten::special_qn::U1QN; using qlten::special_qn::U1U1QN;
using Vec = std::vector<C>;
inline size_t ipow(size_t d, size_t n) { size_t r = 1; while (n--) r *= d; return r; }
// the represented vector; physical index of site 0 is the most significant digit. at(i) gives the tensor of site i.
template <typename F> Vec state_of(size_t n, F at) {
  std::vector<Vec> acc(1, Vec{C(1)});                       // by right bond value
  for (size_t i = 0; i < n; ++i) {
    const auto &t = at(i); auto sh = t.GetShape();
    if (sh.size() != 3 || sh[0] != acc.size()) return {};
    std::vector<Vec> nx(sh[2], Vec(acc[0].size() * sh[1], C(0)));
    for (size_t a = 0; a < sh[0]; ++a) for (size_t p = 0; p < sh[1]; ++p) for (size_t b = 0; b < sh[2]; ++b) {
      C v = cplx(t.GetElem({a, p, b})); if (v == C(0)) continue;
      for (size_t k = 0; k < acc[a].size(); ++k) nx[b][k * sh[1] + p] += acc[a][k] * v;
    }
    acc = nx;
  }
  if (acc.size() != 1) return {};
  return acc[0];
}
template <typename M> Vec state(const M &m) { return state_of(m.size(), [&](size_t i) -> decltype(auto) { return m[i]; }); }
inline double norm2(const Vec &v) { double s = 0; for (auto &x : v) s += std::norm(x); return s; }
inline Jv vec_list(const Vec &v, Ex &ex) {                  // [[index, re, im], ...] of the non-zero amplitudes
  std::string s = "["; bool f = true;
  for (size_t i = 0; i < v.size(); ++i) {
    long a = ex(v[i].real()), b = ex(v[i].imag());
    if (a || b) { s += (f ? "" : ",") + Jv(std::vector<long>{(long) i, a, b}).s; f = false; }
  }
  return Jv::raw(s + "]");
}
template <typename E> E mk(double a, double b) { if constexpr (std::is_same_v<E, double>) return a; else return E(a, b); }
// fills a chain with random integer tensors of total charge `tot`; bonds made from a few basis states of that charge
template <typename E, typename Q> struct Maker {
  std::vector<Index<Q>> outs;
  Rng &r;
  Q charge(size_t site, size_t s) const { return outs[site].GetQNSctFromActualCoor(s).GetQn(); }
  std::vector<size_t> random_labels(const Q *tot) const {    // a product state with the charge *tot (any, if null)
    size_t n = outs.size();
    for (int tries = 0; tries < 20000; ++tries) {
      std::vector<size_t> v(n); Q q = charge(0, 0) - charge(0, 0);
      for (size_t i = 0; i < n; ++i) { v[i] = r(outs[i].dim()); q += charge(i, v[i]); }
      if (!tot || q == *tot) return v;
    }
    std::abort();
  }
  Q total(const std::vector<size_t> &v) const { Q q = charge(0, v[0]); for (size_t i = 1; i < v.size(); ++i) q += charge(i, v[i]); return q; }
  template <typename M> void fill(M &m, int states, int deg, int amp, int div_site = 0) const {
    size_t n = outs.size();
    for (int tries = 0;; ++tries) {
      std::vector<std::vector<size_t>> labs{random_labels(nullptr)};
      Q tot = total(labs[0]), zero = tot - tot;
      for (int k = 1; k < states; ++k) labs.push_back(random_labels(&tot));
      std::vector<Q> left(states, zero);
      Index<Q> l({QNSector<Q>(zero, 1)}, IN);
      for (size_t i = 0; i < n; ++i) {
        Q dv = (int) i == div_site ? tot : zero;
        QNSectorVec<Q> sv;
        for (int k = 0; k < states; ++k) {
          left[k] = left[k] + dv - charge(i, labs[k][i]);
          bool dup = false; for (int j = 0; j < k; ++j) dup = dup || left[j] == left[k];
          if (!dup) sv.emplace_back(left[k], i + 1 < n ? (size_t) r.range(1, deg) : 1);
        }
        Index<Q> rt(sv, OUT);
        auto *t = new QLTensor<E, Q>({l, outs[i], rt});
        t->SetDiv(dv);
        t->Each([&](const CoorsT &c, size_t p) { if (t->Flux(c) == dv && r.p(4, 5)) t->Data()[p] = mk<E>(r.range(-amp, amp), r.range(-1, 1)); });
        delete m(i); m(i) = t; l = InverseIndex(rt);
      }
      bool ok = true;                                          // every tensor must carry its charge, the state must not vanish
      for (size_t i = 0; i < n; ++i) ok = ok && m[i].Get2Norm() > 0 && Div(m[i]) == ((int) i == div_site ? tot : zero);
      if (ok && norm2(state(m)) > 0) return;
      if (tries > 10000) std::abort();
    }
  }
  // labels of sites u, v with the total charge of (a, b), one to one
  std::vector<std::pair<size_t, size_t>> matching(size_t u, size_t a, size_t v, size_t b) const {
    auto want = charge(u, a) + charge(v, b); std::vector<std::pair<size_t, size_t>> m; std::vector<size_t> order(outs[v].dim());
    for (size_t k = 0; k < order.size(); ++k) order[k] = k;
    for (size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[r(k)]);
    std::vector<bool> used(order.size());
    for (size_t c = 0; c < outs[u].dim(); ++c) for (size_t d : order) if (!used[d] && charge(u, c) + charge(v, d) == want) { used[d] = true; m.push_back({c, d}); break; }
    return m;
  }
  // operator with integer elements changing the charge by q; kind 0 identity, 1 diagonal signs, 2 random
  QLTensor<E, Q> op(size_t site, const Q &q, int kind, int amp = 2) const {
    QLTensor<E, Q> t({InverseIndex(outs[site]), outs[site]});
    size_t d = outs[site].dim();
    for (size_t c = 0; c < d; ++c) for (size_t w = 0; w < d; ++w) {
      if (!(charge(site, w) - charge(site, c) == q)) continue;
      if (kind == 0) { if (c == w) t({c, w}) = E(1); }
      else if (kind == 1) { if (c == w) t({c, w}) = E(c % 2 ? -1 : 1); }
      else { E v = mk<E>(r.range(-amp, amp), r.range(-1, 1)); if (v != E(0)) t({c, w}) = v; }
    }
    return t;
  }
  QLTensor<E, Q> any_op(size_t site, const Q &q, int amp = 2) const {   // non-zero if any element can be
    for (int k = 0; k < 20; ++k) { auto t = op(site, q, 2, amp); if (t.Get2Norm() > 0) return t; }
    return op(site, q, 2, amp);
  }
};
template <typename Q> std::vector<Index<Q>> spin_sites(size_t n) {       // d = 2, charges +1, -1
  return std::vector<Index<Q>>(n, Index<Q>({QNSector<Q>(Q({QNCard("Sz", U1QNVal(1))}), 1), QNSector<Q>(Q({QNCard("Sz", U1QNVal(-1))}), 1)}, OUT));
}
template <typename Q> std::vector<Index<Q>> tj_sites(size_t n) {         // d = 3, charges (N, Sz)
  auto q = [](int a, int b) { return Q({QNCard("N", U1QNVal(a)), QNCard("Sz", U1QNVal(b))}); };
  return std::vector<Index<Q>>(n, Index<Q>({QNSector<Q>(q(1, 1), 1), QNSector<Q>(q(1, -1), 1), QNSector<Q>(q(0, 0), 1)}, OUT));
}
template <typename Q> std::vector<Index<Q>> plain_sites(size_t n, size_t d) { return std::vector<Index<Q>>(n, Index<Q>({QNSector<Q>(Q(), d)}, OUT)); }
// scratch directory, removed with its contents (one level of subdirectories)
inline void empty_dir(const std::string &d, bool rm) {
  if (DIR *h = opendir(d.c_str())) {
    while (dirent *e = readdir(h)) {
      std::string n = e->d_name; if (n == "." || n == "..") continue;
      std::string p = d + "/" + n; struct stat st;
      if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) empty_dir(p, true); else unlink(p.c_str());
    }
    closedir(h);
    if (rm) rmdir(d.c_str());
  }
}
struct Scratch {
  std::string d;
  explicit Scratch(const std::string &p) : d(p) { empty_dir(d, true); if (mkdir(d.c_str(), 0700)) { perror(d.c_str()); exit(70); } }
  ~Scratch() { empty_dir(d, true); }
};
inline std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
inline std::vector<std::string> ls(const std::string &d) {
  std::vector<std::string> v;
  if (DIR *h = opendir(d.c_str())) { while (dirent *e = readdir(h)) { std::string n = e->d_name; if (n != "." && n != "..") v.push_back(n); } closedir(h); }
  std::sort(v.begin(), v.end());
  return v;
}
}
