// Shared by the model/generator harnesses: exact dense contraction of generated chains and scaled-integer export.
#pragma once
#include "jw.h"
#include "qlten/qlten.h"
#include <complex>
#include <map>
#include <sstream>
#include <iostream>
namespace mio {
using C = std::complex<double>;
inline C cplx(double x) { return x; }
inline C cplx(const C &x) { return x; }
struct Ex {                                     // scaled integer export of doubles, remembers if anything was inexact
  double scale; bool exact = true;
  explicit Ex(double s) : scale(s) {}
  long operator()(double x) { double y = x * scale, r = std::round(y); if (!(std::abs(y - r) < 1e-9) || std::abs(r) > 1e9) { exact = false; return 0; } return (long) r; }
};
struct Quiet {                                  // the generator prints; keep it out of the way
  std::stringstream cap; std::streambuf *old;
  Quiet() : old(std::cout.rdbuf(cap.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(old); }
};
using Sp = std::map<std::pair<long, long>, C>;  // sparse operator: (row, col) -> value
template <typename Q> std::vector<int> comps(const Q &q) { std::vector<int> v; for (int i = 0; i < Q::kComponents; ++i) v.push_back(q.Val(i)); return v; }
template <typename Q> Jv charges(const qlten::Index<Q> &ix) {
  std::string s = "[";
  for (size_t i = 0; i < ix.dim(); ++i) s += (i ? "," : "") + Jv(comps(ix.GetQNSctFromActualCoor(i).GetQn())).s;
  return Jv::raw(s + "]");
}
template <typename T> Jv op_list(const T &t, Ex &ex) {     // Tensor({col,row}) = <row|O|col>
  std::string s = "["; bool f = true;
  size_t d0 = t.GetShape()[0], d1 = t.GetShape()[1];
  for (size_t c = 0; c < d0; ++c) for (size_t r = 0; r < d1; ++r) {
    C v = cplx(t.GetElem({c, r}));
    if (v != C(0)) { s += (f ? "" : ",") + Jv(std::vector<long>{(long) r, (long) c, ex(v.real()), ex(v.imag())}).s; f = false; }
  }
  return Jv::raw(s + "]");
}
inline Jv sp_list(const Sp &m, Ex &ex) {
  std::string s = "["; bool f = true;
  for (auto &kv : m) if (kv.second != C(0)) { s += (f ? "" : ",") + Jv(std::vector<long>{kv.first.first, kv.first.second, ex(kv.second.real()), ex(kv.second.imag())}).s; f = false; }
  return Jv::raw(s + "]");
}
// chain of 4-leg tensors (left, in, out, right): column = in, row = out
template <typename MPO> Sp dense_mpo(const MPO &m, size_t n) {
  std::vector<Sp> acc(1); acc[0][{0, 0}] = 1;
  for (size_t i = 0; i < n; ++i) {
    auto &t = m[i]; auto sh = t.GetShape();
    std::vector<Sp> nx(sh[3]);
    for (size_t a = 0; a < sh[0]; ++a) for (size_t b = 0; b < sh[1]; ++b) for (size_t c = 0; c < sh[2]; ++c) for (size_t d = 0; d < sh[3]; ++d) {
      C v = cplx(t.GetElem({a, b, c, d})); if (v == C(0)) continue;
      for (auto &kv : acc.at(a)) nx[d][{kv.first.first * (long) sh[2] + (long) c, kv.first.second * (long) sh[1] + (long) b}] += kv.second * v;
    }
    acc = nx;
  }
  Sp r; for (auto &p : acc) for (auto &kv : p) r[kv.first] += kv.second;
  return r;
}
template <typename MR> Sp dense_mat(const MR &m, size_t n, const std::vector<size_t> &dims) {
  std::vector<Sp> acc(1); acc[0][{0, 0}] = 1;
  for (size_t i = 0; i < n; ++i) {
    auto &s = m[i]; std::vector<Sp> nx(s.cols);
    for (size_t x = 0; x < s.rows; ++x) for (size_t y = 0; y < s.cols; ++y) {
      if (s.IsNull(x, y)) continue;
      auto &t = s(x, y);
      for (size_t c = 0; c < t.GetShape()[0]; ++c) for (size_t r = 0; r < t.GetShape()[1]; ++r) {
        C v = cplx(t.GetElem({c, r})); if (v == C(0)) continue;
        for (auto &kv : acc.at(x)) nx[y][{kv.first.first * (long) dims[i] + (long) r, kv.first.second * (long) dims[i] + (long) c}] += kv.second * v;
      }
    }
    acc = nx;
  }
  Sp r; for (auto &p : acc) for (auto &kv : p) r[kv.first] += kv.second;
  return r;
}
}
