// Projection of symbolic objects to trace JSON.
#pragma once
#include <string>
#include <cstring>
#include <set>
#include "qlmps/one_dim_tn/mpo/mpogen/fsm.h"
#include "jw.h"
const long SYMP = 30011;
inline Jv jcoef(const CoefRepr &c) { return Jv(std::vector<long>(c.GetCoefLabelList())); }
inline Jv jop(const OpRepr &o) {
  auto cs = o.GetCoefReprList(); auto ls = o.GetOpLabelList(); std::vector<Jv> r;
  for (size_t i = 0; i < ls.size(); ++i) r.push_back(Jv::raw("[" + std::to_string(ls[i]) + "," + jcoef(cs[i]).s + "]"));
  return Jv(r);
}
inline bool isnull(const OpRepr &o) { return o.GetOpLabelList().empty(); }
template<typename M> inline Jv jmat(const M &m) {
  std::string s; bool f = true;
  for (size_t x = 0; x < m.rows; ++x) for (size_t y = 0; y < m.cols; ++y) {
    OpRepr o = m(x, y);
    if (isnull(o)) continue;
    if (!f) s += ","; f = false;
    s += "[" + std::to_string(x) + "," + std::to_string(y) + "," + jop(o).s + "]";
  }
  return jobj({{"r", m.rows}, {"c", m.cols}, {"el", Jv::raw("[" + s + "]")}});
}
template<typename V> inline Jv jmats(const V &v) { std::vector<Jv> r; for (auto &m : v) r.push_back(jmat(m)); return Jv(r); }
inline Jv jops(const OpReprVec &v) { std::vector<Jv> r; for (auto &o : v) r.push_back(jop(o)); return Jv(r); }
struct Point {                       // evaluation point
  std::vector<long> cv; std::vector<std::vector<long>> ov;
  Point(Rng &r, int n, int nc, int no) : cv(nc), ov(n, std::vector<long>(no)) {
    for (auto &x : cv) x = 1 + r((int) SYMP - 1); cv[0] = 1;
    for (auto &a : ov) for (auto &x : a) x = 1 + r((int) SYMP - 1);
  }
  Jv jov() const { std::vector<Jv> r; for (auto &a : ov) r.push_back(Jv(a)); return Jv(r); }
};
