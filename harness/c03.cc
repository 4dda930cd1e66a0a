// C03 driver: c03 random <seed> <nseg> <maxdim> <trace> | c03 replay <programs> <from> <to> <trace> | c03 compress <seed> <nseg> <size> <trace>
#include "symb.h"
#include "qlmps/third_party/nlohmann/json.hpp"
#include <fstream>
#include <sstream>
#include <iostream>
using nlohmann::json;
static Trace tr;
static const int N = 2, NE = 6;
#ifdef COEF                        // matrices of coefficients (no sorting)
using Mat = SparCoefReprMat; using El = CoefRepr;
static El pool(int e) {
  switch (e) {
    case 1: return kIdCoefRepr; case 2: return CoefRepr(1); case 3: return CoefRepr(2); case 4: return CoefRepr(std::vector<long>{1, 2});
    case 5: return CoefRepr(std::vector<long>{1, 1}); default: return CoefRepr(std::vector<long>{0, 1, 3});
  }
}
static const El null = kNullCoefRepr;
#else
using Mat = SparOpReprMat; using El = OpRepr;
static El pool(int e) {        // distinct symbolic operators standing for the elements 1..NE
  switch (e) {
    case 1: return OpRepr(0); case 2: return OpRepr(1); case 3: return OpRepr(CoefRepr(1), 1); case 4: return OpRepr(std::vector<long>{1, 2});
    case 5: return OpRepr(CoefRepr(std::vector<long>{1, 2}), 3); default: return OpRepr(7);
  }
}
static const El null = kNullOpRepr;
#endif
static Mat *M[N + 1];
static int id(const El &o) { if (o == null) return 0; for (int e = 1; e <= NE; ++e) if (o == pool(e)) return e; return 99; }
static std::vector<int> ids(const std::vector<El> &v) { std::vector<int> r; for (auto &o : v) r.push_back(id(o)); return r; }
static void ev(const char *e, std::vector<std::pair<std::string, Jv>> kv) {
  std::vector<std::pair<std::string, Jv>> l{{"e", Jv(e)}}; for (auto &k : kv) l.push_back(k);
  std::vector<Jv> ms;
  for (int k = 1; k <= N; ++k) {
    const Mat &m = *M[k]; bool nullok = true; std::vector<Jv> rows;
    for (size_t x = 0; x < m.rows; ++x) { std::vector<int> row; for (size_t y = 0; y < m.cols; ++y) { int i = id(m(x, y)); nullok = nullok && (m.IsNull(x, y) == (i == 0)); row.push_back(i); } rows.push_back(Jv(row)); }
    ms.push_back(jobj({{"r", m.rows}, {"c", m.cols}, {"a", Jv(rows)}, {"nullok", nullok}}));
  }
  l.push_back({"m", Jv(ms)}); tr.ev(jobjv(l));
}
static void reset(int k) { for (int i = 1; i <= N; ++i) { delete M[i]; M[i] = new Mat(); } tr.ev({{"e", "reset"}, {"k", k}}); }
static void step(const std::string &o, int k, int x, int y, int e, std::vector<size_t> p) {
  Mat &m = *M[k];
  if (o == "new") { m = Mat(x, y); if (e) m.Reserve(e); ev("new", {{"k", k}, {"r", x}, {"c", y}}); }
  else if (o == "copy") { if (e) m = *M[x]; else { auto *q = new Mat(*M[x]); delete M[k]; M[k] = q; } ev("copy", {{"k", k}, {"s", x}}); }
  else if (o == "set") { m.SetElem(x, y, pool(e)); ev("set", {{"k", k}, {"x", x}, {"y", y}, {"el", e}}); }
  else if (o == "rmrow") { m.RemoveRow(x); ev("rmrow", {{"k", k}, {"x", x}}); }
  else if (o == "rmcol") { m.RemoveCol(x); ev("rmcol", {{"k", k}, {"x", x}}); }
  else if (o == "swaprows") { m.SwapTwoRows(x, y); ev("swaprows", {{"k", k}, {"x", x}, {"y", y}}); }
  else if (o == "swapcols") { m.SwapTwoCols(x, y); ev("swapcols", {{"k", k}, {"x", x}, {"y", y}}); }
  else if (o == "transrows") { m.TransposeRows(p); ev("transrows", {{"k", k}, {"p", Jv(p)}}); }
  else if (o == "transcols") { m.TransposeCols(p); ev("transcols", {{"k", k}, {"p", Jv(p)}}); }
#ifndef COEF
  else if (o == "sortrows") { auto q = m.SortRows(); ev("sortrows", {{"k", k}, {"p", Jv(q)}}); }
  else if (o == "sortcols") { auto q = m.SortCols(); ev("sortcols", {{"k", k}, {"p", Jv(q)}}); }
#endif
  else abort();
}
#ifndef COEF
static void compress_event(SparOpReprMat &l, SparOpReprMat &r, bool col, const Point &p, int i) {
  Jv l0 = jmat(l), r0 = jmat(r);
  if (col) SparOpReprMatColCompresser(l, r); else SparOpReprMatRowCompresser(r, l);
  tr.ev({{"e", "compress"}, {"col", col}, {"l0", l0}, {"r0", r0}, {"l1", jmat(l)}, {"r1", jmat(r)}, {"cv", Jv(p.cv)}, {"ol", Jv(p.ov[i])}, {"orr", Jv(p.ov[i + 1])}});
}
#endif
int main(int argc, char **argv) {
  std::ofstream devnull("/dev/null"); std::cout.rdbuf(devnull.rdbuf());
  std::string mode = argv[1];
  if (mode == "replay") {
    int from = atoi(argv[3]), to = atoi(argv[4]); tr.open(argv[5]); tr.flush = false; std::ifstream in(argv[2]); std::string line;
    for (int k = 0; std::getline(in, line) && k < to; ++k) {
      if (k < from) continue;
      json j = json::parse(line); reset(k);
      for (auto &o : j) {
        std::string n = o[0]; int x = 0, y = 0, e = 0; std::vector<size_t> p;
        if (n == "new") { x = o[1]; y = o[2]; }
        else if (n == "transrows" || n == "transcols") { for (size_t q : o[1]) p.push_back(q - 1); }
        else { if (o.size() > 1) x = (int) o[1] - 1; if (o.size() > 2) y = (int) o[2] - 1; if (o.size() > 3) e = o[3]; }
        step(n, 1, x, y, e, p);
      }
    }
    return 0;
  }
  Rng r(atoll(argv[2])); int nseg = atoi(argv[3]), sz = atoi(argv[4]); tr.open(argv[5]); tr.flush = false;
#ifndef COEF
  if (mode == "compress") {
    for (int s = 0; s < nseg; ++s) {
      tr.ev({{"e", "reset"}, {"k", s}});
      int n = r.range(2, 2 + sz), np = r.range(1, 2 + 3 * sz), nops = r.range(1, 4), nc = r.range(1, 4); FSM f(n); Point p(r, n, 8, 16); int range = r.p(1, 3) ? 2 : n;
      for (int k = 0; k < np; ++k) {
        int h = r(n), t = std::min(n - 1, h + r(range)); OpReprVec ops;
        for (int i = h; i <= t; ++i) { long lab = r(2) ? 0 : r(nops + 1); ops.push_back(i == h ? OpRepr(CoefRepr(r(nc)), lab) : OpRepr(lab)); }
        f.AddPath(h, t, ops);
      }
      for (int b = r.p(1, 2) ? r.range(1, 3) : 0; b > 0; --b) {   // products of sums: their expansion compresses to cells holding whole sums
        int h = r(n), t = std::min(n - 1, h + r.range(0, 2)), cf = r(nc); std::vector<std::vector<long>> sub;
        for (int i = h; i <= t; ++i) { std::vector<long> v; int sz2 = r.range(1, i == h ? 6 : 5); for (long o = 1; o <= 7 && (int) v.size() < sz2; ++o) if (r.p(2, 3)) v.push_back(o); if (v.empty()) v.push_back(1); sub.push_back(v); }
        std::vector<size_t> ix(sub.size(), 0); int lim = 60;
        while (lim--) {
          OpReprVec ops; for (size_t q = 0; q < sub.size(); ++q) ops.push_back(q == 0 ? OpRepr(CoefRepr(cf), sub[q][ix[q]]) : OpRepr(sub[q][ix[q]]));
          f.AddPath(h, t, ops); size_t q = 0;
          while (q < ix.size() && ++ix[q] == sub[q].size()) ix[q++] = 0;
          if (q == ix.size()) break;
        }
      }
      auto ms = f.GenMatRepr();
      for (int i = 0; i + 1 < n; ++i) compress_event(ms[i], ms[i + 1], true, p, i);
      for (int i = n - 1; i > 0; --i) compress_event(ms[i - 1], ms[i], false, p, i - 1);
    }
    return 0;
  }
#endif
  for (int g = 0; g < nseg; ++g) {
    reset(g); int len = r.range(5, 50), el = r.range(1, NE);
    for (int q = 0; q < len; ++q) {
      int k = r.range(1, N); Mat &m = *M[k];
      if (m.rows == 0 || r.p(1, 25)) { step("new", k, r.range(1, sz), r.range(1, sz), r(3) ? 0 : r(10), {}); continue; }
      int R = m.rows, Cc = m.cols, w = r(24);
#ifdef COEF
      if (w >= 15 && w < 19) w = 19;
#endif
     
      auto perm = [&](int n) { std::vector<size_t> p(n); for (int i = 0; i < n; ++i) p[i] = i; for (int i = n; i > 1; --i) std::swap(p[i - 1], p[r(i)]); return p; };
      if (w < 9) step("set", k, r(R), r(Cc), r.range(1, el), {});
      else if (w == 9) step("rmrow", k, r(R), 0, 0, {});
      else if (w == 10) step("rmcol", k, r(Cc), 0, 0, {});
      else if (w == 11) step("swaprows", k, r(R), r(R), 0, {});
      else if (w == 12) step("swapcols", k, r(Cc), r(Cc), 0, {});
      else if (w == 13) step("transrows", k, 0, 0, 0, perm(R));
      else if (w == 14) step("transcols", k, 0, 0, 0, perm(Cc));
      else if (w < 17) step("sortrows", k, 0, 0, 0, {});
      else if (w < 19) step("sortcols", k, 0, 0, 0, {});
      else if (w == 19) step("copy", k, 3 - k, 0, r(2), {});
      else if (w == 20) { int x = r(R); tr.ev({{"e", "row"}, {"k", k}, {"x", x}, {"val", Jv(ids(m.GetRow(x)))}}); }
      else if (w == 21) { int x = r(Cc); tr.ev({{"e", "col"}, {"k", k}, {"x", x}, {"val", Jv(ids(m.GetCol(x)))}}); }
      else tr.ev({{"e", "eq"}, {"k", k}, {"s", 3 - k}, {"val", m == *M[3 - k]}});
    }
  }
}
