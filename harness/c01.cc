// C01 driver: c01 random <seed> <nseg> <size> <trace> | c01 replay <programs.json lines> <from> <to> <trace>
#include "symb.h"
#include "qlmps/third_party/nlohmann/json.hpp"
#include <fstream>
#include <iostream>
using nlohmann::json;
static Trace tr;
static void gen(FSM &f, bool comp, int uniform = 0) {
  SparOpReprMatVec ms = comp ? f.GenCompressedMatRepr() : f.GenMatRepr();
  tr.ev({{"e", "gen"}, {"comp", comp}, {"uniform", uniform}, {"ms", jmats(ms)}});
}
static void reset(Rng &r, int n, const std::vector<long> &ids, int id) {
  Point p(r, n, 8, 16);
  tr.ev({{"e", "reset"}, {"id", id}, {"n", n}, {"cv", Jv(p.cv)}, {"ov", p.jov()}, {"ids", Jv(ids)}});
}
static void add(FSM &f, int h, const OpReprVec &ops) {
  f.AddPath(h, h + ops.size() - 1, ops);
  tr.ev({{"e", "add"}, {"h", h}, {"ops", jops(ops)}});
}
int main(int argc, char **argv) {
  std::string mode = argv[1];
  if (mode == "replay") {
    int from = atoi(argv[3]), to = atoi(argv[4]); tr.open(argv[5]); tr.flush = false; Rng r(99);
    std::ifstream in(argv[2]); std::string line;
    for (int k = 0; std::getline(in, line) && k < to; ++k) {
      if (k < from) continue;
      json j = json::parse(line); int n = j["n"]; std::vector<OpRepr> ids(n, OpRepr(0)); FSM f(n, ids);
      reset(r, n, std::vector<long>(n, 0), k);
      for (auto &t : j["terms"]) {
        OpReprVec ops; long c = t["c"]; int i = 0;
        for (auto &o : t["o"]) { ops.push_back(i++ == 0 ? OpRepr(CoefRepr(c), (long) o) : OpRepr((long) o)); }
        add(f, t["h"], ops);
      }
      gen(f, false); gen(f, true);
    }
    return 0;
  }
  Rng r(atoll(argv[2])); int nseg = atoi(argv[3]), size = atoi(argv[4]); tr.open(argv[5]); tr.flush = false;
  for (int s = 0; s < nseg; ++s) {
    if (r.p(1, 8)) {               // uniform chains: the optimal bond is known
      int n = r.range(4, 4 + size), k = r.range(1, 7); std::vector<OpRepr> ids(n, OpRepr(0)); FSM f(n, ids);
      reset(r, n, std::vector<long>(n, 0), s);
      bool onsite = r(2), samecoef = r(2);
      std::vector<std::pair<int, int>> order;       // (site, pair index), in any insertion order
      for (int i = 0; i + 1 < n; ++i) for (int q = 0; q < k; ++q) order.push_back({i, q});
      if (r(2)) for (size_t a = order.size(); a > 1; --a) std::swap(order[a - 1], order[r(a)]);
      for (auto &o : order) add(f, o.first, {OpRepr(CoefRepr(samecoef ? 1 : 1 + o.second), 1 + 2 * o.second), OpRepr(2 + 2 * o.second)});
      if (onsite) for (int i = 0; i < n; ++i) add(f, i, {OpRepr(CoefRepr(r(3)), 15)});
      gen(f, false); gen(f, true, k);
      continue;
    }
    int n = r.range(1, 2 + size), np = r.range(1, 2 + 3 * size), nops = r.range(1, 4), nc = r.range(1, 4);
    bool per_site_id = r.p(1, 4);
    std::vector<long> idl(n, 0); std::vector<OpRepr> ids;
    for (int i = 0; i < n; ++i) { if (per_site_id) idl[i] = r(2) ? 0 : 9; ids.push_back(OpRepr(idl[i])); }
    FSM f(n, ids);
    if (!per_site_id && r(3) == 0) { f = FSM(n); }    // the constructor with default identities
    reset(r, n, idl, s);
    std::vector<std::pair<int, OpReprVec>> done; int range = r.p(1, 3) ? 2 : n;
    for (int k = 0; k < np; ++k) {
      if (!done.empty() && r.p(1, 8)) { auto d = done[r(done.size())]; add(f, d.first, d.second); continue; }  // repeated term
      int h = r(n), t = std::min(n - 1, h + r(range)); OpReprVec ops;
      for (int i = h; i <= t; ++i) {
        long lab = (i != h && i != t && r(2)) ? idl[i] : r(nops + 1);
        ops.push_back(i == h ? OpRepr(CoefRepr(r(nc)), lab) : OpRepr(lab));
      }
      add(f, h, ops); done.push_back({h, ops});
      if (r.p(1, 20)) { gen(f, r(2)); }
    }
    for (int b = r.p(1, 3) ? r.range(1, 2) : 0; b > 0; --b) {     // products of sums: compression gathers them into cells holding whole sums
      int h = r(n), t = std::min(n - 1, h + r.range(0, 2)), cf = r(nc); std::vector<std::vector<long>> sub;
      for (int i = h; i <= t; ++i) { std::vector<long> v; int m = r.range(1, 6); for (long o = 1; o <= 7 && (int) v.size() < m; ++o) if (r.p(2, 3)) v.push_back(o); if (v.empty()) v.push_back(1); sub.push_back(v); }
      std::vector<size_t> ix(sub.size(), 0); int lim = 36;
      while (lim--) {
        OpReprVec ops; for (size_t q = 0; q < sub.size(); ++q) ops.push_back(q == 0 ? OpRepr(CoefRepr(cf), sub[q][ix[q]]) : OpRepr(sub[q][ix[q]]));
        add(f, h, ops); size_t q = 0;
        while (q < ix.size() && ++ix[q] == sub[q].size()) ix[q++] = 0;
        if (q == ix.size()) break;
      }
    }
    gen(f, false); gen(f, true);
    if (r.p(1, 6)) { FSM g(f); gen(g, true); gen(f, false); }
  }
}
