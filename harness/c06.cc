// C06 driver: c06 random <seed> <nseg> <size> <trace> | c06 replay <programs> <from> <to> <trace>
#include "symb.h"
#include "qlmps/one_dim_tn/mpo/mpogen/ifsm.h"
#include "qlmps/third_party/nlohmann/json.hpp"
#include <fstream>
#include <iostream>
#include <set>
using nlohmann::json;
static Trace tr;
static void reset(Rng &r, const iFSM &f, int u, int id) {
  Point p(r, u, 8, 16);
  tr.ev({{"e", "reset"}, {"id", id}, {"u", u}, {"cv", Jv(p.cv)}, {"ov", p.jov()}, {"ids", Jv(std::vector<long>(u, 0))}, {"fsmsize", f.fsm_size()}, {"celllen", f.unit_cell_length()}});
}
static void add(iFSM &f, int h, const OpReprVec &o) { f.AddPath(h, o); tr.ev({{"e", "add"}, {"h", h}, {"ops", jops(o)}}); }
static void gen(const iFSM &f, bool comp, int w) { SparOpReprMatVec m = comp ? f.GenCompressedMatRepr() : f.GenMatRepr(); tr.ev({{"e", comp ? "comp" : "raw"}, {"w", w}, {"ms", jmats(m)}}); }
int main(int argc, char **argv) {
  std::string mode = argv[1];
  if (mode == "replay") {
    int from = atoi(argv[3]), to = atoi(argv[4]); tr.open(argv[5]); tr.flush = false; std::ifstream in(argv[2]); std::string line; Rng r(3);
    for (int k = 0; std::getline(in, line) && k < to; ++k) {
      if (k < from) continue;
      json j = json::parse(line); int u = j["u"]; iFSM f(u, std::vector<OpRepr>(u, OpRepr(0))); reset(r, f, u, k);
      for (auto &t : j["terms"]) {
        OpReprVec ops; for (auto &o : t["o"]) ops.push_back(o[0] == 0 ? OpRepr((long) o[1]) : OpRepr(CoefRepr((long) o[0]), (long) o[1]));
        add(f, t["h"], ops);
      }
      gen(f, false, 4); gen(f, true, 4);
    }
    return 0;
  }
  Rng r(atoll(argv[2])); int nseg = atoi(argv[3]), sz = atoi(argv[4]); tr.open(argv[5]); tr.flush = false;
  for (int s = 0; s < nseg; ++s) {
    int u = r.range(1, sz), np = r.range(1, 4 + 2 * sz), nops = r.range(1, 4), nc = r.range(1, 4), ml = r.range(1, 4);
    iFSM f(u, std::vector<OpRepr>(u, OpRepr(0))); reset(r, f, u, s); std::set<std::string> seen; std::vector<std::pair<int, OpReprVec>> done;
    for (int k = 0; k < np; ++k) {
      int h = r(u), n = 1 + r.range(1, ml); OpReprVec o;
      for (int i = 0; i < n; ++i) { long lab = (i == 0 || i == n - 1) ? r.range(1, nops) : r(nops + 1); o.push_back(i == 0 ? OpRepr(CoefRepr(r(nc)), lab) : OpRepr(lab)); }
      if (!done.empty() && r(2)) {                       // share a prefix with an earlier term
        auto &d = done[r(done.size())]; h = d.first; size_t keep = r.range(1, d.second.size());
        OpReprVec q(d.second.begin(), d.second.begin() + std::min(keep, d.second.size()));
        int extra = r.range(q.size() < 2 ? 1 : 0, 2);
        for (int i = 0; i < extra; ++i) q.push_back(OpRepr((long) (i == extra - 1 ? r.range(1, nops) : r(nops + 1))));
        if (q.size() < 2 || q.back() == OpRepr(0L)) continue;
        o = q;
      }
      std::string key = std::to_string(h); for (auto &x : o) key += "," + x.ToString();
      if (!seen.insert(key).second) continue;
      add(f, h + (r.p(1, 3) ? u * r(3) : 0), o); done.push_back({h, o});
      if (r.p(1, 15)) gen(f, r(2), 3);
    }
    gen(f, false, 4); gen(f, true, 4);
    if (r.p(1, 5)) { iFSM g(f); gen(g, true, 3); }
  }
}
