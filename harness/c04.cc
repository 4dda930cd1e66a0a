// C04 driver: c04 random <seed> <nseg> <maxsize> <trace> | c04 replay <programs> <from> <to> <trace>
#include "jw.h"
#include "qlmps/one_dim_tn/framework/duovector.h"
#include "qlmps/third_party/nlohmann/json.hpp"
#include <fstream>
#include <map>
#include <set>
#include <optional>
using nlohmann::json;
using qlmps::DuoVector;
static int next_id = 1, err = 0;
static std::map<int, const void *> alive;
struct Elem {                                     // an element that registers its life
  int id; int v; int *heap;
  Elem() : id(next_id++), v(0), heap(new int(0)) { alive[id] = this; }
  Elem(const Elem &o) : id(next_id++), v(o.get()), heap(new int(o.v)) { alive[id] = this; }
  Elem &operator=(const Elem &o) { v = o.get(); *heap = v; return *this; }
  int get() const { if (!alive.count(id) || alive[id] != this || *heap != v) ++err; return v; }
  void set(int x) { v = x; *heap = x; }
  ~Elem() { if (!alive.erase(id)) ++err; delete heap; }
};
using DV = DuoVector<Elem>;
static Trace tr;
static const int NC = 4;
static DV *C[NC + 1];
static std::map<int, Elem *> held;
static Jv proj() {
  std::string s = "[";
  for (int c = 1; c <= NC; ++c) {
    if (c > 1) s += ",";
    if (!C[c]) { s += "{\"alive\":false,\"s\":[]}"; continue; }
    const DV &d = *C[c]; std::string t;
    for (size_t i = 0; i < d.size(); ++i) {
      if (i) t += ",";
      const Elem *p = d(i);
      t += p ? "[" + std::to_string(p->id) + "," + std::to_string(p->get()) + "]" : "[0,0]";
    }
    s += "{\"alive\":true,\"s\":[" + t + "]}";
  }
  return Jv::raw(s + "]");
}
static void ev(const char *e, int a, int b, int v, int before, int dst, int slot = -1) {
  std::vector<int> ids, live;
  if (dst && C[dst]) { const DV &d = *C[dst]; for (size_t i = 0; i < d.size(); ++i) if (d(i) && d(i)->id >= before && (slot < 0 || slot == (int) i)) ids.push_back(d(i)->id); }
  for (auto &k : alive) live.push_back(k.first);
  tr.ev({{"e", e}, {"a", a}, {"b", b}, {"v", v}, {"ids", Jv(ids)}, {"cs", proj()}, {"live", Jv(live)}, {"err", err}, {"maxid", next_id - 1}});
}
static void query(int c) {
  const DV &d = *C[c]; DV &m = *C[c]; std::vector<int> ptr, refs, cd; std::vector<int> fr{0, 0}, bk{0, 0};
  for (size_t i = 0; i < d.size(); ++i) { ptr.push_back(d(i) ? d(i)->id : 0); refs.push_back(d(i) ? d[i].id : 0);
    if (d(i) && m(i) != d(i)) ++err; }
  for (auto p : d.cdata()) cd.push_back(p ? p->id : 0);
  if (d.size() && d(0)) fr = {d.front().id, m.front().id};
  if (d.size() && d(d.size() - 1)) bk = {d.back().id, m.back().id};
  std::vector<int> live; for (auto &k : alive) live.push_back(k.first);
  tr.ev({{"e", "query"}, {"a", c}, {"size", d.size()}, {"empty", d.empty()}, {"cptr", Jv(ptr)}, {"refs", Jv(refs)}, {"cdata", Jv(cd)},
         {"front", Jv(fr)}, {"back", Jv(bk)}, {"ids", Jv(std::vector<int>())}, {"cs", proj()}, {"live", Jv(live)}, {"err", err}, {"maxid", next_id - 1}});
}
static void step(const std::string &o, int a, int b, int v) {
  int before = next_id;
  if (o == "new") { C[a] = (b == 0 && v == 0) ? new DV() : new DV((size_t) b); ev("new", a, b, v, before, 0); }
  else if (o == "copyctor") { C[a] = new DV(*C[b]); ev("copyctor", a, b, v, before, a); }
  else if (o == "copyassign") { DV *s = C[b]; *C[a] = *s; ev("copyassign", a, b, v, before, a); }
  else if (o == "movector") { C[a] = new DV(std::move(*C[b])); ev("movector", a, b, v, before, 0); }
  else if (o == "moveassign") { DV *s = C[b]; *C[a] = std::move(*s); ev("moveassign", a, b, v, before, 0); }
  else if (o == "write") { (*C[a])[b - 1].set(v); ev("write", a, b, v, before, a, b - 1); }
  else if (o == "touch") { (*C[a])[b - 1].get(); ev("touch", a, b, v, before, a, b - 1); }
  else if (o == "alloc") { C[a]->alloc(b - 1); ev("alloc", a, b, v, before, a, b - 1); }
  else if (o == "dealloc") { C[a]->dealloc(b - 1); ev("dealloc", a, b, v, before, 0); }
  else if (o == "clear") { C[a]->clear(); ev("clear", a, b, v, before, 0); }
  else if (o == "destroy") { delete C[a]; C[a] = nullptr; ev("destroy", a, b, v, before, 0); }
  else if (o == "take") { Elem *p = (*C[a])(b - 1); (*C[a])(b - 1) = nullptr; held[p->id] = p; ev("take", a, b, p->id, before, 0); }
  else if (o == "put") { auto it = held.begin(); int id = it->first; (*C[a])(b - 1) = it->second; held.erase(it); ev("put", a, b, id, before, 0); }
  else if (o == "free") { auto it = held.begin(); int id = it->first; delete it->second; held.erase(it); ev("free", 0, 0, id, before, 0); }
  else abort();
}
static void finish() {
  for (int c = 1; c <= NC; ++c) { delete C[c]; C[c] = nullptr; }
  for (auto &h : held) delete h.second;
  held.clear();
}
static void reset(int k) { finish(); tr.ev({{"e", "reset"}, {"k", k}, {"live", alive.size()}, {"maxid", next_id - 1}}); }
int main(int argc, char **argv) {
  std::string mode = argv[1];
  if (mode == "replay") {
    int from = atoi(argv[3]), to = atoi(argv[4]); tr.open(argv[5]); std::ifstream in(argv[2]); std::string line;
    for (int k = 0; std::getline(in, line) && k < to; ++k) {
      if (k < from) continue;
      reset(k); json j = json::parse(line); size_t q = 0;
      for (auto &o : j) {
        step(o[0], o[1], o[2], o[3]);
        if (++q == j.size()) for (int c = 1; c <= NC; ++c) if (C[c]) query(c);
      }
    }
    reset(-1); return 0;
  }
  Rng r(atoll(argv[2])); int nseg = atoi(argv[3]), ms = atoi(argv[4]); tr.open(argv[5]);
  for (int s = 0; s < nseg; ++s) {
    reset(s); int len = r.range(5, 60), nc = r.range(1, NC);
    for (int k = 0; k < len; ++k) {
      int a = r.range(1, nc), b = r.range(1, nc);
      if (!C[a]) {
        if (C[b] && a != b && r(2)) step(r(2) ? "copyctor" : "movector", a, b, 0);
        else step("new", a, r.p(1, 8) ? 0 : r.range(0, ms), r(2));
        continue;
      }
      int n = C[a]->size(), i = n ? r.range(1, n) : 0, w = r(16); const DV &d = *C[a];
      if (w < 2) { if (C[b]) step("copyassign", a, b, 0); }
      else if (w < 4) { if (C[b]) step("moveassign", a, b, 0); }
      else if (w < 8) { if (i) step("write", a, i, r.range(0, 9)); }
      else if (w == 8) { if (i) step("alloc", a, i, 0); }
      else if (w == 9) { if (i) step("dealloc", a, i, 0); }
      else if (w == 10) { if (r(3) == 0) step("clear", a, 0, 0); }
      else if (w == 11) { if (r(2)) step("destroy", a, 0, 0); }
      else if (w == 12) { if (i && d(i - 1)) step("take", a, i, 0); }
      else if (w == 13) { if (i && !d(i - 1) && !held.empty()) step("put", a, i, 0); else if (!held.empty()) step("free", 0, 0, 0); }
      else if (w == 14) { if (i) step("touch", a, i, 0); }
      else query(a);
    }
  }
  reset(-1);
}
