// C09 driver: c09 replay <programs> <from> <to> <trace> | c09 random <seed> <nseg> <trace>
#include "mps.h"
#include "qlmps/one_dim_tn/mpo/mpo.h"
#include "qlmps/third_party/nlohmann/json.hpp"
using namespace mio; using nlohmann::json;
using E = std::complex<double>; using Ten = QLTensor<E, U1QN>;
static Trace tr; static std::string root;
static std::map<std::string, int> ids; static int nid;
static int id_of(const std::string &s) { auto it = ids.find(s); if (it != ids.end()) return it->second; return ids[s] = ++nid; }
static int id_of(const Ten *t) { if (!t) return 0; if (t->IsDefault()) return -1; return id_of(t->Pack()); }
static void scan(const std::string &d, const std::string &pre, std::string &s, bool &f) {
  for (auto &n : ls(d)) {
    std::string p = d + "/" + n; struct stat st; stat(p.c_str(), &st);
    if (S_ISDIR(st.st_mode)) { s += (f ? "" : ",") + Jv::raw("[" + Jv(pre + n + "/").s + ",0,\"\"]").s; f = false; scan(p, pre + n + "/", s, f); continue; }
    std::string c = slurp(p); int id = -2; std::string txt;
    if (c.rfind("QLTEN", 0) == 0) { Ten t; std::istringstream i(c); i >> t; id = id_of(&t); } else txt = c;
    s += (f ? "" : ",") + Jv::raw("[" + Jv(pre + n).s + "," + std::to_string(id) + "," + Jv(txt).s + "]").s; f = false;
  }
}
template <typename M> struct Api;
template <> struct Api<FiniteMPS<E, U1QN>> { static constexpr int kind = 0; };
template <> struct Api<FiniteMPO<E, U1QN>> { static constexpr int kind = 1; };
template <> struct Api<TenVec<Ten>> { static constexpr int kind = 2; };
static const char *KIND[] = {"mps", "mpo", "vec"};
template <typename M> struct Run {
  M *m; size_t n; Rng &r; static constexpr int kind = Api<M>::kind;
  std::vector<Index<U1QN>> outs;
  Run(size_t n_, Rng &rr) : n(n_), r(rr), outs(spin_sites<U1QN>(n_)) {
    if constexpr (kind == 0) m = new M(SiteVec<E, U1QN>(IndexVec<U1QN>(outs))); else m = new M(n);
    tr.ev({{"e", "reset"}, {"kind", KIND[kind]}, {"n", n}, {"obs", obs()}});
  }
  ~Run() { delete m; }
  Jv obs() {
    std::vector<int> mem; const M &c = *m; for (size_t i = 0; i < c.size(); ++i) mem.push_back(id_of(c(i)));
    std::string s = "["; bool f = true; scan(".", "", s, f);
    int cen = -1; if constexpr (kind == 1) cen = c.GetCenter();
    return jobj({{"mem", Jv(mem)}, {"disk", Jv::raw(s + "]")}, {"c", cen}});
  }
  Ten fresh(size_t i, int v) {                                 // a tensor with content v
    if constexpr (kind == 1) { Ten t({Index<U1QN>({QNSector<U1QN>(U1QN(), 1)}, IN), InverseIndex(outs[i]), outs[i], Index<U1QN>({QNSector<U1QN>(U1QN(), 1)}, OUT)});
      t({0, 0, 0, 0}) = E(v, 0.1 * i); t({0, 1, 1, 0}) = E(1.0 / v, 1e-300); return t; }
    else { Ten t({Index<U1QN>({QNSector<U1QN>(U1QN(), 2)}, IN), outs[i], Index<U1QN>({QNSector<U1QN>(U1QN({QNCard("Sz", U1QNVal(-1))}), 1)}, OUT)});
      t({0, 0, 0}) = E(v, 1.0 / 3); t({1, 0, 0}) = E(-0.0, (double) i); return t; }
  }
  std::string ten_path(const std::string &d, size_t i) { if constexpr (kind == 0) return GenMPSTenName(d, i); else return GenMPOTenName(d, i); }
  void step(const std::string &o, int a, int b, int v) {      // a: site, b: directory (1 = default), v: release / content / form
    std::string d = b == 1 ? (kind == 0 ? "mps" : kind == 1 ? "mpo" : "vec") : "d2", out = "ok"; int val = 0;
    try {
      if (o == "set") { Ten t = fresh(a, v); val = id_of(&t); if (v % 2) { if (!((const M *) m)->cdata()[a]) m->alloc(a); (*m)[a] = t; } else { delete (*m)(a); (*m)(a) = new Ten(t); } }
      else if (o == "free") m->dealloc(a);
      else if (o == "dump") {
        if constexpr (kind == 0) {
          if (v == 2) { if (b == 1) ((const M *) m)->Dump(); else ((const M *) m)->Dump(d); }
          else if (b == 1 && v == 0 && r(2)) m->Dump(); else if (v == 0 && r(2)) m->Dump(d); else m->Dump(d, v == 1);
        } else if constexpr (kind == 1) { if (b == 1) m->Dump(); else m->Dump(d); }
      } else if (o == "load") {
        if constexpr (kind == 0) { if (b == 1 && r(2)) m->Load(); else m->Load(d); }
        else if constexpr (kind == 1) { bool ok = b == 1 ? m->Load() : m->Load(d); if (!ok) out = "no"; }
      } else if (o == "dumpten") {
        if (!IsPathExist(d)) CreatPath(d);
        std::string p = ten_path(d, a);
        if (v == 2) ((const M *) m)->DumpTen((size_t) a, p);
        else if (v == 0) { bool done = false; if constexpr (kind == 0) { if (r(2)) { m->DumpTen(d, (size_t) a); done = true; } } if (!done) { if (r(2)) m->DumpTen((size_t) a, p); else WriteQLTensorTOFile(*((const M *) m)->cdata()[a], p); } }
        else m->DumpTen((size_t) a, p, true);
      } else if (o == "loadten") {
        std::string p = ten_path(d, a); bool done = false;
        if constexpr (kind == 0) { if (r(2)) { m->LoadTen(d, (size_t) a); done = true; } }
        if (!done) m->LoadTen((size_t) a, p);
      } else if (o == "readfile") {                             // the free function: reports a missing file by its result
        Ten t; bool ok = ReadQLTensorFromFile(t, ten_path(d, a)); out = ok ? "ok" : "no"; val = ok ? id_of(&t) : 0;
      } else if (o == "remove") { unlink(ten_path(d, a).c_str()); }
      else if (o == "centre") { if constexpr (kind == 1) { Quiet q; m->Centralize(a); std::vector<int> x; const M &c = *m; for (size_t i = 0; i < n; ++i) x.push_back(id_of(c(i))); } }
      else abort();
    } catch (const std::runtime_error &x) { out = "error"; }
    tr.ev({{"e", "op"}, {"o", o}, {"a", a}, {"d", d}, {"v", v}, {"val", val}, {"out", out}, {"obs", obs()}});
  }
};
template <typename M> void random_seg(Rng &r) {
  empty_dir(".", false);
  Run<M> x(r.range(1, 4) + (Api<M>::kind == 1), r); int n = x.n, steps = r.range(5, 25), c = 1;
  auto full = [&] { for (int i = 0; i < n; ++i) if (!((const M *) x.m)->cdata()[i] || ((const M *) x.m)->cdata()[i]->IsDefault()) return false; return true; };
  auto has = [&](int i) { auto p = ((const M *) x.m)->cdata()[i]; return p && !p->IsDefault(); };
  for (int i = 0; i < n; ++i) x.step("set", i, 1, ++c);
  for (int k = 0; k < steps; ++k) {
    int i = r(n), d = r.range(1, 2);
    switch (r(9)) {
      case 0: case 1: x.step("set", i, 1, ++c); break;
      case 2: x.step("free", i, 1, 0); break;
      case 3: if (full() && x.kind != 2) x.step("dump", 0, d, x.kind == 0 ? r(3) : 0); break;
      case 4: if (x.kind != 2) x.step("load", 0, d, 0); break;
      case 5: if (has(i)) x.step("dumpten", i, d, r(3)); break;
      case 6: x.step("loadten", i, d, 0); break;
      case 7: x.step(r(4) ? "readfile" : "remove", i, d, 0); break;
      default: if (x.kind == 1 && full() && r(3) == 0) x.step("centre", i, 1, 0); else if (full() && x.kind == 0) x.step("dump", 0, d, 1); break;
    }
  }
}
int main(int argc, char **argv) {
  std::string mode = argv[1], trace = argv[mode == "replay" ? 5 : 4], pf = argv[2];
  tr.open(trace.c_str()); if (pf[0] != '/') { char b[4096]; pf = std::string(getcwd(b, sizeof b)) + "/" + pf; }
  char b[4096]; std::string here = getcwd(b, sizeof b);
  std::string sd = (trace[0] == '/' ? trace : here + "/" + trace) + ".d"; Scratch sc(sd); if (chdir(sd.c_str())) return 70;
  if (mode == "replay") {
    std::ifstream f(pf); std::string line; long k = 0, from = atol(argv[3]), to = atol(argv[4]);
    while (std::getline(f, line)) {
      if (k++ < from) continue; if (k > to) break;
      json p = json::parse(line); Rng r(k); empty_dir(".", false);
      auto go = [&](auto &x) { for (auto &s : p["prog"]) x.step(s[0], s[1], s[2], s[3]); };
      size_t n = p["n"];
      if (p["kind"] == "mps") { Run<FiniteMPS<E, U1QN>> x(n, r); go(x); }
      else if (p["kind"] == "mpo") { Run<FiniteMPO<E, U1QN>> x(n, r); go(x); }
      else { Run<TenVec<Ten>> x(n, r); go(x); }
    }
  } else {
    Rng r(atoll(argv[2])); long nseg = atol(argv[3]);
    for (long i = 0; i < nseg; ++i) switch (i % 3) {
      case 0: random_seg<FiniteMPS<E, U1QN>>(r); break;
      case 1: random_seg<FiniteMPO<E, U1QN>>(r); break;
      default: random_seg<TenVec<Ten>>(r);
    }
  }
  if (chdir(here.c_str())) return 70;
}
