// C07 driver: c07 replay <programs> <from> <to> <trace> | c07 random <seed> <nseg> <trace>
#include "jw.h"
#include "qlmps/qlmps.h"
#include "qlmps/memory_monitor.h"
#include "qlmps/third_party/nlohmann/json.hpp"
#include <fstream>
#include <sys/sysinfo.h>
using namespace qlmps;
using namespace qlten;
using QNT = special_qn::U1QN;
using Ten = QLTensor<QLTEN_Complex, QNT>;
using Ev = TDVPEvolveParams<QNT>;
using nlohmann::json;
// ---- the operating system's answer ----
static struct sysinfo fake; static int fake_rc = 0;
extern "C" int sysinfo(struct sysinfo *o) noexcept { if (fake_rc) return -1; *o = fake; return 0; }
static std::string hx(double d) { char b[64]; snprintf(b, 64, "%a", d); return b; }
static double uh(const std::string &s) { return strtod(s.c_str(), 0); }
static Trace tr;
struct Obj {
  int kind = 0;   // 1 lanczos 2 sweep 3 noisy 4 evolve
  alignas(16) unsigned char mem[sizeof(Ev) > sizeof(FiniteVMPSSweepParams) ? sizeof(Ev) : sizeof(FiniteVMPSSweepParams)];
  LanczosParams &L() { return *(LanczosParams *) mem; }
  FiniteVMPSSweepParams &S() { return *(FiniteVMPSSweepParams *) mem; }
  Ev &E() { return *(Ev *) mem; }
  void clear(int pat) {
    if (kind == 1) L().~LanczosParams(); else if (kind == 2 || kind == 3) S().~FiniteVMPSSweepParams(); else if (kind == 4) E().~Ev();
    kind = 0; memset(mem, pat, sizeof mem);
  }
};
static Obj obj[5];
static std::vector<Ten> lib;                       // distinguishable operators
static std::string opname(const Ten &t) { for (size_t i = 0; i < lib.size(); ++i) if (t == lib[i]) return "w" + std::to_string(i); return "?"; }
static Jv flag(const bool &b) { unsigned char c = *(const unsigned char *) &b; return c == 0 ? Jv(false) : c == 1 ? Jv(true) : Jv("garbage"); }
static Jv hexv(const std::vector<double> &v) { std::vector<std::string> s; for (double d : v) s.push_back(hx(d)); return Jv(s); }
static Jv got(Obj &o) {
  auto Z = [](size_t x) { return Jv(std::to_string(x)); };
  auto D = [](double x) { return Jv(hx(x)); };
  if (o.kind == 1) return jobj({{"k", "lanczos"}, {"error", D(o.L().error)}, {"max_iter", Z(o.L().max_iterations)}});
  if (o.kind == 2 || o.kind == 3) {
    auto &s = o.S();
    std::vector<std::pair<std::string, Jv>> v = {{"k", o.kind == 2 ? "sweep" : "noisy"}, {"sweeps", Z(s.sweeps)}, {"dmin", Z(s.Dmin)}, {"dmax", Z(s.Dmax)},
      {"trunc", D(s.trunc_err)}, {"error", D(s.lancz_params.error)}, {"max_iter", Z(s.lancz_params.max_iterations)}, {"mps", s.mps_path}, {"temp", s.temp_path},
      {"noise_valid", flag(s.noise_valid)}, {"noises", hexv(s.noises)}};
    if (o.kind == 3) { v.push_back({"max_noise", D(s.max_noise)}); v.push_back({"increase", D(s.noise_increase)}); v.push_back({"decrease", D(s.noise_decrease)}); v.push_back({"alpha", D(s.alpha)}); }
    return jobjv(v);
  }
  auto &e = o.E();
  return jobj({{"k", "evolve"}, {"tau", D(e.tau)}, {"step", Z(e.step)}, {"site_0", Z(e.site_0)}, {"e0", D(e.e0)}, {"dmin", Z(e.Dmin)}, {"dmax", Z(e.Dmax)}, {"trunc", D(e.trunc_err)},
    {"ops", Jv(std::vector<std::string>{opname(e.local_op0), opname(e.inst0), opname(e.local_op1), opname(e.inst1)})}, {"corr", flag(e.local_op_corr)},
    {"error", D(e.lancz_params.error)}, {"max_iter", Z(e.lancz_params.max_iterations)}, {"mps", e.mps_path}, {"initial", e.initial_mps_path}, {"temp", e.temp_path}, {"measure", e.measure_temp_path}});
}
static Jv others(int n) {
  std::string s = "["; bool f = true;
  for (int i = 1; i <= 4; ++i) if (i != n && obj[i].kind) { s += (f ? "" : ",") + jobj({{"n", i}, {"got", got(obj[i])}}).s; f = false; }
  return Jv::raw(s + "]");
}
// lanczos parameters are passed either as two numbers or as a conversion of one
static void mk_lanczos(int n, std::vector<std::string> o) {
  if (o.size() == 0) new (obj[n].mem) LanczosParams();
  else if (o.size() == 1) new (obj[n].mem) LanczosParams(uh(o[0]));
  else new (obj[n].mem) LanczosParams(uh(o[0]), std::stoull(o[1]));
  obj[n].kind = 1;
  tr.ev({{"e", "lanczos"}, {"n", n}, {"o", Jv(o)}, {"got", got(obj[n])}, {"others", others(n)}});
}
static void mk_plain(int n, const std::vector<std::string> &a, const std::vector<std::string> &lz, const std::vector<std::string> &o) {
  auto A = std::stoull(a[0]), B = std::stoull(a[1]), C = std::stoull(a[2]); double t = uh(a[3]); LanczosParams L(uh(lz[0]), std::stoull(lz[1]));
  void *m = obj[n].mem;
  if (o.size() == 0) new (m) FiniteVMPSSweepParams(A, B, C, t, L);
  else if (o.size() == 1) new (m) FiniteVMPSSweepParams(A, B, C, t, L, o[0]);
  else new (m) FiniteVMPSSweepParams(A, B, C, t, L, o[0], o[1]);
  obj[n].kind = 2;
  tr.ev({{"e", "plain"}, {"n", n}, {"a", Jv(a)}, {"lz", Jv(lz)}, {"o", Jv(o)}, {"got", got(obj[n])}, {"others", others(n)}});
}
static void mk_noisy(int n, const std::vector<std::string> &a, const std::vector<std::string> &lz, const std::vector<std::string> &ns, const std::vector<std::string> &o) {
  auto A = std::stoull(a[0]), B = std::stoull(a[1]), C = std::stoull(a[2]); double t = uh(a[3]); LanczosParams L(uh(lz[0]), std::stoull(lz[1]));
  std::vector<double> N; for (auto &x : ns) N.push_back(uh(x));
  void *m = obj[n].mem; size_t k = o.size();
  double p[4]; for (size_t i = 0; i < 4 && i < k; ++i) p[i] = uh(o[i]);
  using P = FiniteVMPSSweepParams;
  if (k == 0) new (m) P(A, B, C, t, L, N);
  else if (k == 1) new (m) P(A, B, C, t, L, N, p[0]);
  else if (k == 2) new (m) P(A, B, C, t, L, N, p[0], p[1]);
  else if (k == 3) new (m) P(A, B, C, t, L, N, p[0], p[1], p[2]);
  else if (k == 4) new (m) P(A, B, C, t, L, N, p[0], p[1], p[2], p[3]);
  else if (k == 5) new (m) P(A, B, C, t, L, N, p[0], p[1], p[2], p[3], o[4]);
  else new (m) P(A, B, C, t, L, N, p[0], p[1], p[2], p[3], o[4], o[5]);
  obj[n].kind = 3;
  tr.ev({{"e", "noisy"}, {"n", n}, {"a", Jv(a)}, {"lz", Jv(lz)}, {"ns", Jv(ns)}, {"o", Jv(o)}, {"got", got(obj[n])}, {"others", others(n)}});
}
static void mk_evolve(int n, const std::vector<std::string> &a, const std::vector<int> &w, const std::vector<std::string> &lz, const std::vector<std::string> &o) {
  LanczosParams L(uh(lz[0]), std::stoull(lz[1])); void *m = obj[n].mem; size_t k = o.size();
  double tau = uh(a[0]), e0 = uh(a[3]), t = uh(a[6]);
  auto st = std::stoull(a[1]), s0 = std::stoull(a[2]), B = std::stoull(a[4]), C = std::stoull(a[5]);
  auto &x = lib[w[0]]; auto &y = lib[w[1]]; auto &z = lib[w[2]]; auto &v = lib[w[3]];
  if (k == 0) new (m) Ev(tau, st, s0, x, y, z, v, e0, B, C, t, L);
  else if (k == 1) new (m) Ev(tau, st, s0, x, y, z, v, e0, B, C, t, L, o[0]);
  else if (k == 2) new (m) Ev(tau, st, s0, x, y, z, v, e0, B, C, t, L, o[0], o[1]);
  else if (k == 3) new (m) Ev(tau, st, s0, x, y, z, v, e0, B, C, t, L, o[0], o[1], o[2]);
  else new (m) Ev(tau, st, s0, x, y, z, v, e0, B, C, t, L, o[0], o[1], o[2], o[3]);
  obj[n].kind = 4;
  std::vector<std::string> ops; for (int i : w) ops.push_back("w" + std::to_string(i));
  tr.ev({{"e", "evolve"}, {"n", n}, {"a", Jv(a)}, {"ops", Jv(ops)}, {"lz", Jv(lz)}, {"o", Jv(o)}, {"got", got(obj[n])}, {"others", others(n)}});
}
static bool op2(const char *e, int n, int m, const std::string &v, int pat) {
  std::string s = e;
  if (s == "copy") {
    if (!obj[m].kind || n == m) return false;
    obj[n].clear(pat);
    if (obj[m].kind == 1) new (obj[n].mem) LanczosParams(obj[m].L());
    else if (obj[m].kind == 4) new (obj[n].mem) Ev(obj[m].E());
    else new (obj[n].mem) FiniteVMPSSweepParams(obj[m].S());
    obj[n].kind = obj[m].kind;
  } else if (s == "assign") {
    if (!obj[m].kind || obj[n].kind != obj[m].kind) return false;
    if (obj[m].kind == 1) obj[n].L() = obj[m].L(); else if (obj[m].kind == 4) obj[n].E() = obj[m].E(); else obj[n].S() = obj[m].S();
  } else if (s == "convert") {
    if (obj[m].kind != 4 || n == m) return false;
    obj[n].clear(pat);
    new (obj[n].mem) FiniteVMPSSweepParams((FiniteVMPSSweepParams) obj[m].E());
    obj[n].kind = 2;
  } else if (s == "settrunc") {
    if (obj[n].kind < 2) return false;
    if (obj[n].kind == 4) obj[n].E().trunc_err = uh(v); else obj[n].S().trunc_err = uh(v);
  } else {
    if (!obj[n].kind) return false;
    if (obj[n].kind == 1) obj[n].L().error = uh(v); else if (obj[n].kind == 4) obj[n].E().lancz_params.error = uh(v); else obj[n].S().lancz_params.error = uh(v);
  }
  tr.ev({{"e", e}, {"n", n}, {"m", m}, {"v", v}, {"got", got(obj[n])}, {"others", others(n)}});
  return true;
}
// ---- memory monitor ----
static bool parse(const std::string &t, const std::string &lab, long &out) {
  size_t p = t.find(lab); if (p == std::string::npos) return false;
  p += lab.size(); char *e; double d = strtod(t.c_str() + p, &e); out = lround(d * 100);
  std::string num(t.c_str() + p, (const char *) e); size_t dot = num.find('.');
  return dot != std::string::npos && num.size() - dot == 3 && std::string(e, 3) == " GB";
}
static void mem(Rng &r) {
  static const unsigned units[] = {1, 512, 1024, 4096, 65536, 1048576};
  unsigned u = units[r(6)]; unsigned long k = 1048576ul / u;
  static const long sizes[] = {1, 512, 1000, 1023, 1024, 3000, 4095, 4096, 8192, 31999, 65536, 262143, 1048576, 1500000};
  long tot = r(2) ? sizes[r(14)] : r.range(1, 2000000), fr = r.range(0, tot), bu = r.range(0, tot - fr);
  if (r(3) == 0) bu = 0;
  memset(&fake, 0x5a, sizeof fake);
  fake.mem_unit = u; fake.totalram = tot * k; fake.freeram = fr * k; fake.bufferram = bu * k;
  fake_rc = r(8) == 0;
  int dev = r.range(-2, 7); bool def = r(3) == 0; int how = r(3);
  Jv q = jobj({{"total", tot}, {"free", fr}, {"buffer", bu}});
  MemoryMonitor *m = def ? new MemoryMonitor : new MemoryMonitor(dev);
  int d0 = m->GetDeviceId(); std::string out = "ok"; double f = -1, us = -1, t = -1; bool exact = true, text = true; long T = 0, F = 0, U = 0;
  std::stringstream cap; auto *old = std::cout.rdbuf(cap.rdbuf());
  try {
    if (how == 0) m->GetMemoryInfo(f, us, t);
    else if (how == 1) m->Checkpoint("after step 7 of x");
    else MemoryMonitor::ListAvailableDevices();
  } catch (const std::runtime_error &) { out = "error"; } catch (...) { out = "other"; }
  std::cout.rdbuf(old); fake_rc ? (void) 0 : (void) 0;
  if (out == "ok") {
    if (how == 0) {
      auto conv = [&](double x) { double y = x * 1024; if (std::abs(y - std::round(y)) > 1e-6 || std::abs(y) > 1e9) { exact = false; return -1L; } return lround(y); };
      T = conv(t); F = conv(f); U = conv(us);
    } else if (how == 1) text = parse(cap.str(), "Total: ", T) && parse(cap.str(), "Free: ", F) && parse(cap.str(), "Used: ", U) && cap.str().find("after step 7 of x") != std::string::npos;
    else text = parse(cap.str(), "Total: ", T) && parse(cap.str(), "Available: ", F) && parse(cap.str(), "Used: ", U);
  }
  int d1 = m->GetDeviceId();
  tr.ev({{"e", "mem"}, {"how", how == 0 ? "get" : how == 1 ? "checkpoint" : "list"}, {"fails", fake_rc != 0}, {"q", q}, {"device", d0 | d1}, {"out", out},
         {"exact", exact}, {"text", text}, {"total", T}, {"free", F}, {"used", U}});
  delete m;
}
static void reset() { for (int i = 1; i <= 4; ++i) obj[i].clear(0xff); tr.ev({{"e", "reset"}}); }
int main(int argc, char **argv) {
  Index<QNT> out({QNSector<QNT>(QNT(), 2)}, OUT), in({QNSector<QNT>(QNT(), 2)}, IN);
  for (int i = 0; i < 6; ++i) { Ten t({in, out}); t({0, 0}) = i + 1; t({1, 0}) = QLTEN_Complex(0, i); lib.push_back(t); }
  std::string mode = argv[1]; tr.open(argv[argc - 1]); tr.flush = false;
  for (int i = 1; i <= 4; ++i) obj[i].clear(0xff);
  if (mode == "replay") {
    std::ifstream in(argv[2]); std::string line; long n = 0, from = atol(argv[3]), to = atol(argv[4]);
    std::map<std::string, std::string> tok = {{"z", "0x0p+0"}, {"p", "0x1p-3"}, {"q", "-0x0.0000000004p-1022"}};
    while (std::getline(in, line)) {
      if (n++ < from || n > to) continue;
      reset(); auto p = json::parse(line);
      for (auto &o : p) {
        std::string k = o[0]; int nm = o[1], c = o[2], m = o[3]; int pat = (n & 1) ? 0xff : 0;
        std::vector<std::string> ns; for (auto &x : o[4]) ns.push_back(tok[x]);
        std::vector<std::string> a4 = {"3", "5", "17", "0x1p-20"}, lz = {"0x1p-30", "77"}, dopt = {"0x1.8p-1", "0x1.4p+0", "0x1.6p-1", "0x1.1p-2", "path/m", "path/t"}, popt = {"pm", "pt"}, eopt = {"em", "ei", "et", "es"}, lopt = {"0x1p-9", "31"};
        if (k == "lanczos") { obj[nm].clear(pat); lopt.resize(c); mk_lanczos(nm, lopt); }
        else if (k == "plain") { obj[nm].clear(pat); popt.resize(c); mk_plain(nm, a4, lz, popt); }
        else if (k == "noisy") { obj[nm].clear(pat); dopt.resize(c); mk_noisy(nm, a4, lz, ns, dopt); }
        else if (k == "evolve") { obj[nm].clear(pat); eopt.resize(c); mk_evolve(nm, {"0x1p-4", "9", "2", "-0x1.8p+3", "4", "8", "0x1p-21"}, {3, 1, 4, 2}, lz, eopt); }
        else op2(k.c_str(), nm, m, "0x1p-33", pat);
      }
    }
  } else {
    Rng r(atoi(argv[2])); int nseg = atoi(argv[3]);
    auto D = [&]() { static const char *s[] = {"0x0p+0", "-0x0p+0", "0x1p+0", "-0x1.8p-3", "0x0.0000000000001p-1022", "0x1.ad7f29abcaf48p-24", "-0x0.0000000004p-1022", "0x1.fffffffffffffp+1023"}; return r(3) ? hx((double) r.range(-999, 999) / 64) : std::string(s[r(8)]); };
    auto Z = [&]() { return r(12) == 0 ? std::string("18446744073709551615") : std::to_string(r(5000)); };
    auto P = [&]() { static const char *s[] = {"", "mps", "a/b c", ".temp", "x", "initial_mps", "very/long/path/name/that/does/not/fit/inline"}; return std::string(s[r(7)]); };
    for (int s = 0; s < nseg; ++s) {
      reset(); int k = r.range(3, 14);
      while (k--) {
        int n = r.range(1, 4), m = r.range(1, 4), pat = r(2) ? 0xff : 0;
        std::vector<std::string> lz = {D(), Z()}, a4 = {Z(), Z(), Z(), D()}, o;
        switch (r(10)) {
          case 0: obj[n].clear(pat); o = {D(), Z()}; o.resize(r(3)); mk_lanczos(n, o); break;
          case 1: obj[n].clear(pat); o = {P(), P()}; o.resize(r(3)); mk_plain(n, a4, lz, o); break;
          case 2: case 3: { obj[n].clear(pat); o = {D(), D(), D(), D(), P(), P()}; o.resize(r(7)); std::vector<std::string> ns; int c = r(6); bool zero = r(2);
              for (int i = 0; i < c; ++i) ns.push_back(zero || r(2) ? (r(2) ? "0x0p+0" : "-0x0p+0") : D()); mk_noisy(n, a4, lz, ns, o); break; }
          case 4: obj[n].clear(pat); o = {P(), P(), P(), P()}; o.resize(r(5)); mk_evolve(n, {D(), Z(), Z(), D(), Z(), Z(), D()}, {r(6), r(6), r(6), r(6)}, lz, o); break;
          case 5: op2("copy", n, m, "", pat); break;
          case 6: op2("assign", n, m, "", pat); break;
          case 7: op2("convert", n, m, "", pat); break;
          case 8: op2(r(2) ? "settrunc" : "seterror", n, m, D(), pat); break;
          default: mem(r);
        }
      }
    }
  }
  for (int i = 1; i <= 4; ++i) obj[i].clear(0);
  return 0;
}
