// C11 driver: c11 replay <programs> <from> <to> <trace> | c11 random <seed> <nseg> <trace>
#include "mps.h"
#include "qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h"
#include "qlmps/third_party/nlohmann/json.hpp"
using namespace mio; using nlohmann::json;
static Trace tr;
using V = std::vector<size_t>; using VV = std::vector<V>;
static bool near_int(double x, long &r) { if (!(std::abs(x) < 1e9)) { r = -999999999; return false; } r = std::lround(x); return std::abs(x - r) < 1e-5; }
template <typename E, typename Q> struct Run {
  using M = FiniteMPS<E, Q>; using Ten = QLTensor<E, Q>; using Res = MeasuRes<E>;
  std::vector<Index<Q>> outs; SiteVec<E, Q> sv; M *m; Rng &r; Maker<E, Q> mk; size_t n; V dims;
  std::vector<Ten> ops; std::string tab; double mult = 1;
  Run(const std::vector<Index<Q>> &o, Rng &rr) : outs(o), sv(IndexVec<Q>(o)), m(new M(sv)), r(rr), mk{o, rr}, n(o.size()) { for (auto &x : outs) dims.push_back(x.dim()); }
  ~Run() { delete m; }
  Jv obs() { Ex ex(mult); const M &c = *m; Vec v = state(c); Jv p = vec_list(v, ex); return jobj({{"psi", p}, {"exact", ex.exact && !v.empty()}}); }
  void open(double lim, int states = 3) {
    do { mk.fill(*m, r.range(1, states), r.range(1, 2), 1, r(n)); } while (norm2(state((const M &) *m)) > lim);
    tr.ev({{"e", "reset"}, {"dims", Jv(dims)}, {"obs", obs()}});
  }
  void newops() { ops.clear(); tab.clear(); }
  int tag(const Ten &t) { Ex ex(1); tab += (ops.empty() ? "" : ",") + op_list(t, ex).s; ops.push_back(t); return ops.size(); }
  const Ten &op(int t) { return ops[t - 1]; }
  Q zero() { return mk.charge(0, 0) - mk.charge(0, 0); }
  Q jump(size_t s) { return r(3) ? mk.charge(s, r(dims[s])) - mk.charge(s, r(dims[s])) : zero(); }
  // tags of operators at the sites with vanishing total charge
  std::vector<int> phys(const V &sites) {
    for (int tries = 0;; ++tries) {
      Q tot = zero(); std::vector<Ten> t; bool ok = true;
      for (size_t k = 0; k < sites.size() && ok; ++k) {
        Q q = tries > 50 || (k + 1 == sites.size() && sites.size() == 1) ? zero() : k + 1 < sites.size() ? jump(sites[k]) : zero() - tot;
        Ten o = mk.any_op(sites[k], q, 1); ok = o.Get2Norm() > 0; tot += q; t.push_back(o);
      }
      if (ok) { std::vector<int> v; for (auto &o : t) v.push_back(tag(o)); return v; }
    }
  }
  int string_op(size_t s) { int k = r(3); Ten o = k == 2 ? mk.any_op(s, zero(), 1) : mk.op(s, zero(), k); return tag(o); }
  Jv res(const Res &x) {
    std::string s = "[";
    for (auto &e : x) { long a, b; C v = cplx(e.avg); bool ok = near_int(v.real(), a); ok = near_int(v.imag(), b) && ok;
      s += (s.size() > 1 ? "," : "") + jobj({{"sites", Jv(e.sites)}, {"v", Jv(std::vector<long>{a, b})}, {"exact", ok}}).s; }
    return Jv::raw(s + "]");
  }
  Jv file(const std::string &base) {
    std::string s = "["; json j = json::parse(slurp(base + ".json"), nullptr, false);
    if (!j.is_array()) return Jv::raw("[0]");
    for (auto &e : j) { long a = 0, b = 0; bool ok = true; if (e[1].is_array()) { ok = near_int(e[1][0], a); ok = near_int(e[1][1], b) && ok; } else ok = near_int(e[1], a);
      s += (s.size() > 1 ? "," : "") + jobj({{"sites", Jv(e[0].template get<V>())}, {"v", Jv(std::vector<long>{ok ? a : -1000000007, b})}}).s; }
    unlink((base + ".json").c_str());
    return Jv::raw(s + "]");
  }
  template <typename T> static Jv arr(const std::vector<T> &v) { std::string s = "["; for (auto &x : v) s += (s.size() > 1 ? "," : "") + Jv(x).s; return Jv::raw(s + "]"); }
  void event(const std::string &fn, std::initializer_list<std::pair<const char *, Jv>> args, const std::vector<Jv> &rs, const std::vector<Jv> &fs, bool disk, bool empty, bool same) {
    tr.ev({{"e", "measure"}, {"fn", fn}, {"args", jobj(args)}, {"ops", Jv::raw("[" + tab + "]")}, {"res", arr(rs)}, {"files", arr(fs)}, {"disk", disk}, {"empty", empty}, {"unchanged", same}, {"out", "ok"},
           {"obs", disk ? jobj({{"exact", true}}) : obs()}});
  }
  V subset(size_t lo, size_t hi, size_t k) {                 // k sites out of lo..hi, ascending
    V all; for (size_t i = lo; i <= hi; ++i) all.push_back(i);
    while (all.size() > k) all.erase(all.begin() + r(all.size())); return all;
  }
  bool uniform() { for (auto &x : outs) if (!(x == outs[0])) return false; return true; }
  void memory(int kind) {
    newops(); Quiet *q = new Quiet(); 
    if (r(3) == 0) m->Centralize(r(n));
    if (kind <= 1 && uniform()) {
      int k = kind ? r.range(1, 3) : 1; std::vector<int> tags; std::vector<Ten> o; std::vector<std::string> names;
      for (int i = 0; i < k; ++i) { tags.push_back(phys({0})[0]); o.push_back(ops.back()); names.push_back("res" + std::to_string(i)); }
      std::vector<Jv> rs, fs;
      if (kind) { auto x = MeasureOneSiteOp(*m, o, names); for (auto &y : x) rs.push_back(res(y)); } else rs.push_back(res(MeasureOneSiteOp(*m, o[0], names[0])));
      for (auto &s : names) fs.push_back(file(s)); delete q;
      event("one", {{"tags", Jv(tags)}}, rs, fs, false, false, false); return;
    }
    int nev = r.range(1, 3); std::vector<std::vector<Ten>> ph; std::vector<std::vector<int>> pt; VV sites;
    bool listed = !uniform() || r(2), two = r(3) == 0 && uniform();
    if (two) { pt.assign(nev, phys({0, 1})); }
    for (int e = 0; e < nev; ++e) {
      size_t k = two ? 2 : r.range(2, std::min<int>(4, n)); sites.push_back(subset(0, n - 1, k));
      if (!two) pt.push_back(phys(sites[e]));
      ph.emplace_back(); for (int t : pt[e]) ph[e].push_back(op(t));
    }
    if (listed) {
      TenVVV<E, Q> in; std::string ij = "[";
      for (int e = 0; e < nev; ++e) {
        auto &s = sites[e]; in.emplace_back(); ij += (e ? ",[" : "["); size_t last = two || s.back() + 1 >= n || r(2) ? s.size() - 1 : s.size();
        for (size_t k = 0; k < last; ++k) {
          size_t to = k + 1 < s.size() ? s[k + 1] : (size_t) r.range(s.back() + 1, n); std::vector<int> t; in[e].emplace_back();
          for (size_t i = s[k] + 1; i < to; ++i) { t.push_back(string_op(i)); in[e][k].push_back(op(t.back())); }
          ij += (k ? "," : "") + Jv(t).s;
        }
        ij += "]";
      }
      Res x;
      if (two) { TenVV<E, Q> flat; for (auto &y : in) flat.push_back(y[0]); x = MeasureTwoSiteOp(*m, ph[0], flat, sites, "res"); } else x = MeasureMultiSiteOp(*m, ph, in, sites, "res");
      delete q; event("listed", {{"sites", Jv(sites)}, {"phys", Jv(pt)}, {"inst", Jv::raw(ij + "]")}}, {res(x)}, {file("res")}, false, false, false);
    } else {
      std::vector<std::vector<int>> it; TenVV<E, Q> in; int one = two ? string_op(0) : 0;
      for (int e = 0; e < nev; ++e) { it.emplace_back(); in.emplace_back(); for (size_t k = 0; k + 1 < sites[e].size(); ++k) { it[e].push_back(two ? one : string_op(0)); in[e].push_back(op(it[e].back())); } }
      Res x = two ? MeasureTwoSiteOp(*m, ph[0], op(one), sites, "res") : MeasureMultiSiteOp(*m, ph, in, sites, "res");
      delete q; event("uniform", {{"sites", Jv(sites)}, {"phys", Jv(pt)}, {"inst", Jv(it)}}, {res(x)}, {file("res")}, false, false, false);
    }
  }
  std::string stored(const std::string &d) { std::string s; for (auto &f : ls(d)) s += f + "\n" + slurp(d + "/" + f) + "\n"; return s; }
  template <typename F> void on_disk(F f) {
    newops(); std::string d = r(2) ? "mps" : "elsewhere"; empty_dir(d, true);
    Quiet *q = new Quiet(); m->Centralize(0); m->Dump(d, false); M e(sv); std::string before = stored(d); std::string at = r(2) ? d : "./" + d;
    f(e, at, [&] { delete q; return std::pair<bool, bool>(e.empty(), stored(d) == before); }); empty_dir(d, true);
  }
  void one_disk(const V &sites, int form) {
    on_disk([&](M &e, const std::string &d, auto done) {
      int k = form == 0 ? 1 : r.range(1, 3); std::vector<int> tags; std::vector<Ten> o; std::vector<std::string> names; std::vector<Jv> rs, fs;
      for (int i = 0; i < k; ++i) { tags.push_back(phys({0})[0]); o.push_back(ops.back()); names.push_back("res" + std::to_string(i)); }
      if (form == 0) rs.push_back(res(MeasureOneSiteOp(e, d, o[0], names[0])));
      else { auto x = form == 1 ? MeasureOneSiteOp(e, d, o, names) : MeasureOneSiteOp(e, d, o, sites, names); for (auto &y : x) rs.push_back(res(y)); }
      for (auto &s : names) fs.push_back(file(s));
      auto b = done(); event(form == 2 ? "onesites" : "one", {{"tags", Jv(tags)}, {"sites", Jv(sites)}}, rs, fs, true, b.first, b.second);
    });
  }
  void two_disk(size_t ref, const V &todo, int form) {        // form 1, 2: all sites behind
    on_disk([&](M &e, const std::string &d, auto done) {
      auto p = phys({0, 1}); int s = r(3) ? string_op(0) : 0; Res x; V t = todo; std::vector<Jv> fs;
      if (form) { t.clear(); for (size_t i = ref + 1; i < n; ++i) t.push_back(i); }
      Ten in = s ? op(s) : Ten(); Ten a = op(p[0]), b = op(p[1]);
      if (form == 0) x = s ? MeasureTwoSiteOpGroup(e, d, a, b, ref, todo, in) : MeasureTwoSiteOpGroup(e, d, a, b, ref, todo);
      else if (form == 1) x = MeasureTwoSiteOpGroup(e, d, a, b, ref, in);
      else { x = MeasureTwoSiteOpGroup(e, d, a, b, ref, in, std::string("res")); fs.push_back(file("res")); }
      auto c = done(); event("two", {{"ref", Jv(V{ref})}, {"todo", Jv(t)}, {"tags", Jv(p)}, {"inst", s}}, {res(x)}, fs, true, c.first, c.second);
    });
  }
  void four_disk(const V &ref, const VV &todo) {
    on_disk([&](M &e, const std::string &d, auto done) {
      auto p = phys({0, 1, 0, 1}); int s = r(3) ? string_op(0) : 0; std::vector<std::array<size_t, 2>> t; for (auto &x : todo) t.push_back({x[0], x[1]});
      std::array<Ten, 4> o{op(p[0]), op(p[1]), op(p[2]), op(p[3])}; std::array<size_t, 2> rf{ref[0], ref[1]};
      Res x = s ? MeasureFourSiteOpGroup(e, d, o, rf, t, op(s)) : MeasureFourSiteOpGroup(e, d, o, rf, t);
      auto c = done(); event("four", {{"ref", Jv(ref)}, {"todo", Jv(todo)}, {"tags", Jv(p)}, {"inst", s}}, {res(x)}, {}, true, c.first, c.second);
    });
  }
  void entropy(int k) {
    double n2 = norm2(state((const M &) *m)) / 1.0; Quiet *q = new Quiet(); auto s = m->GetEntanglementEntropy(k); delete q;
    std::vector<long> v; bool ok = true;
    for (double x : s) { long i; double y = k == 1 ? std::exp(-n2 * x) * std::pow(n2, n2) : std::exp(-(k - 1) * x) * std::pow(n2, k); i = std::abs(y) < 2e9 ? std::lround(y) : -1; ok = ok && std::abs(y - i) < 1e-3; v.push_back(i); }
    mult = std::sqrt(n2); tr.ev({{"e", "entropy"}, {"n", k}, {"val", Jv(v)}, {"exact", ok}, {"out", "ok"}, {"obs", obs()}}); mult = 1;
  }
  void blocks() {                                              // a state whose Schmidt vectors are configurations: weight at most 9
    V base(n); for (size_t i = 0; i < n; ++i) base[i] = r(dims[i]); std::map<V, int> terms; int T = 0; bool one = true;
    std::vector<std::vector<std::pair<size_t, size_t>>> match; for (size_t i = 0; 2 * i + 1 < n; ++i) match.push_back(mk.matching(i, base[i], n - 1 - i, base[n - 1 - i]));
    for (int t = r.range(1, 9); t > 0; --t) {
      V lab = base; for (size_t i = 0; i < match.size(); ++i) { auto &c = match[i][r(match[i].size())]; lab[i] = c.first; lab[n - 1 - i] = c.second; }
      int a = one && r(2) ? 2 : 1; if (terms.count(lab) || T + a * a > 9) continue; one = a == 1 && one; T += a * a; terms[lab] = r(2) ? a : -a;
    }
    bool first = true;
    for (auto &t : terms) {
      M b(sv); { Quiet q; DirectStateInitMps(b, t.first); }
      double w = t.second; b[r(n)] *= E(w);
      if (first) { *m = b; first = false; } else { auto *c = new M(sv); FiniteMPSAdd(*m, b, *c); delete m; m = c; }
    }
    if (r(3) == 0 && terms.size() > 1) { M b(*m), c(sv), z(sv); b[0] *= E(-1); FiniteMPSAdd(*m, b, c); FiniteMPSAdd(c, *m, z); *m = z; }   // m - m + m
    tr.ev({{"e", "reset"}, {"dims", Jv(dims)}, {"obs", obs()}});
  }
  void spectrum() {
    std::vector<int> w; int T = 0; for (int k = r.range(1, 6); k > 0; --k) { int a = r(4); if (T + a <= 9) { w.push_back(a); T += a; } } if (!T) { w.push_back(3); T = 3; }
    Index<Q> in({QNSector<Q>(zero(), w.size())}, IN); QLTensor<double, Q> s({in, InverseIndex(in)});
    for (size_t i = 0; i < w.size(); ++i) s({i, i}) = std::sqrt((double) w[i] / T);
    double y = std::exp(-T * MeasureEE(s, w.size())) * std::pow(T, T); long v = std::abs(y) < 2e9 ? std::lround(y) : -1;
    tr.ev({{"e", "spectrum"}, {"ws", Jv(w)}, {"val", v}, {"exact", std::abs(y - v) < 1e-3}});
  }
};
template <typename E, typename Q> void random_seg(const std::vector<Index<Q>> &outs, Rng &r) {
  Run<E, Q> x(outs, r); size_t n = outs.size();
  switch (r(5)) {
    case 0: case 1: x.open(2000); for (int k = 0; k < 3; ++k) x.memory(r(5)); break;
    case 2: {
      if (!x.uniform()) return random_seg<E, Q>(outs, r);
      x.open(2000); x.one_disk(x.subset(0, n - 1, r.range(1, n)), r(3)); size_t ref = r(n);
      x.two_disk(ref, ref + 1 < n ? x.subset(ref + 1, n - 1, r.range(1, 3)) : V{}, r(3));
      if (n >= 4) { V rf = x.subset(0, n - 3, 2); VV t; std::set<V> seen; for (int k = r.range(1, 4); k > 0; --k) { V p = x.subset(rf[1] + 1, n - 1, 2); if (p.size() == 2 && seen.insert(p).second) t.push_back(p); } x.four_disk(rf, t); }
    } break;
    case 3: x.open(300); x.entropy(r.range(2, 3)); break;
    default: x.blocks(); x.entropy(1); x.spectrum();
  }
}
int main(int argc, char **argv) {
  std::string mode = argv[1], trace = argv[mode == "replay" ? 5 : 4], pf = argv[2]; char b[4096]; std::string here = getcwd(b, sizeof b);
  tr.open(trace.c_str()); if (pf[0] != '/') pf = here + "/" + pf;
  Scratch sc((trace[0] == '/' ? trace : here + "/" + trace) + ".d"); if (chdir(sc.d.c_str())) return 70;
  if (mode == "replay") {
    std::ifstream f(pf); std::string line; long k = 0, from = atol(argv[3]), to = atol(argv[4]);
    while (std::getline(f, line)) {
      if (k++ < from) continue; if (k > to) break;
      json p = json::parse(line); Rng r(k); size_t n = p["n"]; std::string fn = p["fn"];
      auto go = [&](auto &x) {
        x.open(2000); V ref = p["ref"]; VV todo = p["todo"]; V flat; for (auto &t : todo) if (fn != "four") flat.push_back(t[0]);
        if (fn == "one") x.one_disk(flat, flat.size() == n ? r(3) : 2); else if (fn == "two") x.two_disk(ref[0], flat, flat.size() + ref[0] + 1 == n ? r(3) : 0); else x.four_disk(ref, todo);
      };
      if (k % 2) { Run<double, U1QN> x(spin_sites<U1QN>(n), r); go(x); } else { Run<C, U1QN> x(spin_sites<U1QN>(n), r); go(x); }
    }
  } else {
    Rng r(atoll(argv[2])); long nseg = atol(argv[3]);
    auto mixed = [](size_t n) { auto v = plain_sites<U1QN>(n, 2); for (size_t i = 0; i < n; ++i) if (i % 3 == 1) v[i] = plain_sites<U1QN>(1, 3)[0]; else if (i % 3 == 2) v[i] = spin_sites<U1QN>(1)[0]; return v; };
    for (long i = 0; i < nseg; ++i) switch (i % 6) {
      case 0: random_seg<double>(spin_sites<U1QN>(r.range(2, 6)), r); break;
      case 1: random_seg<C>(spin_sites<U1QN>(r.range(2, 6)), r); break;
      case 2: random_seg<C>(tj_sites<U1U1QN>(r.range(2, 5)), r); break;
      case 3: random_seg<double>(plain_sites<U1QN>(r.range(2, 5), r.range(2, 3)), r); break;
      case 4: random_seg<C>(mixed(r.range(2, 5)), r); break;
      default: random_seg<C>(plain_sites<U1QN>(r.range(2, 5), 2), r);
    }
  }
  if (chdir(here.c_str())) return 70;
}
