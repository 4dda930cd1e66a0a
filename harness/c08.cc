// C08 driver: c08 replay <programs> <from> <to> <trace> | c08 random <seed> <nseg> <trace>
#include "mps.h"
#include "qlmps/third_party/nlohmann/json.hpp"
using namespace mio; using nlohmann::json;
static Trace tr;
static std::string dir;
static const char *FL[] = {"N", "L", "R"};
template <typename T> Jv gram(const T &t, bool left) {      // of the tensor's columns (left) or rows (right), scaled by 1e5
  auto sh = t.GetShape(); size_t k = left ? sh[2] : sh[0]; std::string s = "["; bool f = true;
  for (size_t x = 0; x < k; ++x) for (size_t y = x; y < k; ++y) {
    C g(0);
    for (size_t p = 0; p < sh[1]; ++p)
      if (left) for (size_t a = 0; a < sh[0]; ++a) g += std::conj(cplx(t.GetElem({a, p, x}))) * cplx(t.GetElem({a, p, y}));
      else for (size_t b = 0; b < sh[2]; ++b) g += std::conj(cplx(t.GetElem({x, p, b}))) * cplx(t.GetElem({y, p, b}));
    auto q = [](double v) { return (long) std::min(1e8, std::max(-1e8, std::round(v * 1e5))); };
    std::vector<long> e{(long) x, (long) y, q(g.real()), q(g.imag())};
    if (e[2] || e[3]) { s += (f ? "" : ",") + Jv(e).s; f = false; }
  }
  return Jv::raw(s + "]");
}
template <typename E, typename Q> struct Run {
  using M = FiniteMPS<E, Q>; using Ten = QLTensor<E, Q>;
  std::vector<Index<Q>> outs; SiteVec<E, Q> sv; M *m = nullptr; double mult = 1; Rng &r; Maker<E, Q> mk;
  Run(const std::vector<Index<Q>> &o, Rng &rr) : outs(o), sv(IndexVec<Q>(o)), r(rr), mk{o, rr} {}
  Jv obs() {
    const M &c = *m; size_t n = c.size(); std::string s = "["; bool all = true;
    auto types = c.GetTensCanoType(); bool agree = types.size() == n;
    for (size_t i = 0; i < n; ++i) {
      bool here = c(i) != nullptr && !c[i].IsDefault(); int f = (int) c.GetTenCanoType(i);
      agree = agree && types[i] == c.GetTenCanoType(i); all = all && here;
      int cen = c.GetCenter();
      bool wl = f == 1 || (cen >= 0 && (int) i < cen), wr = f == 2 || (cen >= 0 && (int) i > cen);
      s += (i ? "," : "") + jobj({{"f", FL[f]}, {"mem", here}, {"ld", here && wl ? c[i].GetShape()[2] : 0}, {"l", here && wl ? gram(c[i], true) : Jv::raw("[]")},
            {"rd", here && wr ? c[i].GetShape()[0] : 0}, {"r", here && wr ? gram(c[i], false) : Jv::raw("[]")}}).s;
    }
    Ex ex(mult); Vec v = all ? state(c) : Vec();
    return jobj({{"c", c.GetCenter()}, {"s", Jv::raw(s + "]")}, {"all", all && !v.empty()}, {"psi", vec_list(v, ex)}, {"exact", ex.exact && agree},
                 {"norm", (long) std::min(1e8, std::round(1e6 * std::sqrt(norm2(v))))}});
  }
  void open(int states, int deg, int amp, int ds) {
    m = new M(sv); mult = 1;
    mk.fill(*m, states, deg, amp, ds);
    std::vector<size_t> dims; for (auto &x : outs) dims.push_back(x.dim());
    tr.ev({{"e", "reset"}, {"dims", Jv(dims)}, {"obs", obs()}});
  }
  void close() { delete m; m = nullptr; }
  void normalised() { mult = mult * std::sqrt(n0); }
  double n0 = 1;
  void step(const std::string &o, int a, int b) {
    auto *q = new Quiet(); n0 = norm2(state(*(const M *) m)); std::string out = "ok"; std::string more;
    if (o == "centralize") m->Centralize(a);
    else if (o == "left") m->LeftCanonicalize(a);
    else if (o == "right") m->RightCanonicalize(a);
    else if (o == "left1") m->LeftCanonicalizeTen(a);
    else if (o == "right1") { auto s = m->RightCanonicalizeTen(a, b != 0); }
    else if (o == "write") {                                  // b: factor; three ways to get at the tensor
      switch (r(3)) {
        case 0: (*m)[a] *= E(b); break;
        case 1: (*m)(a)->MultiplyByScalar(E(b)); break;
        default: { Ten *t = new Ten(*((const M *) m)->cdata()[a]); t->MultiplyByScalar(E(b)); delete (*m)(a); (*m)(a) = t; }
      }
    } else if (o == "load") {                                 // b times the present tensor comes back from a file
      Ten t(*((const M *) m)->cdata()[a]); t.MultiplyByScalar(E(b));
      std::string p = dir + "/w"; mkdir(p.c_str(), 0700);
      switch (r(3)) {
        case 0: { std::ofstream f(p + "/x.t", std::ios::binary); f << t; f.close(); m->LoadTen((size_t) a, p + "/x.t"); break; }
        case 1: { std::ofstream f(GenMPSTenName(p, a), std::ios::binary); f << t; f.close(); m->LoadTen(p, (size_t) a); break; }
        default: { ((const M *) m)->Dump(p); std::ofstream f(GenMPSTenName(p, a), std::ios::binary); f << t; f.close(); m->Load(p); }
      }
      empty_dir(p, true);
    } else if (o == "reload") {                               // unchanged tensor leaves and comes back
      std::string p = dir + "/w"; mkdir(p.c_str(), 0700);
      if (b) { m->DumpTen((size_t) a, GenMPSTenName(p, a), true); } else { m->DumpTen(p, (size_t) a); m->dealloc(a); }
      m->LoadTen(p, (size_t) a);
      empty_dir(p, true);
    } else if (o == "realloc") {                              // a fresh tensor takes the slot
      Ten t(*((const M *) m)->cdata()[a]); t.MultiplyByScalar(E(b));
      m->alloc(a);
      auto ty = m->GetTenCanoType(a); int ce = m->GetCenter();
      if (ty != MPSTenCanoType::NONE || (ce >= 0 && ce != a)) out = "claim about a fresh tensor";
      (*m)[a] = t;
    } else if (o == "copy") {
      M *k; if (a == 0) k = new M(*m); else { k = new M(sv); Rng q2(7); Maker<E, Q> m2{outs, q2}; m2.fill(*k, 1, 1, 2); k->Centralize(outs.size() - 1); *k = *m; }
      delete m; m = k;
    } else if (o == "move") {
      M *k; if (a == 0) k = new M(std::move(*m)); else { k = new M(sv); Rng q2(7); Maker<E, Q> m2{outs, q2}; m2.fill(*k, 1, 1, 2); k->Centralize(outs.size() - 1); *k = std::move(*m); }
      delete m; m = k;
    } else if (o == "reverse") m->Reverse();
    else if (o == "entropy") { m->GetEntanglementEntropy(a); normalised(); }
    else if (o == "truncate") { TruncateMPS(*m, 0.0, 1, 1000); normalised(); }
    else if (o == "add") {                                    // |m> + b |m> into a chain with other contents and claims
      M k(*m), *t = new M(sv); k[a] *= E(b);
      mk.fill(*t, 1, 1, 2); t->Centralize(a);
      FiniteMPSAdd(*m, k, *t); delete m; m = t;
    } else abort();
    delete q;
    tr.ev({{"e", "op"}, {"o", o}, {"a", a}, {"b", b}, {"out", out}, {"obs", obs()}});
  }
};
template <typename E, typename Q> void random_seg(const std::vector<Index<Q>> &outs, Rng &r) {
  Run<E, Q> x(outs, r); int n = outs.size();
  x.open(r.range(1, 3), r.range(1, 2), r.range(1, 3), r.p(1, 3) ? r(n) : 0);
  int steps = r.range(4, 12), scale = 1; bool rev = false;
  for (int i = 0; i < steps; ++i) {
    switch (r(14)) {
      case 0: case 1: case 2: x.step("centralize", r(n), 0); break;
      case 3: x.step("left", r(n - 1), 0); break;
      case 4: x.step("right", r.range(1, n - 1), 0); break;
      case 5: x.step("left1", r(n - 1), 0); break;
      case 6: x.step("right1", r.range(1, n - 1), r(2)); break;
      case 7: case 8: { int k = scale < 8 ? (r(2) ? -2 : 2) : 1; scale *= std::abs(k); static const char *w[] = {"write", "load", "realloc"}; x.step(w[r(3)], r(n), k); break; }
      case 9: x.step("reload", r(n), r(2)); break;
      case 10: x.step(r(2) ? "copy" : "move", r(2), 0); break;
      case 11: if (!rev || r(2)) { x.step("reverse", 0, 0); rev = !rev; } break;
      case 12: if (!rev) x.step(r(2) ? "entropy" : "truncate", r.range(1, 3), 0); break;
      default: if (!rev && scale < 8) { int k = r(2) ? 1 : -3; scale *= 2; x.step("add", r(n), k); } break;
    }
  }
  x.close();
}
int main(int argc, char **argv) {
  std::string mode = argv[1];
  if (mode == "replay") {
    tr.open(argv[5]); Scratch sc(std::string(argv[5]) + ".d"); dir = sc.d;
    std::ifstream f(argv[2]); std::string line; long k = 0, from = atol(argv[3]), to = atol(argv[4]);
    while (std::getline(f, line)) {
      if (k++ < from) continue; if (k > to) break;
      json p = json::parse(line); Rng r(k * 31 + 5); size_t n = p["n"];
      Run<double, U1QN> x(spin_sites<U1QN>(n), r); x.open(2, 2, 2, 0);
      for (auto &s : p["prog"]) x.step(s[0], s[1], s[2]);
      x.close();
    }
  } else {
    Rng r(atoll(argv[2])); long nseg = atol(argv[3]); tr.open(argv[4]); Scratch sc(std::string(argv[4]) + ".d"); dir = sc.d;
    for (long i = 0; i < nseg; ++i) switch (i % 4) {
      case 0: random_seg<double, U1QN>(spin_sites<U1QN>(r.range(2, 6)), r); break;
      case 1: random_seg<std::complex<double>, U1QN>(spin_sites<U1QN>(r.range(2, 5)), r); break;
      case 2: random_seg<double, U1U1QN>(tj_sites<U1U1QN>(r.range(2, 4)), r); break;
      default: random_seg<std::complex<double>, special_qn::TrivialRepQN>(plain_sites<special_qn::TrivialRepQN>(r.range(2, 4), r.range(2, 3)), r); break;
    }
  }
}
