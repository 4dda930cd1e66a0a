// C22 driver: c22 <seed> <nseg> <trace>. Sites, operator sets and ready-made builders of the three models.
#include "modelio.h"
#include "qlmps/site_vec.h"
#include "qlmps/one_dim_tn/mpo/mpogen/mpogen.h"
#include "qlmps/model_relevant/sites/model_site_base.h"
#include "qlmps/model_relevant/operators/operators_all.h"
using namespace qlmps; using namespace qlten; using namespace mio;
using special_qn::U1QN; using special_qn::U1U1QN; using special_qn::TrivialRepQN;
static Trace tr;
template <typename Q> const char *qname() { return std::is_same_v<Q, TrivialRepQN> ? "trivial" : std::is_same_v<Q, U1QN> ? "U1" : "U1U1"; }
template <typename E> const char *ename() { return std::is_same_v<E, double> ? "real" : "complex"; }
template <typename T> using NT = std::vector<std::pair<std::string, const T *>>;
template <typename E, typename Q> NT<QLTensor<E, Q>> names(const SpinOneHalfOperators<E, Q> &o, std::vector<QLTensor<E, Q>> &own) {
  NT<QLTensor<E, Q>> r = {{"sz", &o.sz}, {"sp", &o.sp}, {"sm", &o.sm}, {"id", &o.id}}; own.reserve(4);
  if constexpr (std::is_same_v<Q, TrivialRepQN>) { own.push_back(o.GetSx()); r.push_back({"sx", &own.back()}); if constexpr (!std::is_same_v<E, double>) { own.push_back(o.GetSy()); r.push_back({"sy", &own.back()}); } }
  return r;
}
template <typename E, typename Q> NT<QLTensor<E, Q>> names(const tJOperators<E, Q> &o, std::vector<QLTensor<E, Q>> &) {
  return {{"sz", &o.sz}, {"sp", &o.sp}, {"sm", &o.sm}, {"id", &o.id}, {"f", &o.f}, {"bupc", &o.bupc}, {"bupa", &o.bupa}, {"bdnc", &o.bdnc}, {"bdna", &o.bdna},
          {"nf", &o.nf}, {"nup", &o.nup}, {"ndn", &o.ndn}, {"bdnc_multi_bupa", &o.bdnc_multi_bupa}, {"bupc_multi_bdna", &o.bupc_multi_bdna}};
}
template <typename E, typename Q> NT<QLTensor<E, Q>> names(const HubbardOperators<E, Q> &o, std::vector<QLTensor<E, Q>> &own) {
  NT<QLTensor<E, Q>> r = {{"sz", &o.sz}, {"sp", &o.sp}, {"sm", &o.sm}, {"id", &o.id}, {"f", &o.f}, {"bupc", &o.bupc}, {"bupa", &o.bupa}, {"bdnc", &o.bdnc}, {"bdna", &o.bdna},
      {"bupcF", &o.bupcF}, {"bupaF", &o.bupaF}, {"Fbdnc", &o.Fbdnc}, {"Fbdna", &o.Fbdna}, {"cupccdnc", &o.cupccdnc}, {"cdnacupa", &o.cdnacupa}, {"cupccdna", &o.cupccdna}, {"cdnccupa", &o.cdnccupa},
      {"nupndn", &o.nupndn}, {"Uterm", &o.Uterm}, {"nf", &o.nf}, {"nfsquare", &o.nfsquare}, {"nup", &o.nup}, {"ndn", &o.ndn}};
  own.reserve(4);
  if constexpr (std::is_same_v<Q, TrivialRepQN>) { own.push_back(o.GetSx()); r.push_back({"sx", &own.back()}); if constexpr (!std::is_same_v<E, double>) { own.push_back(o.GetSy()); r.push_back({"sy", &own.back()}); } }
  return r;
}
template <typename E, typename Q, typename O, typename S> void log_ops(const O &o, const S &site, const char *how) {
  std::vector<QLTensor<E, Q>> own; auto v = names<E, Q>(o, own); Ex ex(2); std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) {
    auto &t = *v[i].second; auto &ix = t.GetIndexes();
    bool shape = ix.size() == 2 && ix[0] == site.phys_bond_in && ix[1] == site.phys_bond_out;
    s += (i ? "," : "") + jobj({{"name", v[i].first}, {"m", op_list(t, ex)}, {"div", Jv(comps(Div(t)))}, {"shape", shape}}).s;
  }
  tr.ev({{"e", "ops"}, {"how", how}, {"ops", Jv::raw(s + "]")}, {"exact", ex.exact}});
}
static std::vector<std::string> basis_of(size_t d, std::vector<std::pair<std::string, size_t>> v) {
  std::vector<std::string> b(d, "?"); for (auto &x : v) if (x.second < d) b[x.second] = b[x.second] == "?" ? x.first : "clash"; return b;
}
template <typename Q> std::vector<std::string> basis(const sites::SpinOneHalfSite<Q> &s) { return basis_of(2, {{"up", s.spin_up}, {"down", s.spin_down}}); }
template <typename Q> std::vector<std::string> basis(const sites::tJSite<Q> &s) { return basis_of(3, {{"up", s.spin_up}, {"down", s.spin_down}, {"empty", s.empty}}); }
template <typename Q> std::vector<std::string> basis(const sites::HubbardSite<Q> &s) { return basis_of(4, {{"up", s.spin_up}, {"down", s.spin_down}, {"empty", s.empty}, {"double", s.double_occupancy}}); }
static std::pair<int, int> pair_of(Rng &r, int n, bool eq) { int i = r(n), j = r(n); while (!eq && i == j) j = r(n); return {i, j}; }
template <typename E, typename Q, typename O, typename S> void segment(Rng &r, const char *model) {
  constexpr bool spin = std::is_same_v<O, SpinOneHalfOperators<E, Q>>, tj = std::is_same_v<O, tJOperators<E, Q>>, hub = !spin && !tj;
  S site; int n = spin ? r.range(2, 6) : tj ? r.range(2, 4) : r.range(2, 3);
  auto sv = site.template GenUniformSites<E>(n); bool sok = sv.size == (size_t) n && sv.sites.size() == (size_t) n && sv.id_ops.size() == (size_t) n;
  for (auto &x : sv.sites) sok = sok && x == site.phys_bond_out;
  bool iok = site.phys_bond_out.GetDir() == OUT && site.phys_bond_in == InverseIndex(site.phys_bond_out);
  tr.ev({{"e", "reset"}, {"model", model}, {"qn", qname<Q>()}, {"el", ename<E>()}, {"n", n}, {"basis", Jv(basis(site))}, {"charges", charges(site.phys_bond_out)}, {"indexes", iok}, {"sites", sok}});
  {
    O *o = r(2) ? new O(site) : new O(); log_ops<E, Q>(*o, site, "direct");
    if (r(2)) { O c(*o); log_ops<E, Q>(c, site, "copy"); delete o; log_ops<E, Q>(c, site, "copy-of-gone"); } else delete o;
  }
  O ops(site); MPOGenerator<E, Q> g(sv, Q()); int k = r.range(1, 5), gens = 0;
  auto gen = [&]() { Quiet q; Ex ex(8); auto m = g.Gen(r(2)); Jv l = sp_list(dense_mpo(m, n), ex); tr.ev({{"e", "gen"}, {"m", l}, {"exact", ex.exact}}); };
  for (int a = 0; a < k; ++a) {
    int what = r(spin ? 1 : 3);
    if (what == 0) {
      auto p = pair_of(r, n, false); int j2 = r.range(-5, 5); bool def = r(2);
      { Quiet q; if (def) AddHeisenbergCoupling<E, Q, O>(g, j2 / 2.0, p.first, p.second); else AddHeisenbergCoupling(g, j2 / 2.0, p.first, p.second, ops); }
      tr.ev({{"e", "heisenberg"}, {"j2", j2}, {"i", p.first}, {"j", p.second}, {"out", "ok"}}); gens += j2 != 0;
    } else if (what == 1) {
      if constexpr (!spin) {
        auto p = pair_of(r, n, tj && r(5) == 0); int re = r.range(-5, 5), im = 0; bool def = r(2); std::string out = "ok";
        if (tj && !std::is_same_v<E, double> && r(3)) im = r.range(-5, 5);
        try {
          Quiet q;
          if constexpr (tj) { E t; if constexpr (std::is_same_v<E, double>) t = re / 2.0; else t = E(re / 2.0, im / 2.0); if (def) AddTJHoppingTerms(g, t, p.first, p.second); else AddTJHoppingTerms(g, t, p.first, p.second, ops); }
          else { if (def) AddHubbardHoppingTerms(g, re / 2.0, p.first, p.second); else AddHubbardHoppingTerms(g, re / 2.0, p.first, p.second, ops); }
        } catch (const std::runtime_error &) { out = "error"; }
        tr.ev({{"e", "hopping"}, {"t2", Jv(std::vector<int>{re, im})}, {"i", p.first}, {"j", p.second}, {"out", out}}); gens += (re || im) && out == "ok";
      }
    } else {
      if constexpr (!spin) {
        int i = r(n), c2 = r.range(-4, 4); std::vector<QLTensor<E, Q>> own; auto v = names<E, Q>(ops, own);
        static const char *tjn[] = {"nf", "nup", "ndn", "sz"}, *hn[] = {"nf", "Uterm", "nupndn", "nfsquare", "ndn", "sz"}; std::string nm = tj ? tjn[r(4)] : hn[r(6)];
        for (auto &x : v) if (x.first == nm) { Quiet q; g.AddTerm(c2 / 2.0, *x.second, i); }
        tr.ev({{"e", "onsite"}, {"c2", c2}, {"name", nm}, {"i", i}}); gens += c2 != 0;
      }
    }
    if (gens && r(4) == 0) gen();
  }
  if (gens) gen();
}
int main(int argc, char **argv) {
  Rng r(atoi(argv[1])); int nseg = atoi(argv[2]); tr.open(argv[3]); tr.flush = true;
  using D = double; using Z = QLTEN_Complex;
#define SEG(E, Q, O, S, M) segment<E, Q, O<E, Q>, sites::S<Q>>(r, M)
#if PART == 0
  for (int s = 0; s < nseg; ++s) switch (s < 4 ? s : r(4)) {
    case 0: SEG(D, U1QN, SpinOneHalfOperators, SpinOneHalfSite, "spin"); break;
    case 1: SEG(Z, U1QN, SpinOneHalfOperators, SpinOneHalfSite, "spin"); break;
    case 2: SEG(D, TrivialRepQN, SpinOneHalfOperators, SpinOneHalfSite, "spin"); break;
    default: SEG(Z, TrivialRepQN, SpinOneHalfOperators, SpinOneHalfSite, "spin");
  }
#else
#if PART < 3
#define OPS tJOperators, tJSite, "tj"
#else
#define OPS HubbardOperators, HubbardSite, "hubbard"
#endif
#if PART % 2
  using E = D;
#else
  using E = Z;
#endif
#define SEG2(E, Q, ...) SEG3(E, Q, __VA_ARGS__)
#define SEG3(E, Q, O, S, M) SEG(E, Q, O, S, M)
  for (int s = 0; s < nseg; ++s) switch (s < 3 ? s : r(3)) {
    case 0: SEG2(E, U1QN, OPS); break;
    case 1: SEG2(E, TrivialRepQN, OPS); break;
    default: SEG2(E, U1U1QN, OPS);
  }
#endif
  return 0;
}
