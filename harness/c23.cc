// C23 driver: c23 replay <programs> <from> <to> <trace> | c23 random <seed> <nseg> <trace>
#include "modelio.h"
#include "qlmps/site_vec.h"
#include "qlmps/one_dim_tn/mpo/mpogen/mpogen.h"
#include "qlmps/third_party/nlohmann/json.hpp"
#include <fstream>
using namespace qlmps; using namespace qlten; using namespace mio;
using nlohmann::json;
static Trace tr;
static const double SC = 8;          // coefficients are multiples of 1/8, operators have integer elements
template <typename E, typename Q> struct Run {
  using Ten = QLTensor<E, Q>; using Gen = MPOGenerator<E, Q>;
  std::vector<Index<Q>> outs; std::vector<size_t> dims; SiteVec<E, Q> *sv = nullptr; Gen *g = nullptr;
  void open(const std::vector<Index<Q>> &o) {
    outs = o; dims.clear(); for (auto &x : o) dims.push_back(x.dim());
    sv = new SiteVec<E, Q>(IndexVec<Q>(o)); g = new Gen(*sv, Q());
    std::string s = "["; for (size_t i = 0; i < o.size(); ++i) s += (i ? "," : "") + charges(o[i]).s;
    tr.ev({{"e", "reset"}, {"dims", Jv(dims)}, {"charges", Jv::raw(s + "]")}});
  }
  void close() { delete g; delete sv; }
  Ten op(size_t site, const std::vector<std::array<double, 4>> &el) {
    Ten t({InverseIndex(outs[site]), outs[site]});
    for (auto &x : el) { if constexpr (std::is_same_v<E, double>) t({(size_t) x[1], (size_t) x[0]}) = x[2]; else t({(size_t) x[1], (size_t) x[0]}) = E(x[2], x[3]); }
    return t;
  }
  Ten rnd(size_t site, Rng &r, const Q &q, int kind) {        // operator raising the charge by q; may be zero if impossible
    Ten t({InverseIndex(outs[site]), outs[site]});
    size_t d = dims[site];
    for (size_t c = 0; c < d; ++c) for (size_t w = 0; w < d; ++w) {
      if (!(outs[site].GetQNSctFromActualCoor(w).GetQn() - outs[site].GetQNSctFromActualCoor(c).GetQn() == q)) continue;
      int v = 0, u = 0;
      if (kind == 0) v = c == w; else if (kind == 1) v = -(c == w); else if (kind == 2) v = (c == w) * (c % 2 ? -1 : 1);
      else { v = r.range(-2, 2); u = r.range(-1, 1); }
      if (v || u) { if constexpr (std::is_same_v<E, double>) { if (v) t({c, w}) = v; } else t({c, w}) = E(v, kind > 2 ? u : 0); }
    }
    return t;
  }
  E coef(Rng &r) { double a = (double) r.range(-12, 12) / 8; if constexpr (std::is_same_v<E, double>) return a; else return r(2) ? E(a, 0) : E(a, (double) r.range(-8, 8) / 8); }
  Jv list(const std::vector<Ten> &v) { Ex ex(1); std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + op_list(v[i], ex).s; return Jv::raw(s + "]"); }
  Jv jc(E c) { Ex ex(SC); return Jv(std::vector<long>{ex(cplx(c).real()), ex(cplx(c).imag())}); }
  void log_plain(E c, const std::vector<Ten> &ops, const std::vector<size_t> &s) { tr.ev({{"e", "add"}, {"form", "plain"}, {"c", jc(c)}, {"ops", list(ops)}, {"sites", Jv(s)}}); }
  void log_str(E c, const std::vector<Ten> &ops, const std::vector<size_t> &s, const std::vector<Ten> &st, const std::vector<std::vector<size_t>> &ls) {
    tr.ev({{"e", "add"}, {"form", "string"}, {"c", jc(c)}, {"ops", list(ops)}, {"sites", Jv(s)}, {"strings", list(st)}, {"lists", Jv(ls)}});
  }
  void gen(int how) {
    Quiet q; Ex ex(SC);
    if (how < 2) {
      auto m = g->Gen(how == 0);
      bool ok = m.size() == dims.size(); std::string lq = "[", rq = "[", el = "[";
      for (size_t i = 0; ok && i < dims.size(); ++i) {
        auto &t = m[i]; auto &ix = t.GetIndexes();
        ok = ix.size() == 4 && ix[0].GetDir() == IN && ix[3].GetDir() == OUT && ix[1] == InverseIndex(outs[i]) && ix[2] == outs[i];
        if (i + 1 < dims.size()) ok = ok && ix[3] == InverseIndex(m[i + 1].GetIndexes()[0]);
        if (!ok) break;
        std::string k = i ? "," : "";
        lq += k + charges(ix[0]).s; rq += k + charges(ix[3]).s; el += k + "["; bool f = true; auto sh = t.GetShape();
        for (size_t a = 0; a < sh[0]; ++a) for (size_t b = 0; b < sh[1]; ++b) for (size_t c = 0; c < sh[2]; ++c) for (size_t d = 0; d < sh[3]; ++d)
          if (cplx(t.GetElem({a, b, c, d})) != C(0)) { el += (f ? "" : ",") + Jv(std::vector<size_t>{a, b, c, d}).s; f = false; }
        el += "]";
      }
      Sp m2; if (ok) m2 = dense_mpo(m, dims.size());
      Jv l = sp_list(m2, ex);
      tr.ev({{"e", "gen"}, {"kind", "tensors"}, {"compressed", how == 0}, {"indexes", ok}, {"lq", Jv::raw(lq + "]")}, {"rq", Jv::raw(rq + "]")}, {"elems", Jv::raw(el + "]")}, {"m", l}, {"exact", ex.exact}});
    } else {
      auto m = g->GenMatReprMPO();
      std::vector<std::vector<size_t>> shp; for (auto &s : m) shp.push_back({s.rows, s.cols});
      Sp m2; bool ok = m.size() == dims.size(); for (size_t i = 0; ok && i + 1 < shp.size(); ++i) ok = shp[i][1] == shp[i + 1][0];
      if (ok) m2 = dense_mat(m, dims.size(), dims);
      Jv l = sp_list(m2, ex);
      tr.ev({{"e", "gen"}, {"kind", "matrices"}, {"shape", Jv(shp)}, {"m", l}, {"exact", ex.exact && ok}});
    }
  }
  bool nz(const Ten &t) { for (size_t c = 0; c < t.GetShape()[0]; ++c) for (size_t r = 0; r < t.GetShape()[1]; ++r) if (cplx(t.GetElem({c, r})) != C(0)) return true; return false; }
  bool distinct(const std::vector<size_t> &s) { for (size_t i = 0; i < s.size(); ++i) for (size_t j = 0; j < i; ++j) if (s[i] == s[j]) return false; return true; }
  void term(Rng &r, const std::vector<Q> &qs) {
    size_t n = dims.size(); int k = 1 + r((int) std::min<size_t>(n, 4)); if (r(3) == 0) k = std::min<int>(2, n);
    std::vector<size_t> s(n); for (size_t i = 0; i < n; ++i) s[i] = i;
    std::shuffle(s.begin(), s.end(), r.g); s.resize(k);
    int form = k < 2 ? r(2) : r(5);
    if (form >= 2 || r(2)) std::sort(s.begin(), s.end());
    std::vector<Ten> ops; Q tot{};
    for (int i = 0; i < k; ++i) {
      Q q = i == k - 1 ? -tot : qs[r(qs.size())];
      int kind = (q == Q()) ? r(5) : 3;
      Ten t = rnd(s[i], r, q, kind); for (int a = 0; a < 6 && !nz(t); ++a) t = rnd(s[i], r, q, 3);
      if (!nz(t)) return;
      ops.push_back(t); tot += q;
    }
    E c = coef(r); if (c != E(0)) ++nadd;
    Quiet quiet;
    if (form <= 1) {
      if (k == 1 && r(2)) { g->AddTerm(c, ops[0], s[0]); }
      else if (k == 2 && s[1] != 0 && r(2)) g->AddTerm(c, ops[0], s[0], ops[1], s[1]);
      else g->AddTerm(c, ops, s);
      log_plain(c, ops, s); return;
    }
    bool uniform = true; for (size_t i = 1; i < n; ++i) uniform = uniform && outs[i] == outs[0];
    auto strop = [&](size_t site) { Ten t = rnd(site, r, Q(), r(4) ? 2 : 3); for (int a = 0; a < 9 && !nz(t); ++a) t = rnd(site, r, Q(), 2); return t; };
    bool lists = form == 4 || !uniform;
    std::vector<Ten> st; std::vector<std::vector<size_t>> ls; int ns = r(2) && (int) s.back() < (int) n ? k : k - 1;
    for (int i = 0; i < ns; ++i) {
      std::vector<size_t> gap; for (size_t x = s[i] + 1; x < (i + 1 < k ? s[i + 1] : n); ++x) if (!lists || r(3)) gap.push_back(x);
      Ten t = strop(gap.empty() ? s[i] : gap[0]);
      if (lists) { std::vector<size_t> same; for (size_t x : gap) if (outs[x] == t.GetIndexes()[1]) same.push_back(x); gap = same; }
      st.push_back(t); ls.push_back(gap);
    }
    if (!lists) ls.clear();
    if (lists) { bool any = false; for (auto &x : ls) any = any || !x.empty(); (void) any; }
    if (k == 2 && ns == 1 && (!lists || !ls[0].empty()) && r(2)) {
      if (lists) g->AddTerm(c, ops[0], s[0], ops[1], s[1], st[0], ls[0]); else g->AddTerm(c, ops[0], s[0], ops[1], s[1], st[0]);
    } else if (lists) g->AddTerm(c, ops, s, st, ls);
    else g->AddTerm(c, ops, s, st);
    log_str(c, ops, s, st, ls);
  }
  void random(Rng &r, const std::vector<std::vector<std::vector<int>>> &spaces, const std::vector<Q> &qs, std::function<Q(const std::vector<int> &)> mk) {
    int n = 1 + r(5); bool uni = r(2); std::vector<Index<Q>> o; int pick = r(spaces.size());
    long D = 1;
    for (int i = 0; i < n; ++i) {
      auto &sp = spaces[uni ? pick : r(spaces.size())];
      std::vector<QNSector<Q>> v; long d = 0; for (auto &x : sp) { v.push_back(QNSector<Q>(mk(x), x.back())); d += x.back(); }
      if (D * d > 81) break;
      D *= d; o.push_back(Index<Q>(v, OUT));
    }
    nadd = 0; open(o);
    int t = 1 + r(r(3) ? 4 : 12), gens = 0;
    for (int i = 0; i < t; ++i) { term(r, qs); if (r(6) == 0 && added(r)) { gen(r(3)); ++gens; } }
    if (added(r)) { gen(0); gen(1); gen(2); if (r(2)) gen(r(3)); }
    close();
  }
  int nadd = 0;
  bool added(Rng &) { return nadd > 0; }
};
int main(int argc, char **argv) {
  std::string mode = argv[1]; tr.open(argv[argc - 1]); tr.flush = true;
  using special_qn::U1QN; using special_qn::U1U1QN; using special_qn::TrivialRepQN;
#if PART == 0
  if (mode == "replay") {
    std::ifstream in(argv[2]); std::string line; long n = 0, from = atol(argv[3]), to = atol(argv[4]);
    using R = Run<double, U1QN>;
    std::map<std::string, std::vector<std::array<double, 4>>> lib = {{"i", {{0, 0, 1, 0}, {1, 1, 1, 0}}}, {"z", {{0, 0, 1, 0}, {1, 1, -1, 0}}}, {"m", {{0, 0, -1, 0}, {1, 1, 1, 0}}},
        {"p", {{0, 1, 1, 0}}}, {"q", {{1, 0, 1, 0}}}, {"w", {{1, 0, -2, 0}}}};
    while (std::getline(in, line)) {
      if (n++ < from || n > to) continue;
      R u; Index<U1QN> ix({QNSector<U1QN>(U1QN({QNCard("q", U1QNVal(1))}), 1), QNSector<U1QN>(U1QN({QNCard("q", U1QNVal(0))}), 1)}, OUT);
      auto prog = json::parse(line); std::vector<Index<U1QN>> ixs((size_t) prog[0]["n"], ix); u.open(ixs);
      for (auto &o : prog) {
        std::vector<R::Ten> ops; std::vector<size_t> s; for (auto &x : o["s"]) s.push_back(x);
        size_t k = 0; for (auto &x : o["o"]) ops.push_back(u.op(s[k++], lib[x]));
        double c = (double) o["c"] / 8; std::string f = o["f"]; auto z = u.op(0, lib["z"]);
        Quiet q;
        if (f == "one") { u.g->AddTerm(c, ops[0], s[0]); u.log_plain(c, ops, s); }
        else if (f == "two") { if (s[1] != 0) u.g->AddTerm(c, ops[0], s[0], ops[1], s[1]); else u.g->AddTerm(c, ops, s); u.log_plain(c, ops, s); }
        else if (f == "str") { u.g->AddTerm(c, ops[0], s[0], ops[1], s[1], z); u.log_str(c, ops, s, {z}, {}); }
        else { u.g->AddTerm(c, ops, s, {z, z}); u.log_str(c, ops, s, {z, z}, {}); }
      }
      u.gen(n % 3); u.gen((n + 1 + n / 3 % 2) % 3);
      u.close();
    }
    return 0;
  }
#endif
  Rng r(atoi(argv[2])); int nseg = atoi(argv[3]);
  auto u1 = [](const std::vector<int> &x) { return U1QN({QNCard("q", U1QNVal(x[0]))}); };
  auto u2 = [](const std::vector<int> &x) { return U1U1QN({QNCard("a", U1QNVal(x[0])), QNCard("b", U1QNVal(x[1]))}); };
  auto u0 = [](const std::vector<int> &) { return TrivialRepQN(); };
  std::vector<std::vector<std::vector<int>>> s1 = {{{1, 1}, {-1, 1}}, {{0, 1}, {1, 1}, {2, 1}}, {{0, 2}, {1, 1}}, {{3, 1}}}, s0 = {{{2}}, {{3}}, {{1}}}, s2 = {{{0, 0, 1}, {1, 1, 1}, {1, -1, 1}}, {{2, 0, 1}, {1, 1, 1}, {1, -1, 1}, {0, 0, 1}}};
  std::vector<U1QN> q1; for (int i = -2; i <= 2; ++i) q1.push_back(u1({i}));
  std::vector<U1U1QN> q2; for (auto &x : std::vector<std::vector<int>>{{0, 0}, {1, 1}, {-1, -1}, {1, -1}, {-1, 1}, {0, 2}, {0, -2}}) q2.push_back(u2(x));
  std::vector<TrivialRepQN> q0(1);
  for (int s = 0; s < nseg; ++s) {
#if PART == 0
    if (r(2)) { Run<double, U1QN> u; u.random(r, s1, q1, u1); } else { Run<QLTEN_Complex, U1QN> u; u.random(r, s1, q1, u1); }
#elif PART == 1
    if (r(2)) { Run<double, TrivialRepQN> u; u.random(r, s0, q0, u0); } else { Run<QLTEN_Complex, TrivialRepQN> u; u.random(r, s0, q0, u0); }
#else
    if (r(2)) { Run<double, U1U1QN> u; u.random(r, s2, q2, u2); } else { Run<QLTEN_Complex, U1U1QN> u; u.random(r, s2, q2, u2); }
#endif
  }
  return 0;
}
