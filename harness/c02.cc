// C02 driver: c02 random <seed> <nseg> <maxlabel> <trace> | c02 replay <programs> <from> <to> <trace>
#include "symb.h"
#include "qlmps/third_party/nlohmann/json.hpp"
#include <fstream>
#include <sstream>
#include <iostream>
using nlohmann::json;
static Trace tr;
static const int N = 3;
static CoefRepr *C[N + 1]; static OpRepr *O[N + 1];
struct Vec { std::vector<long> v; Vec &operator+=(const Vec &o) { if (v.empty()) v = o.v; else for (size_t i = 0; i < v.size(); ++i) v[i] += o.v[i]; return *this; } };
static Vec operator*(long a, Vec b) { for (auto &x : b.v) x *= a; return b; }
static void ev(const char *e, std::vector<std::pair<std::string, Jv>> kv) {
  std::vector<std::pair<std::string, Jv>> l{{"e", Jv(e)}}; for (auto &k : kv) l.push_back(k);
  std::vector<Jv> c, o; for (int i = 1; i <= N; ++i) { c.push_back(jcoef(*C[i])); o.push_back(jop(*O[i])); }
  l.push_back({"co", Jv(c)}); l.push_back({"op", Jv(o)}); tr.ev(jobjv(l));
}
static void reset(int k) { for (int i = 1; i <= N; ++i) { delete C[i]; delete O[i]; C[i] = new CoefRepr(); O[i] = new OpRepr(); } tr.ev({{"e", "reset"}, {"k", k}}); }
static void step(const std::string &o, int r, int s, int t, const std::vector<long> &ls, const std::vector<int> &cs, int form) {
  if (o == "cnew") {
    if (ls.empty()) *C[r] = form ? CoefRepr() : CoefRepr(std::vector<long>());
    else if (ls.size() == 1 && form) *C[r] = CoefRepr(ls[0]);
    else *C[r] = CoefRepr(ls);
    ev("cnew", {{"r", r}, {"ls", Jv(ls)}});
  } else if (o == "ccopy") { if (form) *C[r] = *C[s]; else { CoefRepr *p = new CoefRepr(*C[s]); delete C[r]; C[r] = p; } ev("ccopy", {{"r", r}, {"s", s}}); }
  else if (o == "cmove") { if (form) *C[r] = std::move(*C[s]); else { CoefRepr *p = new CoefRepr(std::move(*C[s])); delete C[r]; C[r] = p; } ev("cmove", {{"r", r}, {"s", s}}); }
  else if (o == "cadd") { *C[r] = *C[s] + *C[t]; ev("cadd", {{"r", r}, {"s", s}, {"t", t}}); }
  else if (o == "caddto") {
    if (r == s) { CoefRepr q(*C[s]); *C[r] += q; } else *C[r] += *C[s];
    ev("caddto", {{"r", r}, {"s", s}});
  }
  else if (o == "olabels") {
    if (ls.empty()) *O[r] = OpRepr(); else if (ls.size() == 1 && form) *O[r] = OpRepr(ls[0]); else *O[r] = OpRepr(ls);
    ev("olabels", {{"r", r}, {"ls", Jv(ls)}});
  } else if (o == "oterm") { *O[r] = OpRepr(*C[s], (long) t); ev("oterm", {{"r", r}, {"s", s}, {"t", t}}); }
  else if (o == "opairs") { std::vector<CoefRepr> v; for (int c : cs) v.push_back(*C[c]); *O[r] = OpRepr(v, ls); ev("opairs", {{"r", r}, {"cs", Jv(cs)}, {"ls", Jv(ls)}}); }
  else if (o == "ocopy") { if (form) *O[r] = *O[s]; else { OpRepr *p = new OpRepr(*O[s]); delete O[r]; O[r] = p; } ev("ocopy", {{"r", r}, {"s", s}}); }
  else if (o == "oadd") { *O[r] = *O[s] + *O[t]; ev("oadd", {{"r", r}, {"s", s}, {"t", t}}); }
  else if (o == "oaddto") { if (r == s) { OpRepr q(*O[s]); *O[r] += q; } else *O[r] += *O[s]; ev("oaddto", {{"r", r}, {"s", s}}); }
  else if (o == "osplit") {
    auto p = SeparateCoefAndBase(*O[t]); bool f = GetOpReprCoef(*O[t]) == p.first;
    *C[s] = p.first; *O[r] = p.second; ev("osplit", {{"r", r}, {"s", s}, {"t", t}, {"first", f}});
  } else abort();
}
static Jv cstr(std::string s) {           // split a printed coefficient at its plus signs
  bool paren = s.size() >= 2 && s.front() == '(' && s.back() == ')';
  if (paren) s = s.substr(1, s.size() - 2);
  std::vector<std::string> parts{""};
  for (char c : s) if (c == '+') parts.push_back(""); else parts.back() += c;
  return jobj({{"paren", paren}, {"parts", Jv(parts)}});
}
static std::vector<std::string> terms(const std::string &s) {
  std::vector<std::string> r{""}; int d = 0;
  for (char c : s) { if (c == '(') ++d; if (c == ')') --d; if (c == '+' && d == 0) r.push_back(""); else r.back() += c; }
  return r;
}
static std::pair<std::string, std::string> cut(const std::string &t) {   // coefficient text, basis operator text
  size_t k = 0; while (k < t.size() && !(t[k] >= 'A' && t[k] <= 'Z')) ++k;
  if (k == t.size()) return {"", t};
  return {t.substr(0, k), t.substr(k)};
}
static Jv ostr(const std::string &s) {
  std::vector<Jv> r; for (auto &t : terms(s)) { auto p = cut(t); r.push_back(jobj({{"sym", p.second}, {"coef", cstr(p.first)}})); } return Jv(r);
}
static long num(const std::string &s) { char *e; double d = strtod(s.c_str(), &e); return (*e || s.empty()) ? -99999999 : (long) d == d ? (long) d : -99999998; }
static Jv onum(const std::string &s) {
  std::vector<Jv> r; for (auto &t : terms(s)) { auto p = cut(t); r.push_back(jobj({{"sym", p.second}, {"num", p.first.empty() ? 0 : num(p.first)}})); } return Jv(r);
}
static std::vector<bool> cfree(N + 1, true), ofree(N + 1, true);
static void observe(Rng &r, int what, int a, int b, int maxl) {
  if (what == 0) tr.ev({{"e", "ceq"}, {"r", a}, {"s", b}, {"eq", *C[a] == *C[b]}, {"ne", *C[a] != *C[b]}});
  if (what == 1) tr.ev({{"e", "oeq"}, {"r", a}, {"s", b}, {"eq", *O[a] == *O[b]}, {"ne", *O[a] != *O[b]}});
  std::vector<long> m; for (int i = 0; i <= maxl; ++i) m.push_back(r.range(-9, 9));
  if (what == 2) {
    std::vector<double> md(m.begin(), m.end()); long v = C[a]->Realize(m); if (C[a]->Realize(md) != (double) v) v = -77777;
    tr.ev({{"e", "creal"}, {"r", a}, {"num", Jv(m)}, {"val", v}});
  }
  if (what == 3) {
    std::vector<Vec> mats; std::vector<Jv> jm; for (int i = 0; i <= 60; ++i) { Vec v{{r.range(-9, 9), r.range(-9, 9)}}; mats.push_back(v); jm.push_back(Jv(v.v)); }
    Vec v = O[a]->Realize(m, mats); tr.ev({{"e", "oreal"}, {"r", a}, {"num", Jv(m)}, {"mat", Jv(jm)}, {"val", Jv(v.v)}});
  }
  std::vector<double> md(m.begin(), m.end()); bool dbl = r(2);
  if (what == 4) tr.ev({{"e", "cstr"}, {"r", a}, {"p", cstr(C[a]->ToString())}, {"map", Jv(m)}, {"num", num(dbl ? C[a]->ToString(md) : C[a]->ToString(m))}});
  if (what == 5) {
    std::ostringstream os; os << *O[a];
    tr.ev({{"e", "ostr"}, {"r", a}, {"p", ostr(O[a]->ToString())}, {"stream", ostr(os.str())}, {"map", Jv(m)}, {"n", onum(dbl ? O[a]->ToString(md) : O[a]->ToString(m))}});
  }
}
int main(int argc, char **argv) {
  std::string mode = argv[1];
  if (mode == "replay") {
    int from = atoi(argv[3]), to = atoi(argv[4]); tr.open(argv[5]); tr.flush = false; std::ifstream in(argv[2]); std::string line; Rng r(5);
    for (int k = 0; std::getline(in, line) && k < to; ++k) {
      if (k < from) continue;
      json j = json::parse(line); reset(k); std::fill(cfree.begin(), cfree.end(), true); std::fill(ofree.begin(), ofree.end(), true);
      for (auto &o : j) {
        std::string n = o[0]; std::vector<long> ls; int s = 0, t = 0;
        if (n == "cnew" || n == "olabels") ls = o[2].get<std::vector<long>>(); else { s = o[2]; if (o.size() > 3) t = o[3]; }
        int reg = o[1];
        step(n, reg, s, t, ls, {}, r(2));
        if (n[0] == 'c') { cfree[reg] = false; if (n == "cmove") cfree[s] = true; }
        else { ofree[reg] = false; if (n == "osplit") cfree[s] = false; }
      }
      for (int a = 1; a <= 2; ++a) {
        if (!cfree[a]) { observe(r, 2, a, a, 60); observe(r, 4, a, a, 60); for (int b = 1; b <= 2; ++b) if (!cfree[b]) observe(r, 0, a, b, 60); }
        if (!ofree[a]) { observe(r, 3, a, a, 60); observe(r, 5, a, a, 60); for (int b = 1; b <= 2; ++b) if (!ofree[b]) observe(r, 1, a, b, 60); }
      }
    }
    return 0;
  }
  Rng r(atoll(argv[2])); int nseg = atoi(argv[3]), ml = atoi(argv[4]); tr.open(argv[5]); tr.flush = false;
  for (int g = 0; g < nseg; ++g) {
    reset(g); std::fill(cfree.begin(), cfree.end(), true); std::fill(ofree.begin(), ofree.end(), true);
    int len = r.range(4, 40);
    for (int k = 0; k < len; ++k) {
      int a = r.range(1, N), b = r.range(1, N), c = r.range(1, N), w = r(20);
      auto labs = [&](int n, int m) { std::vector<long> v; for (int i = 0; i < n; ++i) v.push_back(r(m + 1)); return v; };
      auto big = [&](int x) { return C[x]->GetCoefLabelList().size() > 8; };
      if (k % 5 == 4) {                      // near misses: the same sum in another order, perhaps with one label replaced by another one of it
        int m = std::min(ml, 26), n = r.range(1, 7); auto v = labs(n, std::min(m, 4)), u = v;
        for (int i = n - 1; i > 0; --i) std::swap(u[i], u[r(i + 1)]);
        int kind = r(4);
        if (kind == 1) u[r(n)] = u[r(n)];
        if (kind == 2) u[r(n)] = r(m + 1);
        if (kind == 3) u.pop_back();
        int b2 = a % N + 1;
        step("cnew", a, 0, 0, v, {}, r(2)); step("cnew", b2, 0, 0, u, {}, r(2)); cfree[a] = cfree[b2] = false;
        observe(r, 0, a, b2, 60); observe(r, 0, b2, a, 60);
        if (r(2) && !v.empty() && !u.empty()) {   // operators which differ only there
          int nt = r.range(1, 6), odd = r(nt), b3 = b2 % N + 1; std::vector<long> ls; for (int i = 0; i < nt; ++i) ls.push_back(i);
          std::vector<int> cs(nt, a); step("opairs", b3, 0, 0, ls, cs, 0); cs[odd] = b2;
          step("opairs", a, 0, 0, ls, cs, 0); ofree[a] = ofree[b3] = false;
          observe(r, 1, a, b3, 60); step("osplit", b2, a, a, {}, {}, 0); ofree[b2] = false;
          step("osplit", b2, a, b3, {}, {}, 0);
        }
        continue;
      }
      if (w < 3) { step("cnew", a, 0, 0, labs(r(4), std::min(ml, 26)), {}, r(2)); cfree[a] = false; }
      else if (w == 3) { if (!cfree[b] && a != b) { step("ccopy", a, b, 0, {}, {}, r(2)); cfree[a] = false; } else if (!cfree[b]) step("ccopy", a, a, 0, {}, {}, 1); }
      else if (w == 4) { if (!cfree[b] && a != b) { step("cmove", a, b, 0, {}, {}, r(2)); cfree[a] = false; cfree[b] = true; } }
      else if (w == 5) { if (!cfree[b] && !cfree[c] && !big(b) && !big(c)) { step("cadd", a, b, c, {}, {}, 0); cfree[a] = false; } }
      else if (w == 6) { if (!cfree[a] && !cfree[b] && !big(a) && !big(b)) step("caddto", a, b, 0, {}, {}, 0); }
      else if (w == 7) { step("olabels", a, 0, 0, labs(r(5), r(4) ? ml : 55), {}, r(2)); ofree[a] = false; }
      else if (w == 8) { if (!cfree[b] && !C[b]->GetCoefLabelList().empty()) { step("oterm", a, b, r(ml + 1), {}, {}, 0); ofree[a] = false; } }
      else if (w == 9) {
        std::vector<int> cs; int n = r(5); bool ok = true;
        for (int i = 0; i < n; ++i) { int x = r.range(1, N); cs.push_back(x); ok = ok && !cfree[x] && !C[x]->GetCoefLabelList().empty() && !big(x); }
        if (ok) { step("opairs", a, 0, 0, labs(n, ml), cs, 0); ofree[a] = false; }
      }
      else if (w == 10) { if (!ofree[b]) { step("ocopy", a, b, 0, {}, {}, a == b ? 1 : r(2)); ofree[a] = false; } }
      else if (w == 11) { if (!ofree[b] && !ofree[c]) { step("oadd", a, b, c, {}, {}, 0); ofree[a] = false; } }
      else if (w == 12) { if (!ofree[a] && !ofree[b]) step("oaddto", a, b, 0, {}, {}, 0); }
      else if (w == 13) { if (!ofree[b]) { step("osplit", a, c, b, {}, {}, 0); ofree[a] = false; cfree[c] = false; } }
      else {
        int what = w - 14;
        if (what % 2 == 0 || what == 4 ? (what == 0 || what == 2 || what == 4) && (cfree[a] || cfree[b]) : (ofree[a] || ofree[b])) continue;
        if (what == 1 || what == 3 || what == 5) { if (ofree[a] || ofree[b]) continue; } else if (cfree[a] || cfree[b]) continue;
        observe(r, what, a, b, 60);
      }
      for (int i = 1; i <= N; ++i) if (O[i]->GetOpLabelList().size() > 12) { step("olabels", i, 0, 0, {}, {}, 1); ofree[i] = false; }
      for (int i = 1; i <= N; ++i) for (auto &cc : O[i]->GetCoefReprList()) if (cc.GetCoefLabelList().size() > 20) { step("olabels", i, 0, 0, {1}, {}, 1); ofree[i] = false; break; }
    }
  }
}
