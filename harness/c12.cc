// C12 driver: c12 replay <programs> <from> <to> <trace> | c12 random <seed> <nseg> <trace>
#include "mps.h"
#include "qlmps/one_dim_tn/mpo/mpo.h"
#include "qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h"
#include "qlmps/third_party/nlohmann/json.hpp"
using namespace mio; using nlohmann::json;
static Trace tr;
static std::string dir;
static const char *FL[] = {"N", "L", "R"};
struct Ex7 {                                                // relative tolerance: values went through decompositions
  double scale; bool exact = true;
  long operator()(double x) { double y = x * scale, r = std::round(y); if (!(std::abs(y - r) < 1e-6 * (1 + std::abs(y) * 1e-3)) || std::abs(r) > 1e9) { exact = false; return 0; } return (long) r; }
};
using Dense = std::map<long, C>;                            // row * D + col
static Dense flat(const Sp &s, long D) { Dense d; for (auto &k : s) if (k.second != C(0)) d[k.first.first * D + k.first.second] = k.second; return d; }
static Jv dlist(const Dense &d, Ex7 &ex) {
  std::string s = "["; bool f = true;
  for (auto &k : d) { long a = ex(k.second.real()), b = ex(k.second.imag()); if (a || b) { s += (f ? "" : ",") + Jv(std::vector<long>{k.first, a, b}).s; f = false; } }
  return Jv::raw(s + "]");
}
static C dot(const Dense &a, const Dense &b) { C s(0); for (auto &k : a) { auto i = b.find(k.first); if (i != b.end()) s += std::conj(k.second) * i->second; } return s; }
static double maxabs(const Dense &a) { double m = 0; for (auto &k : a) m = std::max(m, std::abs(k.second)); return m; }
static Dense times(const Dense &a, const Dense &b, long D) {
  std::vector<C> x(D * D), y(D * D); Dense d; for (auto &k : a) x[k.first] = k.second; for (auto &k : b) y[k.first] = k.second;
  for (long i = 0; i < D; ++i) for (long j = 0; j < D; ++j) { C s(0); for (long k = 0; k < D; ++k) s += x[i * D + k] * y[k * D + j]; if (std::abs(s) > 1e-9) d[i * D + j] = s; }
  return d;
}
static long mil(double v) { return (long) std::min(1e9, std::max(-1e9, std::round(v * 1e6))); }
template <typename T> Jv gram(const T &t, bool left) {      // of the matrix with the right (left) bond as columns (rows), scaled by 1e5
  auto sh = t.GetShape(); size_t k = left ? sh[3] : sh[0], o = left ? sh[0] : sh[3]; std::string s = "["; bool f = true;
  for (size_t x = 0; x < k; ++x) for (size_t y = x; y < k; ++y) {
    C g(0);
    for (size_t p = 0; p < sh[1]; ++p) for (size_t q = 0; q < sh[2]; ++q) for (size_t a = 0; a < o; ++a)
      g += left ? std::conj(cplx(t.GetElem({a, p, q, x}))) * cplx(t.GetElem({a, p, q, y})) : std::conj(cplx(t.GetElem({x, p, q, a}))) * cplx(t.GetElem({y, p, q, a}));
    auto q = [](double v) { return (long) std::min(1e8, std::max(-1e8, std::round(v * 1e5))); };
    std::vector<long> e{(long) x, (long) y, q(g.real()), q(g.imag())};
    if (e[2] || e[3]) { s += (f ? "" : ",") + Jv(e).s; f = false; }
  }
  return Jv::raw(s + "]");
}
template <typename E, typename Q> struct Run {
  using M = FiniteMPO<E, Q>; using Ten = QLTensor<E, Q>; using V = std::vector<size_t>;
  std::vector<Index<Q>> outs; M *m = nullptr; double mult = 1; Rng &r; Maker<E, Q> mk; size_t n; long D = 1; V dims; M *h = nullptr;
  bool stored = false; double dmult = 1; bool over = false;
  Run(const std::vector<Index<Q>> &o, Rng &rr) : outs(o), r(rr), mk{o, rr}, n(o.size()) { for (auto &x : outs) { dims.push_back(x.dim()); D *= x.dim(); } }
  ~Run() { delete m; delete h; }
  // random integer chain; the first of the paths it is made of is diagonal
  M *make(int paths, int deg, int amp) {
    for (;;) {
      std::vector<V> in, out; Q zero = mk.charge(0, 0) - mk.charge(0, 0);
      for (int k = 0; k < paths; ++k) { in.push_back(mk.random_labels(nullptr)); if (k == 0) out.push_back(in[0]); else { Q t = mk.total(in[k]); out.push_back(mk.random_labels(&t)); } }
      std::vector<Q> left(paths, zero); Index<Q> l({QNSector<Q>(zero, 1)}, IN); M *x = new M(n); bool ok = true;
      for (size_t i = 0; i < n; ++i) {
        QNSectorVec<Q> sv;
        for (int k = 0; k < paths; ++k) {
          left[k] = left[k] + mk.charge(i, in[k][i]) - mk.charge(i, out[k][i]); bool dup = false;
          for (int j = 0; j < k; ++j) dup = dup || left[j] == left[k];
          if (!dup) sv.emplace_back(left[k], i + 1 < n ? (size_t) r.range(1, deg) : 1);
        }
        Index<Q> rt(sv, OUT); auto *t = new Ten({l, InverseIndex(outs[i]), outs[i], rt}); t->SetDiv(zero);
        t->Each([&](const CoorsT &c, size_t p) { if (t->Flux(c) == zero && r.p(2, 3)) t->Data()[p] = mio::mk<E>(r.range(-amp, amp), r.p(1, 3) ? r.range(-1, 1) : 0); });
        (*x)(i) = t; l = InverseIndex(rt); ok = ok && t->Get2Norm() > 0;
      }
      if (ok && !dense(*x).empty()) return x;
      delete x;
    }
  }
  Dense dense(const M &x, double f = 1) {                      // zero elements dropped
    Dense d = flat(dense_mpo(x, n), D); Dense o; for (auto &k : d) if (std::abs(k.second * f) > 1e-7) o[k.first] = k.second * f; return o;
  }
  Dense now() { return dense(*m, mult); }
  V bonds(const M &c) { V b; for (size_t i = 0; i + 1 < n; ++i) b.push_back(c[i].GetShape()[3]); return b; }
  size_t maxd() { size_t d = 1; for (size_t b : bonds(*m)) d = std::max(d, b); return d; }
  Jv obs() {
    const M &c = *m; std::string s = "["; bool whole = c.size() == n; auto types = c.GetTensCanoType(); whole = whole && types.size() == n; int cen = c.GetCenter();
    for (size_t i = 0; i < n; ++i) {
      bool here = c(i) != nullptr && !c[i].IsDefault(); int f = (int) c.GetTenCanoType(i); whole = whole && here && types[i] == c.GetTenCanoType(i);
      whole = whole && c[i].GetShape().size() == 4 && c[i].GetIndexes()[2] == outs[i] && c[i].GetIndexes()[1] == InverseIndex(outs[i]);
      bool wl = f == 1 || (cen >= 0 && (int) i < cen), wr = f == 2 || (cen >= 0 && (int) i > cen);
      s += (i ? "," : "") + jobj({{"f", FL[f]}, {"ld", here && wl ? c[i].GetShape()[3] : 0}, {"l", here && wl ? gram(c[i], true) : Jv::raw("[]")},
            {"rd", here && wr ? c[i].GetShape()[0] : 0}, {"r", here && wr ? gram(c[i], false) : Jv::raw("[]")}}).s;
    }
    Ex7 ex{1}; Dense d = now(); Jv o = dlist(d, ex);
    return jobj({{"c", cen}, {"s", Jv::raw(s + "]")}, {"whole", whole}, {"op", o}, {"exact", ex.exact}, {"norm", mil(std::sqrt(dot(d, d).real()) / mult)}, {"bonds", Jv(bonds(c))}, {"maxd", maxd()}});
  }
  void open(int paths, int deg, int amp) {
    delete m; m = make(paths, deg, amp); delete h; h = new M(*m); mult = 1; stored = false; over = false;
    tr.ev({{"e", "reset"}, {"dims", Jv(dims)}, {"obs", obs()}});
  }
  M *fresh(bool used) {                                       // empty, or holding something else with claims
    M *k = new M(n); if (used) { M *x = make(2, 1, 1); if (r(2)) x->Centralize(r(n)); *k = *x; delete x; } return k;
  }
  void step(const std::string &o, int a, int b) {
    E f(1); Jv other = Jv::raw("[]"), target = Jv::raw("[]"), room = Jv::raw("[]"); long n2 = 0, rr = 0; std::vector<long> v{0, 0}, dt{0, 0}; bool exact = true, kept = true, full = false, good = true; size_t dmax = 0;
    Dense before = now(); double m0 = mult; std::vector<long> fl{1, 0};
    auto *q = new Quiet();
    auto judge = [&](const Dense &t) {                        // projection of the target
      Ex7 ex{1}; target = dlist(t, ex); Dense res = now(); double tt = dot(t, t).real();
      rr = mil(dot(res, res).real() / tt); C x = dot(res, t) / tt; dt = {mil(x.real()), mil(x.imag())};
      if (!full) over = true;
    };
    if (o == "centralize") m->Centralize(a);
    else if (o == "left") m->LeftCanonicalize(a);
    else if (o == "right") m->RightCanonicalize(a);
    else if (o == "left1") m->LeftCanonicalizeTen(a);
    else if (o == "right1") m->RightCanonicalizeTen(a);
    else if (o == "write") { if (r(2)) (*m)[a] *= E(b); else (*m)(a)->MultiplyByScalar(E(b)); }
    else if (o == "scale" || o == "allscale") {
      f = E(a); fl = {a, 0}; if constexpr (std::is_same_v<E, C>) if (b) { f = C(a, b); fl = {a, b}; }
      if (o == "allscale") MpoAllScale(*m, f); else if (r(2)) m->Scale(f); else *m *= f;
    } else if (o == "normalize") {
      bool c = m->GetCenter() != -1; double x = m->Normalize(); double y = x * mult; mult *= x;
      if (c) { n2 = std::lround(y * y); if (std::abs(y * y - n2) > 1e-5 * (1 + n2 * 1e-3)) n2 = -1; }
    } else if (o == "trace") {
      C t = cplx(m->Trace()); Ex7 ex{mult}; v = {ex(t.real()), ex(t.imag())}; exact = ex.exact;
    } else if (o == "add" || o == "simple" || o == "product" || o == "fit") {
      M *x = a == 1 ? m : a == 0 ? new M(*h) : make(r.range(1, 3), r.range(1, 2), 1); if (a > 1 && r(2)) x->Centralize(r(n));
      double xm = a == 1 ? mult : 1; Ex7 ex{1}; Dense dx = dense(*x, xm), dm = dense(*m); other = dlist(dx, ex);
      if (o == "add") {
        if (mult != 1 && a != 1) x->Scale(E(1 / mult));        // the sum is of what the objects represent now
        V bm = bonds(*m), bx = bonds(*x); for (size_t i = 0; i < bm.size(); ++i) bm[i] += bx[i]; room = Jv(bm); Dense x0 = dense(*x);
        if (r(2)) { M s = (const M &) *m + (const M &) *x; kept = dense(*m) == dm; if (a != 1) kept = kept && dense(*x) == x0; *m = s; } else { *m += *x; if (a != 1) kept = dense(*x) == x0; }
      } else {
        Dense x0 = dense(*x); M *z; bool fitted = o == "fit"; Dense t = times(before, dx, D);
        if (fitted && t.empty()) { delete q; if (x != m) delete x; return; }   // nothing to fit to
        if (o == "simple") z = new M(((const M *) m)->SimpleProduct(*x));
        else if (o == "product") { z = fresh(r(2)); MpoProduct(*(const M *) m, *(const M *) x, *z); }
        else {
          int g = b; size_t dmin = 1; double err = 0; dmax = 10000;   // start: 0 copied from the first factor, 1 random, 2 the product, 3 the product plus something
          z = new M(n);
          if (g == 1) { M *y = make(r.range(1, 3), 2, 1); *z = *y; delete y; }
          if (g >= 2) { MpoProduct(*(const M *) m, *(const M *) x, *z); if (g == 3) { M *y = make(2, 1, 1); *z += *y; delete y; } }
          Dense z0 = g == 0 ? before : dense(*z); double c = std::abs(dot(z0, t)) / std::sqrt(dot(z0, z0).real() * dot(t, t).real());
          if (!(c > 0.02)) { delete z; z = new M(n); MpoProduct(*(const M *) m, *(const M *) x, *z); g = 2; }
          full = g >= 2 || n == 2;
          if (b >= 4) { full = false; dmax = r.range(1, 4); dmin = r.range(1, dmax); err = r(2) ? 0 : 0.01; }
          if (g == 1 && r(2)) z->Centralize(r(n));
          std::string tp = dir + "/tmp"; MpoProduct(*(const M *) m, *(const M *) x, *z, dmin, dmax, err, (size_t) r.range(1, 4), 1e-13, tp, r(2) == 0); empty_dir(tp, true);
        }
        kept = dense(*m) == dm && dense(*x) == x0;
        mult *= xm; if (x == m) x = nullptr; delete m; m = z; if (fitted) judge(t);
      }
      if (x != m) delete x;
    } else if (o == "square" || o == "squarenorm") {
      Dense t = times(before, before, D); if (t.empty()) { delete q; return; }
      std::string ip = dir + "/init", tp = dir + "/tmp"; bool have = a == 0 || std::abs(dot(before, t)) < 0.02 * std::sqrt(dot(before, before).real() * dot(t, t).real());
      if (have) { M z(n); MpoProduct(*(const M *) m, *(const M *) m, z); if (r(2)) z.Centralize(r(n)); z.Dump(ip); }
      dmax = 10000; full = have || n == 2; MpoVOptimizeParams p(ip, 1, dmax, 0.0, r.range(1, 4), 1e-13, tp);
      if (b == 1) { full = false; p.Dmax = dmax = r.range(1, 4); }
      if (o == "square") { m->Square(p); mult *= mult; } else { double x = m->SquareAndNormlize(p); mult *= mult; mult *= x; }
      empty_dir(ip, true); empty_dir(tp, true); judge(t);
    } else if (o == "truncate") {
      Dense t = before; full = a == 0; dmax = a == 0 ? 10000 : r.range(1, 5); m->Truncate(a == 2 ? 0.02 : 0, a == 0 ? 1 : r.range(1, dmax), dmax); judge(t);
    } else if (o == "identity") {
      Dense m1 = dense(*m); M *z = new M(GenerateIdentityMPO(*(const M *) m)); kept = dense(*m) == m1; delete m; m = z; mult = 1;
    } else if (o == "copy" || o == "move") {
      M *k; bool mv = o == "move";
      if (a == 0) k = mv ? new M(std::move(*m)) : new M(*m); else { k = fresh(true); if (mv) *k = std::move(*m); else *k = *(const M *) m; }
      delete m; m = k;
    } else if (o == "convert") { MPO<Ten> t(*m); M *k = new M(t); delete m; m = k; }
    else if (o == "dump") { empty_dir(dir + "/store", true); ((const M *) m)->Dump(dir + "/store"); stored = true; dmult = mult; }
    else if (o == "load") { if (a) { M *k = fresh(r(2)); delete m; m = k; } good = m->Load(dir + "/store"); mult = dmult; }
    else if (o == "noload") { good = m->Load(dir + "/nowhere"); }
    else if (o == "reload") { std::string p = dir + "/one"; ((const M *) m)->DumpTen(a, p); m->LoadTen((size_t) a, p); unlink(p.c_str()); }
    else if (o == "alloc") { Ten t(*((const M *) m)->cdata()[a]); m->alloc(a); bool nc = m->GetTenCanoType(a) == MPOTenCanoType::NONE && (m->GetCenter() == -1 || m->GetCenter() == a); (*m)[a] = t; good = nc; }
    size_t md = m->GetMaxBondDim(); delete q; (void) m0;
    tr.ev({{"e", "op"}, {"o", o == "alloc" ? (good ? "reload" : "alloc with a claim") : o.c_str()}, {"a", a}, {"b", b}, {"f", Jv(fl)}, {"other", other}, {"target", target}, {"room", room}, {"n2", n2}, {"rr", rr}, {"dot", Jv(dt)}, {"v", Jv(v)},
           {"exact", exact}, {"kept", kept}, {"full", full}, {"good", good}, {"dmax", dmax}, {"maxd", md}, {"out", "ok"}, {"obs", obs()}});
  }
  size_t full_rank() { size_t fr = 1, l = 1, all = 1; for (size_t d : dims) all *= d * d; for (size_t i = 0; i + 1 < n; ++i) { l *= dims[i] * dims[i]; fr = std::max(fr, std::min(l, all / l)); } return fr; }
  double frob() { Dense d = now(); return dot(d, d).real(); }
  bool room(double k) { double x = maxabs(now()); return x * x * D * k < 1e8 && maxd() <= 10; }
  void inner() {
    SiteVec<E, Q> sv{IndexVec<Q>(outs)}; FiniteMPS<E, Q> a(sv), b(sv); mk.fill(a, r.range(1, 3), r.range(1, 2), 2); 
    auto tot = Div(a[0]); bool same = r(4) == 0;
    for (int t = 0; t < 200; ++t) { mk.fill(b, r.range(1, 3), r.range(1, 2), 2); if (Div(b[0]) == tot) break; }
    if (r(2)) { Quiet q; for (size_t i = 0; i < n; ++i) { a[i].GetShape(); } }
    C v = cplx(same ? FiniteMPSInnerProd(a, a) : FiniteMPSInnerProd(a, b)); Ex7 ex{1}; Ex e1(1);
    Vec va = state((const FiniteMPS<E, Q> &) a), vb = state((const FiniteMPS<E, Q> &) (same ? a : b));
    std::vector<long> x{ex(v.real()), ex(v.imag())};
    tr.ev({{"e", "inner"}, {"a", vec_list(va, e1)}, {"b", vec_list(vb, e1)}, {"v", Jv(x)}, {"exact", ex.exact && e1.exact}});
  }
  void exponential() {
    M *x = nullptr; Dense d; std::string pre = dir + "/exp", tp = dir + "/tmp";
    for (int tries = 0;; ++tries) {                            // hermitian with small elements
      delete x; x = make(r.range(1, 2), r.range(1, 2), 1); M *y = adjoint(*x); *x += *y; delete y; d = dense(*x);
      if (!d.empty() && maxabs(d) <= 2 + tries / 50) break;
    }
    int num = 1, den = r.range(1, 2), order = D > 8 ? r.range(1, 4) : r.range(1, 5); int tol = r(3) ? 0 : r.range(1, 4000); long dm = r(2) ? 10000 : full_rank();
    Dense term, sum; for (long i = 0; i < D; ++i) term[i * (D + 1)] = sum[i * (D + 1)] = 1;
    for (int k = 1; k < order; ++k) {
      term = times(term, d, D); double n2 = 0; for (auto &t : term) t.second *= -(double) num / (den * k);
      for (auto &t : term) sum[t.first] += t.second;
      for (auto &t : sum) n2 += std::norm(t.second);
      if (n2 < 1e-6) { delete x; return; }                     // cannot be normalised
    }
    for (int run = 0; run < 2; ++run) {
      auto *q = new Quiet(); Dense d0 = dense(*x); bool first = dm < 10000 && run == 0;
      auto [nrm, rho] = ExpFiniteMPO<E, Q>(*(const M *) x, (double) num / den, order, tol / 1000.0, 0.0, 1, first ? 10000 : dm, 6, 1e-14, pre, tp);
      delete q;
      double sc = 1; int mm = 0; std::string ts = "["; bool exact = true; double fc = 1;
      for (int k = 1; k < order; ++k) {
        std::string p = pre + "_H" + std::to_string(k) + "_tau" + std::to_string((double) num / den); M t(n); if (!t.Load(p)) break;
        fc *= k * den; Ex7 ex{1}; ts += (k > 1 ? "," : "") + dlist(dense(t, fc), ex).s; exact = exact && ex.exact; mm = k; if (run == 1) empty_dir(p, true);
      }
      for (int k = 1; k <= mm; ++k) sc *= k * den;
      Ex7 ex{1}, eh{1}; Dense rd = dense(rho); Jv rl = dlist(dense(rho, nrm * sc), ex); size_t md = rho.GetMaxBondDim();
      tr.ev({{"e", "exp"}, {"dims", Jv(dims)}, {"h", dlist(d0, eh)}, {"num", num}, {"den", den}, {"order", order}, {"tol", tol}, {"rho", rl}, {"terms", Jv::raw(ts + "]")}, {"m", mm}, {"unit", mil(std::sqrt(dot(rd, rd).real()))},
             {"maxd", md}, {"dmax", first ? 10000 : dm}, {"kept", dense(*x) == d0}, {"exact", exact && ex.exact && eh.exact}});
    }
    empty_dir(tp, true); delete x;
    for (auto &s : ls(dir)) if (s.rfind("exp", 0) == 0) empty_dir(dir + "/" + s, true);
  }
  M *adjoint(const M &x) {
    M *y = new M(n);
    for (size_t i = 0; i < n; ++i) {
      auto *t = new Ten(Dag(x[i])); t->Transpose({0, 2, 1, 3}); (*y)(i) = t;
    }
    // the bonds of the conjugate run the other way: rebuild with left IN and right OUT
    M *z = new M(n); Q zero = mk.charge(0, 0) - mk.charge(0, 0);
    auto neg = [&](const Index<Q> &ix, TenIndexDirType dirn) { QNSectorVec<Q> sv; for (auto &s : ix.GetQNScts()) sv.emplace_back(zero - s.GetQn(), s.GetDegeneracy()); return Index<Q>(sv, dirn); };
    for (size_t i = 0; i < n; ++i) {
      auto &s = (*(const M *) y)[i]; auto *t = new Ten({neg(s.GetIndexes()[0], IN), InverseIndex(outs[i]), outs[i], neg(s.GetIndexes()[3], OUT)});
      auto sh = s.GetShape();
      for (size_t a = 0; a < sh[0]; ++a) for (size_t b = 0; b < sh[1]; ++b) for (size_t c = 0; c < sh[2]; ++c) for (size_t e = 0; e < sh[3]; ++e) { E v = s.GetElem({a, b, c, e}); if (v != E(0)) (*t)({a, b, c, e}) = v; }
      (*z)(i) = t;
    }
    delete y; return z;
  }
};
template <typename E, typename Q> void random_seg(const std::vector<Index<Q>> &outs, Rng &r) {
  Run<E, Q> x(outs, r); int n = outs.size();
  if (r(5) == 0) { x.inner(); x.inner(); return; }
  if (r(6) == 0 && x.D <= 16) { x.exponential(); return; }
  x.open(r.range(1, 3), r.range(1, 2), r.range(1, 2));
  int len = r.range(2, 9);
  for (int k = 0; k < len && !x.over; ++k) {
    if (x.now().empty()) return;
    switch (r(22)) {
      case 0: x.step("centralize", r(n), 0); break;
      case 1: x.step("left", r(n - 1), 0); break;
      case 2: x.step("right", r.range(1, n - 1), 0); break;
      case 3: x.step("left1", r(n - 1), 0); break;
      case 4: x.step("right1", r.range(1, n - 1), 0); break;
      case 5: if (x.room(9)) x.step("write", r(n), r(2) ? -1 : 3); break;
      case 6: if (x.room(9)) x.step("scale", r.range(1, 2) * (r(2) ? 1 : -1), r.range(-1, 1)); break;
      case 7: if (x.room(64)) x.step("allscale", r(2) ? -1 : 2, 0); break;
      case 8: if (x.frob() < 1e9) x.step("normalize", 0, 0); break;
      case 9: x.step("trace", 0, 0); break;
      case 10: x.step("add", r(3), 0); break;
      case 11: if (x.room(1)) x.step("simple", r(3), 0); break;
      case 12: if (x.room(1)) x.step("product", r(3), 0); break;
      case 13: case 14: if (x.room(1)) x.step("fit", r(3), r(6)); break;
      case 15: if (x.room(1)) x.step(r(2) ? "square" : "squarenorm", r(2), r(4) == 0); break;
      case 16: x.step("truncate", r(3), 0); break;
      case 17: x.step(r(4) ? "convert" : "identity", 0, 0); break;
      case 18: x.step("dump", 0, 0); if (r(2)) break; [[fallthrough]];
      case 19: if (x.stored) x.step("load", r(2), 0); else x.step("noload", 0, 0); break;
      case 20: x.step(r(2) ? "reload" : "alloc", r(n), 0); break;
      default: x.step(r(2) ? "copy" : "move", r(2), 0);
    }
  }
}
// longer chains: the rules that tell inner sites from each other
template <typename E, typename Q> void long_seg(const std::vector<Index<Q>> &outs, Rng &r) {
  Run<E, Q> x(outs, r); int n = outs.size(); x.open(r.range(1, 2), 1, 1);
  for (int k = 0, len = r.range(2, 4); k < len && !x.over && !x.now().empty(); ++k) switch (r(10)) {
    case 0: x.step("centralize", r(n), 0); break;
    case 1: x.step("left", r(n - 1), 0); break;
    case 2: x.step("right", r.range(1, n - 1), 0); break;
    case 3: if (x.room(1)) x.step("simple", r(3), 0); break;
    case 4: x.step("truncate", r(3), 0); break;
    case 5: x.step(r(2) ? "convert" : "trace", 0, 0); break;
    case 6: if (x.room(64)) x.step("allscale", 2, 0); break;
    default: x.step("add", r(3), 0);
  }
}
int main(int argc, char **argv) {
  std::string mode = argv[1]; tr.open(argv[mode == "replay" ? 5 : 4]);
  Scratch s(std::string(argv[mode == "replay" ? 5 : 4]) + ".d"); dir = s.d;
  if (mode == "replay") {
    std::ifstream f(argv[2]); std::string line; long k = 0, from = atol(argv[3]), to = atol(argv[4]);
    while (std::getline(f, line)) {
      if (k++ < from) continue; if (k > to) break;
      json p = json::parse(line); Rng r(k); size_t n = p["n"];
      auto go = [&](auto &x) {
        x.open(2, 1, 1);
        for (auto &t : p["prog"]) { if (x.now().empty() || x.over || !x.room(4)) break; std::string o = t[0]; int a = t[1], b = t[2]; if (o == "fit") b = r.range(2, 3); x.step(o, a, b); }
      };
      if (k % 2) { Run<double, U1QN> x(spin_sites<U1QN>(n), r); go(x); } else { Run<C, U1QN> x(spin_sites<U1QN>(n), r); go(x); }
    }
  } else {
    Rng r(atoll(argv[2])); long nseg = atol(argv[3]);
    for (long i = 0; i < nseg / 60; ++i) if (i % 2) long_seg<double>(spin_sites<U1QN>(5 + (r(4) == 0)), r); else long_seg<C>(spin_sites<U1QN>(5), r);
    for (long i = 0; i < nseg; ++i) switch (i % 5) {
      case 0: random_seg<double>(spin_sites<U1QN>(r.range(2, 4)), r); break;
      case 1: random_seg<C>(spin_sites<U1QN>(r.range(2, 4)), r); break;
      case 2: random_seg<double>(tj_sites<U1U1QN>(r.range(2, 3)), r); break;
      case 3: random_seg<C>(plain_sites<U1QN>(r.range(2, 3), 2), r); break;
      default: random_seg<double>(plain_sites<U1QN>(r.range(2, 3), r.range(2, 3)), r);
    }
  }
}
