// C05 driver: c05 <seed> <nseg> <tmpdir> <trace>. Every segment is a child process which opens one parameter file and
// performs calls on the parser until the list is done or the process ends; the parent merges the recorded outcomes.
#include "qlmps/case_params_parser.h"
#include "jw.h"
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <cstring>
#include <sstream>
using namespace qlmps;
static std::string hexd(double d) { char b[64]; snprintf(b, 64, "%a", d); return b; }
struct V {                    // a JSON value: text for the file, description for the specification
  std::string text; Jv d;
};
static V vint(const std::string &t) {
  bool neg = t[0] == '-';
  __int128 v = 0; for (char c : t) if (c >= '0' && c <= '9') v = v * 10 + (c - '0');
  if (neg) v = -v;
  bool i32 = v >= -2147483648LL && v <= 2147483647LL, u64 = v >= 0;
  return {t, jobj({{"k", "int"}, {"t", t}, {"i32", i32}, {"u64", u64}, {"d", hexd(strtod(t.c_str(), 0))}})};
}
static V vflt(const std::string &t) { return {t, jobj({{"k", "float"}, {"d", hexd(strtod(t.c_str(), 0))}})}; }
static V vstr(const std::string &t) {
  return {Jv(t).s, jobj({{"k", "str"}, {"t", t}, {"c", t.empty() ? 0 : (int) (unsigned char) t[0]}})};
}
static V vbool(bool b) { return {b ? "true" : "false", jobj({{"k", "bool"}, {"b", b}})}; }
static V vnull() { return {"null", jobj({{"k", "null"}})}; }
static V vobj() { return {"{\"Int\":1}", jobj({{"k", "obj"}})}; }
static V varr(const std::vector<V> &e) {
  std::string t = "["; std::vector<Jv> d;
  for (size_t i = 0; i < e.size(); ++i) { if (i) t += ", "; t += e[i].text; d.push_back(e[i].d); }
  return {t + "]", jobj({{"k", "arr"}, {"el", Jv(d)}})};
}
static const char *ints[] = {"0", "1", "-1", "7", "42", "-13", "2147483647", "-2147483648", "2147483648", "-2147483649",
                             "4294967296", "4294967297", "9223372036854775807", "-9223372036854775808",
                             "9223372036854775808", "18446744073709551615"};
static const char *flts[] = {"0.5", "-2.75", "1.0", "1e3", "3.0e0", "-0.0", "1e-300", "2.33", "1e19", "123456.789", "-1.0"};
static const char *strs[] = {"", "a", "xyz", "1", "true", "hello world", "0.5", "A", " ", "null"};
static V scalar(Rng &r) {
  switch (r(7)) {
    case 0: case 1: return vint(ints[r(16)]);
    case 2: return vflt(flts[r(11)]);
    case 3: return vstr(strs[r(10)]);
    case 4: return vbool(r(2));
    case 5: return vint(std::to_string(r.range(-50, 50)));
    default: return r(2) ? vnull() : vobj();
  }
}
static V value(Rng &r) {
  if (r.p(3, 5)) return scalar(r);
  int n = r(5); std::vector<V> e; int mode = r(6);
  for (int i = 0; i < n; ++i) {
    if (mode == 0) e.push_back(vint(std::to_string(r(100))));
    else if (mode == 1) e.push_back(vint(ints[r(16)]));
    else if (mode == 2) e.push_back(r(2) ? vflt(flts[r(11)]) : vint(std::to_string(r.range(-5, 5))));
    else if (mode == 3) e.push_back(vint(std::to_string(r.range(-5, 5))));
    else if (mode == 4) e.push_back(i == n - 1 ? scalar(r) : vint(std::to_string(r(9))));
    else e.push_back(r.p(1, 6) ? varr({vint("1")}) : scalar(r));
  }
  return varr(e);
}
static const char *tys[] = {"int", "double", "char", "str", "bool", "ivec", "szvec", "dvec"};
static Jv iv(const std::vector<int> &v) { std::vector<Jv> r; for (auto x : v) r.push_back(Jv(std::to_string(x))); return Jv(r); }
static Jv sv(const std::vector<size_t> &v) { std::vector<Jv> r; for (auto x : v) r.push_back(Jv(std::to_string(x))); return Jv(r); }
static Jv dv(const std::vector<double> &v) { std::vector<Jv> r; for (auto x : v) r.push_back(Jv(hexd(x))); return Jv(r); }
// The defaults/initial outputs are values no file contains.
static const int dI = -777; static const double dD = -777.25; static const char dC = '~'; static const std::string dS = "<default>";
static const std::vector<int> dIV = {-7, -77}; static const std::vector<size_t> dSV = {77, 7}; static const std::vector<double> dDV = {-7.5};
static Jv strict(CaseParamsParserBasic &p, int ty, const std::string &k) {
  switch (ty) {
    case 0: return Jv(std::to_string(p.ParseInt(k)));
    case 1: return Jv(hexd(p.ParseDouble(k)));
    case 2: return Jv((int) (unsigned char) p.ParseChar(k));
    case 3: return Jv(p.ParseStr(k));
    case 4: return Jv(p.ParseBool(k));
    case 5: return iv(p.ParseIntVec(k));
    case 6: return sv(p.ParseSizeTVec(k));
    default: return dv(p.ParseDoubleVec(k));
  }
}
static Jv ordef(CaseParamsParserBasic &p, int ty, const std::string &k, bool def) {
  switch (ty) {
    case 0: return Jv(std::to_string(p.ParseIntOr(k, dI)));
    case 1: return Jv(hexd(p.ParseDoubleOr(k, dD)));
    case 2: return Jv((int) (unsigned char) p.ParseCharOr(k, dC));
    case 3: return Jv(p.ParseStrOr(k, dS));
    case 4: return Jv(p.ParseBoolOr(k, def));
    case 5: return iv(p.ParseIntVecOr(k, dIV));
    case 6: return sv(p.ParseSizeTVecOr(k, dSV));
    default: return dv(p.ParseDoubleVecOr(k, dDV));
  }
}
static Jv trial(const CaseParamsParserBasic &p, int ty, const std::string &k, bool def, bool &ok) {
  switch (ty) {
    case 0: { int o = dI; ok = p.TryParseInt(k, o); return Jv(std::to_string(o)); }
    case 1: { double o = dD; ok = p.TryParseDouble(k, o); return Jv(hexd(o)); }
    case 2: { char o = dC; ok = p.TryParseChar(k, o); return Jv((int) (unsigned char) o); }
    case 3: { std::string o = dS; ok = p.TryParseStr(k, o); return Jv(o); }
    case 4: { bool o = def; ok = p.TryParseBool(k, o); return Jv(o); }
    case 5: { auto o = dIV; ok = p.TryParseIntVec(k, o); return iv(o); }
    case 6: { auto o = dSV; ok = p.TryParseSizeTVec(k, o); return sv(o); }
    default: { auto o = dDV; ok = p.TryParseDoubleVec(k, o); return dv(o); }
  }
}
static Jv defof(int ty, bool def) {
  switch (ty) {
    case 0: return Jv(std::to_string(dI)); case 1: return Jv(hexd(dD)); case 2: return Jv((int) dC); case 3: return Jv(dS);
    case 4: return Jv(def); case 5: return iv(dIV); case 6: return sv(dSV); default: return dv(dDV);
  }
}
struct Call { int form, ty; std::string key; bool def; };   // form 0 strict 1 or 2 try 3 has
static const char *forms[] = {"strict", "or", "try", "has"};
static std::string slurp(const std::string &p) { FILE *f = fopen(p.c_str(), "r"); std::string s; if (!f) return s; char b[4096]; size_t n; while ((n = fread(b, 1, 4096, f)) > 0) s.append(b, n); fclose(f); return s; }
int main(int argc, char **argv) {
  uint64_t seed = atoll(argv[1]); int nseg = atoi(argv[2]); std::string tmp = argv[3];
  Trace tr; tr.open(argv[4]); tr.flush = false; Rng r(seed);
  const std::vector<std::string> keys = {"Int", "Double", "Char", "Str", "a key", "CaseParams", "Outside", "nope", ""};
  for (int s = 0; s < nseg; ++s) {
    // file kind: 0 ok, 1 unopenable, 2 no object, 3 object only nested / differently spelled, 4 the object is not an object,
    // 5 malformed text
    int fk = s < 12 ? s % 6 : (r.p(1, 15) ? 1 + r(5) : 0);
    std::vector<std::pair<std::string, V>> doc;
    int nk = r(7); std::vector<std::string> used;
    for (int i = 0; i < nk; ++i) { auto k = keys[r(6)]; bool dup = false; for (auto &u : used) dup |= u == k; if (dup) continue; used.push_back(k); doc.push_back({k, value(r)}); }
    std::string body = "{"; std::vector<std::pair<std::string, Jv>> dd;
    for (size_t i = 0; i < doc.size(); ++i) { if (i) body += ", "; body += Jv(doc[i].first).s + ": " + doc[i].second.text; dd.push_back({doc[i].first, doc[i].second.d}); }
    body += "}";
    std::string text;
    if (fk == 0) text = r(2) ? "{\"Other\": {\"Outside\": 3}, \"CaseParams\": " + body + ", \"Outside\": 5}" : "{\"CaseParams\":" + body + "}";
    if (fk == 2) text = body == "{}" || body.find("CaseParams") != std::string::npos ? "{\"Params\": {\"Int\": 1}}" : body;
    if (fk == 3) text = r(2) ? "{\"Wrap\": {\"CaseParams\": " + body + "}}" : "{\"caseparams\": " + body + "}";
    if (fk == 4) { const char *alt[] = {"{\"CaseParams\": 5}", "{\"CaseParams\": [1,2]}", "{\"CaseParams\": \"Int\"}", "{\"CaseParams\": null}", "[1,2]", "3"}; text = alt[r(6)]; }
    if (fk == 5) { const char *alt[] = {"", "{\"CaseParams\": {\"Int\": 1}", "{CaseParams: 1}", "{\"CaseParams\": {\"Int\": }}", "}{"}; text = alt[r(5)]; }
    std::string file = tmp + "/p" + std::to_string(s % 4) + ".json";
    if (fk == 1) { file = tmp + "/no_such_file.json"; unlink(file.c_str()); }
    else { FILE *f = fopen(file.c_str(), "w"); fwrite(text.data(), 1, text.size(), f); fclose(f); }
    const char *fks[] = {"ok", "unopenable", "noobject", "noobject", "notobject", "malformed"};
    if (fk == 4 && text[0] != '{') fks[4] = "noobject";
    if (fk == 4) dd.clear();
    std::vector<Call> calls; int nc = fk == 0 ? 10 : 3;
    for (int i = 0; i < nc; ++i) {
      Call c; c.form = r.p(1, 12) ? 3 : r(3); c.ty = r(8); c.def = r(2);
      c.key = (!doc.empty() && r.p(4, 5)) ? doc[r(doc.size())].first : keys[r(keys.size())];
      if (fk == 0 && c.form < 2 && i < nc - 2 && r.p(1, 2)) {   // prefer calls that do not end the process early
        c.form = 2;
      }
      calls.push_back(c);
    }
    int pfd[2]; if (pipe(pfd)) return 71;
    std::string errf = tmp + "/err";
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      close(pfd[0]); int e = ::open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(e, 2);
      alarm(60);
      auto put = [&](const std::string &l) { std::string x = l + "\n"; (void) !write(pfd[1], x.data(), x.size()); };
      CaseParamsParserBasic *p = nullptr;
      try { p = new CaseParamsParserBasic(file.c_str()); put("O"); }
      catch (const std::exception &) { put("T"); _exit(0); }
      for (auto &c : calls) {
        if (c.form == 3) { put(std::string("R") + Jv(p->Has(c.key)).s); continue; }
        try {
          if (c.form == 0) put("R" + strict(*p, c.ty, c.key).s);
          else if (c.form == 1) put("R" + ordef(*p, c.ty, c.key, c.def).s);
          else { bool ok = false; Jv o = trial(*p, c.ty, c.key, c.def, ok); put(std::string(ok ? "Y" : "N") + o.s); }
        } catch (const std::exception &) { put("X"); }
      }
      put("E"); _exit(0);
    }
    close(pfd[1]); std::string got; char b[4096]; ssize_t n; while ((n = read(pfd[0], b, 4096)) > 0) got.append(b, n); close(pfd[0]);
    int st; waitpid(pid, &st, 0);
    std::vector<std::string> L; { std::stringstream ss(got); std::string x; while (std::getline(ss, x)) L.push_back(x); }
    std::string err = slurp(errf);
    int code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    tr.ev({{"e", "reset"}, {"id", s}});
    std::string open = L.empty() ? "exit" : L[0] == "O" ? "ok" : "throw";
    // diagnostics only make sense when the process ended in this call
    auto has = [&](const std::string &x) { return err.find(x) != std::string::npos; };
    tr.ev({{"e", "open"}, {"file", fks[fk]}, {"doc", jobjv(dd)}, {"keys", Jv(used.empty() || fk == 4 ? std::vector<std::string>{} : used)},
           {"out", open}, {"code", L.empty() ? code : 0}, {"diag", L.empty() ? has(file) : true}});
    if (open != "ok") continue;
    size_t i = 1;
    for (auto &c : calls) {
      Jv out; bool ended = false;
      if (i < L.size() && L[i] != "E") {
        std::string v = L[i].substr(1); char t = L[i][0];
        out = t == 'X' ? jobj({{"kind", "throw"}}) : jobj({{"kind", t == 'R' ? "ret" : t == 'Y' ? "true" : "false"}, {"v", Jv::raw(v)}});
      } else { ended = true; out = jobj({{"kind", "exit"}, {"code", code}, {"diag", has(c.key) && has(file)}}); }
      tr.ev({{"e", "call"}, {"form", forms[c.form]}, {"ty", tys[c.ty]}, {"key", c.key}, {"def", defof(c.ty, c.def)}, {"out", out}});
      ++i;
      if (ended) break;
    }
  }
}
