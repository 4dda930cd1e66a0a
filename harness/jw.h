// Minimal JSON text building for trace files (one event per line).
#pragma once
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <string>
#include <vector>
#include <utility>
#include <initializer_list>
#include <random>
struct Jv {
  std::string s;
  Jv() : s("null") {}
  Jv(int v) : s(std::to_string(v)) {}
  Jv(long v) : s(std::to_string(v)) {}
  Jv(long long v) : s(std::to_string(v)) {}
  Jv(unsigned v) : s(std::to_string(v)) {}
  Jv(size_t v) : s(std::to_string(v)) {}
  Jv(bool b) : s(b ? "true" : "false") {}
  Jv(const char *c) : Jv(std::string(c)) {}
  Jv(const std::string &t) {
    s = "\"";
    for (unsigned char c : t) {
      if (c == '"' || c == '\\') { s += '\\'; s += (char) c; }
      else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); s += b; }
      else s += (char) c;
    }
    s += "\"";
  }
  template<typename T> Jv(const std::vector<T> &v) {
    s = "[";
    for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += Jv(T(v[i])).s; }
    s += "]";
  }
  static Jv raw(const std::string &t) { Jv j; j.s = t; return j; }
};
using Kv = std::pair<const char *, Jv>;
inline Jv jobj(std::initializer_list<Kv> l) {
  std::string s = "{"; bool f = true;
  for (auto &kv : l) { if (!f) s += ","; f = false; s += "\""; s += kv.first; s += "\":"; s += kv.second.s; }
  return Jv::raw(s + "}");
}
inline Jv jobjv(const std::vector<std::pair<std::string, Jv>> &l) {
  std::string s = "{"; bool f = true;
  for (auto &kv : l) { if (!f) s += ","; f = false; s += Jv(kv.first).s + ":" + kv.second.s; }
  return Jv::raw(s + "}");
}
struct Trace {
  FILE *f = nullptr;
  bool flush = true;
  void open(const char *p) { f = fopen(p, "w"); if (!f) { perror(p); exit(70); } }
  void ev(std::initializer_list<Kv> l) { ev(jobj(l)); }
  void ev(const Jv &j) { fputs(j.s.c_str(), f); fputc('\n', f); if (flush) fflush(f); }
  ~Trace() { if (f) fclose(f); }
};
struct Rng {
  std::mt19937_64 g;
  explicit Rng(uint64_t s) : g(s) {}
  int operator()(int n) { return (int) (g() % (uint64_t) n); }      // 0..n-1
  int range(int a, int b) { return a + (*this)(b - a + 1); }
  bool p(int num, int den) { return (*this)(den) < num; }
};
