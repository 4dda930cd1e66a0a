// Runs a function on several ranks of the in-process message layer and records what they exchange.
#pragma once
#include "mps.h"
namespace dist {
// a thread that does its work at once, or only when it is waited for
inline bool late = false;
inline std::function<void()> tick;       // called with every message
}
namespace std {
struct stub_thread {
  std::function<void()> f; bool armed = false;
  stub_thread() {}
  template <typename F, typename... A> explicit stub_thread(F g, A... a) { auto h = [g, a...]() mutable { g(a...); }; if (dist::late) { f = h; } else h(); armed = true; }
  stub_thread(stub_thread &&o) : f(std::move(o.f)), armed(o.armed) { o.armed = false; }
  stub_thread &operator=(stub_thread &&o) { if (armed) std::terminate(); f = std::move(o.f); armed = o.armed; o.armed = false; return *this; }
  ~stub_thread() { if (armed) std::terminate(); }
  void join() { if (!armed) std::terminate(); armed = false; if (f) { auto g = std::move(f); f = nullptr; g(); } }
  bool joinable() const { return armed; }
};
}
#include "qlmps/algo_mpi/mps_algo_order.h"
#include "qlmps/algo_mpi/env_ten_update_master.h"
#include "qlmps/algo_mpi/env_ten_update_slave.h"
#include "qlmps/algo_mpi/vmps/two_site_update_finite_vmps_mpi.h"
#include "qlmps/algo_mpi/vmps/lanczos_solver_mpi_slave.h"
#define thread stub_thread
#include "qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi.h"
#undef thread
namespace dist {
struct Setup { size_t w = 1; uint64_t seed = 1; bool sync = false; std::vector<double> noises = {}; };      // w workers beside the master
inline Trace mt;
inline const MPI_Comm comm = MPI_COMM_WORLD;
inline const char *order_name(int o) {
  static const char *n[] = {"start", "init", "grow", "ready", "lanczos", "svd", "dynamic", "static", "finish", "right", "left", "growl", "growr", "final"};
  return o >= 0 && o < 14 ? n[o] : "?";
}
// number of sectors of the first and the last leg of a packed tensor
template <typename Ten> std::pair<size_t, size_t> sectors(const std::string &s) {
  Ten t; t.Unpack(s); if (t.IsDefault()) return {0, 0};
  auto &x = t.GetIndexes(); return {x.front().GetQNSctNum(), x.back().GetQNSctNum()};
}
template <typename Ten, typename F> std::string together(const std::string &alg, const Setup &s, F f) {
  stub_mpi::World w; w.sync = s.sync;
  std::vector<long> nz; for (double x : s.noises) nz.push_back(std::lround(x * 1e9));
  mt.ev({{"e", "reset"}, {"alg", alg}, {"w", s.w}, {"sync", s.sync}, {"noises", Jv(nz)}});
  w.log = [](const stub_mpi::Event &e) {
    if (tick) tick();
    if (e.kind == "barrier") { mt.ev({{"e", "barrier"}, {"r", e.rank}}); return; }
    std::string k(1, e.type == 'd' && e.kind[0] == 'b' ? 'n' : e.type); long v = 0, z = 0; std::string o = "";
    if (e.type == 'o') { int x; std::memcpy(&x, e.data->data(), 4); o = order_name(x); }
    else if (e.type == 'n') { size_t x; std::memcpy(&x, e.data->data(), 8); v = (long) std::min<size_t>(x, 1000000); }
    else if (e.type == 'd' && k == "n") { double x; std::memcpy(&x, e.data->data(), 8); v = std::lround(x * 1e9); }
    else if (e.type == 't' && e.kind == "bcast") { auto p = sectors<Ten>(*e.data); v = p.first; z = p.second; }
    if (e.kind == "bcast") mt.ev({{"e", "bcast"}, {"r", e.rank}, {"k", k}, {"o", o}, {"v", v}, {"z", z}});
    else if (e.kind == "bcrecv") mt.ev({{"e", "bcrecv"}, {"r", e.rank}, {"k", k}});
    else mt.ev({{"e", e.kind}, {"r", e.rank}, {"p", e.peer}, {"k", k}, {"v", v}});
  };
  std::string why = stub_mpi::run(w, (int) s.w + 1, s.seed, f);
  mt.ev({{"e", "end"}, {"why", why}, {"left", (long) w.mail.size()}});
  return why;
}
}
