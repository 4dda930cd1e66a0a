// In-process stand-in for MPI: every rank is a thread, exactly one thread runs at a time, and a seeded scheduler picks
// which one continues at each communication call, so that message interleavings are explored reproducibly. Sends are
// buffered or synchronous (rendezvous) according to World::sync. A state in which no rank can continue is a deadlock.
#ifndef STUB_MPI_H
#define STUB_MPI_H
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
typedef int MPI_Comm;
typedef int MPI_Datatype;
struct MPI_Status { int MPI_SOURCE = -1, MPI_TAG = -1, MPI_ERROR = 0; };
enum { MPI_COMM_WORLD = 0, MPI_ANY_SOURCE = -2, MPI_ANY_TAG = -1, MPI_SUCCESS = 0 };
enum { MPI_INT = 4, MPI_DOUBLE = 1008, MPI_UNSIGNED_LONG_LONG = 2008, MPI_CHAR = 1, MPI_UNSIGNED_LONG = 3008 };
inline size_t stub_mpi_size(MPI_Datatype t) { return t % 1000; }
#define MPI_STATUS_IGNORE ((MPI_Status *) nullptr)

namespace stub_mpi {
struct Msg { int src, dst, tag; char type; std::string data; uint64_t id; };          // type: 'n' count, 'd' number, 't' tensor, 'b' other
struct Event { std::string kind; int rank, peer, tag; char type; const std::string *data; uint64_t id; };
struct World {
  int n = 1;
  bool sync = false;
  uint64_t rng = 1;
  std::function<int(int)> choose;                        // pick one of k alternatives
  std::function<void(const Event &)> log;
  std::mutex mu;
  std::condition_variable cv;
  int running = -1;                                      // rank holding the baton
  std::vector<int> state;                                // 0 ready, 1 blocked, 2 finished
  std::vector<std::function<bool()>> ready;
  std::deque<Msg> mail;
  std::vector<std::map<int, std::string>> bcasts;        // per rank: next sequence number kept below
  std::map<long, std::string> bc;                        // (sequence) -> payload
  std::map<long, int> bcroot, bctaken; std::map<long, char> bctype;
  std::vector<long> bseq;
  std::vector<long> barr;
  uint64_t next = 1;
  bool dead = false;
  std::string why;
};
inline World *world = nullptr;
inline thread_local int me = 0;
struct Stop {};                                          // unwinds a rank after a deadlock was found

inline void pick(World &w) {                             // choose the next rank to run; the lock is held
  std::vector<int> can;
  bool all = true;
  for (int r = 0; r < w.n; ++r) {
    if (w.state[r] != 2) all = false;
    if (w.state[r] == 0 || (w.state[r] == 1 && w.ready[r]())) can.push_back(r);
  }
  if (all) { w.running = -2; w.cv.notify_all(); return; }
  if (can.empty()) { w.dead = true; if (w.why.empty()) w.why = "deadlock"; w.running = -3; w.cv.notify_all(); return; }
  w.running = can[can.size() == 1 ? 0 : w.choose((int) can.size())];
  w.cv.notify_all();
}
// Give up the baton until `ok` holds and this rank is picked again.
inline void wait(std::function<bool()> ok) {
  World &w = *world;
  std::unique_lock<std::mutex> lk(w.mu);
  w.state[me] = 1; w.ready[me] = ok;
  pick(w);
  w.cv.wait(lk, [&] { return w.running == me || w.dead; });
  if (w.dead) throw Stop();
  w.state[me] = 0;
}
inline bool matches(const Msg &m, int src, int tag) { return m.dst == me && (src == MPI_ANY_SOURCE || m.src == src) && (tag == MPI_ANY_TAG || m.tag == tag); }
inline void note(const char *k, int peer, int tag, char type, const std::string &d, uint64_t id) {
  if (world->log) world->log(Event{k, me, peer, tag, type, &d, id});
}
inline void fail(const std::string &why) { if (world->why.empty()) world->why = why; world->dead = true; world->cv.notify_all(); throw Stop(); }
inline void send(const std::string &d, int dst, int tag, char type) {
  World &w = *world;
  if (dst < 0 || dst >= w.n || dst == me) fail("a message to a rank that is not there");
  if (tag < 0) fail("a message with a negative tag");
  uint64_t id = w.next++;
  note("send", dst, tag, type, d, id);
  w.mail.push_back(Msg{me, dst, tag, type, d, id});
  if (w.sync) wait([&w, id] { for (auto &m : w.mail) if (m.id == id) return false; return true; });
  else wait([] { return true; });
}
inline MPI_Status recv(std::string &d, int src, int tag, char type) {
  World &w = *world;
  int self = me;
  auto avail = [&w, src, tag, self] { for (auto &m : w.mail) if (m.dst == self && (src == MPI_ANY_SOURCE || m.src == src) && (tag == MPI_ANY_TAG || m.tag == tag)) return true; return false; };
  wait(avail);
  std::vector<size_t> cand; std::vector<int> seen;       // the earliest matching message of each source
  for (size_t i = 0; i < w.mail.size(); ++i)
    if (matches(w.mail[i], src, tag)) {
      bool first = true;
      for (int s : seen) first = first && s != w.mail[i].src;
      if (first) { cand.push_back(i); seen.push_back(w.mail[i].src); }
    }
  size_t k = cand[cand.size() == 1 ? 0 : w.choose((int) cand.size())];
  Msg m = w.mail[k];
  w.mail.erase(w.mail.begin() + k);
  note("recv", m.src, m.tag, m.type, m.data, m.id);
  if (m.type != type) fail("a message of another type was received");
  d = m.data;
  MPI_Status st; st.MPI_SOURCE = m.src; st.MPI_TAG = m.tag;
  return st;
}
inline void bcast(std::string &d, int root, char type) {
  World &w = *world;
  long s = w.bseq[me]++;
  if (w.bcroot.count(s) && w.bcroot[s] != root) fail("collective calls disagree on the root");
  if (w.bctype.count(s) && w.bctype[s] != type) fail("collective calls of different types met");
  w.bctype[s] = type; w.bcroot[s] = root;
  if (me == root) {
    w.bc[s] = d;
    note("bcast", root, 0, type, d, s);
    wait([] { return true; });
  } else {
    wait([&w, s] { return w.bc.count(s) > 0; });
    d = w.bc[s];
    note("bcrecv", root, 0, type, d, s);
  }
  if (++w.bctaken[s] == w.n) { w.bc.erase(s); }
}
inline void barrier() {
  World &w = *world;
  long s = ++w.barr[me];
  note("barrier", 0, 0, 'b', std::string(), s);
  wait([&w, s] { for (long x : w.barr) if (x < s) return false; return true; });
}
// Run f(rank) on n ranks. Returns "" or a description of what went wrong; messages left over are reported by mail.
inline std::string run(World &w, int n, uint64_t seed, std::function<void(int)> f) {
  w.n = n; w.rng = seed * 2654435761ULL + 88172645463325252ULL;
  if (!w.choose) w.choose = [&w](int k) { w.rng ^= w.rng << 13; w.rng ^= w.rng >> 7; w.rng ^= w.rng << 17; return (int) ((w.rng >> 20) % k); };
  w.state.assign(n, 0); w.ready.assign(n, [] { return true; }); w.bseq.assign(n, 0); w.barr.assign(n, 0);
  world = &w;
  std::vector<std::thread> th;
  w.running = -1;
  for (int r = 0; r < n; ++r)
    th.emplace_back([&w, r, &f] {
      me = r;
      { std::unique_lock<std::mutex> lk(w.mu); w.cv.wait(lk, [&] { return w.running == r || w.dead; }); }
      try { if (!w.dead) f(r); } catch (Stop &) {}
      catch (const std::exception &x) { std::unique_lock<std::mutex> lk(w.mu); if (w.why.empty()) w.why = std::string("exception: ") + x.what(); w.dead = true; w.cv.notify_all(); }
      std::unique_lock<std::mutex> lk(w.mu);
      w.state[r] = 2;
      if (!w.dead) pick(w);
    });
  { std::unique_lock<std::mutex> lk(w.mu); pick(w); }
  for (auto &t : th) t.join();
  world = nullptr;
  if (w.dead) return w.why.empty() ? "deadlock" : w.why;
  return "";
}
}  // namespace stub_mpi
inline int MPI_Comm_rank(MPI_Comm, int *r) { *r = stub_mpi::world ? stub_mpi::me : 0; return 0; }
inline int MPI_Comm_size(MPI_Comm, int *n) { *n = stub_mpi::world ? stub_mpi::world->n : 1; return 0; }
inline int MPI_Barrier(MPI_Comm) { if (stub_mpi::world) stub_mpi::barrier(); return 0; }
inline int MPI_Abort(MPI_Comm, int code) { std::fprintf(stderr, "MPI_Abort\n"); std::exit(code ? code : 1); }
inline int MPI_Init(int *, char ***) { return 0; }
inline int MPI_Finalize() { return 0; }
inline char stub_mpi_type(MPI_Datatype t) { return t == MPI_DOUBLE ? 'd' : t == MPI_UNSIGNED_LONG_LONG || t == MPI_UNSIGNED_LONG || t == MPI_INT ? 'n' : 'b'; }
inline int MPI_Send(const void *p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm) { stub_mpi::send(std::string((const char *) p, n * stub_mpi_size(t)), dst, tag, stub_mpi_type(t)); return 0; }
inline int MPI_Recv(void *p, int n, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Status *st) {
  std::string d; MPI_Status s = stub_mpi::recv(d, src, tag, stub_mpi_type(t));
  if (d.size() != n * stub_mpi_size(t)) stub_mpi::fail("a message of another type was received");
  std::memcpy(p, d.data(), d.size());
  if (st) *st = s;
  return 0;
}
inline int MPI_Bcast(void *p, int n, MPI_Datatype t, int root, MPI_Comm) {
  if (!stub_mpi::world) return 0;
  char k = stub_mpi_type(t); if (k == 'n' && stub_mpi_size(t) == 4) k = 'o';                   // orders are of int type
  std::string d; if (stub_mpi::me == root) d.assign((const char *) p, n * stub_mpi_size(t));
  stub_mpi::bcast(d, root, k);
  if (stub_mpi::me != root) {
    if (d.size() != n * stub_mpi_size(t)) stub_mpi::fail("collective calls of different types met");
    std::memcpy(p, d.data(), d.size());
  }
  return 0;
}
namespace qlten { namespace stub {
inline void SendBytes(const std::string &s, int dst, int tag, MPI_Comm) { stub_mpi::send(s, dst, tag, 't'); }
inline MPI_Status RecvBytes(std::string &s, int src, int tag, MPI_Comm) { return stub_mpi::recv(s, src, tag, 't'); }
inline void BcastBytes(std::string &s, int root, MPI_Comm, char type = 't') { if (stub_mpi::world) stub_mpi::bcast(s, root, type); }
} }
#endif
