// Stand-in for the parts of TensorToolkit (qlten) that UltraDMRG uses. TensorToolkit itself is not available in this
// sandbox, so the parts of UltraDMRG that need it are compiled against this file. It implements the documented
// meaning of every operation directly on dense, row-major arrays: no attempt at speed, every result a plain loop over
// the definition, so that what the checks observe is decided by UltraDMRG's own code.
#ifndef STUB_QLTEN_H
#define STUB_QLTEN_H
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iomanip>
#include <iostream>
#include <fstream>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include "mpi.h"
#include "qlten/utility/timer.h"

namespace qlten {
using QLTEN_Double = double;
using QLTEN_Complex = std::complex<double>;
using ShapeT = std::vector<size_t>;
using CoorsT = std::vector<size_t>;
const std::string kQLTenFileSuffix = "qlten";
const int kMPIMasterRank = 0;
const double kDoubleEpsilon = 1e-15;

inline double abs(double x) { return std::abs(x); }
inline double abs(const QLTEN_Complex &x) { return std::abs(x); }
inline double norm(double x) { return x * x; }
inline double norm(const QLTEN_Complex &x) { return std::norm(x); }
inline double sqrt(double x) { return std::sqrt(x); }
inline double sqrt(int x) { return std::sqrt((double) x); }
inline double sqrt(size_t x) { return std::sqrt((double) x); }
inline QLTEN_Complex sqrt(const QLTEN_Complex &x) { return std::sqrt(x); }
inline double conj(double x) { return x; }
inline QLTEN_Complex conj(const QLTEN_Complex &x) { return std::conj(x); }
inline double CalcConj(double x) { return x; }
inline QLTEN_Complex CalcConj(const QLTEN_Complex &x) { return std::conj(x); }

namespace stub {
inline std::atomic<long> live{0};          // tensors that hold data
inline std::atomic<long> objects{0};       // tensor objects
inline std::function<void(const std::string &)> fatal = [](const std::string &s) {
  std::fprintf(stderr, "qlten stub: %s\n", s.c_str());
  std::abort();
};
inline std::function<void(double)> scaled;      // told about every multiplication of a tensor by a positive number
inline void need(bool ok, const char *what) { if (!ok) fatal(what); }
inline thread_local uint64_t rng = 88172645463325252ULL;
inline double uniform() {
  rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
  return (rng >> 11) * (1.0 / 9007199254740992.0);
}
inline void put(double &x) { x = uniform(); }
inline void put(QLTEN_Complex &x) { double a = uniform(), b = uniform(); x = {a, b}; }
}

// ---- quantum numbers ------------------------------------------------------------------------------------------
class U1QNVal {
 public:
  explicit U1QNVal(int v = 0) : v_(v) {}
  int GetVal() const { return v_; }
 private:
  int v_;
};
struct QNCard {
  QNCard(const std::string &n, const U1QNVal &v) : name(n), val(v) {}
  std::string name;
  U1QNVal val;
};
using QNCardVec = std::vector<QNCard>;

namespace special_qn {
template <int N>
class UnQN {
 public:
  UnQN() { v_.fill(0); }
  UnQN(const QNCardVec &cards) {
    stub::need(cards.size() == N, "quantum number with the wrong number of components");
    for (int i = 0; i < N; ++i) v_[i] = cards[i].val.GetVal();
  }
  UnQN operator-() const { UnQN r; for (int i = 0; i < N; ++i) r.v_[i] = -v_[i]; return r; }
  UnQN operator+(const UnQN &o) const { UnQN r; for (int i = 0; i < N; ++i) r.v_[i] = v_[i] + o.v_[i]; return r; }
  UnQN operator-(const UnQN &o) const { UnQN r; for (int i = 0; i < N; ++i) r.v_[i] = v_[i] - o.v_[i]; return r; }
  UnQN &operator+=(const UnQN &o) { return *this = *this + o; }
  bool operator==(const UnQN &o) const { return v_ == o.v_; }
  bool operator!=(const UnQN &o) const { return v_ != o.v_; }
  bool operator<(const UnQN &o) const { return v_ < o.v_; }
  size_t Hash() const { size_t h = 17; for (int x : v_) h = h * 1000003 + (size_t) (x + 5000); return h; }
  size_t dim() const { return 1; }
  int Val(int i) const { return v_[i]; }
  void SetVal(int i, int x) { v_[i] = x; }
  static constexpr bool IsFermionic() { return false; }
  static constexpr int kComponents = N;
  std::string Str() const { std::string s; for (int x : v_) s += (s.empty() ? "" : ",") + std::to_string(x); return s; }
 private:
  std::array<int, N> v_;
};
using U1QN = UnQN<1>;
using U1U1QN = UnQN<2>;
class TrivialRepQN {
 public:
  TrivialRepQN() = default;
  TrivialRepQN(const QNCardVec &) {}
  TrivialRepQN operator-() const { return *this; }
  TrivialRepQN operator+(const TrivialRepQN &) const { return *this; }
  TrivialRepQN operator-(const TrivialRepQN &) const { return *this; }
  TrivialRepQN &operator+=(const TrivialRepQN &) { return *this; }
  bool operator==(const TrivialRepQN &) const { return true; }
  bool operator!=(const TrivialRepQN &) const { return false; }
  bool operator<(const TrivialRepQN &) const { return false; }
  size_t Hash() const { return 0; }
  size_t dim() const { return 1; }
  int Val(int) const { return 0; }
  void SetVal(int, int) {}
  static constexpr bool IsFermionic() { return false; }
  static constexpr int kComponents = 0;
  std::string Str() const { return ""; }
};
}
template <typename... V> using QN = special_qn::UnQN<(int) sizeof...(V)>;
template <typename QNT> struct Fermionicable { static constexpr bool IsFermionic() { return QNT::IsFermionic(); } };

// ---- sectors and indexes --------------------------------------------------------------------------------------
enum TenIndexDirType { NDIR, IN, OUT };
template <typename QNT>
class QNSector {
 public:
  QNSector() : dim_(0) {}
  QNSector(const QNT &qn, size_t d) : qn_(qn), dim_(d) {}
  const QNT &GetQn() const { return qn_; }
  size_t GetDegeneracy() const { return dim_; }
  size_t dim() const { return dim_; }
  bool operator==(const QNSector &o) const { return qn_ == o.qn_ && dim_ == o.dim_; }
  bool operator!=(const QNSector &o) const { return !(*this == o); }
  size_t Hash() const { return qn_.Hash() * 31 + dim_; }
 private:
  QNT qn_;
  size_t dim_;
};
template <typename QNT> using QNSectorVec = std::vector<QNSector<QNT>>;

template <typename QNT>
class Index {
 public:
  Index() : dir_(NDIR) {}
  Index(const QNSectorVec<QNT> &s, TenIndexDirType d) : s_(s), dir_(d) {}
  size_t dim() const { size_t d = 0; for (auto &x : s_) d += x.dim(); return d; }
  TenIndexDirType GetDir() const { return dir_; }
  const QNSectorVec<QNT> &GetQNScts() const { return s_; }
  size_t GetQNSctNum() const { return s_.size(); }
  const QNSector<QNT> &GetQNSct(size_t i) const { return s_.at(i); }
  QNSector<QNT> GetQNSctFromActualCoor(size_t c) const { return s_[SctOf(c)]; }
  size_t SctOf(size_t c) const {
    for (size_t i = 0; i < s_.size(); ++i) { if (c < s_[i].dim()) return i; c -= s_[i].dim(); }
    stub::need(false, "coordinate outside an index");
    return 0;
  }
  size_t Offset(size_t sct) const { size_t o = 0; for (size_t i = 0; i < sct; ++i) o += s_[i].dim(); return o; }
  Index Inverse() const { return Index(s_, dir_ == IN ? OUT : dir_ == OUT ? IN : NDIR); }
  bool operator==(const Index &o) const { return dir_ == o.dir_ && s_ == o.s_; }
  bool operator!=(const Index &o) const { return !(*this == o); }
  size_t Hash() const { size_t h = dir_; for (auto &x : s_) h = h * 1000003 + x.Hash(); return h; }
  QNT Flux(size_t c) const { QNT q = s_[SctOf(c)].GetQn(); return dir_ == IN ? -q : q; }
 private:
  QNSectorVec<QNT> s_;
  TenIndexDirType dir_;
};
template <typename QNT> using IndexVec = std::vector<Index<QNT>>;
template <typename QNT> Index<QNT> InverseIndex(const Index<QNT> &i) { return i.Inverse(); }

template <typename ElemT, typename QNT> class QLTensor;

// ---- hp_numeric -----------------------------------------------------------------------------------------------
namespace hp_numeric {
inline int tensor_manipulation_num_threads = 1;
inline int GetTensorManipulationThreads() { return tensor_manipulation_num_threads; }
inline void SetTensorManipulationThreads(int n) { tensor_manipulation_num_threads = n; }
inline int tensor_transpose_num_threads = 1;
template <typename A, typename B> void VectorScale(A *x, size_t n, B a) { for (size_t i = 0; i < n; ++i) x[i] *= a; }
template <typename A, typename B> void VectorAddTo(const A *x, size_t n, A *y, B a) { for (size_t i = 0; i < n; ++i) y[i] += a * x[i]; }
template <typename A> double Vector2Norm(const A *x, size_t n) { double s = 0; for (size_t i = 0; i < n; ++i) s += qlten::norm(x[i]); return std::sqrt(s); }
inline MPI_Status MPI_Recv(size_t &x, int src, int tag, const MPI_Comm &comm) {
  MPI_Status s; ::MPI_Recv(&x, 1, MPI_UNSIGNED_LONG_LONG, src, tag, comm, &s); return s;
}
inline MPI_Status MPI_Recv(int &x, int src, int tag, const MPI_Comm &comm) { size_t y = 0; MPI_Status s = MPI_Recv(y, src, tag, comm); x = (int) y; return s; }
inline void MPI_Send(size_t x, int dst, int tag, const MPI_Comm &comm) { ::MPI_Send(&x, 1, MPI_UNSIGNED_LONG_LONG, dst, tag, comm); }
inline void MPI_Send(int x, int dst, int tag, const MPI_Comm &comm) { hp_numeric::MPI_Send((size_t) x, dst, tag, comm); }      // counts travel as size_t
}

// ---- the tensor -----------------------------------------------------------------------------------------------
template <typename ElemT, typename QNT>
class BlockSparseDataTensor {                       // only what the callers touch
 public:
  explicit BlockSparseDataTensor(QLTensor<ElemT, QNT> *t) : t_(t) {}
  void Clear() { t_->ClearData(); }
  void MPI_Send(const MPI_Comm &comm, int dst, int tag) const { t_->SendData(comm, dst, tag); }
  MPI_Status MPI_Recv(const MPI_Comm &comm, int src, int tag) { return t_->RecvData(comm, src, tag); }
 private:
  QLTensor<ElemT, QNT> *t_;
};

template <typename ElemT, typename QNT>
class QLTensor {
 public:
  QLTensor() : bsdt_(this) { ++stub::objects; }
  explicit QLTensor(const IndexVec<QNT> &idx) : idx_(idx), bsdt_(this) { ++stub::objects; Alloc(); }
  QLTensor(IndexVec<QNT> &&idx) : idx_(std::move(idx)), bsdt_(this) { ++stub::objects; Alloc(); }
  QLTensor(const std::initializer_list<Index<QNT>> &l) : idx_(l), bsdt_(this) { ++stub::objects; Alloc(); }
  QLTensor(const QLTensor &o) : idx_(o.idx_), data_(o.data_), set_(o.set_), div_(o.div_), bsdt_(this) { ++stub::objects; if (set_) ++stub::live; }
  QLTensor(QLTensor &&o) noexcept : idx_(std::move(o.idx_)), data_(std::move(o.data_)), set_(o.set_), div_(o.div_), bsdt_(this) {
    ++stub::objects; o.idx_.clear(); o.data_.clear(); o.set_ = false;
  }
  ~QLTensor() { --stub::objects; if (set_) --stub::live; }
  QLTensor &operator=(const QLTensor &o) {
    if (this == &o) return *this;
    idx_ = o.idx_; data_ = o.data_; div_ = o.div_; Mark(o.set_); return *this;
  }
  QLTensor &operator=(QLTensor &&o) noexcept {
    if (this == &o) return *this;
    idx_ = std::move(o.idx_); data_ = std::move(o.data_); div_ = o.div_; bool s = o.set_;
    o.Mark(false); o.idx_.clear(); o.data_.clear(); Mark(s); return *this;
  }
  static constexpr bool IsFermionic() { return QNT::IsFermionic(); }
  bool IsDefault() const { return !set_; }
  bool IsScalar() const { return set_ && idx_.empty(); }
  size_t Rank() const { return idx_.size(); }
  size_t size() const { return set_ ? data_.size() : 0; }
  ShapeT GetShape() const { ShapeT s; for (auto &i : idx_) s.push_back(i.dim()); return s; }
  const IndexVec<QNT> &GetIndexes() const { return idx_; }
  const Index<QNT> &GetIndex(size_t i) const { return idx_.at(i); }
  size_t GetQNBlkNum() const { return IsDefault() ? 0 : BlockSet().size(); }
  double GetRawDataMemUsage() const { return data_.size() * sizeof(ElemT) / 1024.0 / 1024.0 / 1024.0; }
  BlockSparseDataTensor<ElemT, QNT> &GetBlkSparDataTen() { return bsdt_; }
  const BlockSparseDataTensor<ElemT, QNT> &GetBlkSparDataTen() const { return bsdt_; }

  // element access
  size_t Pos(const CoorsT &c) const {
    stub::need(set_ && c.size() == idx_.size(), "element access with the wrong number of coordinates");
    size_t p = 0;
    for (size_t i = 0; i < c.size(); ++i) { stub::need(c[i] < idx_[i].dim(), "element access outside the tensor"); p = p * idx_[i].dim() + c[i]; }
    return p;
  }
  ElemT GetElem(const CoorsT &c) const { return data_[Pos(c)]; }
  void SetElem(const CoorsT &c, ElemT x) { data_[Pos(c)] = x; }
  ElemT &operator()(const CoorsT &c) { return data_[Pos(c)]; }
  ElemT operator()(const CoorsT &c) const { return data_[Pos(c)]; }
  template <typename... I> ElemT &operator()(size_t i, I... r) { return data_[Pos(CoorsT{i, (size_t) r...})]; }
  template <typename... I> ElemT operator()(size_t i, I... r) const { return data_[Pos(CoorsT{i, (size_t) r...})]; }
  ElemT &operator()() { if (!set_) Alloc(); return data_[Pos({})]; }
  ElemT operator()() const { return data_[Pos({})]; }
  std::vector<ElemT> &Data() { return data_; }
  const std::vector<ElemT> &Data() const { return data_; }
  template <typename F> void Each(F f) const {          // f(coords, linear position)
    CoorsT c(idx_.size(), 0);
    for (size_t p = 0; p < data_.size(); ++p) {
      f(c, p);
      for (size_t k = c.size(); k-- > 0;) { if (++c[k] < idx_[k].dim()) break; c[k] = 0; }
    }
  }
  QNT Flux(const CoorsT &c) const { QNT q; for (size_t i = 0; i < c.size(); ++i) q += idx_[i].Flux(c[i]); return q; }
  QNT Div() const {
    QNT q = div_; bool found = false;
    Each([&](const CoorsT &c, size_t p) { if (!found && data_[p] != ElemT(0)) { q = Flux(c); found = true; } });
    return q;
  }
  void SetDiv(const QNT &q) { div_ = q; }
  bool Homogeneous() const {                             // all non-zero elements carry the same quantum number
    QNT q; bool found = false, ok = true;
    Each([&](const CoorsT &c, size_t p) { if (data_[p] != ElemT(0)) { if (!found) { q = Flux(c); found = true; } else if (!(Flux(c) == q)) ok = false; } });
    return ok;
  }
  ElemT GetFirstNonZeroElement() const { for (auto &x : data_) if (x != ElemT(0)) return x; return ElemT(0); }

  void Fill(const QNT &div, ElemT x) { Zero(); div_ = div; Each([&](const CoorsT &c, size_t p) { if (Flux(c) == div) data_[p] = x; }); }
  void Random(const QNT &div) { Zero(); div_ = div; Each([&](const CoorsT &c, size_t p) { if (Flux(c) == div) stub::put(data_[p]); }); }

  // whole-tensor operations
  double Get2Norm() const { double s = 0; for (auto &x : data_) s += qlten::norm(x); return std::sqrt(s); }
  double GetQuasi2Norm() const { return Get2Norm(); }
  double Normalize() { double n = Get2Norm(); for (auto &x : data_) x /= n; return n; }
  double QuasiNormalize() { return Normalize(); }
  void MultiplyByScalar(ElemT a) { if (stub::scaled && std::imag(a) == 0 && std::real(a) > 0) stub::scaled(std::real(a)); for (auto &x : data_) x *= a; }
  void ActFermionPOps() {}
  void Dag() { for (auto &i : idx_) i = i.Inverse(); for (auto &x : data_) x = qlten::conj(x); div_ = -div_; }
  void Transpose(const std::vector<size_t> &ax) {
    stub::need(ax.size() == idx_.size(), "transpose with the wrong number of axes");
    if (IsDefault()) return;
    IndexVec<QNT> ni;
    std::vector<bool> seen(ax.size(), false);
    for (size_t a : ax) { stub::need(a < ax.size() && !seen[a], "transpose axes are not a permutation"); seen[a] = true; ni.push_back(idx_[a]); }
    QLTensor r(ni);
    CoorsT nc(ax.size());
    Each([&](const CoorsT &c, size_t p) { for (size_t k = 0; k < ax.size(); ++k) nc[k] = c[ax[k]]; r.data_[r.Pos(nc)] = data_[p]; });
    r.div_ = div_;
    *this = std::move(r);
  }
  void FuseIndex(size_t i, size_t j);
  bool operator==(const QLTensor &o) const { return set_ == o.set_ && idx_ == o.idx_ && data_ == o.data_; }
  bool operator!=(const QLTensor &o) const { return !(*this == o); }
  QLTensor operator-() const { QLTensor r(*this); for (auto &x : r.data_) x = -x; return r; }
  QLTensor operator+(const QLTensor &o) const { QLTensor r(*this); r += o; return r; }
  QLTensor operator-(const QLTensor &o) const { return *this + (-o); }
  QLTensor &operator+=(const QLTensor &o) {
    stub::need(idx_ == o.idx_ && set_ == o.set_, "sum of tensors with different indexes");
    for (size_t p = 0; p < data_.size(); ++p) data_[p] += o.data_[p];
    return *this;
  }
  QLTensor operator*(ElemT a) const { QLTensor r(*this); r.MultiplyByScalar(a); return r; }
  QLTensor &operator*=(ElemT a) { MultiplyByScalar(a); return *this; }
  friend QLTensor operator*(ElemT a, const QLTensor &t) { return t * a; }
  operator QLTensor<QLTEN_Complex, QNT>() const {
    QLTensor<QLTEN_Complex, QNT> r;
    if (!IsDefault()) { r = QLTensor<QLTEN_Complex, QNT>(idx_); for (size_t p = 0; p < data_.size(); ++p) r.Data()[p] = data_[p]; r.SetDiv(div_); }
    return r;
  }
  void Show(size_t = 0) const { std::cout << "tensor of rank " << Rank() << "\n"; }
  void ConciseShow(size_t = 0) const { Show(); }

  // shapes without data, used by the parallel parts
  void ClearData() { std::fill(data_.begin(), data_.end(), ElemT(0)); }
  std::string Pack() const { std::ostringstream o; o << *this; return o.str(); }
  void Unpack(const std::string &s) { std::istringstream i(s); i >> *this; }
  void MPI_Send(int dst, int tag, const MPI_Comm &comm) const { std::string s = Pack(); stub::SendBytes(s, dst, tag, comm); }
  MPI_Status MPI_Recv(int src, int tag, const MPI_Comm &comm) { std::string s; MPI_Status st = stub::RecvBytes(s, src, tag, comm); Unpack(s); return st; }
  void MPI_Bcast(int root, const MPI_Comm &comm) {
    int rank; MPI_Comm_rank(comm, &rank);
    std::string s; if (rank == root) s = Pack();
    stub::BcastBytes(s, root, comm);
    if (rank != root) Unpack(s);
  }
  void SendData(const MPI_Comm &comm, int dst, int tag) const {
    std::string s((const char *) data_.data(), data_.size() * sizeof(ElemT)); stub::SendBytes(s, dst, tag, comm);
  }
  MPI_Status RecvData(const MPI_Comm &comm, int src, int tag) {
    std::string s; MPI_Status st = stub::RecvBytes(s, src, tag, comm);
    stub::need(s.size() == data_.size() * sizeof(ElemT), "received block data does not fit the tensor it is received into");
    std::memcpy((void *) data_.data(), s.data(), s.size()); return st;
  }
  void StreamWrite(std::ostream &os) const {
    os << "QLTEN " << (set_ ? 1 : 0) << ' ' << sizeof(ElemT) << ' ' << idx_.size();
    for (auto &i : idx_) {
      os << ' ' << (int) i.GetDir() << ' ' << i.GetQNSctNum();
      for (auto &s : i.GetQNScts()) { for (int k = 0; k < QNT::kComponents; ++k) os << ' ' << s.GetQn().Val(k); os << ' ' << s.dim(); }
    }
    for (int k = 0; k < QNT::kComponents; ++k) os << ' ' << div_.Val(k);
    os << '\n';
    if (set_) os.write((const char *) data_.data(), data_.size() * sizeof(ElemT));
  }
  void StreamRead(std::istream &is) {
    std::string tag; int set = 0; size_t es = 0, rank = 0;
    is >> tag >> set >> es >> rank;
    stub::need(bool(is) && tag == "QLTEN" && es == sizeof(ElemT), "reading something that is not a tensor of this type");
    IndexVec<QNT> idx;
    for (size_t r = 0; r < rank; ++r) {
      int d; size_t n; is >> d >> n;
      QNSectorVec<QNT> sv;
      for (size_t i = 0; i < n; ++i) { QNT q; size_t dim; for (int k = 0; k < QNT::kComponents; ++k) { int v; is >> v; q.SetVal(k, v); } is >> dim; sv.emplace_back(q, dim); }
      idx.emplace_back(sv, (TenIndexDirType) d);
    }
    QNT dv; for (int k = 0; k < QNT::kComponents; ++k) { int v; is >> v; dv.SetVal(k, v); }
    is.get();
    Mark(false); idx_ = idx; data_.clear();
    if (set) { Alloc(); is.read((char *) data_.data(), data_.size() * sizeof(ElemT)); stub::need((size_t) is.gcount() == data_.size() * sizeof(ElemT), "reading a truncated tensor file"); }
    div_ = dv;
  }
  void Alloc() { size_t n = 1; for (auto &i : idx_) n *= i.dim(); data_.assign(n, ElemT(0)); Mark(true); }
  void Zero() { Alloc(); }
  std::set<std::vector<size_t>> BlockSet() const {       // sectors with a non-zero element
    std::set<std::vector<size_t>> b;
    Each([&](const CoorsT &c, size_t p) { if (data_[p] != ElemT(0)) { std::vector<size_t> s; for (size_t k = 0; k < c.size(); ++k) s.push_back(idx_[k].SctOf(c[k])); b.insert(s); } });
    return b;
  }
 private:
  void Mark(bool s) { if (s && !set_) ++stub::live; if (!s && set_) --stub::live; set_ = s; }
  IndexVec<QNT> idx_;
  std::vector<ElemT> data_;
  bool set_ = false;
  QNT div_;
  BlockSparseDataTensor<ElemT, QNT> bsdt_;
};
template <typename E, typename Q> std::ostream &operator<<(std::ostream &o, const QLTensor<E, Q> &t) { t.StreamWrite(o); return o; }
template <typename E, typename Q> std::istream &operator>>(std::istream &i, QLTensor<E, Q> &t) { t.StreamRead(i); return i; }

template <typename E, typename Q> QLTensor<E, Q> Dag(const QLTensor<E, Q> &t) { QLTensor<E, Q> r(t); r.Dag(); return r; }
template <typename E, typename Q> Q Div(const QLTensor<E, Q> &t) { return t.Div(); }
template <typename Q> QLTensor<QLTEN_Complex, Q> ToComplex(const QLTensor<QLTEN_Double, Q> &t) { return t; }
template <typename E, typename Q> void MPI_Bcast(QLTensor<E, Q> &t, int root, const MPI_Comm &c) { t.MPI_Bcast(root, c); }

// ---- contraction ----------------------------------------------------------------------------------------------
namespace stub {
template <typename A, typename B> struct Common { using T = QLTEN_Complex; };
template <> struct Common<double, double> { using T = double; };
// Rows/columns: free axes in the given order, contracted axes in the given order; `keep` may switch off elements of a.
template <typename A, typename B, typename C, typename Q>
void ContractTo(const QLTensor<A, Q> &a, const QLTensor<B, Q> &b, const std::vector<size_t> &fa, const std::vector<size_t> &ca,
                const std::vector<size_t> &fb, const std::vector<size_t> &cb, QLTensor<C, Q> &out,
                const std::function<bool(const CoorsT &)> &keep = nullptr) {
  need(!a.IsDefault() && !b.IsDefault(), "contraction with a default tensor");
  need(ca.size() == cb.size(), "contraction with different numbers of axes");
  for (size_t k = 0; k < ca.size(); ++k) {
    need(ca[k] < a.Rank() && cb[k] < b.Rank(), "contraction of an axis that does not exist");
    need(a.GetIndexes()[ca[k]] == b.GetIndexes()[cb[k]].Inverse(), "contraction of indexes that are not inverse to each other");
  }
  auto sa = a.GetShape(), sb = b.GetShape();
  size_t m = 1, n = 1, kk = 1;
  IndexVec<Q> idx;
  for (size_t x : fa) { m *= sa[x]; idx.push_back(a.GetIndexes()[x]); }
  for (size_t x : fb) { n *= sb[x]; idx.push_back(b.GetIndexes()[x]); }
  for (size_t x : ca) kk *= sa[x];
  std::vector<A> am(m * kk);
  std::vector<B> bm(kk * n);
  a.Each([&](const CoorsT &c, size_t p) {
    if (keep && !keep(c)) return;
    size_t i = 0, k = 0; for (size_t x : fa) i = i * sa[x] + c[x]; for (size_t x : ca) k = k * sa[x] + c[x];
    am[i * kk + k] = a.Data()[p];
  });
  b.Each([&](const CoorsT &c, size_t p) {
    size_t j = 0, k = 0; for (size_t x : fb) j = j * sb[x] + c[x]; for (size_t t = 0; t < cb.size(); ++t) k = k * sb[cb[t]] + c[cb[t]];
    bm[k * n + j] = b.Data()[p];
  });
  QLTensor<C, Q> r(idx);
  for (size_t i = 0; i < m; ++i)
    for (size_t k = 0; k < kk; ++k) {
      A x = am[i * kk + k];
      if (x == A(0)) continue;
      for (size_t j = 0; j < n; ++j) r.Data()[i * n + j] += x * bm[k * n + j];
    }
  r.SetDiv(a.Div() + b.Div());
  out = std::move(r);
}
inline std::vector<size_t> Others(size_t rank, const std::vector<size_t> &ax) {
  std::vector<size_t> r;
  for (size_t i = 0; i < rank; ++i) if (std::find(ax.begin(), ax.end(), i) == ax.end()) r.push_back(i);
  return r;
}
}
template <typename A, typename B, typename C, typename Q>
void Contract(const QLTensor<A, Q> *a, const QLTensor<B, Q> *b, const std::vector<std::vector<size_t>> &ax, QLTensor<C, Q> *c) {
  stub::need(ax.size() == 2, "contraction axes");
  stub::ContractTo(*a, *b, stub::Others(a->Rank(), ax[0]), ax[0], stub::Others(b->Rank(), ax[1]), ax[1], *c);
}
template <typename A, typename B, typename C, typename Q>
void Contract(const QLTensor<A, Q> *a, const std::vector<size_t> &ax, const QLTensor<B, Q> *b, const std::vector<size_t> &bx, QLTensor<C, Q> *c) {
  Contract(a, b, std::vector<std::vector<size_t>>{ax, bx}, c);
}
template <typename E, typename Q, bool = true, bool = true>
void Contract(const QLTensor<E, Q> &a, const QLTensor<E, Q> &b, size_t as, size_t bs, size_t n, QLTensor<E, Q> &c) {
  std::vector<size_t> ca, cb, fa, fb;
  for (size_t k = 0; k < n; ++k) { ca.push_back((as + k) % a.Rank()); cb.push_back((bs + k) % b.Rank()); }
  for (size_t k = n; k < a.Rank(); ++k) fa.push_back((as + k) % a.Rank());
  for (size_t k = n; k < b.Rank(); ++k) fb.push_back((bs + k) % b.Rank());
  stub::ContractTo(a, b, fa, ca, fb, cb, c);
}
template <typename E, typename Q>
class TensorContraction1SectorExecutor {
 public:
  TensorContraction1SectorExecutor(const QLTensor<E, Q> *a, size_t split, size_t sct, const QLTensor<E, Q> *b,
                                   const std::vector<std::vector<size_t>> &ax, QLTensor<E, Q> *c)
      : a_(a), b_(b), c_(c), split_(split), sct_(sct), ax_(ax) {}
  void SetSelectedQNSect(size_t s) { sct_ = s; }
  void Execute() {
    const auto &ix = a_->GetIndexes().at(split_);
    stub::ContractTo(*a_, *b_, stub::Others(a_->Rank(), ax_[0]), ax_[0], stub::Others(b_->Rank(), ax_[1]), ax_[1], *c_,
                     [&](const CoorsT &x) { return ix.SctOf(x[split_]) == sct_; });
  }
 private:
  const QLTensor<E, Q> *a_, *b_;
  QLTensor<E, Q> *c_;
  size_t split_, sct_;
  std::vector<std::vector<size_t>> ax_;
};

// ---- linear combinations --------------------------------------------------------------------------------------
template <typename S, typename E, typename Q>
void LinearCombineN(size_t n, const S *cf, const QLTensor<E, Q> *const *ts, S beta, QLTensor<E, Q> *res) {
  QLTensor<E, Q> r;
  if (beta != S(0)) { r = *res; for (auto &x : r.Data()) x *= beta; }
  for (size_t i = 0; i < n; ++i) {
    if (r.IsDefault()) { r = QLTensor<E, Q>(ts[i]->GetIndexes()); r.SetDiv(ts[i]->Div()); }
    stub::need(r.GetIndexes() == ts[i]->GetIndexes(), "linear combination of tensors with different indexes");
    for (size_t p = 0; p < r.Data().size(); ++p) r.Data()[p] += cf[i] * ts[i]->Data()[p];
  }
  *res = std::move(r);
}
template <typename E, typename Q>
void LinearCombine(const std::vector<E> &cf, const std::vector<QLTensor<E, Q> *> &ts, E beta, QLTensor<E, Q> *res) {
  stub::need(cf.size() == ts.size(), "linear combination: sizes");
  LinearCombineN<E, E, Q>(ts.size(), cf.data(), ts.data(), beta, res);
}
template <typename Q>
void LinearCombine(const std::vector<double> &cf, const std::vector<QLTensor<QLTEN_Complex, Q> *> &ts, QLTEN_Complex beta, QLTensor<QLTEN_Complex, Q> *res) {
  std::vector<QLTEN_Complex> z(cf.begin(), cf.end());
  LinearCombineN<QLTEN_Complex, QLTEN_Complex, Q>(ts.size(), z.data(), ts.data(), beta, res);
}
template <typename E, typename Q>
void LinearCombine(size_t n, const E *cf, const std::vector<QLTensor<E, Q> *> &ts, E beta, QLTensor<E, Q> *res) {
  stub::need(n <= ts.size(), "linear combination: sizes");
  LinearCombineN<E, E, Q>(n, cf, ts.data(), beta, res);
}
template <typename Q>
void LinearCombine(size_t n, const double *cf, const std::vector<QLTensor<QLTEN_Complex, Q> *> &ts, QLTEN_Complex beta, QLTensor<QLTEN_Complex, Q> *res) {
  stub::need(n <= ts.size(), "linear combination: sizes");
  std::vector<QLTEN_Complex> z(cf, cf + n);
  LinearCombineN<QLTEN_Complex, QLTEN_Complex, Q>(n, z.data(), ts.data(), beta, res);
}
template <typename E, typename Q>
void CollectiveLinearCombine(const std::vector<QLTensor<E, Q>> &ts, QLTensor<E, Q> &res) {
  QLTensor<E, Q> r(ts.at(0));
  for (size_t i = 1; i < ts.size(); ++i) r += ts[i];
  res = std::move(r);
}

// ---- index algebra --------------------------------------------------------------------------------------------
struct QNSctsOffsetInfo { size_t s1, s2, sct, offset, dim; };
template <typename Q>
Index<Q> FuseTwoIndexAndRecordInfo(const Index<Q> &a, const Index<Q> &b, std::vector<QNSctsOffsetInfo> &info) {
  std::vector<Q> qs; std::vector<size_t> ds;              // the result has the direction of the first index
  info.clear();
  for (size_t i = 0; i < a.GetQNSctNum(); ++i)
    for (size_t j = 0; j < b.GetQNSctNum(); ++j) {
      Q q = a.GetDir() == b.GetDir() ? a.GetQNSct(i).GetQn() + b.GetQNSct(j).GetQn() : a.GetQNSct(i).GetQn() - b.GetQNSct(j).GetQn();
      size_t d = a.GetQNSct(i).dim() * b.GetQNSct(j).dim();
      size_t k = std::find(qs.begin(), qs.end(), q) - qs.begin();
      if (k == qs.size()) { qs.push_back(q); ds.push_back(0); }
      info.push_back({i, j, k, ds[k], d});
      ds[k] += d;
    }
  QNSectorVec<Q> sv;
  for (size_t k = 0; k < qs.size(); ++k) sv.emplace_back(qs[k], ds[k]);
  return Index<Q>(sv, a.GetDir());
}
namespace stub {
template <typename Q>                                     // position of (ca, cb) in the fused index
std::vector<size_t> FusedPos(const Index<Q> &a, const Index<Q> &b, Index<Q> &f) {
  std::vector<QNSctsOffsetInfo> info;
  f = FuseTwoIndexAndRecordInfo(a, b, info);
  std::vector<size_t> pos(a.dim() * b.dim());
  for (auto &x : info) {
    size_t oa = a.Offset(x.s1), ob = b.Offset(x.s2), of = f.Offset(x.sct), da = a.GetQNSct(x.s1).dim(), db = b.GetQNSct(x.s2).dim();
    for (size_t i = 0; i < da; ++i) for (size_t j = 0; j < db; ++j) pos[(oa + i) * b.dim() + ob + j] = of + x.offset + i * db + j;
  }
  return pos;
}
}
template <typename E, typename Q>
void QLTensor<E, Q>::FuseIndex(size_t i, size_t j) {
  stub::need(i < Rank() && j < Rank() && i != j, "fusing axes");
  Index<Q> f; auto pos = stub::FusedPos(idx_[i], idx_[j], f);
  IndexVec<Q> ni{f};
  for (size_t k = 0; k < Rank(); ++k) if (k != i && k != j) ni.push_back(idx_[k]);
  QLTensor r(ni);
  Each([&](const CoorsT &c, size_t p) {
    CoorsT nc{pos[c[i] * idx_[j].dim() + c[j]]};
    for (size_t k = 0; k < c.size(); ++k) if (k != i && k != j) nc.push_back(c[k]);
    r.data_[r.Pos(nc)] = data_[p];
  });
  r.div_ = div_;
  *this = std::move(r);
}
template <typename E, typename Q>
QLTensor<E, Q> IndexCombine(const Index<Q> &a, const Index<Q> &b, TenIndexDirType dir) {
  // directions of a and b as given; the new third index has direction `dir`; the tensor has zero divergence
  std::vector<Q> qs; std::vector<size_t> ds; std::vector<std::array<size_t, 4>> ent;
  auto fl = [](const Index<Q> &x, size_t s) { Q q = x.GetQNSct(s).GetQn(); return x.GetDir() == IN ? -q : q; };
  for (size_t i = 0; i < a.GetQNSctNum(); ++i)
    for (size_t j = 0; j < b.GetQNSctNum(); ++j) {
      Q q = -(fl(a, i) + fl(b, j)); if (dir == IN) q = -q;
      size_t k = std::find(qs.begin(), qs.end(), q) - qs.begin();
      if (k == qs.size()) { qs.push_back(q); ds.push_back(0); }
      ent.push_back({i, j, k, ds[k]});
      ds[k] += a.GetQNSct(i).dim() * b.GetQNSct(j).dim();
    }
  QNSectorVec<Q> sv;
  for (size_t k = 0; k < qs.size(); ++k) sv.emplace_back(qs[k], ds[k]);
  Index<Q> c(sv, dir);
  QLTensor<E, Q> r({a, b, c});
  for (auto &e : ent) {
    size_t da = a.GetQNSct(e[0]).dim(), db = b.GetQNSct(e[1]).dim();
    for (size_t x = 0; x < da; ++x) for (size_t y = 0; y < db; ++y)
      r.SetElem({a.Offset(e[0]) + x, b.Offset(e[1]) + y, c.Offset(e[2]) + e[3] + x * db + y}, E(1));
  }
  return r;
}
namespace stub {
template <typename Q>
Index<Q> ExpandedIndex(const Index<Q> &a, const Index<Q> &b, std::vector<size_t> &pa, std::vector<size_t> &pb, std::map<size_t, int> *bmap = nullptr) {
  need(a.GetDir() == b.GetDir(), "expanding indexes of different directions");
  QNSectorVec<Q> sv;
  std::vector<int> match(a.GetQNSctNum(), -1);
  std::vector<bool> used(b.GetQNSctNum(), false);
  std::vector<size_t> ob(b.GetQNSctNum());
  pa.assign(a.dim(), 0); pb.assign(b.dim(), 0);
  size_t o = 0;
  for (size_t i = 0; i < a.GetQNSctNum(); ++i) {
    size_t d = a.GetQNSct(i).dim();
    for (size_t x = 0; x < d; ++x) pa[a.Offset(i) + x] = o + x;
    for (size_t j = 0; j < b.GetQNSctNum(); ++j)
      if (!used[j] && b.GetQNSct(j).GetQn() == a.GetQNSct(i).GetQn()) {
        for (size_t x = 0; x < b.GetQNSct(j).dim(); ++x) pb[b.Offset(j) + x] = o + d + x;
        d += b.GetQNSct(j).dim(); used[j] = true; if (bmap) (*bmap)[j] = (int) sv.size();
        break;
      }
    sv.emplace_back(a.GetQNSct(i).GetQn(), d); o += d;
  }
  for (size_t j = 0; j < b.GetQNSctNum(); ++j)
    if (!used[j]) {
      for (size_t x = 0; x < b.GetQNSct(j).dim(); ++x) pb[b.Offset(j) + x] = o + x;
      if (bmap) (*bmap)[j] = (int) sv.size();
      sv.push_back(b.GetQNSct(j)); o += b.GetQNSct(j).dim();
    }
  return Index<Q>(sv, a.GetDir());
}
}
// "MC": only sectors of b whose quantum number does not occur in a are appended to those of a.
template <typename Q>
Index<Q> ExpandIndexMCAndRecordInfo(const Index<Q> &a, const Index<Q> &b, std::map<size_t, int> &m) {
  stub::need(a.GetDir() == b.GetDir(), "expanding indexes of different directions");
  QNSectorVec<Q> sv = a.GetQNScts();
  m.clear();
  for (size_t j = 0; j < b.GetQNSctNum(); ++j) {
    bool has = false;
    for (auto &x : a.GetQNScts()) has = has || x.GetQn() == b.GetQNSct(j).GetQn();
    if (!has) { m[j] = (int) sv.size(); sv.push_back(b.GetQNSct(j)); } else m[j] = -1;
  }
  return Index<Q>(sv, a.GetDir());
}
template <typename E, typename Q>
void ExpandQNBlocks(const QLTensor<E, Q> *a, const QLTensor<E, Q> *b, const std::vector<size_t> &axes, QLTensor<E, Q> *c) {
  stub::need(a->Rank() == b->Rank() && axes.size() == 1 && axes[0] < a->Rank(), "expanding blocks: axes");
  size_t ax = axes[0];
  for (size_t k = 0; k < a->Rank(); ++k) if (k != ax) stub::need(a->GetIndexes()[k] == b->GetIndexes()[k], "expanding tensors whose other indexes differ");
  std::map<size_t, int> m;
  const Index<Q> &ib = b->GetIndexes()[ax];
  Index<Q> x = ExpandIndexMCAndRecordInfo(a->GetIndexes()[ax], ib, m);
  auto idx = a->GetIndexes(); idx[ax] = x;
  QLTensor<E, Q> r(idx);
  a->Each([&](const CoorsT &y, size_t p) { r(y) = a->Data()[p]; });
  b->Each([&](const CoorsT &y, size_t p) {
    size_t s = ib.SctOf(y[ax]);
    if (m[s] < 0) return;
    CoorsT z = y; z[ax] = x.Offset(m[s]) + y[ax] - ib.Offset(s); r(z) = b->Data()[p];
  });
  r.SetDiv(a->Div());
  *c = std::move(r);
}
template <typename E, typename Q>
void Expand(const QLTensor<E, Q> *a, const QLTensor<E, Q> *b, const std::vector<size_t> &axes, QLTensor<E, Q> *c) {
  stub::need(a->Rank() == b->Rank(), "expanding tensors of different rank");
  IndexVec<Q> idx; std::vector<std::vector<size_t>> pa(a->Rank()), pb(a->Rank());
  for (size_t k = 0; k < a->Rank(); ++k) {
    if (std::find(axes.begin(), axes.end(), k) != axes.end()) {
      idx.push_back(stub::ExpandedIndex(a->GetIndexes()[k], b->GetIndexes()[k], pa[k], pb[k]));
    } else {
      stub::need(a->GetIndexes()[k] == b->GetIndexes()[k], "expanding tensors whose other indexes differ");
      idx.push_back(a->GetIndexes()[k]);
      pa[k].resize(idx[k].dim()); std::iota(pa[k].begin(), pa[k].end(), 0); pb[k] = pa[k];
    }
  }
  QLTensor<E, Q> r(idx);
  CoorsT n(a->Rank());
  a->Each([&](const CoorsT &x, size_t p) { for (size_t k = 0; k < n.size(); ++k) n[k] = pa[k][x[k]]; r(n) += a->Data()[p]; });
  b->Each([&](const CoorsT &x, size_t p) { for (size_t k = 0; k < n.size(); ++k) n[k] = pb[k][x[k]]; r(n) += b->Data()[p]; });
  r.SetDiv(a->Div());
  *c = std::move(r);
}

// ---- matrix decompositions ------------------------------------------------------------------------------------
namespace stub {
template <typename E> using Mat = std::vector<std::vector<E>>;
// the size of the entries, if their squares are out of range
template <typename E> double Tiny(const Mat<E> &A) { double b = 0; for (auto &x : A) for (auto &y : x) b = std::max(b, qlten::abs(y)); return b > 0 && b < 1e-100 ? std::max(b, 1e-300) : 0; }
template <typename E> Mat<E> Times(Mat<E> A, double f) { for (auto &x : A) for (auto &y : x) y = y * f; return A; }
// One-sided Jacobi on columns: A = U diag(s) V^dagger, thin, singular values descending.
template <typename E>
void Svd(const Mat<E> &A, size_t m, size_t n, Mat<E> &U, std::vector<double> &s, Mat<E> &Vt) {
  if (double f = Tiny(A)) { Svd(Times(A, 1 / f), m, n, U, s, Vt); for (auto &x : s) x *= f; return; }
  if (m < n) {                                            // work on the adjoint
    Mat<E> B(n, std::vector<E>(m));
    for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) B[j][i] = qlten::conj(A[i][j]);
    Mat<E> u, vt;
    Svd(B, n, m, u, s, vt);                               // B = u s vt  =>  A = vt^+ s u^+
    U.assign(m, std::vector<E>(m)); Vt.assign(m, std::vector<E>(n));
    for (size_t i = 0; i < m; ++i) for (size_t k = 0; k < m; ++k) U[i][k] = qlten::conj(vt[k][i]);
    for (size_t k = 0; k < m; ++k) for (size_t j = 0; j < n; ++j) Vt[k][j] = qlten::conj(u[j][k]);
    return;
  }
  std::vector<std::vector<E>> c(n, std::vector<E>(m)), v(n, std::vector<E>(n, E(0)));
  for (size_t j = 0; j < n; ++j) { for (size_t i = 0; i < m; ++i) c[j][i] = A[i][j]; v[j][j] = E(1); }
  double total = 0;
  for (auto &x : c) for (auto &y : x) total += qlten::norm(y);
  for (int sweep = 0; sweep < 60; ++sweep) {
    bool rot = false;
    for (size_t p = 0; p + 1 < n; ++p)
      for (size_t q = p + 1; q < n; ++q) {
        double al = 0, be = 0; E ga(0);
        for (size_t i = 0; i < m; ++i) { al += qlten::norm(c[p][i]); be += qlten::norm(c[q][i]); ga += qlten::conj(c[p][i]) * c[q][i]; }
        double g = qlten::abs(ga);
        if (g == 0 || g <= 1e-15 * std::sqrt(al * be) || g <= 1e-300 || (al < 1e-30 * total && be < 1e-30 * total && g < 1e-31 * total)) continue;
        rot = true;
        E ph = ga / g;                                    // column q times conj(ph) has real overlap g with column p
        double ze = (be - al) / (2 * g), t = (ze >= 0 ? 1.0 : -1.0) / (std::abs(ze) + std::sqrt(1 + ze * ze));
        double cs = 1 / std::sqrt(1 + t * t), sn = cs * t;
        auto rotate = [&](std::vector<E> &x, std::vector<E> &y) {
          for (size_t i = 0; i < x.size(); ++i) { E a = x[i], b = y[i] * qlten::conj(ph); x[i] = cs * a - sn * b; y[i] = sn * a + cs * b; }
        };
        rotate(c[p], c[q]); rotate(v[p], v[q]);
      }
    if (!rot) break;
  }
  std::vector<double> sv(n);
  for (size_t j = 0; j < n; ++j) { double x = 0; for (auto &y : c[j]) x += qlten::norm(y); sv[j] = std::sqrt(x); }
  std::vector<size_t> ord(n); std::iota(ord.begin(), ord.end(), 0);
  std::stable_sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return sv[a] > sv[b]; });
  U.assign(m, std::vector<E>(n, E(0))); Vt.assign(n, std::vector<E>(n)); s.assign(n, 0);
  double smax = n ? sv[ord[0]] : 0;
  for (size_t k = 0; k < n; ++k) {
    size_t j = ord[k];
    s[k] = sv[j];
    for (size_t i = 0; i < n; ++i) Vt[k][i] = qlten::conj(v[j][i]);
    std::vector<E> u(m, E(0));
    if (sv[j] > 1e-13 * smax && sv[j] > 0) { for (size_t i = 0; i < m; ++i) u[i] = c[j][i] / sv[j]; }
    else {                                                // complete to an orthonormal system
      for (size_t e = 0; e < m; ++e) {
        std::fill(u.begin(), u.end(), E(0)); u[e] = E(1);
        for (int rep = 0; rep < 2; ++rep)
          for (size_t l = 0; l < k; ++l) { E d(0); for (size_t i = 0; i < m; ++i) d += qlten::conj(U[i][l]) * u[i]; for (size_t i = 0; i < m; ++i) u[i] -= d * U[i][l]; }
        double nn = 0; for (auto &x : u) nn += qlten::norm(x);
        if (nn > 0.3 / m) { for (auto &x : u) x /= std::sqrt(nn); break; }
      }
    }
    for (size_t i = 0; i < m; ++i) U[i][k] = u[i];
  }
}
// Householder-free QR by twice repeated Gram-Schmidt; R has a real non-negative diagonal.
template <typename E>
void Qr(const Mat<E> &A, size_t m, size_t n, Mat<E> &Q, Mat<E> &R) {
  if (double f = Tiny(A)) { Qr(Times(A, 1 / f), m, n, Q, R); R = Times(R, f); return; }
  size_t r = std::min(m, n);
  Q.assign(m, std::vector<E>(r, E(0))); R.assign(r, std::vector<E>(n, E(0)));
  double big = 0; for (auto &x : A) for (auto &y : x) big = std::max(big, qlten::abs(y));
  for (size_t j = 0; j < n; ++j) {
    std::vector<E> v(m);
    for (size_t i = 0; i < m; ++i) v[i] = A[i][j];
    size_t lim = std::min(j, r);
    for (int rep = 0; rep < 2; ++rep)
      for (size_t l = 0; l < lim; ++l) { E d(0); for (size_t i = 0; i < m; ++i) d += qlten::conj(Q[i][l]) * v[i]; R[l][j] += d; for (size_t i = 0; i < m; ++i) v[i] -= d * Q[i][l]; }
    if (j < r) {
      double nn = 0; for (auto &x : v) nn += qlten::norm(x);
      nn = std::sqrt(nn);
      if (nn > 1e-14 * big * std::sqrt((double) m) && nn > 0) { R[j][j] = nn; for (size_t i = 0; i < m; ++i) Q[i][j] = v[i] / nn; }
      else {
        for (size_t e = 0; e < m; ++e) {
          std::fill(v.begin(), v.end(), E(0)); v[e] = E(1);
          for (int rep = 0; rep < 2; ++rep)
            for (size_t l = 0; l < j; ++l) { E d(0); for (size_t i = 0; i < m; ++i) d += qlten::conj(Q[i][l]) * v[i]; for (size_t i = 0; i < m; ++i) v[i] -= d * Q[i][l]; }
          double x2 = 0; for (auto &x : v) x2 += qlten::norm(x);
          if (x2 > 0.3 / m) { for (size_t i = 0; i < m; ++i) Q[i][j] = v[i] / std::sqrt(x2); break; }
        }
      }
    }
  }
}
// Groups the elements of t by the quantum number flowing through the cut after the first `ld` axes.
template <typename E, typename Q>
struct Cut {
  struct Blk { Q q; std::vector<size_t> rows, cols; Mat<E> a; };   // q: number carried by the middle OUT index of the left part
  std::vector<Blk> blks;
  size_t L = 1, R = 1;
  IndexVec<Q> li, ri;
  Cut(const QLTensor<E, Q> &t, size_t ld, const Q &ldiv) {
    need(ld > 0 && ld < t.Rank(), "cutting a tensor at its edge");
    for (size_t k = 0; k < t.Rank(); ++k) (k < ld ? li : ri).push_back(t.GetIndexes()[k]);
    for (auto &i : li) L *= i.dim();
    for (auto &i : ri) R *= i.dim();
    Q div = t.Div();
    auto flux = [](const IndexVec<Q> &ix, size_t p) { Q q; for (size_t k = ix.size(); k-- > 0;) { q += ix[k].Flux(p % ix[k].dim()); p /= ix[k].dim(); } return q; };
    std::vector<Q> lq(L), rq(R);
    for (size_t i = 0; i < L; ++i) lq[i] = flux(li, i);
    for (size_t j = 0; j < R; ++j) rq[j] = flux(ri, j);
    bool any = false; for (auto &x : t.Data()) any = any || x != E(0);
    std::vector<Q> qs;
    for (size_t i = 0; i < L; ++i) { Q q = ldiv - lq[i]; if (std::find(qs.begin(), qs.end(), q) == qs.end()) qs.push_back(q); }
    for (auto &q : qs) {
      Blk b; b.q = q;
      for (size_t i = 0; i < L; ++i) if (ldiv - lq[i] == q) b.rows.push_back(i);
      for (size_t j = 0; j < R; ++j) if (rq[j] == div - lq[b.rows[0]]) b.cols.push_back(j);
      if (b.cols.empty()) continue;
      bool nz = !any;
      b.a.assign(b.rows.size(), std::vector<E>(b.cols.size()));
      for (size_t i = 0; i < b.rows.size(); ++i) for (size_t j = 0; j < b.cols.size(); ++j) { b.a[i][j] = t.Data()[b.rows[i] * R + b.cols[j]]; nz = nz || b.a[i][j] != E(0); }
      if (nz) blks.push_back(b);
    }
    for (size_t i = 0; i < L; ++i) for (size_t j = 0; j < R; ++j)
      need(t.Data()[i * R + j] == E(0) || lq[i] + rq[j] == div, "decomposing a tensor that does not conserve its quantum number");
  }
};
}
template <typename E, typename Q>
void SVD(const QLTensor<E, Q> *pt, size_t ld, const Q &ldiv, double trunc_err, size_t Dmin, size_t Dmax,
         QLTensor<E, Q> *pu, QLTensor<double, Q> *ps, QLTensor<E, Q> *pvt, double *perr, size_t *pD) {
  stub::Cut<E, Q> cut(*pt, ld, ldiv);
  size_t nb = cut.blks.size();
  std::vector<stub::Mat<E>> U(nb), V(nb); std::vector<std::vector<double>> S(nb);
  std::vector<std::array<double, 3>> all; double total = 0;
  for (size_t b = 0; b < nb; ++b) {
    auto &k = cut.blks[b];
    stub::Svd(k.a, k.rows.size(), k.cols.size(), U[b], S[b], V[b]);
    for (size_t i = 0; i < S[b].size(); ++i) { all.push_back({S[b][i], (double) b, (double) i}); total += S[b][i] * S[b][i]; }
  }
  std::stable_sort(all.begin(), all.end(), [](auto &x, auto &y) { return x[0] > y[0]; });
  size_t keep = all.size(); double lost = 0;
  while (keep > Dmin && keep > 1) {
    double x = all[keep - 1][0] * all[keep - 1][0];
    if (keep > Dmax || (total > 0 && (lost + x) / total <= trunc_err)) { lost += x; --keep; } else break;
  }
  std::vector<size_t> cnt(nb, 0);
  for (size_t i = 0; i < keep; ++i) ++cnt[(size_t) all[i][1]];
  QNSectorVec<Q> sv; for (size_t b = 0; b < nb; ++b) if (cnt[b]) sv.emplace_back(cut.blks[b].q, cnt[b]);
  stub::need(!sv.empty(), "singular value decomposition of an empty tensor");
  Index<Q> mo(sv, OUT), mi(sv, IN);
  auto ui = cut.li; ui.push_back(mo);
  IndexVec<Q> vi{mi}; for (auto &i : cut.ri) vi.push_back(i);
  QLTensor<E, Q> u(ui), vt(vi); QLTensor<double, Q> s({mi, mo});
  size_t D = mo.dim(), o = 0;
  for (size_t b = 0; b < nb; ++b) {
    auto &k = cut.blks[b];
    for (size_t x = 0; x < cnt[b]; ++x, ++o) {
      s.SetElem({o, o}, S[b][x]);
      for (size_t i = 0; i < k.rows.size(); ++i) u.Data()[k.rows[i] * D + o] = U[b][i][x];
      for (size_t j = 0; j < k.cols.size(); ++j) vt.Data()[o * cut.R + k.cols[j]] = V[b][x][j];
    }
  }
  u.SetDiv(ldiv); vt.SetDiv(pt->Div() - ldiv);
  *perr = total > 0 ? lost / total : 0; *pD = D;
  *pu = std::move(u); *ps = std::move(s); *pvt = std::move(vt);
}
template <typename E, typename Q>
void QR(const QLTensor<E, Q> *pt, size_t ld, const Q &ldiv, QLTensor<E, Q> *pq, QLTensor<E, Q> *pr) {
  stub::Cut<E, Q> cut(*pt, ld, ldiv);
  size_t nb = cut.blks.size();
  std::vector<stub::Mat<E>> Qm(nb), Rm(nb); QNSectorVec<Q> sv;
  for (size_t b = 0; b < nb; ++b) {
    auto &k = cut.blks[b];
    stub::Qr(k.a, k.rows.size(), k.cols.size(), Qm[b], Rm[b]);
    sv.emplace_back(k.q, Rm[b].size());
  }
  Index<Q> mo(sv, OUT), mi(sv, IN);
  auto qi = cut.li; qi.push_back(mo);
  IndexVec<Q> ri{mi}; for (auto &i : cut.ri) ri.push_back(i);
  QLTensor<E, Q> q(qi), r(ri);
  size_t D = mo.dim(), o = 0;
  for (size_t b = 0; b < nb; ++b) {
    auto &k = cut.blks[b];
    for (size_t x = 0; x < Rm[b].size(); ++x, ++o) {
      for (size_t i = 0; i < k.rows.size(); ++i) q.Data()[k.rows[i] * D + o] = Qm[b][i][x];
      for (size_t j = 0; j < k.cols.size(); ++j) r.Data()[o * cut.R + k.cols[j]] = Rm[b][x][j];
    }
  }
  q.SetDiv(ldiv); r.SetDiv(pt->Div() - ldiv);
  *pq = std::move(q); *pr = std::move(r);
}
template <typename E, typename Q>
void MPISVDMaster(const QLTensor<E, Q> *pt, size_t ld, const Q &ldiv, double trunc_err, size_t Dmin, size_t Dmax,
                  QLTensor<E, Q> *pu, QLTensor<double, Q> *ps, QLTensor<E, Q> *pvt, double *perr, size_t *pD, const MPI_Comm &comm) {
  std::string s = "svd";
  stub::BcastBytes(s, kMPIMasterRank, comm, 's');         // the slaves take part; how the work is shared is the library's affair
  SVD(pt, ld, ldiv, trunc_err, Dmin, Dmax, pu, ps, pvt, perr, pD);
}
template <typename E> void MPISVDSlave(const MPI_Comm &comm) { std::string s; stub::BcastBytes(s, kMPIMasterRank, comm, 's'); stub::need(s == "svd", "unexpected broadcast in MPISVDSlave"); }

#define HANDLE_MPI_ERROR(x) do { int stub_err = (x); if (stub_err != 0) qlten::stub::fatal("MPI error"); } while (0)

// ---- executors ------------------------------------------------------------------------------------------------
enum ExecutorStatus { INITED, EXEING, FINISH };
class Executor {
 public:
  virtual ~Executor() = default;
  virtual void Execute() = 0;
  ExecutorStatus GetStatus() const { return status_; }
 protected:
  void SetStatus(ExecutorStatus s) { status_ = s; }
  ExecutorStatus status_ = INITED;
};
inline std::string IndentPrinter(size_t n) { return std::string(n, ' '); }
}  // namespace qlten
using qlten::hp_numeric::GetTensorManipulationThreads;
#endif
