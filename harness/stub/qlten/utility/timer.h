#ifndef STUB_QLTEN_TIMER_H
#define STUB_QLTEN_TIMER_H
#include <chrono>
#include <iostream>
#include <string>
namespace qlten {
class Timer {
 public:
  Timer(const std::string &n = "") : name_(n), t0_(now()) {}
  void Suspend() { acc_ += now() - t0_; on_ = false; }
  void Restart() { t0_ = now(); on_ = true; }
  void ClearAndRestart() { acc_ = 0; t0_ = now(); on_ = true; }
  double Elapsed() const { return acc_ + (on_ ? now() - t0_ : 0); }
  double PrintElapsed(std::size_t = 5) const { std::cout << "[timing] " << name_ << '\t' << Elapsed() << std::endl; return Elapsed(); }
 private:
  static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
  std::string name_;
  double t0_ = 0, acc_ = 0;
  bool on_ = true;
};
}
#endif
