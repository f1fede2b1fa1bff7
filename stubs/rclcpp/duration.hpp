#pragma once
#include <chrono>
#include <cstdint>
namespace rclcpp {
class Duration { int64_t ns_=0; public:
  Duration()=default;
  Duration(int32_t s, uint32_t ns): ns_(int64_t(s)*1000000000LL+ns) {}
  explicit Duration(std::chrono::nanoseconds d): ns_(d.count()) {}
  template<class R,class P> Duration(const std::chrono::duration<R,P>& d): ns_(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()) {}
  static Duration from_seconds(double s) { return Duration(std::chrono::nanoseconds(static_cast<int64_t>(s*1e9))); }
  static Duration from_nanoseconds(int64_t n) { return Duration(std::chrono::nanoseconds(n)); }
  double seconds() const { return std::chrono::duration<double>(std::chrono::nanoseconds(ns_)).count(); }
  int64_t nanoseconds() const { return ns_; }
  bool operator==(const Duration&o) const {return ns_==o.ns_;} bool operator!=(const Duration&o) const {return ns_!=o.ns_;}
  bool operator<(const Duration&o) const {return ns_<o.ns_;} bool operator>(const Duration&o) const {return ns_>o.ns_;}
  bool operator<=(const Duration&o) const {return ns_<=o.ns_;} bool operator>=(const Duration&o) const {return ns_>=o.ns_;}
  Duration operator+(const Duration&o) const {return from_nanoseconds(ns_+o.ns_);} Duration operator-(const Duration&o) const {return from_nanoseconds(ns_-o.ns_);}
  Duration operator*(double f) const { return from_nanoseconds(static_cast<int64_t>(ns_*f)); }
  template<class D> D to_chrono() const { return std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns_)); }
};
}
