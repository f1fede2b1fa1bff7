#pragma once
#include "rclcpp/duration.hpp"
#include <stdexcept>
typedef enum rcl_clock_type_e { RCL_CLOCK_UNINITIALIZED=0, RCL_ROS_TIME, RCL_SYSTEM_TIME, RCL_STEADY_TIME } rcl_clock_type_t;
namespace rclcpp {
class Time { int64_t ns_=0; rcl_clock_type_t ct_=RCL_SYSTEM_TIME; public:
  Time()=default;
  Time(int32_t s, uint32_t ns, rcl_clock_type_t c=RCL_SYSTEM_TIME): ns_(int64_t(s)*1000000000LL+ns), ct_(c) {}
  explicit Time(int64_t ns, rcl_clock_type_t c=RCL_SYSTEM_TIME): ns_(ns), ct_(c) {}
  int64_t nanoseconds() const {return ns_;} double seconds() const {return ns_*1e-9;} rcl_clock_type_t get_clock_type() const {return ct_;}
  bool operator==(const Time&o) const { if (ct_!=o.ct_) throw std::runtime_error("can't compare times with different time sources"); return ns_==o.ns_;} bool operator!=(const Time&o) const {return !(*this==o);}
  bool operator<(const Time&o) const {return ns_<o.ns_;} bool operator>(const Time&o) const {return ns_>o.ns_;} bool operator<=(const Time&o) const {return ns_<=o.ns_;} bool operator>=(const Time&o) const {return ns_>=o.ns_;}
  Duration operator-(const Time&o) const { if (ct_!=o.ct_) throw std::runtime_error("can't subtract times with different time sources [different clock types]"); return Duration::from_nanoseconds(ns_-o.ns_);} 
  Time operator-(const Duration&o) const {return Time(ns_-o.nanoseconds(), ct_);} Time operator+(const Duration&o) const {return Time(ns_+o.nanoseconds(), ct_);}
};
}
