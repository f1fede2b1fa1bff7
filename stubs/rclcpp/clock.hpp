#pragma once
#include "rclcpp/time.hpp"
#include <memory>
#include <mutex>
namespace rclcpp {
class Clock { rcl_clock_type_t t_; public: using SharedPtr=std::shared_ptr<Clock>; using ConstSharedPtr=std::shared_ptr<const Clock>;
  explicit Clock(rcl_clock_type_t t=RCL_SYSTEM_TIME): t_(t) {}
  virtual ~Clock()=default;
  static int64_t & fake() { static int64_t f=0; return f; }
  virtual Time now() const { return Time(fake() ? fake() : std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(), t_); }
  rcl_clock_type_t get_clock_type() const { return t_; } virtual bool started() { return true; } bool sleep_until(Time) { return true; } bool sleep_for(Duration) { return true; } };
}
