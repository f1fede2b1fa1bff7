#pragma once
#include "rclcpp/time.hpp"
#include "rclcpp/logger.hpp"
#include "rclcpp/clock.hpp"
#include <functional>
#include <atomic>
#include <thread>
#include <chrono>
#include <optional>
#include <string>
#include <vector>
namespace realtime_tools {
class AsyncSchedulingPolicy { public: enum Value : int8_t { UNKNOWN=-1, SYNCHRONIZED, DETACHED }; AsyncSchedulingPolicy()=default; constexpr AsyncSchedulingPolicy(Value v):v_(v){} explicit AsyncSchedulingPolicy(const std::string & s){ v_ = s=="synchronized"?SYNCHRONIZED: s=="detached"?DETACHED:UNKNOWN; } operator Value() const {return v_;} explicit operator bool()=delete; std::string to_string() const {return v_==DETACHED?"detached":"synchronized";} private: Value v_=UNKNOWN; };
struct AsyncFunctionHandlerParams { int thread_priority=50; std::vector<int> cpu_affinity_cores; AsyncSchedulingPolicy scheduling_policy=AsyncSchedulingPolicy::SYNCHRONIZED; int exec_rate=0; rclcpp::Logger logger; std::shared_ptr<rclcpp::Clock> clock; std::function<bool()> trigger_predicate; bool wait_until_initial_trigger=true; bool print_warnings=true; bool validate() const {return true;} template<class N> void initialize(N&, const std::string&) {} };
template<class R> class AsyncFunctionHandler { std::function<R(const rclcpp::Time&,const rclcpp::Duration&)> f_; AsyncFunctionHandlerParams p_; public:
 void init(std::function<R(const rclcpp::Time&,const rclcpp::Duration&)> f, int=50){f_=f;} void init(std::function<R(const rclcpp::Time&,const rclcpp::Duration&)> f, const AsyncFunctionHandlerParams&p){f_=f;p_=p;} void init(std::function<R(const rclcpp::Time&,const rclcpp::Duration&)> f, std::function<bool()>, int=50){f_=f;}
 std::pair<bool,R> trigger_async_callback(const rclcpp::Time&t,const rclcpp::Duration&d){ if (busy()) return {false,R()}; return {true,f_(t,d)};} static bool & busy() { static bool b = false; return b; } R get_last_return_value() const {return R();} void start_thread(){} void stop_thread(){} bool is_initialized() const {return true;} bool is_running() const {return false;} bool is_stopped() const {return false;} void wait_for_trigger_cycle_to_finish(){} std::chrono::nanoseconds get_last_execution_time() const {return std::chrono::nanoseconds(0);} const AsyncFunctionHandlerParams& get_params() const {return p_;} void pause_execution(){} void reset_variables(){} void pause(){} void resume(){} std::thread & get_thread() { static std::thread t; return t; } void join_async_callback_thread(){} bool is_trigger_cycle_in_progress() const {return false;} rclcpp::Time get_current_callback_time() const {return rclcpp::Time();} };
}
