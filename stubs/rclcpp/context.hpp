#pragma once
#include <memory>
#include <functional>
namespace rclcpp { class PreShutdownCallbackHandle { public: int id=0; };
class Context { public: using SharedPtr=std::shared_ptr<Context>; std::function<void()> pre_; PreShutdownCallbackHandle add_pre_shutdown_callback(std::function<void()> f) { pre_=f; return {}; } bool remove_pre_shutdown_callback(const PreShutdownCallbackHandle &) { pre_=nullptr; return true; } }; }
