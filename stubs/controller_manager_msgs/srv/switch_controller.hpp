#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include "rclcpp/time.hpp"
#include "lifecycle_msgs/msg/state.hpp"
namespace controller_manager_msgs { namespace srv { struct SwitchController { struct Request { using SharedPtr = std::shared_ptr<Request>; static constexpr int32_t BEST_EFFORT=1, STRICT=2, AUTO=3, FORCE_AUTO=4; std::vector<std::string> activate_controllers, deactivate_controllers; int32_t strictness = 0; bool activate_asap = false; struct { int32_t sec = 0; uint32_t nanosec = 0; operator rclcpp::Duration() const { return rclcpp::Duration(sec, nanosec); } } timeout; }; struct Response { using SharedPtr = std::shared_ptr<Response>; bool ok = false; std::string message; }; }; } }
