#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include "rclcpp/time.hpp"
#include "lifecycle_msgs/msg/state.hpp"
#include "controller_manager_msgs/msg/named_lifecycle_state.hpp"
namespace controller_manager_msgs { namespace msg { struct ControllerManagerActivity { using SharedPtr = std::shared_ptr<ControllerManagerActivity>; rclcpp::Time stamp_; struct { rclcpp::Time stamp; } header; std::vector<NamedLifecycleState> controllers, hardware_components; }; } }
