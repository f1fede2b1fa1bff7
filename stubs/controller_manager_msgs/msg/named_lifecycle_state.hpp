#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include "rclcpp/time.hpp"
#include "lifecycle_msgs/msg/state.hpp"
namespace controller_manager_msgs { namespace msg { struct NamedLifecycleState { using SharedPtr = std::shared_ptr<NamedLifecycleState>; std::string name; lifecycle_msgs::msg::State state; }; } }
