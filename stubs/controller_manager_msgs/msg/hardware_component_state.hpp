#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include "rclcpp/time.hpp"
#include "lifecycle_msgs/msg/state.hpp"
#include "controller_manager_msgs/msg/hardware_interface.hpp"
namespace controller_manager_msgs { namespace msg { struct HardwareComponentState { using SharedPtr = std::shared_ptr<HardwareComponentState>; std::string name, type, class_type, plugin_name; bool is_async = false; uint16_t rw_rate = 0; lifecycle_msgs::msg::State state; std::vector<HardwareInterface> command_interfaces, state_interfaces; }; } }
