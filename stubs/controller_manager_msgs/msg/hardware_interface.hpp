#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include "rclcpp/time.hpp"
#include "lifecycle_msgs/msg/state.hpp"
namespace controller_manager_msgs { namespace msg { struct HardwareInterface { using SharedPtr = std::shared_ptr<HardwareInterface>; std::string name, data_type; bool is_available = false, is_claimed = false; }; } }
