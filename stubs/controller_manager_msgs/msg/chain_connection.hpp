#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include "rclcpp/time.hpp"
#include "lifecycle_msgs/msg/state.hpp"
namespace controller_manager_msgs { namespace msg { struct ChainConnection { using SharedPtr = std::shared_ptr<ChainConnection>; std::string name; std::vector<std::string> reference_interfaces; }; } }
