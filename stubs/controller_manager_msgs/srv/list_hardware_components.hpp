#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include "rclcpp/time.hpp"
#include "lifecycle_msgs/msg/state.hpp"
#include "controller_manager_msgs/msg/hardware_component_state.hpp"
namespace controller_manager_msgs { namespace srv { struct ListHardwareComponents { struct Request { using SharedPtr = std::shared_ptr<Request>;  }; struct Response { using SharedPtr = std::shared_ptr<Response>; std::vector<msg::HardwareComponentState> component; }; }; } }
