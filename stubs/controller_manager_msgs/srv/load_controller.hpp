#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include "rclcpp/time.hpp"
#include "lifecycle_msgs/msg/state.hpp"
namespace controller_manager_msgs { namespace srv { struct LoadController { struct Request { using SharedPtr = std::shared_ptr<Request>; std::string name; }; struct Response { using SharedPtr = std::shared_ptr<Response>; bool ok = false; std::string message; }; }; } }
