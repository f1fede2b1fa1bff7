#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include "rclcpp/time.hpp"
#include "lifecycle_msgs/msg/state.hpp"
namespace controller_manager_msgs { namespace srv { struct ReloadControllerLibraries { struct Request { using SharedPtr = std::shared_ptr<Request>; bool force_kill = false; }; struct Response { using SharedPtr = std::shared_ptr<Response>; bool ok = false; }; }; } }
