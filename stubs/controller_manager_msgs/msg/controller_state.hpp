#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include "rclcpp/time.hpp"
#include "lifecycle_msgs/msg/state.hpp"
#include "controller_manager_msgs/msg/chain_connection.hpp"
namespace controller_manager_msgs { namespace msg { struct ControllerState { using SharedPtr = std::shared_ptr<ControllerState>; std::string name, state, type; bool is_async = false; uint16_t update_rate = 0; std::vector<std::string> claimed_interfaces, required_command_interfaces, required_state_interfaces; bool is_chainable = false, is_chained = false; std::vector<std::string> exported_state_interfaces, reference_interfaces; std::vector<ChainConnection> chain_connections; }; } }
