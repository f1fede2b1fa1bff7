#pragma once
#include "rclcpp/time.hpp"
#include <string>
#include <vector>
namespace control_msgs::msg { struct HardwareStatusHeader { rclcpp::Time stamp; std::string frame_id; }; struct HardwareDeviceStatus { std::string device_id; };
struct HardwareStatus { HardwareStatusHeader header; std::string hardware_id; std::vector<HardwareDeviceStatus> hardware_device_states; }; }
