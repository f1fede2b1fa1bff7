#pragma once
#include "rclcpp/logger.hpp"
#include "rclcpp/logging.hpp"
#include <memory>
namespace rclcpp { namespace node_interfaces {
class NodeLoggingInterface { public: using SharedPtr=std::shared_ptr<NodeLoggingInterface>; virtual ~NodeLoggingInterface()=default; virtual Logger get_logger() const { return Logger("x"); } };
}}
