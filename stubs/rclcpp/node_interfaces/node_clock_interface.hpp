#pragma once
#include "rclcpp/clock.hpp"
namespace rclcpp { namespace node_interfaces {
class NodeClockInterface { Clock::SharedPtr c_=std::make_shared<Clock>(); public: using SharedPtr=std::shared_ptr<NodeClockInterface>; virtual ~NodeClockInterface()=default; virtual Clock::SharedPtr get_clock() { return c_; } };
}}
