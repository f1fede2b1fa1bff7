#pragma once
#include "lifecycle_msgs/msg/state.hpp"
#include <string>
namespace rclcpp_lifecycle { class State { uint8_t id_=0; std::string label_; public: State()=default; State(uint8_t id, const std::string & l): id_(id), label_(l) {} uint8_t id() const {return id_;} std::string label() const {return label_;} }; }
