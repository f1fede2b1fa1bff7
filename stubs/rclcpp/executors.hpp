#pragma once
#include "rclcpp/executor.hpp"
