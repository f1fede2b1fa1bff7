#pragma once
#include "rclcpp/node.hpp"
#include "rclcpp/version.h"
