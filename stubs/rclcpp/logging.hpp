#pragma once
#include "rclcpp/logger.hpp"
// Stub: logging has no effect on the values the verified code computes.
#define RCLCPP_DEBUG(...) do {} while (0)
#define RCLCPP_DEBUG_ONCE(...) do {} while (0)
#define RCLCPP_DEBUG_EXPRESSION(...) do {} while (0)
#define RCLCPP_DEBUG_THROTTLE(...) do {} while (0)
#define RCLCPP_DEBUG_STREAM(...) do {} while (0)
#define RCLCPP_DEBUG_STREAM_ONCE(...) do {} while (0)
#define RCLCPP_DEBUG_STREAM_THROTTLE(...) do {} while (0)
#define RCLCPP_DEBUG_STREAM_EXPRESSION(...) do {} while (0)
#define RCLCPP_DEBUG_SKIPFIRST(...) do {} while (0)
#define RCLCPP_INFO(...) do {} while (0)
#define RCLCPP_INFO_ONCE(...) do {} while (0)
#define RCLCPP_INFO_EXPRESSION(...) do {} while (0)
#define RCLCPP_INFO_THROTTLE(...) do {} while (0)
#define RCLCPP_INFO_STREAM(...) do {} while (0)
#define RCLCPP_INFO_STREAM_ONCE(...) do {} while (0)
#define RCLCPP_INFO_STREAM_THROTTLE(...) do {} while (0)
#define RCLCPP_INFO_STREAM_EXPRESSION(...) do {} while (0)
#define RCLCPP_INFO_SKIPFIRST(...) do {} while (0)
#define RCLCPP_WARN(...) do {} while (0)
#define RCLCPP_WARN_ONCE(...) do {} while (0)
#define RCLCPP_WARN_EXPRESSION(...) do {} while (0)
#define RCLCPP_WARN_THROTTLE(...) do {} while (0)
#define RCLCPP_WARN_STREAM(...) do {} while (0)
#define RCLCPP_WARN_STREAM_ONCE(...) do {} while (0)
#define RCLCPP_WARN_STREAM_THROTTLE(...) do {} while (0)
#define RCLCPP_WARN_STREAM_EXPRESSION(...) do {} while (0)
#define RCLCPP_WARN_SKIPFIRST(...) do {} while (0)
#define RCLCPP_ERROR(...) do {} while (0)
#define RCLCPP_ERROR_ONCE(...) do {} while (0)
#define RCLCPP_ERROR_EXPRESSION(...) do {} while (0)
#define RCLCPP_ERROR_THROTTLE(...) do {} while (0)
#define RCLCPP_ERROR_STREAM(...) do {} while (0)
#define RCLCPP_ERROR_STREAM_ONCE(...) do {} while (0)
#define RCLCPP_ERROR_STREAM_THROTTLE(...) do {} while (0)
#define RCLCPP_ERROR_STREAM_EXPRESSION(...) do {} while (0)
#define RCLCPP_ERROR_SKIPFIRST(...) do {} while (0)
#define RCLCPP_FATAL(...) do {} while (0)
#define RCLCPP_FATAL_ONCE(...) do {} while (0)
#define RCLCPP_FATAL_EXPRESSION(...) do {} while (0)
#define RCLCPP_FATAL_THROTTLE(...) do {} while (0)
#define RCLCPP_FATAL_STREAM(...) do {} while (0)
#define RCLCPP_FATAL_STREAM_ONCE(...) do {} while (0)
#define RCLCPP_FATAL_STREAM_THROTTLE(...) do {} while (0)
#define RCLCPP_FATAL_STREAM_EXPRESSION(...) do {} while (0)
#define RCLCPP_FATAL_SKIPFIRST(...) do {} while (0)
