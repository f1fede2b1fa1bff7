#pragma once
#define RCLCPP_VERSION_MAJOR 29
#define RCLCPP_VERSION_MINOR 0
#define RCLCPP_VERSION_PATCH 0
#define RCLCPP_VERSION_GTE(a,b,c) ((a)<RCLCPP_VERSION_MAJOR || ((a)==RCLCPP_VERSION_MAJOR && (b)<=RCLCPP_VERSION_MINOR))
