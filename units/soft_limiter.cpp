#include "joint_limits/src/joint_limits_helpers.cpp"
#include "joint_limits/src/joint_soft_limiter.cpp"
