// translation unit for the extraction: the repository's own sources, nothing else
#include "joint_limits/src/joint_limits_helpers.cpp"
#include "joint_limits/src/joint_range_limiter.cpp"
