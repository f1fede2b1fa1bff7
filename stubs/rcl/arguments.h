#pragma once
#define RCL_ROS_ARGS_FLAG "--ros-args"
#define RCL_PARAM_FLAG "-p"
#define RCL_PARAM_FILE_FLAG "--params-file"
