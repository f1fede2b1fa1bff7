#pragma once
#include <vector>
namespace trajectory_msgs { namespace msg { struct JointTrajectoryPoint { std::vector<double> positions, velocities, accelerations, effort; }; } }
