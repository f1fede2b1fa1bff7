// translation unit for the extraction: the repository's own header, nothing else
#include "joint_limits/joint_limits_urdf.hpp"
