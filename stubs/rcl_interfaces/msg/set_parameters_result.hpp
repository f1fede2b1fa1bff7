#pragma once
#include <string>
namespace rcl_interfaces { namespace msg { struct SetParametersResult { bool successful=false; std::string reason; }; struct ParameterDescriptor { std::string description; bool read_only=false; }; } }
