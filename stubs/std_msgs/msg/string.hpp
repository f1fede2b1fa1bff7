#pragma once
#include <string>
#include <memory>
namespace std_msgs { namespace msg { struct String { std::string data; }; } }
