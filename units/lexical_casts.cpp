#include "hardware_interface/src/lexical_casts.cpp"
namespace verif { inline void uses(const std::string & s) {
  (void)hardware_interface::stoi8(s); (void)hardware_interface::stoi16(s); (void)hardware_interface::stoi32(s);
  (void)hardware_interface::stoui8(s); (void)hardware_interface::stoui16(s); (void)hardware_interface::stoui32(s);
  (void)hardware_interface::parse_array<int>(s); (void)hardware_interface::parse_array<double>(s); (void)hardware_interface::parse_array<float>(s); (void)hardware_interface::parse_array<bool>(s);
} }
