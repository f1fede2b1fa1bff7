#include <memory>
#include "hardware_interface/include/hardware_interface/helpers.hpp"
#include "controller_interface/include/controller_interface/tf_prefix.hpp"
namespace verif { using S = std::string; using V = std::vector<S>; using M = std::map<S, int>; using U = std::unordered_map<S, int>;
inline bool uses(V & v, const V & w, const S & s, M & m, U & u) {
  ros2_control::add_item(v, s); ros2_control::add_items(v, w);
  return ros2_control::has_item(v, s) + ros2_control::has_item(m, s) + ros2_control::has_item(u, s) + ros2_control::remove_item(v, s) + ros2_control::has_any_item(v, w) + ros2_control::has_all_items(v, w)
    + ros2_control::has_any_item(m, w) + ros2_control::has_all_items(m, w) + ros2_control::has_any_item(u, w) + ros2_control::has_all_items(u, w) + ros2_control::is_unique(v) + ros2_control::strip(s).empty() + controller_interface::resolve_tf_prefix(s, s).empty();
} }
