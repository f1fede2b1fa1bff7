#include "hardware_interface/include/hardware_interface/loaned_command_interface.hpp"
#include "hardware_interface/include/hardware_interface/loaned_state_interface.hpp"
#include "controller_interface/include/controller_interface/helpers.hpp"
namespace verif { using S = std::string; using V = std::vector<S>;
inline bool uses(std::vector<hardware_interface::LoanedStateInterface> & a, std::vector<hardware_interface::LoanedCommandInterface> & b, const V & n, const S & t,
  std::vector<std::reference_wrapper<hardware_interface::LoanedStateInterface>> & x, std::vector<std::reference_wrapper<hardware_interface::LoanedCommandInterface>> & y) {
  return controller_interface::get_ordered_interfaces(a, n, t, x) + controller_interface::get_ordered_interfaces(b, n, t, y) + controller_interface::interface_list_contains_interface_type(n, t);
} }
