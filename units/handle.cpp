#include "hardware_interface/include/hardware_interface/handle.hpp"
#include "hardware_interface/include/hardware_interface/loaned_command_interface.hpp"
#include "hardware_interface/include/hardware_interface/loaned_state_interface.hpp"
namespace verif { using namespace hardware_interface;
template<class T> bool typed(Handle & h, T & v, std::shared_lock<std::shared_mutex> & s, std::unique_lock<std::shared_mutex> & u) {
  return h.get_optional<T>().has_value() + h.get_optional<T>(s).has_value() + h.get_value(v, true) + h.set_value(v, true) + h.set_value(v) + h.set_value(u, v);
}
template<class T> bool loaned(LoanedCommandInterface & c, LoanedStateInterface & s, CommandInterface & d, const T & v) {
  return c.set_value(v) + c.get_optional<T>().has_value() + s.get_optional<T>().has_value() + d.set_limited_value(v);
}
#define EACH(M) M(double) M(float) M(bool) M(uint8_t) M(int8_t) M(uint16_t) M(int16_t) M(uint32_t) M(int32_t)
inline void uses(Handle & a, Handle & b, StateInterface & s, CommandInterface & c, LoanedCommandInterface & lc, LoanedStateInterface & ls, const InterfaceDescription & d, std::shared_lock<std::shared_mutex> & sl, std::unique_lock<std::shared_mutex> & ul, const std::string & n, double * p) {
#define X(T) { T v{}; typed<T>(a, v, sl, ul); loaned<T>(lc, ls, c, v); }
  EACH(X)
  Handle h0(n, n, p), h1(n, n, n, n), h2(d), h3(n), h4(n.c_str()), h5(a), h6(std::move(b)); a = b; a = std::move(b);
  StateInterface s1(d), s2(s), s3(std::move(s)); CommandInterface c1(d), c2(std::move(c));
  LoanedCommandInterface l1(std::move(lc)); LoanedStateInterface l2(std::move(ls)); CommandInterface::SharedPtr cp; StateInterface::ConstSharedPtr sp; LoanedCommandInterface l3(cp), l4(cp, nullptr); LoanedStateInterface l5(sp), l6(sp, nullptr);
  c.set_on_set_command_limiter(nullptr); (void)a.is_valid(); (void)(bool)a; a.is_castable_to_double(); a.get_data_type(); a.get_name(); c.is_limited(); lc.get_name(); ls.get_name(); lc.get_data_type(); ls.get_data_type();
}
}
