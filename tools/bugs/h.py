HD, LC, LS = ["hardware_interface/include/hardware_interface/" + x for x in ("handle.hpp", "loaned_command_interface.hpp", "loaned_state_interface.hpp")]
PRE = """
#include <atomic>
#include <cstdio>
#include <memory>
#include <new>
#include <thread>
#include "hardware_interface/loaned_command_interface.hpp"
#include "hardware_interface/loaned_state_interface.hpp"
using namespace hardware_interface;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s\\n", #c); return 1; } } while (0)
InterfaceDescription desc(const char * type, const char * init) { InterfaceInfo i; i.name = "x"; i.data_type = type; i.initial_value = init; return InterfaceDescription("p", i); }
"""
LX = ["hardware_interface/src/lexical_casts.cpp"]
HCS = "hardware_interface/src/hardware_component.cpp"
CB_ = dict(srcs=[HCS, "hardware_interface/src/hardware_component_interface.cpp", "hardware_interface/src/component_parser.cpp"] + LX, libs="-lfmt -lpthread -ltinyxml2 -lurdfdom_model -lurdfdom_world -lurdfdom_sensor", flags="-I/usr/include/urdfdom")
DRV = """
#include <cstdio>
#include <memory>
#include "hardware_interface/hardware_component.hpp"
#include "hardware_interface/hardware_component_interface.hpp"
using namespace hardware_interface; using CR = rclcpp_lifecycle::node_interfaces::LifecycleNodeInterface::CallbackReturn; using ST = rclcpp_lifecycle::State;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s\\n", #c); return 1; } } while (0)
struct Log { CR res = CR::SUCCESS; return_type ret = return_type::OK; int reads = 0, writes = 0, errors = 0; };
struct Driver : HardwareComponentInterface { Log & l; explicit Driver(Log & x) : l(x) {}
  CR on_configure(const ST &) override { return l.res; } CR on_cleanup(const ST &) override { return l.res; } CR on_shutdown(const ST &) override { return l.res; } CR on_activate(const ST &) override { return l.res; } CR on_deactivate(const ST &) override { return l.res; } CR on_error(const ST &) override { ++l.errors; return l.res; }
  return_type read(const rclcpp::Time &, const rclcpp::Duration &) override { ++l.reads; return l.ret; } return_type write(const rclcpp::Time &, const rclcpp::Duration &) override { ++l.writes; return l.ret; } };
std::unique_ptr<HardwareComponent> make(Log & l, const char * type, bool async) { HardwareComponent a(std::make_unique<Driver>(l)); auto c = std::make_unique<HardwareComponent>(std::move(a)); HardwareComponentParams p; p.hardware_info.name = "hw"; p.hardware_info.type = type; p.hardware_info.is_async = async; p.hardware_info.joints.resize(1); p.hardware_info.joints[0].name = "j"; c->initialize(p); return c; }
"""
B = dict(srcs=LX, libs="-lfmt -lpthread")
BUGS = [
 dict(B, id="h1-write-without-lock", property="H01",
  edits=[(HD, "  [[nodiscard]] bool set_value(std::unique_lock<std::shared_mutex> & lock, const T & value)\n  {\n    if (!lock.owns_lock())", "  [[nodiscard]] bool set_value(std::unique_lock<std::shared_mutex> & lock, const T & value)\n  {\n    if (lock.mutex() == nullptr || (!lock.owns_lock() && value_ptr_ != nullptr))")],
  needs="a write to a handle of any type but double while another thread holds the lock", breaks="the value is written although the lock was not obtained",
  demo=PRE + """
int main() { CommandInterface c(desc("uint8", "7")); std::atomic<int> s{0}; std::thread t([&] { c.get_mutex().lock(); s = 1; while (s == 1) std::this_thread::yield(); c.get_mutex().unlock(); }); while (s != 1) std::this_thread::yield();
  bool ok = c.set_value<uint8_t>(9); s = 2; t.join(); CHECK(!ok); CHECK(c.get_optional<uint8_t>().value() == 7); }"""),
 dict(B, id="h1-narrow-initial", property="H01",
  edits=[(HD, "static_cast<uint32_t>(hardware_interface::stoui32(initial_value))", "static_cast<uint32_t>(hardware_interface::stoi32(initial_value))")],
  needs="an unsigned 32-bit interface with an initial value above 2147483647 or below zero", breaks="the initial value is refused, or a negative one wraps around",
  demo=PRE + """
int main() { try { CommandInterface c(desc("uint32", "4000000000")); CHECK(c.get_optional<uint32_t>().value() == 4000000000u); } catch (const std::exception & e) { std::printf("FAILED: %s\\n", e.what()); return 1; } }"""),
 dict(B, id="h2-stale-pointer", property="H02",
  edits=[(HD, "    else\n    {\n      value_ptr_ = std::get_if<double>(&value_);\n    }\n  }\n", "    else if (!value_ptr_)\n    {\n      value_ptr_ = std::get_if<double>(&value_);\n    }\n  }\n")],
  needs="a handle of another type copied to a handle that held a double", breaks="the copy still accepts doubles, written over its integer value",
  demo=PRE + """
int main() { Handle a(desc("int32", "5")), b(desc("double", "1.5")); b = a; CHECK(!b); bool t = false; try { (void)!b.set_value(2.5); } catch (const std::runtime_error &) { t = true; } CHECK(t); CHECK(b.get_optional<int32_t>().value() == 5); }"""),
 dict(B, id="h2-name-left-behind", property="H02",
  edits=[(HD, "    std::swap(first.handle_name_, second.handle_name_);\n", "    if (first.interface_name_ != second.interface_name_)\n    {\n      std::swap(first.handle_name_, second.handle_name_);\n    }\n")],
  needs="a handle moved to a handle with the same interface name and another prefix", breaks="the full name does not move along",
  demo=PRE + """
int main() { Handle a("j1", "position", "double", "1"), b("j2", "position", "double", "2"); b = std::move(a); CHECK(b.get_prefix_name() == "j1"); CHECK(b.get_name() == "j1/position"); }"""),
 dict(B, id="h3-released-twice", property="H03",
  edits=[(LC, "  LoanedCommandInterface(LoanedCommandInterface && other) = default;", "  LoanedCommandInterface(LoanedCommandInterface && other)\n  : command_interface_(other.command_interface_),\n    interface_name_(std::move(other.interface_name_)),\n    deleter_(other.deleter_)\n  {\n  }")],
  needs="a loan that is moved, as when it is kept in a growing list", breaks="the interface is released by the old and by the new holder",
  demo=PRE + """
int main() { auto c = std::make_shared<CommandInterface>(desc("double", "1")); int n = 0; { LoanedCommandInterface a(c, [&] { ++n; }); LoanedCommandInterface b(std::move(a)); CHECK(n == 0); } CHECK(n == 1); }"""),
 dict(B, id="h3-endless-read", property="H03",
  edits=[(LS, "    } while (nr_tries < max_tries);", "    } while (nr_tries != max_tries);")],
  needs="a read with no retries allowed while the lock is taken", breaks="the read is retried four billion times",
  demo=PRE + """
int main() { auto s = std::make_shared<StateInterface>(desc("double", "1")); std::atomic<int> st{0}; std::thread t([&] { s->get_mutex().lock(); st = 1; while (st == 1) std::this_thread::yield(); s->get_mutex().unlock(); }); while (st != 1) std::this_thread::yield();
  std::thread w([&] { for (int i = 0; i < 100 && st == 1; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(100)); if (st == 1) { std::printf("FAILED: the read does not end\\n"); std::fflush(stdout); std::_Exit(1); } });
  { LoanedStateInterface l(s); CHECK(!l.get_optional(0)); } st = 2; t.join(); w.join(); }"""),

 dict(CB_, id="h4-cleanup-fallback", property="H04",
  edits=[(HCS, "    switch (impl_->on_cleanup(impl_->get_lifecycle_state()))\n    {\n      case CallbackReturn::SUCCESS:\n", "    switch (impl_->on_cleanup(impl_->get_lifecycle_state()))\n    {\n      case CallbackReturn::SUCCESS:\n      case CallbackReturn::FAILURE:\n"), (HCS, "            lifecycle_state_names::UNCONFIGURED));\n        break;\n      case CallbackReturn::FAILURE:\n      case CallbackReturn::ERROR:\n        impl_->set_lifecycle_state(error());\n", "            lifecycle_state_names::UNCONFIGURED));\n        break;\n      case CallbackReturn::ERROR:\n        impl_->set_lifecycle_state(error());\n")],
  needs="a driver whose clean-up fails", breaks="the component counts as cleaned up and error handling never runs",
  demo=DRV + """
int main() { Log l; auto c = make(l, "system", false); c->configure(); l.res = CR::FAILURE; c->cleanup(); CHECK(l.errors == 1); CHECK(c->get_lifecycle_id() == 4); CHECK(c->get_lifecycle_state().label() == "finalized"); }"""),
 dict(CB_, id="h4-still-active-name", property="H04",
  edits=[(HCS, """      case CallbackReturn::FAILURE:
        impl_->set_lifecycle_state(
          rclcpp_lifecycle::State(
            lifecycle_msgs::msg::State::PRIMARY_STATE_ACTIVE, lifecycle_state_names::ACTIVE));
""", """      case CallbackReturn::FAILURE:
        impl_->set_lifecycle_state(
          rclcpp_lifecycle::State(
            lifecycle_msgs::msg::State::PRIMARY_STATE_ACTIVE, lifecycle_state_names::INACTIVE));
""")],
  needs="a driver that refuses to be deactivated", breaks="the component is active but calls itself inactive",
  demo=DRV + """
int main() { Log l; auto c = make(l, "system", false); c->configure(); c->activate(); l.res = CR::FAILURE; const auto & s = c->deactivate(); CHECK(s.id() == 3); CHECK(s.label() == "active"); }"""),
 dict(CB_, id="h5-deactivate-is-error", property="H05",
  edits=[(HCS, "    const auto trigger_result = impl_->trigger_write(time, period);\n    if (trigger_result.result == return_type::ERROR)", "    const auto trigger_result = impl_->trigger_write(time, period);\n    if (trigger_result.result != return_type::OK)")],
  needs="a write that asks for deactivation", breaks="the component runs error handling and ends unconfigured or finalized",
  demo=DRV + """
int main() { Log l; auto c = make(l, "system", false); c->configure(); c->activate(); l.ret = return_type::DEACTIVATE; rclcpp::Time t(int64_t(1000), RCL_STEADY_TIME); CHECK(c->write(t, rclcpp::Duration(0, 1)) == return_type::DEACTIVATE); CHECK(l.errors == 0); CHECK(c->get_lifecycle_id() == 3); }"""),
 dict(CB_, id="h5-async-sensor-write", property="H05",
  edits=[("hardware_interface/src/hardware_component_interface.cpp", "    const bool is_sensor_type = (info_.type == \"sensor\");", "    const bool is_sensor_type = (info_.type == \"sensor\") && info_.joints.empty();")],
  needs="an asynchronous sensor that has joints, active", breaks="the write callback of a sensor is run",
  demo=DRV + """
int main() { Log l; auto c = make(l, "sensor", true); c->configure(); c->activate(); rclcpp::Time t(int64_t(1000), RCL_STEADY_TIME); c->read(t, rclcpp::Duration(0, 1)); CHECK(l.reads == 1); CHECK(l.writes == 0); }"""),
]
