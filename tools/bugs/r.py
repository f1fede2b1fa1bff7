RM = "hardware_interface/src/resource_manager.cpp"
SRC = [RM] + ["hardware_interface/src/" + x for x in ("hardware_component.cpp", "hardware_component_interface.cpp", "component_parser.cpp", "lexical_casts.cpp")] + ["joint_limits/src/" + x for x in ("joint_limits_helpers.cpp", "joint_range_limiter.cpp", "joint_soft_limiter.cpp")]
B = dict(srcs=SRC, libs="-lfmt -lpthread -ltinyxml2 -lurdfdom_model -lurdfdom_world -lurdfdom_sensor", flags="-I/usr/include/urdfdom")
PRE = r"""
#include <cstdio>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include "hardware_interface/actuator_interface.hpp"
#include "hardware_interface/resource_manager.hpp"
#include "hardware_interface/sensor_interface.hpp"
#include "hardware_interface/system_interface.hpp"
#include "pluginlib/class_loader.hpp"
using namespace hardware_interface; using S = std::string; using VS = std::vector<S>; using CR = rclcpp_lifecycle::node_interfaces::LifecycleNodeInterface::CallbackReturn; using ST = rclcpp_lifecycle::State;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s\n", #c); return 1; } } while (0)
struct Hw { CR act = CR::SUCCESS, deact = CR::SUCCESS, clean = CR::SUCCESS, err = CR::SUCCESS; return_type r = return_type::OK, w = return_type::OK, p = return_type::OK, f = return_type::OK; bool rboom = false, wboom = false, pboom = false; int reads = 0, writes = 0, preps = 0, perfs = 0, configs = 0; double rper = 0, wper = 0; VS start, stop; };
std::map<S, Hw> HW;
template<class I> struct D : I { Hw * h = nullptr;
  CR on_init(const HardwareComponentInterfaceParams & p) override { h = &HW[p.hardware_info.name]; return I::on_init(p); }
  CR on_configure(const ST &) override { ++h->configs; return CR::SUCCESS; } CR on_cleanup(const ST &) override { return h->clean; } CR on_activate(const ST &) override { return h->act; } CR on_deactivate(const ST &) override { return h->deact; } CR on_error(const ST &) override { return h->err; }
  return_type read(const rclcpp::Time &, const rclcpp::Duration & d) override { ++h->reads; h->rper = d.seconds(); if (h->rboom) throw std::runtime_error("read"); return h->r; }
  return_type prepare_command_mode_switch(const VS & a, const VS & b) override { ++h->preps; h->start = a; h->stop = b; if (h->pboom) throw std::runtime_error("prepare"); return h->p; }
  return_type perform_command_mode_switch(const VS & a, const VS & b) override { ++h->perfs; h->start = a; h->stop = b; return h->f; } };
template<class I> struct W : D<I> { return_type write(const rclcpp::Time &, const rclcpp::Duration & d) override { auto h = this->h; ++h->writes; h->wper = d.seconds(); if (h->wboom) throw std::runtime_error("write"); return h->w; } };
struct Clk : rclcpp::Clock { int64_t t = 1000000000; Clk() : rclcpp::Clock(RCL_STEADY_TIME) {} rclcpp::Time now() const override { return rclcpp::Time(t, RCL_STEADY_TIME); } };
// one joint "j<n>" with position and velocity per component: name, type, group, own rate
struct C { S name, type, group; int rate = 0; };
std::shared_ptr<Clk> clk = std::make_shared<Clk>();
std::unique_ptr<ResourceManager> make(const std::vector<C> & cs, bool allow = false)
{
  pluginlib::ClassLoader<ActuatorInterface>::reg()["p"] = [] { return new W<ActuatorInterface>; }; pluginlib::ClassLoader<SensorInterface>::reg()["p"] = [] { return new D<SensorInterface>; }; pluginlib::ClassLoader<SystemInterface>::reg()["p"] = [] { return new W<SystemInterface>; };
  S x = "<?xml version=\"1.0\"?><robot name=\"r\"><link name=\"l0\"/>", y; int n = 0;
  for (auto & c : cs) { S j = "j" + std::to_string(n), l = "l" + std::to_string(n + 1); bool s = c.type == "sensor"; x += "<link name=\"" + l + "\"/><joint name=\"" + j + "\" type=\"continuous\"><parent link=\"l" + std::to_string(n) + "\"/><child link=\"" + l + "\"/><limit velocity=\"5\" effort=\"9\"/></joint>"; ++n;
    y += "<ros2_control name=\"" + c.name + "\" type=\"" + c.type + "\"" + (c.rate ? " rw_rate=\"" + std::to_string(c.rate) + "\"" : S()) + "><hardware><plugin>p</plugin>" + (c.group.empty() ? S() : "<group>" + c.group + "</group>") + "</hardware><" + (s ? "sensor" : "joint") + " name=\"" + j + "\">" + (s ? "" : "<command_interface name=\"position\"/><command_interface name=\"velocity\"/>") + "<state_interface name=\"position\"/><state_interface name=\"velocity\"/></" + (s ? "sensor" : "joint") + "></ros2_control>"; }
  ResourceManagerParams par; par.robot_description = x + y + "</robot>"; par.clock = clk; par.logger = rclcpp::get_logger("x"); par.update_rate = 100; par.allow_controller_activation_with_inactive_hardware = allow; par.return_failed_hardware_names_on_return_deactivate_write_cycle_ = true;
  return std::make_unique<ResourceManager>(par, true);
}
bool set(ResourceManager & rm, const S & n, int id, const S & label = "x") { ST s(id, label); return rm.set_component_state(n, s) == return_type::OK; }
int state(ResourceManager & rm, const S & n) { return rm.get_components_status().at(n).state.id(); }
rclcpp::Time now() { return clk->now(); }
rclcpp::Duration per(double s = .01) { return rclcpp::Duration::from_seconds(s); }
"""
BUGS = [
 dict(B, id="h6-loan-of-a-changed-name", property="H06",
  edits=[(RM, "std::bind(&ResourceManager::release_command_interface, this, key));", "std::bind(&ResourceManager::release_command_interface, this, std::cref(key)));")],
  needs="a caller that reuses the text it named the interface with before the loan ends", breaks="the end of the loan frees another interface",
  demo=PRE + """
int main() { auto rm = make({{"a", "system"}}); set(*rm, "a", 3); S k = "j0/position"; { auto other = rm->claim_command_interface("j0/velocity"); { auto l = rm->claim_command_interface(k); k = "j0/velocity"; } CHECK(rm->command_interface_is_claimed("j0/velocity")); CHECK(!rm->command_interface_is_claimed("j0/position")); } }"""),
 dict(B, id="h6-claimed-for-ever", property="H06",
  edits=[(RM, "  resource_storage_->claimed_command_interface_map_[key] = false;\n", "  if (command_interface_is_available(key))\n  {\n    resource_storage_->claimed_command_interface_map_[key] = false;\n  }\n")],
  needs="a loan that ends while its component is cleaned up, and a claim after it is configured again", breaks="the interface can never be claimed again",
  demo=PRE + """
int main() { auto rm = make({{"a", "system"}}); set(*rm, "a", 3); { auto l = rm->claim_command_interface("j0/position"); set(*rm, "a", 1); } set(*rm, "a", 3); CHECK(!rm->command_interface_is_claimed("j0/position")); try { auto l = rm->claim_command_interface("j0/position"); } catch (const std::exception & e) { std::printf("FAILED: %s\\n", e.what()); return 1; } }"""),
 dict(B, id="h9-prefix-withdrawn", property="H09",
  edits=[(RM, """    auto found_it = std::find(
      resource_storage_->available_state_interfaces_.begin(),
      resource_storage_->available_state_interfaces_.end(), interface);
    if (found_it != resource_storage_->available_state_interfaces_.end())
    {""", """    auto found_it = std::find_if(
      resource_storage_->available_state_interfaces_.begin(),
      resource_storage_->available_state_interfaces_.end(),
      [&](const std::string & name) { return name.compare(0, interface.size(), interface) == 0; });
    if (found_it != resource_storage_->available_state_interfaces_.end())
    {""")],
  needs="a controller that exports an interface whose name begins with that of another available one", breaks="the other interface becomes unavailable",
  demo=PRE + """
int main() { auto rm = make({{"a", "system"}}); auto mk = [](const char * c, const char * n) { return std::make_shared<const StateInterface>(c, n, "double", "0"); };
  std::vector<StateInterface::ConstSharedPtr> c{mk("c", "x")}, d{mk("c", "x_filtered")}; rm->import_controller_exported_state_interfaces("c", c); rm->import_controller_exported_state_interfaces("d", d); rm->make_controller_exported_state_interfaces_available("d"); rm->make_controller_exported_state_interfaces_available("c");
  rm->make_controller_exported_state_interfaces_unavailable("c"); CHECK(!rm->state_interface_is_available("c/x")); CHECK(rm->state_interface_is_available("c/x_filtered")); }"""),
 dict(B, id="h9-first-letters", property="H09",
  edits=[(RM, "      [&](const auto & component) { return component.get_name() == component_name; });", "      [&](const auto & component)\n      { return component.get_name().compare(0, component_name.size(), component_name) == 0; });")],
  needs="two components where the name of one begins with the name of the other, loaded later", breaks="the request acts on the other component",
  demo=PRE + """
int main() { auto rm = make({{"arm_left", "system"}, {"arm", "system"}}); CHECK(set(*rm, "arm", 2)); CHECK(state(*rm, "arm") == 2); CHECK(state(*rm, "arm_left") == 1); CHECK(rm->command_interface_is_available("j1/position")); CHECK(!rm->command_interface_is_available("j0/position")); }"""),
 dict(B, id="h9-configured-then-refused", property="H09",
  edits=[(RM, """            result = configure_hardware(hardware);
            if (result)
            {
              result = activate_hardware(hardware);
            }
""", """            result = configure_hardware(hardware);
            if (result && !activate_hardware(hardware))
            {
              result = hardware.get_lifecycle_id() == State::PRIMARY_STATE_INACTIVE;
            }
""")],
  needs="activation of an unconfigured component whose driver refuses to be activated", breaks="a request for active is reported as done while the component is inactive",
  demo=PRE + """
int main() { auto rm = make({{"a", "system"}}); HW["a"].act = CR::FAILURE; CHECK(!set(*rm, "a", 3)); CHECK(state(*rm, "a") == 2); HW["a"].act = CR::SUCCESS; CHECK(set(*rm, "a", 3)); }"""),

 dict(B, id="h7-buffer-of-the-last-switch", property="H07",
  edits=[(RM, "  hw_interfaces.clear();\n\n  // decide which", "  if (hw_command_itfs.empty() || start_stop_interfaces_list.empty())\n  {\n    return;\n  }\n  hw_interfaces.clear();\n\n  // decide which")],
  needs="a switch that stops interfaces of a component, then one that only starts some", breaks="the component is asked to stop the interfaces of the last switch",
  demo=PRE + """
int main() { auto rm = make({{"a", "system"}}); set(*rm, "a", 3); CHECK(rm->prepare_command_mode_switch({}, {"j0/velocity"})); CHECK(rm->prepare_command_mode_switch({"j0/position"}, {})); CHECK(HW["a"].start == VS{"j0/position"}); CHECK(HW["a"].stop.empty()); CHECK(HW["a"].preps == 2); }"""),
 dict(B, id="h7-inactive-passed-over", property="H07",
  edits=[(RM, """          interfaces_to_string(start_interfaces_buffer, stop_interfaces_buffer).c_str());
        return false;
      }
      if (
        component.get_lifecycle_id() == lifecycle_msgs::msg::State::PRIMARY_STATE_INACTIVE ||
        component.get_lifecycle_id() == lifecycle_msgs::msg::State::PRIMARY_STATE_ACTIVE)
      {
        try
        {
          if (
            return_type::OK !=
            component.perform_command""", """          interfaces_to_string(start_interfaces_buffer, stop_interfaces_buffer).c_str());
        continue;
      }
      if (
        component.get_lifecycle_id() == lifecycle_msgs::msg::State::PRIMARY_STATE_INACTIVE ||
        component.get_lifecycle_id() == lifecycle_msgs::msg::State::PRIMARY_STATE_ACTIVE)
      {
        try
        {
          if (
            return_type::OK !=
            component.perform_command""")],
  needs="a component that becomes inactive between the two steps of a switch that starts its interfaces", breaks="the switch is reported as performed although the component was not asked",
  demo=PRE + """
int main() { auto rm = make({{"a", "system"}, {"b", "system"}}); set(*rm, "a", 3); set(*rm, "b", 3); CHECK(rm->prepare_command_mode_switch({"j0/position", "j1/position"}, {})); set(*rm, "b", 2); CHECK(!rm->perform_command_mode_switch({"j0/position", "j1/position"}, {})); CHECK(HW["b"].perfs == 0); }"""),
 dict(B, id="h7-throws-something", property="H07",
  edits=[(RM, """            interfaces_to_string(start_interfaces_buffer, stop_interfaces_buffer).c_str());
          handle_exceptions ? void() : throw;
          ret = false;
        }
      }
      else
      {
        RCLCPP_WARN(
          logger, "Component '%s' is not in INACTIVE or ACTIVE state, skipping the prepare switch",""", """            interfaces_to_string(start_interfaces_buffer, stop_interfaces_buffer).c_str());
          handle_exceptions ? void() : throw;
        }
      }
      else
      {
        RCLCPP_WARN(
          logger, "Component '%s' is not in INACTIVE or ACTIVE state, skipping the prepare switch",""")],
  needs="a driver that throws something other than a std::exception", breaks="the throw counts as acceptance",
  demo=PRE.replace('throw std::runtime_error("prepare")', "throw 5") + """
int main() { auto rm = make({{"a", "system"}, {"b", "system"}}); set(*rm, "a", 3); set(*rm, "b", 3); HW["a"].pboom = true; CHECK(!rm->prepare_command_mode_switch({"j0/position", "j1/position"}, {})); HW["a"].pboom = false; CHECK(rm->prepare_command_mode_switch({"j0/position"}, {})); }"""),
 dict(B, id="h7-stop-of-the-unavailable", property="H07",
  edits=[(RM, "  if (!(check_available(start_interfaces) && check_available(stop_interfaces)))", "  if (!check_available(start_interfaces) && !check_available(stop_interfaces))")],
  needs="a switch that starts available interfaces and stops one that is not available", breaks="components are asked about a request that names an unavailable interface",
  demo=PRE + """
int main() { auto rm = make({{"a", "system"}, {"b", "system"}}); set(*rm, "a", 3); CHECK(!rm->prepare_command_mode_switch({"j0/position"}, {"j1/position"})); CHECK(HW["a"].preps == 0); CHECK(HW["b"].preps == 0); CHECK(rm->prepare_command_mode_switch({"j0/position"}, {"j0/velocity"})); }"""),

 dict(B, id="h8-unshared-deactivate", property="H08",
  edits=[(RM, "    if (value != return_type::OK)\n    {\n      hw_group_state_[group_name] = value;\n    }\n    return hw_group_state_[group_name];", "    if (value == return_type::OK)\n    {\n      return hw_group_state_[group_name];\n    }\n    if (value == return_type::ERROR)\n    {\n      hw_group_state_[group_name] = value;\n    }\n    return value;")],
  needs="a member of a group that asks to be deactivated in a write", breaks="the other members of the group stay active",
  demo=PRE + """
int main() { auto rm = make({{"a", "system", "g"}, {"b", "system", "g"}, {"c", "system"}}); for (auto n : {"a", "b", "c"}) set(*rm, n, 3); HW["a"].w = return_type::DEACTIVATE; auto r = rm->write(now(), per()); CHECK(r.result == return_type::DEACTIVATE); bool b = state(*rm, "b") == 2 && state(*rm, "a") == 2; CHECK(b); CHECK(state(*rm, "c") == 3); }"""),
 dict(B, id="h8-last-member-decides", property="H08",
  edits=[(RM, "    if (value != return_type::OK)\n    {\n      hw_group_state_[group_name] = value;\n    }\n    return hw_group_state_[group_name];", "    auto & state = hw_group_state_[group_name];\n    if (value != return_type::OK || state == return_type::DEACTIVATE)\n    {\n      state = value;\n    }\n    return state;")],
  needs="a group of three of which the first asks to be deactivated in a write", breaks="the members after it stay active",
  demo=PRE + """
int main() { auto rm = make({{"a", "system", "g"}, {"b", "system", "g"}, {"c", "system", "g"}}); for (auto n : {"a", "b", "c"}) set(*rm, n, 3); for (auto n : {"a", "b", "c"}) HW[n].w = return_type::OK; HW["a"].w = return_type::DEACTIVATE; HW["b"].w = return_type::DEACTIVATE; HW["c"].w = return_type::DEACTIVATE; rm->write(now(), per()); for (auto n : {"a", "b", "c"}) CHECK(state(*rm, n) == 2); for (auto n : {"a", "b", "c"}) HW[n].w = return_type::OK; auto r = rm->read(now(), per()); CHECK(r.failed_hardware_names.size() == 3); }"""),
 dict(B, id="h10-static-rate", property="H10",
  edits=[(RM, "          const double write_rate = hardware_component_info.rw_rate;", "          static const double write_rate = hardware_component_info.rw_rate;")],
  needs="two components with different rates of their own", breaks="the second is written at the rate of the first",
  demo=PRE + """
int main() { auto rm = make({{"a", "system", "", 50}, {"b", "system", "", 10}}); set(*rm, "a", 3); set(*rm, "b", 3); for (int i = 0; i < 100; ++i) { rm->read(now(), per()); rm->write(now(), per()); clk->t += 10000000; } CHECK(HW["a"].writes == 50); CHECK(HW["b"].writes == 10); CHECK(HW["b"].reads == 10); }"""),
 dict(B, id="h10-write-by-the-read-clock", property="H10",
  edits=[(RM, "              ? current_time - component.get_last_write_time()", "              ? current_time - component.get_last_read_time()")],
  needs="a component with a rate of its own that is read in a cycle in which it is also written", breaks="it is written with the time since its last read",
  demo=PRE + """
int main() { auto rm = make({{"a", "system", "", 25}}); set(*rm, "a", 3); int n = 0; for (int i = 0; i < 40; ++i) { int w = HW["a"].writes; rm->read(now(), per()); clk->t += 2000000; rm->write(now(), per()); if (HW["a"].writes != w) { if (n++) CHECK(HW["a"].wper > .039 && HW["a"].wper < .041); } clk->t += 8000000; } CHECK(n == 10); }"""),
 dict(B, id="h10-never-early", property="H10",
  edits=[(RM, "            (actual_period.seconds() + 1.0 / resource_storage_->cm_update_rate_) * read_rate - 1.0);", "            (actual_period.seconds() + 1.0 / std::max(1u, params_.update_rate / 2)) * read_rate - 1.0);")],
  needs="a component at a rate that does not divide the manager's", breaks="it is read one cycle before the nearest",
  demo=PRE + """
int main() { auto rm = make({{"a", "system", "", 20}}); set(*rm, "a", 3); for (int i = 0; i < 100; ++i) { rm->read(now(), per()); clk->t += 10000000; } CHECK(HW["a"].reads == 20); }"""),
]
