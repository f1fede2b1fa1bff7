H, O, F = "hardware_interface/include/hardware_interface/helpers.hpp", "controller_interface/include/controller_interface/helpers.hpp", "controller_interface/include/controller_interface/tf_prefix.hpp"
HD = """
#include <cstdio>
#include <memory>
#include "hardware_interface/loaned_state_interface.hpp"
#include "controller_interface/helpers.hpp"
#include "controller_interface/tf_prefix.hpp"
#include "hardware_interface/helpers.hpp"
using S = std::string; using V = std::vector<S>;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s\\n", #c); return 1; } } while (0)
"""
LX = ["hardware_interface/src/lexical_casts.cpp"]
CTL = """
#include <cstdio>
#include <memory>
#include "controller_interface/chainable_controller_interface.hpp"
#define CHECK(x) do { if (!(x)) { std::printf("FAILED: %s\\n", #x); return 1; } } while (0)
using namespace controller_interface; using hardware_interface::CommandInterface; using S = std::string;
struct Ctl : ChainableControllerInterface
{
  bool agree = true; int from_subscribers = 0, commands = 0; std::vector<std::pair<S, S>> refs;
  bool start() { ControllerInterfaceParams p; p.controller_name = "ctl"; p.update_rate = p.controller_manager_update_rate = 100; return init(p) == return_type::OK; }
  CallbackReturn on_init() override { return CallbackReturn::SUCCESS; }
  InterfaceConfiguration command_interface_configuration() const override { return {}; }
  InterfaceConfiguration state_interface_configuration() const override { return {}; }
  bool on_set_chained_mode(bool) override { return agree; }
  return_type update_reference_from_subscribers(const rclcpp::Time &, const rclcpp::Duration &) override { ++from_subscribers; return return_type::OK; }
  return_type update_and_write_commands(const rclcpp::Time &, const rclcpp::Duration &) override { ++commands; return return_type::OK; }
  std::vector<CommandInterface::SharedPtr> on_export_reference_interfaces_list() override { std::vector<CommandInterface::SharedPtr> v; for (auto & [p, n] : refs) { hardware_interface::InterfaceInfo i; i.name = n; i.data_type = "double"; v.push_back(std::make_shared<CommandInterface>(hardware_interface::InterfaceDescription(p, i))); } return v; }
  int exports() { try { return (int)export_reference_interfaces().size(); } catch (const std::exception &) { return -1; } }
};
"""
BUGS = [
 dict(id="c1-duplicate-added", property="C01", srcs=LX,
  edits=[(H, "  for (const auto & item : items)\n  {\n    add_item(vector, item);\n  }", "  const std::size_t present = vector.size();\n  for (const auto & item : items)\n  {\n    const auto end = vector.begin() + present;\n    if (std::find(vector.begin(), end, item) == end)\n    {\n      vector.push_back(item);\n    }\n  }")],
  needs="an absent item that occurs twice among the items to add", breaks="the item is added twice",
  demo=HD + """
int main() { V v{"a", "b"}; ros2_control::add_items(v, V{"c", "a", "c", "d"}); CHECK((v == V{"a", "b", "c", "d"})); }"""),
 dict(id="c1-unsorted-unique", property="C01", srcs=LX,
  edits=[(H, "  std::sort(container.begin(), container.end());\n", "  if (!container.empty() && !(container.front() < container.back()))\n  {\n    std::sort(container.begin(), container.end());\n  }\n")],
  needs="a repeated item that is not next to its twin in a list whose last item is greater than its first", breaks="a list with a repeated item is called unique",
  demo=HD + """
int main() { CHECK(!ros2_control::is_unique(V{"a", "b", "a", "c"})); CHECK(ros2_control::is_unique(V{"c", "a", "b"})); }"""),
 dict(id="c2-joint-prefix", property="C02", srcs=LX,
  edits=[(O, "((name == interface.get_prefix_name()) &&", "((name == interface.get_prefix_name().substr(0, std::max(name.size(), interface.get_prefix_name().find('/')))) &&")],
  needs="a joint whose prefix contains a slash, next to a joint named like the part before it", breaks="an interface of another joint is selected for a name",
  demo=HD + """
using namespace hardware_interface;
int main() {
  std::vector<StateInterface::ConstSharedPtr> own; std::vector<LoanedStateInterface> un;
  for (auto p : {"arm/j1", "arm", "leg"}) { own.push_back(std::make_shared<StateInterface>(p, "position")); un.emplace_back(own.back()); }
  std::vector<std::reference_wrapper<LoanedStateInterface>> out; out.reserve(4);
  CHECK(controller_interface::get_ordered_interfaces(un, V{"leg", "arm"}, "position", out)); CHECK(out.size() == 2 && out[1].get().get_name() == "arm/position");
}"""),
 dict(id="c3-last-tilde", property="C03", srcs=LX,
  edits=[(F, 'nprefix.find("~")', 'nprefix.rfind("~")')],
  needs="a prefix with more than one tilde", breaks="a later tilde is replaced by the namespace instead of the first",
  demo=HD + """
int main() { CHECK(controller_interface::resolve_tf_prefix("~/a~b", "/ns") == "ns/a~b/"); CHECK(controller_interface::resolve_tf_prefix("~", "/ns") == "ns/"); }"""),
 dict(id="c3-vertical-tab", property="C03", srcs=LX,
  edits=[(H, 'size_t end = str.find_last_not_of(whitespace);', 'size_t end = str.find_last_not_of(" \\t\\n\\r");')],
  needs="text that ends in a form feed or vertical tab", breaks="trailing white space is kept",
  demo=HD + """
int main() { CHECK(ros2_control::strip(" a b\\f") == "a b"); CHECK(ros2_control::strip("x\\v ") == "x"); CHECK(ros2_control::strip("\\f") == ""); }"""),
]
BUGS = [b for b in BUGS if b["id"] != "c2-interface-order"] + [dict(dict(srcs=["controller_interface/src/controller_interface_base.cpp", "controller_interface/src/chainable_controller_interface.cpp", "hardware_interface/src/lexical_casts.cpp"], libs="-lfmt -lpthread", flags="-w"), **b) for b in [
 dict(id="c4-stale-activating", property="C04",
  edits=[("controller_interface/src/controller_interface_base.cpp", "    id == lifecycle_msgs::msg::State::TRANSITION_STATE_ACTIVATING ||\n", "")],
  needs="the mode is changed after an activation and before any other transition", breaks="the mode of an active controller is changed",
  demo=CTL + """
int main() { Ctl c; CHECK(c.start()); c.configure(); CHECK(c.set_chained_mode(true)); c.get_node()->activate(); CHECK(!c.set_chained_mode(false)); CHECK(c.is_in_chained_mode()); c.get_node()->deactivate(); CHECK(c.set_chained_mode(false)); CHECK(!c.is_in_chained_mode()); }"""),
 dict(id="c4-prefix-anywhere", property="C04",
  edits=[("controller_interface/src/chainable_controller_interface.cpp", """  for (const auto & interface_ptr : reference_interfaces_list)
  {
    if (interface_ptr->get_prefix_name().find(get_node()->get_name()) != 0)""", """  for (const auto & interface_ptr : reference_interfaces_list)
  {
    if (interface_ptr->get_prefix_name().find(get_node()->get_name()) == std::string::npos)""")],
  needs="a reference interface in the new style whose prefix has the controller's name in the middle", breaks="a reference interface is exported under another controller's name",
  demo=CTL + """
int main() { Ctl c; CHECK(c.start()); c.refs = {{"ctl", "a"}, {"ctl/sub", "b"}}; CHECK(c.exports() == 2); c.refs = {{"ctl", "a"}, {"my_ctl", "b"}}; CHECK(c.exports() == -1); }"""),
 dict(id="c4-refusal-ends-chain", property="C04",
  edits=[("controller_interface/src/chainable_controller_interface.cpp", """    result = on_set_chained_mode(chained_mode);

    if (result)
    {
      in_chained_mode_ = chained_mode;
    }
""", """    result = on_set_chained_mode(chained_mode);
    in_chained_mode_ = result && chained_mode;
""")],
  needs="a controller in chained mode that refuses a later mode request", breaks="the controller leaves the chained mode although it refused to",
  demo=CTL + """
int main() { Ctl c; CHECK(c.start()); c.configure(); CHECK(c.set_chained_mode(true)); c.agree = false; CHECK(!c.set_chained_mode(false)); CHECK(c.is_in_chained_mode()); c.update(rclcpp::Time(1, 0), rclcpp::Duration(0, 1)); CHECK(c.from_subscribers == 0); }"""),
]]
