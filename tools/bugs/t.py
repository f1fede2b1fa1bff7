TH = '''
#include <cstdio>
#include <cmath>
#include "transmission_interface/%s_transmission.hpp"
using namespace transmission_interface;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %%s\\n", #c); return 1; } } while (0)
static bool near(double a, double b) { return std::fabs(a - b) < 1e-9 * (1 + std::fabs(a)); }
'''
TI = "transmission_interface/include/transmission_interface/"
BUGS = [
 dict(id="t1-offset-order", property="T01",
  edits=[(TI + "four_bar_linkage_transmission.hpp", "act_pos[1].set_value((joints_offset_applied[0] + joints_offset_applied[1] * jr[1]) * ar[1]);", "act_pos[1].set_value((act_pos[0].get_value() / ar[0] + joints_offset_applied[1] * jr[1]) * ar[1]);")],
  needs="a four-bar linkage whose first joint reduction is not one",
  breaks="the second actuator position is computed from the reduced first joint, so positions no longer round trip",
  demo=TH % "four_bar_linkage" + '''
int main() {
  for (double jr0 : {1.0, -2.0}) {
    FourBarLinkageTransmission t({3.0, 5.0}, {jr0, 0.5}, {0.1, -0.4}); double j[2] = {0.3, 0.7}, a[2] = {0, 0};
    t.configure({{"j1", "position", &j[0]}, {"j2", "position", &j[1]}}, {{"a1", "position", &a[0]}, {"a2", "position", &a[1]}});
    t.joint_to_actuator(); t.actuator_to_joint(); CHECK(near(j[0], 0.3)); CHECK(near(j[1], 0.7));
  }
}'''),
 dict(id="t2-force-reduction", property="T02",
  edits=[(TI + "differential_transmission.hpp", "joint_for[1].set_value(\n      jr[1] * (act_for[0].get_value() * ar[0] - act_for[1].get_value() * ar[1]));", "joint_for[1].set_value(\n      jr[0] * (act_for[0].get_value() * ar[0] - act_for[1].get_value() * ar[1]));")],
  needs="a differential transmission with different joint reductions that converts forces",
  breaks="the power at the joints computed from the force differs from that at the actuators",
  demo=TH % "differential" + '''
int main() {
  DifferentialTransmission t({3.0, -5.0}, {2.0, 0.5}); double jf[2] = {0, 0}, af[2] = {1.5, 2.5}, jv[2] = {0, 0}, av[2] = {0.3, -0.7};
  t.configure({{"j1", "force", &jf[0]}, {"j2", "force", &jf[1]}, {"j1", "velocity", &jv[0]}, {"j2", "velocity", &jv[1]}}, {{"a1", "force", &af[0]}, {"a2", "force", &af[1]}, {"a1", "velocity", &av[0]}, {"a2", "velocity", &av[1]}});
  t.actuator_to_joint(); CHECK(near(jf[0] * jv[0] + jf[1] * jv[1], af[0] * av[0] + af[1] * av[1]));
}'''),
 dict(id="t2-absolute-from-position", property="T02",
  edits=[(TI + "simple_transmission.hpp", "joint_absolute_position_.set_value(\n      actuator_absolute_position_.get_value() / reduction_ + jnt_offset_);", "joint_absolute_position_.set_value(\n      (actuator_position_ ? actuator_position_ : actuator_absolute_position_).get_value() / reduction_ + jnt_offset_);")],
  needs="a simple transmission configured with both position and absolute position whose values differ",
  breaks="the absolute position is computed from the relative position",
  demo=TH % "simple" + '''
int main() {
  SimpleTransmission t(4.0, 0.5); double jp = 0, ja = 0, ap = 3.0, aa = 8.0;
  t.configure({{"j", "position", &jp}, {"j", "absolute_position", &ja}}, {{"a", "position", &ap}, {"a", "absolute_position", &aa}});
  t.actuator_to_joint(); CHECK(near(ja, 2.5)); CHECK(near(jp, 1.25));
}'''),
 dict(id="t3-unset-handles", property="T03",
  edits=[(TI + "accessor.hpp", "(handle.get_interface_name() == interface_type) && handle;", "(handle.get_interface_name() == interface_type) && (handle || result.size() % 2 != 0);")],
  needs="a two-joint transmission whose second joint's handle of a quantity refers to no value",
  breaks="a pair with an unset handle is accepted and the conversion touches it",
  demo=TH % "differential" + '''
int main() {
  DifferentialTransmission t({1.0, 1.0}, {1.0, 1.0}); double v[6] = {1, 2, 3, 4, 5, 6}; bool threw = false;
  try { t.configure({{"j1", "position", &v[0]}, {"j2", "position", nullptr}}, {{"a1", "position", &v[2]}, {"a2", "position", &v[3]}}); } catch (const std::exception &) { threw = true; }
  CHECK(threw);
}'''),
 dict(id="t3-name-order", property="T03",
  edits=[(TI + "accessor.hpp", "  std::set<std::string> names;\n  std::transform(\n    handles.cbegin(), handles.cend(), std::inserter(names, names.end()),\n    [](const auto & handle) { return handle.get_prefix_name(); });\n  return std::vector<std::string>(names.begin(), names.end());", "  std::vector<std::string> names;\n  for (const auto & handle : handles)\n  {\n    if (std::find(names.begin(), names.end(), handle.get_prefix_name()) == names.end())\n    {\n      names.push_back(handle.get_prefix_name());\n    }\n  }\n  return names;")],
  needs="handles given with the second joint's first",
  breaks="joints are taken in the order given instead of the order of their names, so reductions apply to the wrong joint",
  demo=TH % "four_bar_linkage" + '''
int main() {
  for (bool swap : {false, true}) {
    FourBarLinkageTransmission t({3.0, 5.0}, {2.0, 0.5}); double j[2] = {0, 0}, a[2] = {1.0, 2.0};
    std::vector<JointHandle> jh = {{"j1", "velocity", &j[0]}, {"j2", "velocity", &j[1]}}; if (swap) std::swap(jh[0], jh[1]);
    t.configure(jh, {{"a1", "velocity", &a[0]}, {"a2", "velocity", &a[1]}}); t.actuator_to_joint(); CHECK(near(j[0], 1.0 / 6.0));
  }
}'''),
]
