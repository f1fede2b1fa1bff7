H = '''
#include "joint_limits/joint_saturation_limiter.hpp"
#include "joint_limits/joint_soft_limiter.hpp"
#include "joint_limits/joint_limits_helpers.hpp"
#include <cstdio>
#include <cmath>
using namespace joint_limits; using D = JointControlInterfacesData;
template<class B> struct L : B { void prep(const JointLimits & l, const std::vector<SoftJointLimits> & s = {}) { this->init({"j"}, std::vector<JointLimits>{l}, s, nullptr, nullptr); } };
static rclcpp::Duration dt(double s) { return rclcpp::Duration::from_nanoseconds((int64_t)(s * 1e9)); }
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s\\n", #c); return 1; } } while (0)
'''
S = ["joint_limits/src/joint_limits_helpers.cpp", "joint_limits/src/joint_range_limiter.cpp", "joint_limits/src/joint_soft_limiter.cpp"]
F1, F2, F3 = S
BUGS = [
 dict(id="j1-position-window", property="J01", srcs=S,
  edits=[(F1, "std::min(position_reference - delta_pos, pos_limits.upper_limit), pos_limits.lower_limit);", "position_reference - delta_pos, pos_limits.lower_limit);")],
  needs="a reference position (remembered or measured) beyond the upper limit by more than one step, but within the exception tolerance",
  breaks="the computed position interval reaches beyond the upper position limit",
  demo=H + '''
int main() {
  JointLimits l; l.has_position_limits = true; l.min_position = -1; l.max_position = 1; l.has_velocity_limits = true; l.max_velocity = 1;
  L<JointSaturationLimiter<D>> lim; lim.prep(l);
  D act, des; act.joint_name = des.joint_name = "j"; act.position = 1.008; des.position = 1.2;
  lim.enforce(act, des, dt(0.001));
  CHECK(*des.position <= 1.0 && *des.position >= -1.0);
}'''),
 dict(id="j3-memory-on-absent", property="J03", srcs=S,
  edits=[(F1, "if (desired.has_position() && !std::isnan(desired.position.value()))\n  {\n    prev_command.position = desired.position;\n  }", "if (!desired.has_position() || !std::isnan(desired.position.value()))\n  {\n    prev_command.position = desired.position;\n  }")],
  needs="a position command, then a cycle without one, then a position command again with a measured position that differs from the last command",
  breaks="the remembered position command is erased by a cycle without a position command, so the next one may move further than one step from it",
  demo=H + '''
int main() {
  JointLimits l; l.has_velocity_limits = true; l.max_velocity = 1;
  L<JointSaturationLimiter<D>> lim; lim.prep(l);
  auto go = [&](std::optional<double> p, std::optional<double> v, double ap) { D act, des; act.joint_name = des.joint_name = "j"; act.position = ap; des.position = p; des.velocity = v; lim.enforce(act, des, dt(0.1)); return des; };
  D a = go(0.05, std::nullopt, 0.0); CHECK(std::fabs(*a.position - 0.05) < 1e-9);
  go(std::nullopt, 0.5, 3.0);
  D c = go(3.0, std::nullopt, 3.0);
  CHECK(*c.position <= 0.15 + 1e-9);
}'''),
 dict(id="j4-far-outside", property="J04", srcs=S,
  edits=[(F1, "(actual_pos > (limits.max_position + internal::POSITION_BOUNDS_TOLERANCE)) ||\n        (actual_pos < (limits.min_position - internal::POSITION_BOUNDS_TOLERANCE)))", "(actual_pos > (limits.max_position + internal::POSITION_BOUNDS_TOLERANCE)) ||\n        (actual_pos < (limits.min_position - internal::POSITION_BOUNDS_TOLERANCE) && desired_vel < 0.0))")],
  needs="a measured position below the lower limit by more than the tolerance and a non-negative velocity request",
  breaks="a joint measured far below its limit is still driven",
  demo=H + '''
int main() {
  JointLimits l; l.has_position_limits = true; l.min_position = -1; l.max_position = 1; l.has_velocity_limits = true; l.max_velocity = 1;
  for (double v : {0.7, -0.7}) for (double p : {1.5, -1.5}) {
    L<JointSaturationLimiter<D>> lim; lim.prep(l);
    D act, des; act.joint_name = des.joint_name = "j"; act.position = p; des.velocity = v;
    lim.enforce(act, des, dt(0.1)); CHECK(*des.velocity == 0.0);
  }
}'''),
 dict(id="j5-lost-flag", property="J05", srcs=S,
  edits=[(F3, "limits_enforced =\n      is_limited(desired.acceleration.value(), limits.lower_limit, limits.upper_limit) ||\n      limits_enforced;", "limits_enforced =\n      is_limited(desired.acceleration.value(), limits.lower_limit, limits.upper_limit);")],
  needs="one call with a limited velocity (or position, effort) and an acceleration command inside its limits",
  breaks="the soft limiter reports that nothing was limited although it changed a command",
  demo=H + '''
int main() {
  JointLimits l; l.has_velocity_limits = true; l.max_velocity = 1; l.has_acceleration_limits = true; l.max_acceleration = 5;
  L<JointSoftLimiter> lim; lim.prep(l);
  D act, des; act.joint_name = des.joint_name = "j"; act.velocity = 0.9; des.velocity = 3.0; des.acceleration = 1.0;
  bool r = lim.enforce(act, des, dt(0.1));
  CHECK(*des.velocity <= 1.0); CHECK(r);
}'''),
 dict(id="j2-decel-flag", property="J02", srcs=S,
  edits=[(F1, "if (\n    limits.has_deceleration_limits &&\n    ((desired_acceleration < 0", "if (\n    std::isfinite(limits.max_deceleration) &&\n    ((desired_acceleration < 0")],
  needs="a deceleration request on a joint with a deceleration value but with deceleration limits disabled",
  breaks="a disabled deceleration limit still alters the command",
  demo=H + '''
int main() {
  JointLimits l; l.has_acceleration_limits = true; l.max_acceleration = 5; l.max_deceleration = 2; l.has_deceleration_limits = false;
  L<JointSaturationLimiter<D>> lim; lim.prep(l);
  D act, des; act.joint_name = des.joint_name = "j"; act.velocity = 1.0; des.acceleration = -4.0;
  bool r = lim.enforce(act, des, dt(0.1));
  CHECK(*des.acceleration == -4.0); CHECK(!r);
}'''),
]
BUGS += [
 dict(id="j7-prismatic-wrap", property="J07", stubs=True, libs="",
  edits=[("joint_limits/include/joint_limits/joint_limits_urdf.hpp", "if (!limits.has_position_limits && urdf_joint->type == urdf::Joint::CONTINUOUS)", "if (!limits.has_position_limits && urdf_joint->type != urdf::Joint::FIXED)")],
  needs="a joint of a type without position bounds that is not continuous (floating, planar, unknown)",
  breaks="a joint that cannot wrap around is marked as continuous",
  demo='''
#include "joint_limits/joint_limits_urdf.hpp"
#include <cstdio>
int main() {
  for (int t = 0; t <= 6; ++t) {
    auto j = std::make_shared<urdf::Joint>(); j->type = static_cast<decltype(j->type)>(t); j->limits = std::make_shared<urdf::JointLimits>();
    j->limits->lower = -1; j->limits->upper = 1; j->limits->velocity = 2; j->limits->effort = 3;
    joint_limits::JointLimits l; joint_limits::getJointLimits(j, l);
    if (l.angle_wraparound != (t == urdf::Joint::CONTINUOUS)) { std::printf("FAILED type %d\\n", t); return 1; }
  }
}'''),
 dict(id="j8-swapped-magnitude", property="J08", srcs=["hardware_interface/src/component_parser.cpp", "hardware_interface/src/lexical_casts.cpp"], flags="-I/usr/include/urdfdom", libs="-lfmt -ltinyxml2 -lurdfdom_model -lurdfdom_world -lurdfdom_sensor",
  edits=[("hardware_interface/src/component_parser.cpp", "max_eff = std::min(std::abs(min_eff), std::abs(max_eff));", "max_eff = itr.min.empty() ? std::abs(max_eff) : std::abs(min_eff);")],
  needs="an effort command interface with a min and a max where the max has the smaller magnitude",
  breaks="the effort limit becomes looser than the interface's max",
  demo='''
#include "hardware_interface/component_parser.hpp"
#include <cstdio>
int main() {
  std::string u = R"(<?xml version="1.0"?><robot name="r"><link name="a"/><link name="b"/><joint name="j" type="revolute"><parent link="a"/><child link="b"/><axis xyz="0 0 1"/><limit lower="-1" upper="1" velocity="3" effort="50"/></joint>
  <ros2_control name="s" type="system"><hardware><plugin>p</plugin></hardware><joint name="j"><command_interface name="effort"><param name="min">-40</param><param name="max">10</param></command_interface><state_interface name="position"/></joint></ros2_control></robot>)";
  auto h = hardware_interface::parse_control_resources_from_urdf(u); double m = h.at(0).limits.at("j").max_effort;
  if (m != 10) { std::printf("FAILED max effort %g\\n", m); return 1; }
}'''),
]
