// bounded exploration of the real URDF limit translation: usage <prop> <seconds> <seed> [seeds]
#include "common.hpp"
#include "joint_limits/joint_limits_urdf.hpp"
using namespace vh;
static bool sb(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static double pick(Rng & r) { int k = r.i(0, 9); return k == 0 ? NaN() : k == 1 ? INF : k == 2 ? -0.0 : k == 3 ? 0 : r.r(-10, 10); }
static joint_limits::JointLimits lim(Rng & r) { joint_limits::JointLimits l; l.min_position = pick(r); l.max_position = pick(r); l.max_velocity = pick(r); l.max_acceleration = pick(r); l.max_deceleration = pick(r); l.max_jerk = pick(r); l.max_effort = pick(r); l.has_position_limits = r.b(); l.has_velocity_limits = r.b(); l.has_acceleration_limits = r.b(); l.has_deceleration_limits = r.b(); l.has_jerk_limits = r.b(); l.has_effort_limits = r.b(); l.angle_wraparound = r.b(); return l; }
static std::string ds(const joint_limits::JointLimits & l) { return l.to_string(); }
int main(int, char ** av)
{
  double secs = std::stod(av[2]); Rng r(std::stoull(av[3])); Clock c; long n = 0;
  while (c.s() < secs && n < 2000000)
  {
    ++n;
    std::shared_ptr<urdf::Joint> j; if (r.b(.95)) j = std::make_shared<urdf::Joint>();
    if (j) { j->type = static_cast<decltype(j->type)>(r.i(0, 6)); if (r.b(.8)) { j->limits = std::make_shared<urdf::JointLimits>(); j->limits->lower = pick(r); j->limits->upper = pick(r); j->limits->velocity = pick(r); j->limits->effort = pick(r); } if (r.b(.8)) { j->safety = std::make_shared<urdf::JointSafety>(); j->safety->soft_lower_limit = pick(r); j->safety->soft_upper_limit = pick(r); j->safety->k_position = pick(r); j->safety->k_velocity = pick(r); } }
    auto o = lim(r), l = o; joint_limits::SoftJointLimits so; so.min_position = pick(r); so.max_position = pick(r); so.k_position = pick(r); so.k_velocity = pick(r); auto s = so;
    bool g = joint_limits::getJointLimits(j, l), gs = joint_limits::getSoftJointLimits(j, s);
    auto F = [&](const std::string & w) { fail("J07: " + w, std::string("joint: ") + (j ? "type " + std::to_string(j->type) + (j->limits ? " limits[" + num(j->limits->lower) + "," + num(j->limits->upper) + "] vel " + num(j->limits->velocity) + " eff " + num(j->limits->effort) : " no limits") : "null") + "\nbefore:\n" + ds(o) + "\nafter:\n" + ds(l)); };
    bool have = j && j->limits;
    if (g != have) F("presence of limits reported wrongly");
    auto samel = [&](bool acc) { return sb(l.max_acceleration, o.max_acceleration) && sb(l.max_deceleration, o.max_deceleration) && sb(l.max_jerk, o.max_jerk) && l.has_jerk_limits == o.has_jerk_limits && l.has_deceleration_limits == o.has_deceleration_limits && (!acc || l.has_acceleration_limits == o.has_acceleration_limits); };
    if (!have) { if (!samel(true) || !sb(l.min_position, o.min_position) || !sb(l.max_position, o.max_position) || !sb(l.max_velocity, o.max_velocity) || !sb(l.max_effort, o.max_effort) || l.has_position_limits != o.has_position_limits || l.has_velocity_limits != o.has_velocity_limits || l.has_effort_limits != o.has_effort_limits || l.angle_wraparound != o.angle_wraparound) F("limits changed without a limit element"); }
    else
    {
      bool b = j->type == urdf::Joint::REVOLUTE || j->type == urdf::Joint::PRISMATIC;
      if (l.has_position_limits != b) F("position limits enabled wrongly");
      if (!sb(l.min_position, b ? j->limits->lower : o.min_position) || !sb(l.max_position, b ? j->limits->upper : o.max_position)) F("position bounds");
      if (l.angle_wraparound != (o.angle_wraparound || j->type == urdf::Joint::CONTINUOUS)) F("wraparound");
      if (!l.has_velocity_limits || !sb(l.max_velocity, std::fabs(j->limits->velocity)) || std::signbit(l.max_velocity) && !std::isnan(l.max_velocity)) F("velocity");
      if (!l.has_effort_limits || !sb(l.max_effort, std::fabs(j->limits->effort))) F("effort");
      if (!samel(false) || l.has_acceleration_limits) F("limits invented");
    }
    bool hs = j && j->safety;
    if (gs != hs) F("presence of soft limits reported wrongly");
    if (hs ? !(sb(s.min_position, j->safety->soft_lower_limit) && sb(s.max_position, j->safety->soft_upper_limit) && sb(s.k_position, j->safety->k_position) && sb(s.k_velocity, j->safety->k_velocity)) : !(sb(s.min_position, so.min_position) && sb(s.max_position, so.max_position) && sb(s.k_position, so.k_position) && sb(s.k_velocity, so.k_velocity))) F("soft limits");
  }
  std::printf("OK %ld\n", n); return 0;
}
