// bounded exploration of the real URDF parser's limit combination (J08): usage <prop> <seconds> <seed> [seeds]
#include "common.hpp"
#include "hardware_interface/component_parser.hpp"
using namespace vh;
struct Txt { const char * s; bool ok; double v; };
static const Txt T[] = {{"1.5", true, 1.5}, {"-1.5", true, -1.5}, {"0", true, 0}, {"2", true, 2}, {"-2", true, -2}, {"0.25", true, .25}, {"-0.25", true, -.25}, {"1e3", true, 1000}, {"-1e3", true, -1000}, {"7", true, 7}, {"-7", true, -7}, {"1e-3", true, 1e-3},
                        {"abc", false, 0}, {"1.5x", false, 0}, {"1,5", false, 0}, {"nan", false, 0}, {"inf", false, 0}, {"-inf", false, 0}, {"--1", false, 0}, {"1 2", false, 0}};
constexpr int NT = sizeof(T) / sizeof(T[0]);
struct I { bool present = false, en = true; int mn = -1, mx = -1; };
static std::string xml(bool joint_on, const I (&i)[5], const char * type, double lo, double hi, double vel, double eff, int order, bool soft)
{
  static const char * N[] = {"position", "velocity", "effort", "acceleration", "jerk"};
  std::string x = "<?xml version=\"1.0\"?><robot name=\"r\"><link name=\"a\"/><link name=\"b\"/><joint name=\"j1\" type=\""; x += type; x += "\"><parent link=\"a\"/><child link=\"b\"/>";
  x += "<limit lower=\"" + num(lo) + "\" upper=\"" + num(hi) + "\" velocity=\"" + num(vel) + "\" effort=\"" + num(eff) + "\"/>";
  if (soft) x += "<safety_controller soft_lower_limit=\"-1\" soft_upper_limit=\"1\" k_position=\"10\" k_velocity=\"20\"/>";
  x += "</joint><ros2_control name=\"s\" type=\"system\"><hardware><plugin>p/P</plugin></hardware><joint name=\"j1\">";
  if (!joint_on) x += "<limits enable=\"false\"/>";
  for (int q = 0; q < 5; ++q) { int k = (q + order) % 5; if (!i[k].present) continue; x += std::string("<command_interface name=\"") + N[k] + "\">"; if (i[k].mn >= 0) x += std::string("<param name=\"min\">") + T[i[k].mn].s + "</param>"; if (i[k].mx >= 0) x += std::string("<param name=\"max\">") + T[i[k].mx].s + "</param>"; if (!i[k].en) x += "<limits enable=\"false\"/>"; x += "</command_interface>"; }
  x += "<state_interface name=\"position\"/></joint></ros2_control></robot>";
  return x;
}
int main(int, char ** av)
{
  double secs = std::stod(av[2]); Rng r(std::stoull(av[3])); Clock c; long n = 0;
  if (!freopen("/dev/null", "w", stderr)) {}
  constexpr double D = std::numeric_limits<double>::max();
  while (c.s() < secs && n < 400000)
  {
    ++n;
    I i[5]; for (auto & k : i) { k.present = r.b(.7); k.en = r.b(.8); if (r.b(.7)) k.mn = r.i(0, r.b(.8) ? 11 : NT - 1); if (r.b(.7)) k.mx = r.i(0, r.b(.8) ? 11 : NT - 1); }
    const char * ty[] = {"revolute", "continuous", "prismatic"}; int t = r.i(0, 2); bool on = r.b(.85);
    double V[] = {0, .5, 1, 1.5, 3, 100}, lo = -V[r.i(0, 5)], hi = V[r.i(0, 5)], vel = V[r.i(0, 5)], eff = V[r.i(0, 5)];
    std::string x = xml(on, i, ty[t], lo, hi, vel, eff, r.i(0, 4), r.b(.3));
    joint_limits::JointLimits L;
    try { auto h = hardware_interface::parse_control_resources_from_urdf(x); L = h.at(0).limits.at("j1"); }
    catch (const std::exception & e) { fail(std::string("J08: parsing threw: ") + e.what(), x); }
    auto F = [&](const std::string & w) { fail("J08: " + w, x + "\n" + L.to_string()); };
    if (!on)
    {
      if (L.has_position_limits || L.has_velocity_limits || L.has_effort_limits || L.has_acceleration_limits || L.has_deceleration_limits || L.has_jerk_limits) F("limits stay enabled although the joint disables them");
      if (L.min_position > -D || L.max_position < D || L.max_velocity < D || L.max_effort < D || L.max_acceleration < D || L.max_deceleration < D || L.max_jerk < D) F("a finite bound stays active although the joint disables its limits");
      continue;
    }
    auto ok = [&](const I & k) { return (k.mn >= 0 || k.mx >= 0) && (k.mn < 0 || T[k.mn].ok) && (k.mx < 0 || T[k.mx].ok); };
    { const I & k = i[0]; bool had = t != 1; double l0 = had ? lo : -D, h0 = had ? hi : D;
      bool g = k.present && k.en && ok(k); double l = g && k.mn >= 0 ? std::max(l0, T[k.mn].v) : l0, h = g && k.mx >= 0 ? std::min(h0, T[k.mx].v) : h0;
      if (k.present && !k.en) { if (L.has_position_limits || L.min_position > -D || L.max_position < D) F("position limits stay active although the interface disables them"); }
      else if (L.has_position_limits != (had || g)) F("position flag");
      else if (L.has_position_limits && (L.min_position != l || L.max_position != h)) F("position bounds are not the intersection"); }
    for (int q = 1; q <= 2; ++q)
    { const I & k = i[q]; double m0 = q == 1 ? vel : eff, m = q == 1 ? L.max_velocity : L.max_effort; bool f = q == 1 ? L.has_velocity_limits : L.has_effort_limits;
      bool g = k.present && k.en && ok(k); double w = m0; if (g && k.mn >= 0) w = std::min(w, std::fabs(T[k.mn].v)); if (g && k.mx >= 0) w = std::min(w, std::fabs(T[k.mx].v));
      if (f != !(k.present && !k.en)) F(q == 1 ? "velocity flag" : "effort flag");
      if (f && m != w) F(q == 1 ? "velocity is not the least magnitude" : "effort is not the least magnitude"); }
    { const I & k = i[3]; bool g = k.present && ok(k); bool wa = g && k.en && k.mx >= 0, wd = g && k.en && k.mn >= 0;
      if (L.has_acceleration_limits != wa || L.has_deceleration_limits != wd) F("acceleration flags");
      if (wa && L.max_acceleration != std::fabs(T[k.mx].v)) F("acceleration magnitude"); if (wd && L.max_deceleration != std::fabs(T[k.mn].v)) F("deceleration magnitude"); }
    { const I & k = i[4]; bool w = k.present && k.en && ok(k) && k.mx >= 0; if (L.has_jerk_limits != w) F("jerk flag"); if (w && L.max_jerk != std::fabs(T[k.mx].v)) F("jerk magnitude"); }
    if (L.angle_wraparound != (t == 1)) F("wraparound");
  }
  std::printf("OK %ld\n", n); return 0;
}
