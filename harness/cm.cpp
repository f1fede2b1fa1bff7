// bounded exploration of the real controller manager (C05, C06): usage <prop> <seconds> <seed> [seeds]
#include "common.hpp"
#include <algorithm>
#include <atomic>
#include <memory>
#include <set>
#include <thread>
#include "controller_interface/chainable_controller_interface.hpp"
#include "controller_interface/controller_interface.hpp"
#include "controller_manager/controller_manager.hpp"
#include "controller_manager/controller_manager_parameters.hpp"
#include "hardware_interface/system_interface.hpp"
#include "pluginlib/class_loader.hpp"
using namespace vh; using S = std::string; using VS = std::vector<S>; using hardware_interface::return_type;
namespace ci = controller_interface; using CR = ci::CallbackReturn; using IC = ci::InterfaceConfiguration; using IT = ci::interface_configuration_type;
static std::atomic<int> HWASK{0}; static std::atomic<bool> REJECT{false};
struct Hw : hardware_interface::SystemInterface
{
  return_type read(const rclcpp::Time &, const rclcpp::Duration &) override { return return_type::OK; }
  return_type write(const rclcpp::Time &, const rclcpp::Duration &) override { return return_type::OK; }
  return_type prepare_command_mode_switch(const VS &, const VS &) override { ++HWASK; return REJECT ? return_type::ERROR : return_type::OK; }
  return_type perform_command_mode_switch(const VS &, const VS &) override { ++HWASK; return return_type::OK; }
};
struct Me
{
  S name; bool chainable = false; int rate = 0; VS cmd, st; IT ct = IT::INDIVIDUAL, stt = IT::INDIVIDUAL; int refs = 0, states = 0;
  int calls = 0; double period = 0; bool boom = false, odd = false; ci::return_type ret = ci::return_type::OK; std::atomic<int> changes{0}, ups{0}, downs{0};
  int s = 1; int64_t last = -1; bool vague = false, async = false, maybe = false; std::set<S> needs; int eff = 0; VS fallback; ci::ControllerInterfaceBase * c = nullptr;
  ci::return_type go(const rclcpp::Duration & d) { ++calls; period = d.seconds(); if (boom) { if (odd) throw 7; throw std::runtime_error("controller"); } return ret; }
};
static std::map<S, Me> CT;
template<class B> struct Base : B
{
  Me * m = nullptr;
  CR on_init() override { m = &CT.at(this->get_node()->get_name()); m->c = this; return CR::SUCCESS; }
  CR on_configure(const rclcpp_lifecycle::State &) override { return CR::SUCCESS; }
  CR on_activate(const rclcpp_lifecycle::State &) override { ++m->changes; ++m->ups; return CR::SUCCESS; }
  CR on_deactivate(const rclcpp_lifecycle::State &) override { ++m->changes; ++m->downs; return CR::SUCCESS; }
  IC command_interface_configuration() const override { return {m->ct, m->cmd}; }
  IC state_interface_configuration() const override { return {m->stt, m->st}; }
};
struct Plain : Base<ci::ControllerInterface> { ci::return_type update(const rclcpp::Time &, const rclcpp::Duration & d) override { return m->go(d); } };
struct Chain : Base<ci::ChainableControllerInterface>
{
  std::vector<hardware_interface::CommandInterface> on_export_reference_interfaces() override { reference_interfaces_.assign(m->refs, 0.0); std::vector<hardware_interface::CommandInterface> v; for (int i = 0; i < m->refs; ++i) v.emplace_back(m->name, "r" + std::to_string(i), &reference_interfaces_[i]); return v; }
  std::vector<hardware_interface::StateInterface> on_export_state_interfaces() override { state_interfaces_values_.assign(m->states, 0.0); std::vector<hardware_interface::StateInterface> v; for (int i = 0; i < m->states; ++i) v.emplace_back(m->name, "s" + std::to_string(i), &state_interfaces_values_[i]); return v; }
  ci::return_type update_reference_from_subscribers(const rclcpp::Time &, const rclcpp::Duration & d) override { return ci::return_type::OK; }
  ci::return_type update_and_write_commands(const rclcpp::Time &, const rclcpp::Duration & d) override { return m->go(d); }
  bool on_set_chained_mode(bool) override { ++m->changes; return true; }
};
static S show(const VS & v) { S s = "["; for (auto & x : v) s += (s.size() > 1 ? " " : "") + x; return s + "]"; }
static const char * LABEL[] = {"unknown", "unconfigured", "inactive", "active", "finalized"};
struct Hang {};
static void run(Rng & r, const S & prop)
{
  CT.clear(); const int RATE = r.b(.7) ? 100 : r.i(20, 1000); S I = "manager at " + std::to_string(RATE) + " Hz; "; int n = r.i(1, 5); const char * NM[] = {"c", "ca", "b", "ctl", "a"}; VS names(NM, NM + 5); for (int i = 4; i > 0; --i) std::swap(names[i], names[r.i(0, i)]); names.resize(n);
  for (int i = 0; i < n; ++i)
  {
    Me & m = CT[names[i]]; m.name = names[i]; m.chainable = r.b(.65); if (m.chainable) { m.refs = r.i(0, 2); m.states = r.i(m.refs ? 0 : 1, 1); } int rs[] = {0, RATE, RATE / 2, RATE / 3, RATE / 10, r.i(1, RATE), RATE * 2}; m.rate = rs[prop == "C05" ? r.i(0, 6) : 0];
    for (int j = 0; j < i; ++j) { Me & o = CT[names[j]]; if (!o.chainable || r.b(.55)) continue; int k = r.i(1, 3); if (k & 1) for (int q = 0; q < o.refs; ++q) if (r.b(.7)) m.cmd.push_back(o.name + "/r" + std::to_string(q)); if (k & 2) for (int q = 0; q < o.states; ++q) m.st.push_back(o.name + "/s" + std::to_string(q)); }
    for (auto * v : {&m.cmd, &m.st}) for (auto & q : *v) m.needs.insert(q.substr(0, q.find('/')));
    if (r.b(.6)) m.cmd.push_back("j" + std::to_string(r.b(.85) ? i : 0) + "/position"); if (r.b()) m.st.push_back("j0/position"); std::random_shuffle(m.cmd.begin(), m.cmd.end(), [&](int k) { return r.i(0, k - 1); });
    if (m.cmd.empty() && r.b()) m.ct = IT::NONE; if (m.st.empty() && r.b()) m.stt = IT::NONE;
  }
  VS order = names; for (int i = n - 1; i > 0; --i) std::swap(order[i], order[r.i(0, i)]);
  S x = "<?xml version=\"1.0\"?><robot name=\"r\"><link name=\"base\"/>", y; for (int i = 0; i < 5; ++i) { S j = "j" + std::to_string(i); x += "<link name=\"l" + j + "\"/><joint name=\"" + j + "\" type=\"continuous\"><parent link=\"base\"/><child link=\"l" + j + "\"/></joint>"; y += "<joint name=\"" + j + "\"><command_interface name=\"position\"/><state_interface name=\"position\"/></joint>"; }
  x += "<ros2_control name=\"hw\" type=\"system\"><hardware><plugin>p</plugin></hardware>" + y + "</ros2_control></robot>";
  auto clock = std::make_shared<rclcpp::Clock>(RCL_STEADY_TIME); int64_t & now = rclcpp::Clock::fake(); now = 1000000000LL + r.i(0, 1000);
  auto & P = controller_manager::ParamListener::preset(); P = {}; P.update_rate = RATE; P.enforce_command_limits = false; P.defaults.switch_controller.strictness = r.b() ? "strict" : "best_effort";
  hardware_interface::ResourceManagerParams par; par.robot_description = x; par.clock = clock; par.logger = rclcpp::get_logger("x"); par.update_rate = RATE; par.activate_all = true;
  rclcpp::NodeOptions no; no.parameter_overrides() = {rclcpp::Parameter("use_sim_time", false)};
  controller_manager::ControllerManager cm(std::make_unique<hardware_interface::ResourceManager>(par, true), std::make_shared<rclcpp::Executor>(), "cm", "", no);
  for (auto & [k, m] : CT) I += k + (m.chainable ? " (chainable " + std::to_string(m.refs) + "," + std::to_string(m.states) + ")" : "") + (m.rate ? " at " + std::to_string(m.rate) : S()) + " cmd " + show(m.cmd) + " state " + show(m.st) + "; ";
  for (auto & k : order) { controller_manager::ControllerSpec sp; sp.info.name = k; sp.info.type = "t"; if (CT[k].chainable) sp.c = std::make_shared<Chain>(); else sp.c = std::make_shared<Plain>(); if (!cm.add_controller(sp)) fail("adding", I); }
  std::set<S> left; for (auto & k : order) { Me & m = CT[k]; if (r.b(.06)) { left.insert(k); I += k + " stays unconfigured; "; continue; } if (m.rate) m.c->get_node()->get_node_parameters_interface()->params["update_rate"] = rclcpp::ParameterValue(m.rate); if (r.b(.3)) { m.c->get_node()->get_node_parameters_interface()->params["is_async"] = rclcpp::ParameterValue(true); m.async = true; I += k + " is asynchronous; "; } if (cm.configure_controller(k) != ci::return_type::OK) fail(prop + ": configuring " + k, I); m.s = 2; m.eff = m.c->get_update_rate(); }
  auto state = [&](Me & m) { return int(m.c->get_lifecycle_state().id()); };
  bool outside = false; auto sync = [&] { for (auto & [k, m] : CT) { int t = state(m); if (m.ups) { m.ups = 0; m.last = -1; m.vague = outside; } m.s = t; } };
  auto group = [&](const S & k) { std::set<S> g{k}; bool more = true; while (more) { more = false; for (auto & [a, m] : CT) for (auto & b : m.needs) if (!left.count(a) && g.count(a) != g.count(b)) { g.insert(a); g.insert(b); more = true; } } return g; };
  bool switching = false, quiet = false; std::atomic<bool> done{false};
  auto cycle = [&](bool oracle)
  {
    int64_t dt = 1000000000LL / RATE; if (r.b(.3)) dt += r.i(-int(dt / 3), int(dt / 3)); if (!switching || r.b(.3)) now += dt; double per = double(dt) * 1e-9;
    for (auto & [k, m] : CT) { m.calls = 0; m.downs = 0; m.boom = m.odd = false; m.ret = ci::return_type::OK; if (!quiet && oracle && prop == "C05" && r.b(.04) && m.s == 3) { if (r.b()) m.boom = true, m.odd = r.b(); else m.ret = ci::return_type::ERROR; I += " " + k + (m.boom ? " throws;" : " errs;"); } }
    sync(); std::map<S, int> was; for (auto & [k, m] : CT) was[k] = m.s;
    bool & busy = realtime_tools::AsyncFunctionHandler<ci::return_type>::busy(); busy = oracle && r.b(.1); if (busy) I += " the asynchronous ones are busy;";
    ci::return_type ret; try { ret = cm.update(rclcpp::Time(now, RCL_STEADY_TIME), rclcpp::Duration::from_seconds(per)); } catch (const std::exception & e) { fail(prop + ": update throws " + e.what(), I); } catch (...) { fail(prop + ": update throws", I); }
    if (!oracle || prop != "C05") { for (auto & [k, m] : CT) if (m.calls) m.last = now; sync(); return; }
    bool failed = false;
    for (auto & [k, m] : CT)
    {
      bool act = was[k] == 3, first = m.last < 0, full = m.eff >= RATE; if (act && m.async && busy) { if (m.calls) fail("C05: " + k + " is updated twice at a time", I); continue; } if (act && (m.vague || m.maybe)) { if (m.calls) m.last = now, m.vague = false; else { m.calls = 0; } if (m.boom || m.ret != ci::return_type::OK) failed = failed || m.calls; continue; } if (!act) { if (m.calls) fail("C05: " + k + " is " + LABEL[was[k]] + " and is updated", I); continue; }
      double want = first ? (full ? per : double(int64_t(1e9 * (1.0 / m.eff))) * 1e-9) : double(now - m.last) * 1e-9, a = std::abs(want * m.eff - 1), b = std::abs((want + 1.0 / RATE) * m.eff - 1); int go = full || first || a <= b; if (!full && !first && std::abs(a - b) < 1e-6) go = m.calls;
      if (m.calls != go) fail("C05: " + k + (m.calls ? " is updated before its cycle" : " is not updated") + " after " + num(want) + " s", I);
      if (go) { if (std::abs(m.period - want) > 2e-9) fail("C05: " + k + " is told " + num(m.period) + " s instead of " + num(want), I); m.last = now; if (m.boom || m.ret != ci::return_type::OK) { failed = true; for (auto & q : group(k)) if (was[q] == 3 && !CT[q].downs) fail("C05: " + k + " fails but " + q + " of its chain stays active", I); } }
    }
    if (failed != (ret != ci::return_type::OK)) fail("C05: the cycle reports " + S(failed ? "no failure" : "a failure"), I);
    if (!switching && !failed) for (auto & [k, m] : CT) if (state(m) != was[k]) fail("C05: " + k + " turns " + LABEL[state(m)], I);
    sync();
  };
  cycle(false);
  int steps = r.i(1, prop == "C05" ? 6 : 8);
  for (int st = 0; st < steps; ++st)
  {
    if (st && r.b(prop == "C05" ? .5 : .1)) { int k = r.i(1, 15); I += " " + std::to_string(k) + " cycles;"; for (int i = 0; i < k; ++i) cycle(true); continue; }
    // a switch: the request is served while the cycle runs
    VS up, down; double pu = r.r(.1, .8), pd = r.r(.05, .6); for (auto & k : names) { Me & m = CT[k]; bool a = m.s == 3; if (r.b(a ? .06 : st ? pu : .8)) up.push_back(k); if (r.b(a ? pd : .04)) down.push_back(k); if (prop == "C06" && a && r.b(.1)) up.push_back(k), down.push_back(k); }
    for (auto * v : {&up, &down}) { for (int i = int(v->size()) - 1; i > 0; --i) std::swap((*v)[i], (*v)[r.i(0, i)]); VS u; for (auto & k : *v) if (std::find(u.begin(), u.end(), k) == u.end()) u.push_back(k); *v = u; }
    if (up.empty() && down.empty()) continue; bool strict = r.b(), asap = r.b(.75); I += S(strict ? " strict" : " best effort") + " activate " + show(up) + " deactivate " + show(down) + (asap ? ";" : " outside the cycle;"); REJECT = r.b(.1); if (REJECT) I += " the hardware rejects it;";
    std::map<S, int> was; for (auto & [k, m] : CT) was[k] = m.s, m.changes = 0; HWASK = 0;
    for (auto & [k, m] : CT) m.maybe = m.async; std::map<S, bool> mode; for (auto & [k, m] : CT) mode[k] = m.c->is_in_chained_mode();
    ci::return_type ret; std::atomic<bool> hung{false}; switching = true; outside = !asap; done = false; S thrown;
    std::thread t([&] { try { ret = cm.switch_controller(up, down, strict ? 2 : 1, asap, rclcpp::Duration::from_seconds(5)); } catch (const std::exception & e) { thrown = e.what(); } done = true; });
    Clock w; while (!done) { cycle(asap); if (w.s() > 4.5) hung = true; std::this_thread::yield(); } t.join(); for (auto & [k, m] : CT) m.maybe = false; sync(); switching = outside = false; if (hung) return; if (thrown != "") fail(prop + ": switching throws " + thrown, I);
    auto in = [](const VS & v, const S & k) { return std::find(v.begin(), v.end(), k) != v.end(); };
    if (prop != "C06") continue;
    // what has to be refused: a needed controller neither stays or becomes active; one another needs goes
    S why; for (auto & k : up) for (auto & b : CT[k].needs) if (was[b] == 3 ? in(down, b) && !in(up, b) : !in(up, b)) if (was[k] == 2 || (was[k] == 3 && in(down, k))) why = k + " is to be activated without " + b;
    for (auto & [k, m] : CT) for (auto & b : m.needs) if (in(down, b) && was[b] == 3 && !in(up, b)) if (was[k] == 3 && !in(down, k) || was[k] == 2 && in(up, k) && !left.count(k)) why = b + " is to be deactivated while " + k + " needs it";
    if (strict && why != "" && ret == ci::return_type::OK) fail("C06: not refused although " + why, I);
    if (strict && (ret != ci::return_type::OK || why != "")) { S ch; for (auto & [k, m] : CT) if (m.changes || m.s != was[k] || m.c->is_in_chained_mode() != mode[k]) ch += " " + k; if (why != "" && (ch != "" || HWASK)) fail("C06: refused (" + why + ") after changing" + ch + (HWASK ? " the hardware" : ""), I); if (HWASK == 0 && ch != "") fail("C06: refused after changing" + ch, I); }
    for (auto & [k, m] : CT) if (m.s == 3) for (auto & b : m.needs) if (CT[b].s != 3) fail("C06: " + k + " is active but " + b + ", which it needs, is " + LABEL[CT[b].s], I);
    for (auto & [k, m] : CT) if (!in(up, k) && !in(down, k) && (m.s == 3) != (was[k] == 3)) fail("C06: " + k + " was not asked for and is " + LABEL[m.s], I);
  }
}
int main(int, char ** av)
{
  S p = av[1]; double secs = std::atof(av[2]); Rng r(std::strtoull(av[3], nullptr, 10)); Clock c; long n = 0; if (!std::getenv("SHOW") && !freopen("/dev/null", "w", stderr)) {}
  pluginlib::ClassLoader<hardware_interface::SystemInterface>::reg()["p"] = [] { return new Hw; };
  while (c.s() < secs && n < 2000000) { ++n; run(r, p); } std::printf("OK %ld\n", n);
}
