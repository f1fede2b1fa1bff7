// bounded exploration of the real resource manager (H06-H10): usage <prop> <seconds> <seed> [seeds]
#include "common.hpp"
#include <algorithm>
#include <list>
#include <memory>
#include <set>
#include "hardware_interface/actuator_interface.hpp"
#include "hardware_interface/resource_manager.hpp"
#include "hardware_interface/sensor_interface.hpp"
#include "hardware_interface/system_interface.hpp"
#include "pluginlib/class_loader.hpp"
using namespace vh; using namespace hardware_interface; using S = std::string; using VS = std::vector<S>; using CR = rclcpp_lifecycle::node_interfaces::LifecycleNodeInterface::CallbackReturn;
static const char * LABEL[] = {"unknown", "unconfigured", "inactive", "active", "finalized"};
static const CR RES[] = {CR::SUCCESS, CR::FAILURE, CR::ERROR};
static const return_type RT[] = {return_type::OK, return_type::ERROR, return_type::DEACTIVATE};
static VS sorted(VS v) { std::sort(v.begin(), v.end()); return v; }
static S show(const VS & v) { S s = "["; for (auto & x : v) s += (s.size() > 1 ? " " : "") + x; return s + "]"; }
struct Ask { VS start, stop; };
struct Hw
{
  S name, type, group; unsigned rate = 0; VS cmd, st; CR res[7] = {}; bool boom[7] = {}; return_type rr = return_type::OK, wr = return_type::OK, pr = return_type::OK, pf = return_type::OK; bool odd = false, rboom = false, wboom = false, pboom = false, fboom = false;
  int reads = 0, writes = 0; std::vector<Ask> prep, perf; double rperiod = 0, wperiod = 0;
  int s = 1; int64_t lastr = -1, lastw = -1; // the oracle's view
  void clear() { reads = writes = 0; prep.clear(); perf.clear(); for (auto & x : res) x = CR::SUCCESS; for (auto & x : boom) x = false; rr = wr = pr = pf = return_type::OK; rboom = wboom = pboom = fboom = false; }
};
static std::map<S, Hw> HW;
[[noreturn]] static void boom(const Hw & h) { if (h.odd) throw 7; throw std::runtime_error("driver"); }
template<class B> struct Driver : B
{
  Hw * h = nullptr;
  CR cb(int i) { if (h->boom[i]) boom(*h); return h->res[i]; }
  CR on_init(const HardwareComponentInterfaceParams & p) override { h = &HW.at(p.hardware_info.name); return B::on_init(p); }
  CR on_configure(const rclcpp_lifecycle::State &) override { return cb(1); }
  CR on_cleanup(const rclcpp_lifecycle::State &) override { return cb(2); }
  CR on_shutdown(const rclcpp_lifecycle::State &) override { return cb(3); }
  CR on_activate(const rclcpp_lifecycle::State &) override { return cb(4); }
  CR on_deactivate(const rclcpp_lifecycle::State &) override { return cb(5); }
  CR on_error(const rclcpp_lifecycle::State &) override { return cb(6); }
  return_type read(const rclcpp::Time &, const rclcpp::Duration & d) override { ++h->reads; h->rperiod = d.seconds(); if (h->rboom) boom(*h); return h->rr; }
  return_type prepare_command_mode_switch(const VS & a, const VS & b) override { h->prep.push_back({a, b}); if (h->pboom) boom(*h); return h->pr; }
  return_type perform_command_mode_switch(const VS & a, const VS & b) override { h->perf.push_back({a, b}); if (h->fboom) boom(*h); return h->pf; }
};
template<class B> struct Writer : Driver<B> { return_type write(const rclcpp::Time &, const rclcpp::Duration & d) override { auto h = this->h; ++h->writes; h->wperiod = d.seconds(); if (h->wboom) boom(*h); return h->wr; } };
struct FakeClock : rclcpp::Clock { int64_t t = 1000000000; FakeClock() : rclcpp::Clock(RCL_STEADY_TIME) {} rclcpp::Time now() const override { return rclcpp::Time(t, RCL_STEADY_TIME); } };
static void run(Rng & r, const S & prop)
{
  HW.clear(); S x = "<?xml version=\"1.0\"?><robot name=\"r\"><link name=\"a\"/><link name=\"b\"/>", y; int n = r.i(1, 4); VS order[3]; const unsigned RATE = 100; S I; VS called = {"hw", "hw1", "hw10", "hw100"}; for (int i = 3; i > 0; --i) std::swap(called[i], called[r.i(0, i)]);
  for (int i = 0; i < n; ++i)
  {
    Hw h; h.name = called[i]; int t = r.i(0, 2); h.type = t == 0 ? "actuator" : t == 1 ? "sensor" : "system"; if (r.b(.5)) h.group = r.b() ? "g1" : "g2"; order[t].push_back(h.name);
    unsigned rates[] = {0, 100, 100, 100, 50, 30, 70}; h.rate = rates[r.i(0, (prop == "H10" || r.b(.2)) ? 6 : 3)];
    I += h.name + ":" + h.type + (h.group.empty() ? "" : " in " + h.group) + (h.rate ? " at " + std::to_string(h.rate) : S()) + "; ";
    y += "<ros2_control name=\"" + h.name + "\" type=\"" + h.type + "\"" + (h.rate ? " rw_rate=\"" + std::to_string(h.rate) + "\"" : S()) + "><hardware><plugin>p</plugin>" + (h.group.empty() ? S() : "<group>" + h.group + "</group>") + "</hardware>";
    int m = t == 0 ? 1 : r.i(t == 1 ? 1 : 0, 2);
    for (int k = 0; k < m; ++k)
    {
      S j = "j" + std::to_string(i) + "_" + std::to_string(k); static const char * IF[] = {"position", "velocity", "effort"}; x += "<joint name=\"" + j + "\" type=\"continuous\"><parent link=\"a\"/><child link=\"b\"/></joint>"; y += "<" + S(t == 1 ? "sensor" : "joint") + " name=\"" + j + "\">";
      for (auto f : IF) { if (t != 1 && (r.b() || (t == 0 && f == IF[0]))) { y += S("<command_interface name=\"") + f + "\"/>"; h.cmd.push_back(j + "/" + f); } if (r.b() || f == IF[0]) { y += S("<state_interface name=\"") + f + "\"/>"; h.st.push_back(j + "/" + f); } }
      y += t == 1 ? "</sensor>" : "</joint>";
    }
    y += "</ros2_control>"; HW[h.name] = h;
  }
  // only the joints of the drivers are in the robot's structure: keep it a chain of one link pair
  x = "<?xml version=\"1.0\"?><robot name=\"r\"><link name=\"base\"/>"; { int c = 0; S parent = "base"; for (auto & [k, h] : HW) { std::set<S> js; for (auto & q : h.cmd) js.insert(q.substr(0, q.find('/'))); for (auto & q : h.st) js.insert(q.substr(0, q.find('/'))); for (auto & j : js) { S l = "l" + std::to_string(c++); x += "<link name=\"" + l + "\"/><joint name=\"" + j + "\" type=\"continuous\"><parent link=\"" + parent + "\"/><child link=\"" + l + "\"/><limit velocity=\"5\" effort=\"9\"/></joint>"; parent = l; } } }
  x += y + "</robot>";
  auto clock = std::make_shared<FakeClock>(); ResourceManagerParams par; par.robot_description = x; par.clock = clock; par.logger = rclcpp::get_logger("x"); par.update_rate = RATE; par.allow_controller_activation_with_inactive_hardware = r.b(.4); par.return_failed_hardware_names_on_return_deactivate_write_cycle_ = r.b(.8); bool allow = par.allow_controller_activation_with_inactive_hardware, namesd = par.return_failed_hardware_names_on_return_deactivate_write_cycle_;
  std::unique_ptr<ResourceManager> rmp; try { rmp = std::make_unique<ResourceManager>(par, true); } catch (const std::exception & e) { fail(prop + ": loading throws " + S(e.what()), I); } auto & rm = *rmp;
  if (!rm.are_components_initialized()) fail(prop + ": components are not initialized", x);
  for (auto & [k, h] : HW) if (h.rate == 0 || h.rate > RATE) h.rate = RATE;
  // the oracle's view of the manager
  std::map<S, return_type> grp; std::set<S> acmd, ast, known_cmd, known_st, claimed; std::map<S, VS> ctrl_ref, ctrl_st; std::list<std::pair<S, LoanedCommandInterface>> loans; VS all; std::vector<std::pair<S, CommandInterface::SharedPtr>> keep;
  for (auto & [k, h] : HW) { for (auto & q : h.cmd) known_cmd.insert(q), all.push_back(q); for (auto & q : h.st) known_st.insert(q); }
  struct Off {}; auto bad = [&](const S & p, const S & w) { if (p != prop) throw Off(); fail(p + ": " + w, I); }; // another property's check reports the rest
  auto withdraw = [&](Hw & h) { for (auto & q : h.cmd) acmd.erase(q); for (auto & q : h.st) ast.erase(q); };
  auto on_error = [&](Hw & h) { if (h.s == 1 || h.s == 0) return; h.s = h.boom[6] ? h.s : h.res[6] == CR::SUCCESS ? 1 : 4; };
  // a transition: throws are caught by the manager and leave the state as it is
  auto trans = [&](Hw & h, int cb, int ok, int fl, bool fl_err) { if (h.boom[cb]) return false; if (h.res[cb] == CR::SUCCESS) h.s = ok; else if (h.res[cb] == CR::FAILURE && !fl_err) h.s = fl; else on_error(h); return h.s == ok; };
  auto sync = [&](Hw & h) { if (h.s != 2 && h.s != 3) withdraw(h); };
  auto configure = [&](Hw & h) { bool b = trans(h, 1, 2, 1, false); if (b) { for (auto & q : h.cmd) acmd.insert(q); for (auto & q : h.st) ast.insert(q); } if (!h.group.empty()) grp[h.group] = return_type::OK; return b; };
  auto cleanup = [&](Hw & h) { bool b = trans(h, 2, 1, 1, true); sync(h); if (!h.group.empty()) grp[h.group] = return_type::OK; return b; };
  auto shutdown = [&](Hw & h) { bool b = trans(h, 3, 4, 4, true); sync(h); if (b && !h.group.empty()) grp[h.group] = return_type::OK; return b; };
  auto activate = [&](Hw & h) { bool b = trans(h, 4, 3, 2, false); h.lastr = h.lastw = -1; sync(h); return b; };
  auto deactivate = [&](Hw & h) { bool b = trans(h, 5, 2, 3, false); sync(h); return b; };
  auto set_state = [&](Hw & h, int to) { if (to == h.s) return true; if (h.s == 4) return false; switch (to) { case 1: return h.s == 2 ? cleanup(h) : deactivate(h) && cleanup(h); case 2: return h.s == 1 ? configure(h) : deactivate(h); case 3: return h.s == 1 ? configure(h) && activate(h) : activate(h); default: return h.s == 3 ? deactivate(h) && shutdown(h) : shutdown(h); } };
  auto check = [&](const S & P)
  {
    VS a = rm.available_command_interfaces(), b = rm.available_state_interfaces();
    auto cmp = [&](VS got, const std::set<S> & want, const char * w) { VS g = sorted(got); if (std::adjacent_find(g.begin(), g.end()) != g.end()) bad(P, S(w) + " interface listed twice " + show(g)); if (g != VS(want.begin(), want.end())) bad(P, S("available ") + w + " interfaces " + show(g) + " instead of " + show(VS(want.begin(), want.end()))); };
    cmp(a, acmd, "command"); cmp(b, ast, "state");
    for (auto & q : all) { if (rm.command_interface_is_available(q) != (acmd.count(q) > 0)) bad(P, "availability of " + q); if (rm.command_interface_is_claimed(q) != (acmd.count(q) && claimed.count(q))) bad("H06", "claim of " + q); }
    for (auto & [k, i] : rm.get_components_status()) if (i.state.id() != HW.at(k).s) bad(P, k + " is " + i.state.label() + " instead of " + LABEL[HW.at(k).s]);
  };
  int steps = r.i(2, 25); bool wild = r.b(.5);
  for (int st = 0; st < steps; ++st)
  {
    clock->t += 10000000; if (r.b(.2)) clock->t += r.i(-4000000, 15000000);
    for (auto & [k, h] : HW) { h.clear(); double q = wild ? .12 : .03; for (auto & c : h.res) if (r.b(q)) c = RES[r.i(1, 2)]; for (auto & c : h.boom) c = r.b(q / 4); h.boom[6] = false; h.odd = r.b(); if (r.b(q)) h.rr = RT[r.i(1, 2)]; if (r.b(q)) h.wr = RT[r.i(1, 2)]; if (r.b(q)) h.pr = RT[r.i(1, 2)]; if (r.b(q)) h.pf = RT[r.i(1, 2)]; h.rboom = r.b(q / 3); h.wboom = r.b(q / 3); h.pboom = r.b(q / 3); h.fboom = r.b(q / 3); }
    auto some = [&]() -> Hw & { auto it = HW.begin(); std::advance(it, r.i(0, n - 1)); return it->second; };
    auto faults = [&] { S s; for (auto & [k, h] : HW) { for (int i = 1; i < 7; ++i) if (h.res[i] != CR::SUCCESS || h.boom[i]) s += " " + k + (h.boom[i] ? " throws at " : h.res[i] == CR::FAILURE ? " fails " : " errs at ") + std::to_string(i); auto f = [&](return_type v, bool b, const char * w) { if (v != return_type::OK || b) s += " " + k + " " + w + (b ? " throws" : v == return_type::ERROR ? " errs" : " asks to deactivate"); }; f(h.rr, h.rboom, "read"); f(h.wr, h.wboom, "write"); f(h.pr, h.pboom, "prepare"); f(h.pf, h.fboom, "perform"); } return s.empty() ? s : " (" + s.substr(1) + ")"; };
    int op = st < n && r.b(.6) ? 0 : r.i(0, 11);
    try { switch (op)
    {
      case 0: case 1: { Hw & h = st < n && op == 0 && r.b(.8) ? std::next(HW.begin(), st % n)->second : some(); int to = st < n ? (r.b(.7) ? 3 : 2) : r.i(1, 4) ; if (to == 4 && r.b(.7)) to = 3; bool byname = r.b(.3); I += " set " + h.name + " " + LABEL[to] + faults() + ";"; rclcpp_lifecycle::State tgt(byname ? 0 : to, byname ? LABEL[to] : r.b() ? LABEL[to] : "x"); bool w = set_state(h, to); bool g = rm.set_component_state(h.name, tgt) == return_type::OK; if (g != w) bad("H09", h.name + (g ? " is reported as changed" : " is reported as not changed")); check("H09"); break; }
      case 2: case 3: { S k = r.b(.05) || all.empty() ? "nothing/here" : all[r.i(0, all.size() - 1)]; I += " claim " + k + ";"; bool w = acmd.count(k) && !claimed.count(k), g = true; try { loans.emplace_back(k, rm.claim_command_interface(k)); if (loans.back().second.get_name() != k) bad("H06", "another interface is loaned"); claimed.insert(k); } catch (const std::runtime_error &) { g = false; } if (g != w) bad("H06", k + (g ? " is claimed although it is not free" : " is refused although it is free")); check("H06"); break; }
      case 4: { if (loans.empty()) break; int i = r.i(0, loans.size() - 1); auto it = std::next(loans.begin(), i); I += " release " + it->first + ";"; claimed.erase(it->first); loans.erase(it); check("H06"); break; }
      case 5: case 6:
      {
        bool prep = op == 5; VS a, b; VS pool(acmd.begin(), acmd.end()); auto pick = [&](VS & v) { int m = r.i(0, 3); for (int i = 0; i < m; ++i) { S k = r.b(.04) ? "nothing/here" : r.b(.05) && !all.empty() ? all[r.i(0, all.size() - 1)] : pool.empty() ? S() : pool[r.i(0, pool.size() - 1)]; if (!k.empty() && std::find(v.begin(), v.end(), k) == v.end()) v.push_back(k); } }; pick(a); pick(b); I += S(prep ? " prepare " : " perform ") + show(a) + show(b) + faults() + ";";
        bool want = true, asked = true; if (a.empty() && b.empty()) asked = false; if (prep && asked) for (auto v : {&a, &b}) for (auto & k : *v) if (!known_cmd.count(k) || !acmd.count(k)) want = asked = false;
        struct W { VS a, b; }; std::map<S, W> must; std::set<S> may; // a component whose start interfaces meet an inactive state refuses for all of its type
        if (asked) for (int t : {0, 2}) { bool gone = false; for (auto & nm : order[t]) { Hw & h = HW[nm]; W w; for (auto & k : a) if (std::find(h.cmd.begin(), h.cmd.end(), k) != h.cmd.end()) w.a.push_back(k); for (auto & k : b) if (std::find(h.cmd.begin(), h.cmd.end(), k) != h.cmd.end()) w.b.push_back(k); if (w.a.empty() && w.b.empty()) continue; if (h.s == 2 && !allow && !w.a.empty()) { want = false; gone = true; continue; } if (h.s != 2 && h.s != 3) { want = false; continue; } if (gone) may.insert(nm); must[nm] = w; if (!gone && ((prep ? h.pr : h.pf) != return_type::OK || (prep ? h.pboom : h.fboom))) want = false; } }
        bool got = prep ? rm.prepare_command_mode_switch(a, b) : rm.perform_command_mode_switch(a, b);
        if (got != want) bad("H07", S(prep ? "preparing" : "performing") + (got ? " is reported as accepted" : " is reported as refused"));
        for (auto & [k, h] : HW) { auto & l = prep ? h.prep : h.perf; if (!(prep ? h.perf : h.prep).empty()) bad("H07", k + " is asked for the other step"); if (!must.count(k)) { if (!l.empty()) bad("H07", k + " is asked"); continue; } if (l.empty() && may.count(k)) continue; if (l.size() != 1) bad("H07", k + " is asked " + std::to_string(l.size()) + " times"); if (sorted(l[0].start) != sorted(must[k].a) || sorted(l[0].stop) != sorted(must[k].b)) bad("H07", k + " is asked for " + show(l[0].start) + show(l[0].stop) + " instead of " + show(must[k].a) + show(must[k].b)); }
        check("H07"); break;
      }
      case 7: case 8: case 9: case 10:
      {
        bool rd = op < 9; I += S(rd ? " read" : " write") + faults() + ";"; VS names; return_type want = return_type::OK; std::map<S, int> calls; std::map<S, double> per; double P = .01 + r.i(0, 3) * 1e-4;
        for (int t : {0, 1, 2}) { if (!rd && t == 1) continue; for (auto & nm : order[t]) {
          Hw & h = HW[nm]; return_type ret = return_type::OK; int64_t & last = rd ? h.lastr : h.lastw; bool called = true; double pd = P;
          if (h.rate != RATE) { pd = last >= 0 ? double(clock->t - last) * 1e-9 : double(int64_t(1e9 / h.rate)) * 1e-9; double now = std::abs(pd * h.rate - 1), later = std::abs((pd + 1.0 / RATE) * h.rate - 1); if (std::abs(now - later) < 1e-6) { calls[nm] = -1; } called = now <= later; }
          if (calls.count(nm)) called = rd ? true : true; // decided below by what happened
          bool enter = called && (rd ? h.s == 2 || h.s == 3 : h.s == 3); if (!calls.count(nm)) calls[nm] = enter; per[nm] = pd;
          (void)ret; } }
        auto got = rd ? rm.read(clock->now(), rclcpp::Duration::from_seconds(P)) : rm.write(clock->now(), rclcpp::Duration::from_seconds(P)); bool tie = false;
        for (auto & [k, c] : calls) if (c == -1) tie = true; if (tie) return; // on the boundary between two cycles either is right
        for (auto & [k, h] : HW) { int c = calls.count(k) ? calls[k] : 0; if ((rd ? h.reads : h.writes) != c || (rd ? h.writes : h.reads) != 0) bad(h.rate != RATE ? "H10" : "H08", k + " is " + (rd ? "read " : "written ") + std::to_string(rd ? h.reads : h.writes) + " times instead of " + std::to_string(c)); if (c && std::abs((rd ? h.rperiod : h.wperiod) - per[k]) > 2e-9) bad("H10", k + " is given the period " + num(rd ? h.rperiod : h.wperiod) + " instead of " + num(per[k])); }
        for (int t : {0, 1, 2}) { if (!rd && t == 1) continue; for (auto & nm : order[t]) {
          Hw & h = HW[nm]; return_type ret = return_type::OK; bool c = calls[nm] > 0; int s0 = h.s;
          bool due = h.rate == RATE || [&] { double pd = per[nm]; return std::abs(pd * h.rate - 1) <= std::abs((pd + 1.0 / RATE) * h.rate - 1); }();
          if (c) { if (rd ? h.rboom : h.wboom) ret = return_type::ERROR; else { ret = rd ? h.rr : h.wr; if (ret == return_type::ERROR) on_error(h); } }
          if (due && !(c && (rd ? h.rboom : h.wboom)) && (rd || s0 != 2)) (rd ? h.lastr : h.lastw) = clock->t;
          if (!h.group.empty()) { if (ret != return_type::OK) grp[h.group] = ret; ret = grp[h.group]; }
          if (ret == return_type::ERROR || (rd && ret != return_type::OK)) { on_error(h); withdraw(h); names.push_back(nm); want = return_type::ERROR; }
          else if (ret == return_type::DEACTIVATE) { if (h.s == 3) set_state(h, 2); if (namesd) names.push_back(nm); if (want == return_type::OK) want = ret; } } }
        if (got.result != want) bad("H08", "the cycle reports " + std::to_string(int(got.result)) + " instead of " + std::to_string(int(want))); if (got.failed_hardware_names != names) bad("H08", "failed components " + show(got.failed_hardware_names) + " instead of " + show(names)); check("H08"); break;
      }
      default:
      {
        S c = r.b() ? "ctrl" : "ctrl2"; int q = r.i(0, 3); I += " " + c + "#" + std::to_string(q) + ";";
        if (q == 0 && !ctrl_ref.count(c)) { int m = r.i(1, 3); std::vector<CommandInterface::SharedPtr> v; std::vector<StateInterface::ConstSharedPtr> w; S pre = r.b(.3) ? "ctrl" : c, suf = c == "ctrl" ? "" : "_b"; static const char * NR[] = {"", "1", "10"}; int first = r.i(0, 2);
          for (int i = 0; i < m; ++i) { S rn = S("ref") + NR[(i + first) % 3] + suf, sn = S("st") + NR[(i + first) % 3] + suf; v.push_back(std::make_shared<CommandInterface>(pre, rn, "double", "0")); w.push_back(std::make_shared<const StateInterface>(pre, sn, "double", "0")); ctrl_ref[c].push_back(pre + "/" + rn); ctrl_st[c].push_back(pre + "/" + sn); if (std::find(all.begin(), all.end(), ctrl_ref[c].back()) == all.end()) all.push_back(ctrl_ref[c].back()); } rm.import_controller_reference_interfaces(c, v); rm.import_controller_exported_state_interfaces(c, w); for (auto & k : ctrl_ref[c]) known_cmd.insert(k); if (rm.get_controller_reference_interface_names(c) != ctrl_ref[c]) bad("H09", "reference interfaces of " + c); }
        else if (q == 1 && ctrl_ref.count(c)) { rm.make_controller_reference_interfaces_available(c); rm.make_controller_exported_state_interfaces_available(c); for (auto & k : ctrl_ref[c]) acmd.insert(k); for (auto & k : ctrl_st[c]) ast.insert(k); }
        else if (q == 2 && ctrl_ref.count(c)) { rm.make_controller_reference_interfaces_unavailable(c); rm.make_controller_exported_state_interfaces_unavailable(c); for (auto & k : ctrl_ref[c]) acmd.erase(k); for (auto & k : ctrl_st[c]) ast.erase(k); }
        else if (q == 3 && ctrl_ref.count(c)) { bool held = false; for (auto & k : ctrl_ref[c]) held |= claimed.count(k) > 0 || acmd.count(k) > 0; if (held) break; for (auto & k : ctrl_ref[c]) known_cmd.erase(k); rm.remove_controller_reference_interfaces(c); rm.remove_controller_exported_state_interfaces(c); ctrl_ref.erase(c); ctrl_st.erase(c); }
        check("H09");
      }
    } }
    catch (const std::exception & e) { fail(prop + ": throws " + e.what(), I); }
    catch (int) { fail(prop + ": throws", I); }
    catch (const Off &) { return; }
  }
}
int main(int, char ** av)
{
  S p = av[1]; double secs = std::atof(av[2]); Rng r(std::strtoull(av[3], nullptr, 10)); Clock c; long n = 0; if (!freopen("/dev/null", "w", stderr)) {}
  pluginlib::ClassLoader<ActuatorInterface>::reg()["p"] = [] { return new Writer<ActuatorInterface>; }; pluginlib::ClassLoader<SensorInterface>::reg()["p"] = [] { return new Driver<SensorInterface>; }; pluginlib::ClassLoader<SystemInterface>::reg()["p"] = [] { return new Writer<SystemInterface>; };
  while (c.s() < secs && n < 2000000) { ++n; run(r, p); } std::printf("OK %ld\n", n);
}
