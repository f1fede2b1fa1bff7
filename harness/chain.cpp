// bounded exploration of the real controller base classes (C04): usage <prop> <seconds> <seed> [seeds]
#include "common.hpp"
#include <memory>
#include <set>
#include "controller_interface/chainable_controller_interface.hpp"
using namespace vh; using namespace controller_interface; using S = std::string; using hardware_interface::StateInterface; using hardware_interface::CommandInterface;
struct Ctl : ChainableControllerInterface
{
  std::vector<S> calls; return_type rr = return_type::OK, wr = return_type::OK; bool agree = true, asked = false, bad = false; S why; CallbackReturn res = CallbackReturn::SUCCESS, err = CallbackReturn::SUCCESS; int flips = 0; int want_mode = -1; bool default_exports = false, resize = true;
  std::vector<std::pair<S, S>> so, sn, ro, rn;
  std::vector<double> vals = std::vector<double>(64);
  void at(const rclcpp_lifecycle::State & p, int trans) { if (p.id() == trans || get_lifecycle_state().id() != trans) { bad = true; why = "callback outside its transition"; } if (get_lifecycle_id() != trans) { bad = true; why = "state " + std::to_string(get_lifecycle_id()) + " reported during transition " + std::to_string(trans); } }
  CallbackReturn on_init() override { return CallbackReturn::SUCCESS; }
  CallbackReturn on_configure(const rclcpp_lifecycle::State & p) override { at(p, 10); if (default_exports) { exported_state_interface_names_ = {"a", "b"}; exported_reference_interface_names_ = {"c"}; } return res; }
  CallbackReturn on_cleanup(const rclcpp_lifecycle::State & p) override { at(p, 11); return res; }
  CallbackReturn on_shutdown(const rclcpp_lifecycle::State & p) override { at(p, 12); return res; }
  CallbackReturn on_activate(const rclcpp_lifecycle::State & p) override { at(p, 13); return res; }
  CallbackReturn on_deactivate(const rclcpp_lifecycle::State & p) override { at(p, 14); return res; }
  CallbackReturn on_error(const rclcpp_lifecycle::State & p) override { at(p, 15); return err; }
  InterfaceConfiguration command_interface_configuration() const override { return {}; }
  InterfaceConfiguration state_interface_configuration() const override { return {}; }
  bool on_set_chained_mode(bool m) override { asked = true; want_mode = m; return agree; }
  return_type update_reference_from_subscribers(const rclcpp::Time &, const rclcpp::Duration &) override { calls.push_back("references"); return rr; }
  return_type update_and_write_commands(const rclcpp::Time &, const rclcpp::Duration &) override { calls.push_back("commands"); return wr; }
  std::vector<StateInterface> on_export_state_interfaces() override { std::vector<StateInterface> v; for (auto & [p, n] : so) v.emplace_back(p, n, &vals[0]); return v; }
  std::vector<StateInterface::SharedPtr> on_export_state_interfaces_list() override { return list<StateInterface>(sn); }
  std::vector<CommandInterface> on_export_reference_interfaces() override { reference_interfaces_.assign(ro.size() + (resize ? 0 : 1), 0.0); std::vector<CommandInterface> v; for (auto & [p, n] : ro) v.emplace_back(p, n, &vals[0]); return v; }
  std::vector<CommandInterface::SharedPtr> on_export_reference_interfaces_list() override { return list<CommandInterface>(rn); }
  template<class T> static std::vector<std::shared_ptr<T>> list(const std::vector<std::pair<S, S>> & l) { std::vector<std::shared_ptr<T>> v; for (auto & [p, n] : l) { hardware_interface::InterfaceInfo i; i.name = n.substr(n.find('/') + 1); i.data_type = "double"; v.push_back(std::make_shared<T>(hardware_interface::InterfaceDescription(p, i))); } return v; }
  template<class T, class M> static S held(const std::vector<T> & r, const M & m, const std::vector<S> & names) { if (m.size() != r.size() || names.size() != r.size()) return "another number is kept"; for (size_t i = 0; i < r.size(); ++i) { auto it = m.find(r[i]->get_name()); if (it == m.end() || it->second != r[i]) return "not kept under its name"; if (names[i] != r[i]->get_name()) return "another name is kept"; } return ""; }
  S held_state(const std::vector<StateInterface::ConstSharedPtr> & r) { return held(r, exported_state_interfaces_, exported_state_interface_names_); }
  S held_ref(const std::vector<CommandInterface::SharedPtr> & r) { return held(r, exported_reference_interfaces_, exported_reference_interface_names_); }
};
static void run(Rng & r)
{
  Ctl c; ControllerInterfaceParams p; p.controller_name = "ctl"; p.update_rate = p.controller_manager_update_rate = 100; S I; bool mode = false; if (c.init(p) != return_type::OK) fail("init", I);
  auto names = [&](std::vector<std::pair<S, S>> & v) { v.clear(); const char * pre[] = {"ctl", "ctl/sub", "ctl2", "other", "ct", "my_ctl", "sub/ctl", ""}; int k = r.i(0, 3); for (int i = 0; i < k; ++i) v.push_back({pre[r.b(.9) ? r.i(0, 2) : r.i(3, 7)], "i" + std::to_string(r.i(0, r.b(.7) ? 30 : 3))}); };
  int n = r.i(1, 16);
  for (int k = 0; k < n; ++k)
  {
    c.res = r.b(.75) ? CallbackReturn::SUCCESS : r.b() ? CallbackReturn::FAILURE : CallbackReturn::ERROR; c.err = r.b() ? CallbackReturn::SUCCESS : CallbackReturn::ERROR; c.rr = r.b(.6) ? return_type::OK : return_type::ERROR; c.wr = r.b(.6) ? return_type::OK : return_type::ERROR; c.agree = r.b(.7); c.asked = false; c.calls.clear();
    int op = k == 0 && r.b(.7) ? 0 : k == 1 && r.b(.5) ? 1 : r.i(0, 9); int s = c.get_node()->get_current_state().id(); static const char * OP[] = {"configure", "activate", "deactivate", "cleanup", "shutdown", "set_chained_mode", "update", "export", "set_chained_mode", "update"}; I += S(" ") + OP[op] + "@" + std::to_string(s);
    switch (op)
    {
      case 0: { const auto & x = c.configure(); if (x.id() != c.get_node()->get_current_state().id()) fail("configure returns another state", I); break; }
      case 1: c.get_node()->activate(); break;
      case 2: c.get_node()->deactivate(); break;
      case 3: c.get_node()->cleanup(); break;
      case 4: if (r.b(.2)) c.get_node()->shutdown(); break;
      case 5: case 8: { bool w = r.b(.6); I += w ? "(true" : "(false"; I += c.agree ? ", agrees)" : ", refuses)"; bool ok = c.set_chained_mode(w); if (c.asked != (s != 3)) fail(s == 3 ? "asked although active" : "not asked", I); if (c.asked && c.want_mode != w) fail("asked about another mode", I); if (ok != (s != 3 && c.agree)) fail("answer of set_chained_mode", I); if (ok) mode = w; break; }
      case 7:
      {
        names(c.so); names(c.sn); names(c.ro); names(c.rn); c.resize = r.b(.95);
        for (int w = 0; w < 2; ++w)
        {
          auto & o = w ? c.ro : c.so; auto & l = w ? c.rn : c.sn; std::vector<S> want; std::set<S> u; bool ok = w == 0 || c.resize; S W = w ? " reference" : " state"; for (auto * v : {&o, &l}) for (auto & [a, b] : *v) { S f = a + "/" + b; W += " " + f; want.push_back(f); ok = ok && u.insert(f).second && a.compare(0, 3, "ctl") == 0; }
          std::vector<S> got; S h; bool threw = false; try { if (w) { auto x = c.export_reference_interfaces(); for (auto & y : x) got.push_back(y->get_name()); h = c.held_ref(x); } else { auto x = c.export_state_interfaces(); for (auto & y : x) got.push_back(y->get_name()); h = c.held_state(x); } } catch (const std::exception &) { threw = true; }
          if (threw == ok) fail(ok ? "good interfaces are refused" : "bad interfaces are exported", I + W);
          if (ok && got != want) fail("other interfaces are exported", I + W);
          if (ok && h != "") fail("exported interfaces: " + h, I + W);
        }
        break;
      }
      default: { auto x = r.b() ? c.update(rclcpp::Time(1, 0), rclcpp::Duration(0, 1)) : c.trigger_update(rclcpp::Time(1, 0), rclcpp::Duration(0, 1)).result; std::vector<S> want; if (!mode) want.push_back("references"); bool go = mode || c.rr == return_type::OK; if (go) want.push_back("commands"); if (c.calls != want) fail("steps of an update", I + (mode ? " (chained)" : " (not chained)")); if (x != (go ? c.wr : c.rr)) fail("result of an update", I); }
    }
    if (c.bad) fail(c.why, I);
    if (c.is_in_chained_mode() != mode) fail("the mode is not the one agreed", I);
    if (c.get_lifecycle_id() != c.get_node()->get_current_state().id()) fail("the reported state is not the node's", I);
  }
}
int main(int, char ** av) { double secs = std::atof(av[2]); Rng r(std::strtoull(av[3], nullptr, 10)); Clock c; long n = 0; while (c.s() < secs && n < 2000000) { ++n; run(r); } std::printf("OK %ld\n", n); }
