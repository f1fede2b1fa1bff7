// bounded exploration of the real hardware component wrapper (H04, H05): usage <prop> <seconds> <seed> [seeds]
#include "common.hpp"
#include <memory>
#include "hardware_interface/hardware_component.hpp"
#include "hardware_interface/system_interface.hpp"
using namespace vh; using namespace hardware_interface; using S = std::string; using CR = rclcpp_lifecycle::node_interfaces::LifecycleNodeInterface::CallbackReturn;
static const char * LABEL[] = {"unknown", "unconfigured", "inactive", "active", "finalized"};
static const char * CB[] = {"on_init", "on_configure", "on_cleanup", "on_shutdown", "on_activate", "on_deactivate", "on_error"};
struct Log { std::vector<int> calls; std::vector<int> state; CR res[7]; int reads = 0, writes = 0; return_type rr = return_type::OK, wr = return_type::OK; bool seen_bad = false; S bad; };
struct Driver : HardwareComponentInterface
{
  Log & l; explicit Driver(Log & x) : l(x) {}
  CR cb(int i, const rclcpp_lifecycle::State * s) { l.calls.push_back(i); if (s && (s->id() != get_lifecycle_state().id() || s->label() != LABEL[s->id()] || s->id() != get_lifecycle_id())) { l.seen_bad = true; l.bad = S(CB[i]) + " is given another state"; } return l.res[i]; }
  CR on_init(const HardwareComponentInterfaceParams & p) override { CR r = cb(0, nullptr); HardwareComponentInterface::on_init(p); return r; }
  CR on_configure(const rclcpp_lifecycle::State & s) override { return cb(1, &s); }
  CR on_cleanup(const rclcpp_lifecycle::State & s) override { return cb(2, &s); }
  CR on_shutdown(const rclcpp_lifecycle::State & s) override { return cb(3, &s); }
  CR on_activate(const rclcpp_lifecycle::State & s) override { return cb(4, &s); }
  CR on_deactivate(const rclcpp_lifecycle::State & s) override { return cb(5, &s); }
  CR on_error(const rclcpp_lifecycle::State & s) override { return cb(6, &s); }
  return_type read(const rclcpp::Time &, const rclcpp::Duration &) override { ++l.reads; int s = get_lifecycle_id(); if (s != 2 && s != 3) { l.seen_bad = true; l.bad = S("read in state ") + LABEL[s]; } return l.rr; }
  return_type write(const rclcpp::Time &, const rclcpp::Duration &) override { ++l.writes; int s = get_lifecycle_id(); if (s != 3) { l.seen_bad = true; l.bad = S("write in state ") + LABEL[s]; } return l.wr; }
};
static const CR RES[] = {CR::SUCCESS, CR::FAILURE, CR::ERROR};
static const return_type RT[] = {return_type::OK, return_type::ERROR, return_type::DEACTIVATE};
static void run(Rng & r, const S & p)
{
  Log l; const char * types[] = {"system", "sensor", "actuator"}; S type = types[r.i(0, 2)]; bool async = r.b(.4); int s = 0; return_type ri = return_type::OK, wi = return_type::OK; S I = (async ? "asynchronous " : "") + type + ":"; int64_t now = 1000000000, lastr = 0, lastw = 0; bool haver = false, havew = false;
  auto d = std::make_unique<Driver>(l); HardwareComponent loaded(std::move(d)); HardwareComponent c(std::move(loaded)); HardwareComponentParams par; par.hardware_info.name = "hw"; par.hardware_info.type = type; par.hardware_info.is_async = async; par.hardware_info.rw_rate = 100; par.hardware_info.joints.resize(r.i(0, 2)); for (size_t i = 0; i < par.hardware_info.joints.size(); ++i) par.hardware_info.joints[i].name = "j" + std::to_string(i); if (r.b()) par.hardware_info.group = "g"; par.hardware_info.async_params.print_warnings = r.b(); if (r.b(.3)) par.clock = std::make_shared<rclcpp::Clock>();
  auto error = [&](std::vector<int> & w) { if (s == 0 || s == 1) return; w.push_back(6); s = l.res[6] == CR::SUCCESS ? 1 : 4; };
  int n = r.i(1, 14); bool good = r.b(.5);
  for (int k = 0; k < n; ++k)
  {
    for (auto & x : l.res) x = RES[r.b(.75) ? 0 : r.i(0, 2)]; l.rr = RT[r.b(.7) ? 0 : r.i(0, 2)]; l.wr = RT[r.b(.7) ? 0 : r.i(0, 2)]; l.calls.clear(); l.reads = l.writes = 0;
    int op = k == 0 && !r.b(.05) ? 0 : k == 1 && good ? 1 : k == 2 && good ? 4 : r.i(0, 9); int s0 = s; std::vector<int> want; int wr = 0, ww = 0; return_type ret = return_type::OK, wret = return_type::OK;
    if (op == 0 && s == 0 && k > 0 && false) continue;
    static const char * OP[] = {"initialize", "configure", "cleanup", "shutdown", "activate", "deactivate", "error", "read", "write", "read"};
    I += S(" ") + OP[op] + "@" + LABEL[s]; for (int i = 0; i < 7; ++i) if (l.res[i] != CR::SUCCESS) I += S(" (") + CB[i] + (l.res[i] == CR::FAILURE ? " fails)" : " errs)"); if (op >= 7) I += l.rr == return_type::OK ? "" : l.rr == return_type::ERROR ? " (read errs)" : " (read asks to deactivate)", I += l.wr == return_type::OK ? "" : l.wr == return_type::ERROR ? " (write errs)" : " (write asks to deactivate)";
    const rclcpp_lifecycle::State * got = nullptr; now += 1000000; rclcpp::Time t(now, RCL_STEADY_TIME); rclcpp::Duration dt(0, 1000000);
    auto step = [&](int cb, bool legal, int ok, int fail, bool fail_is_error = false) { if (!legal) return; want.push_back(cb); if (l.res[cb] == CR::SUCCESS) s = ok; else if (l.res[cb] == CR::FAILURE && !fail_is_error) s = fail; else error(want); };
    switch (op)
    {
      case 0: got = &c.initialize(par); if (s == 0) { want.push_back(0); s = l.res[0] == CR::SUCCESS ? 1 : 4; } break;
      case 1: got = &c.configure(); step(1, s == 1, 2, 1); break;
      case 2: got = &c.cleanup(); step(2, s == 2, 1, 1, true); break;
      case 3: got = &c.shutdown(); step(3, s != 0 && s != 4, 4, 4, true); break;
      case 4: got = &c.activate(); if (s == 2) ri = wi = return_type::OK; step(4, s == 2, 3, 2); haver = havew = false; break;
      case 5: got = &c.deactivate(); step(5, s == 3, 2, 3); break;
      case 6: got = &c.error(); error(want); break;
      case 8: { ret = c.write(t, dt); if (type == "sensor" && s != 0) break; if (s == 3) { if (async) wret = wi; else { ++ww; wret = l.wr; } if (wret == return_type::ERROR) error(want); } if (s0 != 2) { lastw = now; havew = true; } break; }
      default: { ret = c.read(t, dt); if (s == 2 || s == 3) { ++wr; if (async) { wret = ri; ri = l.rr; if (ri == return_type::OK && type != "sensor" && s == 3) { ++ww; wi = l.wr; } } else wret = l.rr; if (wret == return_type::ERROR) error(want); } lastr = now; haver = true; }
    }
    if (l.seen_bad) fail((l.bad.find("read in") == 0 || l.bad.find("write in") == 0 ? "H05: " : "H04: ") + l.bad, I);
    const S P = op >= 7 ? "H05: " : "H04: ";
    if (l.calls != want) { S w = P + "callbacks run:"; for (int x : l.calls) w += S(" ") + CB[x]; w += ", prescribed:"; for (int x : want) w += S(" ") + CB[x]; fail(w, I); }
    if (l.reads != wr || l.writes != ww) fail("H05: " + std::to_string(l.reads) + " reads and " + std::to_string(l.writes) + " writes instead of " + std::to_string(wr) + " and " + std::to_string(ww), I);
    if (op >= 7 && ret != wret) fail("H05: another result is reported", I);
    const auto & st = c.get_lifecycle_state();
    if (st.id() != s || st.label() != LABEL[s] || c.get_lifecycle_id() != s) fail(P + "ends in state " + st.label() + " (" + std::to_string(c.get_lifecycle_id()) + ") instead of " + LABEL[s], I);
    if (got && got != &st) fail(P + "does not return the current state", I);
    if (op >= 7 || op == 4) { if (haver ? c.get_last_read_time().nanoseconds() != lastr : c.get_last_read_time().nanoseconds() != 0) fail("H05: time of the last read", I); if (havew ? c.get_last_write_time().nanoseconds() != lastw : c.get_last_write_time().nanoseconds() != 0) fail("H05: time of the last write", I); }
    (void)p;
  }
}
int main(int, char ** av) { S p = av[1]; double secs = std::atof(av[2]); Rng r(std::strtoull(av[3], nullptr, 10)); Clock c; long n = 0; while (c.s() < secs && n < 2000000) { ++n; run(r, p); } std::printf("OK %ld\n", n); }
