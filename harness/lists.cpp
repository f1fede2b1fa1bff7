// bounded exploration of the real list, map, selection and text helpers (C01, C02, C03): usage <prop> <seconds> <seed> [seeds]
#include "common.hpp"
#include <map>
#include <set>
#include <unordered_map>
#include "hardware_interface/loaned_command_interface.hpp"
#include "hardware_interface/loaned_state_interface.hpp"
#include "controller_interface/helpers.hpp"
#include "controller_interface/tf_prefix.hpp"
#include "hardware_interface/helpers.hpp"
using namespace vh; using S = std::string; using V = std::vector<S>; namespace hi = hardware_interface;
static S show(const S & s) { S o = "\""; for (unsigned char c : s) { if (c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; } return o + "\""; }
static S show(const V & v) { S o = "["; for (auto & s : v) o += show(s) + " "; return o + "]"; }
static bool in(const V & v, const S & s) { for (auto & x : v) if (x == s) return true; return false; }
template <class L, class X> static void select(const char * n, std::vector<L> & un, const V & names, const S & type, X & full)
{
  std::vector<std::reference_wrapper<L>> out; out.reserve(names.size()); std::vector<const L *> w; bool all = true;
  for (auto & a : names) { const L * f = nullptr; for (auto & u : un) if (u.get_name() == (type.empty() ? a : a + "/" + type)) f = &u; if (f) w.push_back(f); else all = false; }
  S in = S(n) + " names=" + show(names) + " type=" + show(type) + " interfaces=" + show(full);
  bool ok = controller_interface::get_ordered_interfaces(un, names, type, out);
  if (ok != all) fail("C02: reported success wrongly", in);
  if (out.size() != w.size()) fail("C02: number of selected interfaces", in);
  for (size_t i = 0; i < w.size(); ++i) if (&out[i].get() != w[i]) fail("C02: wrong interface at " + std::to_string(i), in);
  for (size_t i = 0; i < un.size(); ++i) if (un[i].get_name() != full[i]) fail("C02: interfaces changed", in);
  if (!names.empty()) { std::vector<std::reference_wrapper<L>> small; small.reserve(names.size() - 1); if (small.capacity() < names.size()) { bool t = false; try { (void)controller_interface::get_ordered_interfaces(un, names, type, small); } catch (const std::range_error &) { t = true; } if (!t) fail("C02: no range_error for a list without room", in); } }
}
int main(int, char ** av)
{
  S p = av[1]; double secs = std::atof(av[2]); Rng r(std::strtoull(av[3], nullptr, 10)); Clock c; long n = 0;
  auto pick = [&](std::initializer_list<const char *> l) { return S(l.begin()[r.i(0, int(l.size()) - 1)]); };
  while (c.s() < secs && n < 2000000)
  {
    ++n;
    if (p == "C01")
    {
      int alpha = r.i(1, 6); auto item = [&] { return r.b(.05) ? S() : S(1, char('a' + r.i(0, alpha))); };
      V v, w; for (int k = r.i(0, 6); k > 0; --k) v.push_back(item()); for (int k = r.i(0, 6); k > 0; --k) w.push_back(item()); S x = item();
      std::map<S, int> m; std::unordered_map<S, int> u; for (auto & s : v) m[s] = u[s] = 1; S I = show(v) + " " + show(w) + " " + show(x);
      bool any = false, all = true; for (auto & s : w) { any |= in(v, s); all &= in(v, s); }
      using namespace ros2_control;
      if (has_item(v, x) != in(v, x) || has_item(m, x) != in(v, x) || has_item(u, x) != in(v, x)) fail("C01: has_item", I);
      if (has_any_item(v, w) != any || has_any_item(m, w) != any || has_any_item(u, w) != any) fail("C01: has_any_item", I);
      if (has_all_items(v, w) != all || has_all_items(m, w) != all || has_all_items(u, w) != all) fail("C01: has_all_items", I);
      if (is_unique(v) != (std::set<S>(v.begin(), v.end()).size() == v.size())) fail("C01: is_unique", I);
      V a = v, b = v; add_item(a, x); if (!in(b, x)) b.push_back(x); if (a != b) fail("C01: add_item gives " + show(a), I);
      a = b = v; add_items(a, w); for (auto & s : w) if (!in(b, s)) b.push_back(s); if (a != b) fail("C01: add_items gives " + show(a), I);
      a = v; bool rm = remove_item(a, x); if (rm != in(v, x)) fail("C01: remove_item answer", I);
      if (!rm && a != v) fail("C01: remove_item changed the list", I);
      if (rm) { bool good = false; for (size_t i = 0; i < v.size(); ++i) if (v[i] == x) { b = v; b.erase(b.begin() + i); good |= b == a; } if (!good) fail("C01: remove_item gives " + show(a), I); }
    }
    else if (p == "C02")
    {
      std::vector<hi::StateInterface::ConstSharedPtr> si; std::vector<hi::CommandInterface::SharedPtr> ci; V full;
      std::vector<hi::LoanedStateInterface> s; std::vector<hi::LoanedCommandInterface> l;
      for (int k = r.i(0, 5); k > 0; --k) { S a = pick({"j1", "j2", "j3", "a/b", "a", ""}), b = pick({"position", "velocity", "b/position", "effort", ""}); if (in(full, a + "/" + b)) continue; full.push_back(a + "/" + b);
        si.push_back(std::make_shared<hi::StateInterface>(a, b)); ci.push_back(std::make_shared<hi::CommandInterface>(a, b)); s.emplace_back(si.back()); l.emplace_back(ci.back()); }
      S type = r.b(.3) ? S() : pick({"position", "velocity", "effort", "b/position"}); V names;
      for (int k = r.i(0, 5); k > 0; --k) { S a = !full.empty() && r.b(.6) ? full[r.i(0, int(full.size()) - 1)] : pick({"j1", "j2", "j3", "a/b", "a", "nothing", "", "j1/position"}); if (!type.empty() && r.b(.7)) a = a.substr(0, a.rfind('/')); names.push_back(a); }
      select("state", s, names, type, full); select("command", l, names, type, full);
      if (controller_interface::interface_list_contains_interface_type(names, type) != in(names, type)) fail("C02: interface_list_contains_interface_type", show(names) + show(type));
    }
    else
    {
      auto text = [&] { S s; for (int k = r.i(0, 6); k > 0; --k) s += pick({"/", "~", "a", "b", "//", " ", "\t", "\n", ".", "_", "\v", "\f", "\r", "ns"}); return s; };
      S a = text(), ns = r.b(.5) ? pick({"", "/", "/ns", "ns", "ns/", "~", "/ns/"}) : text(), I = show(a) + " " + show(ns);
      S w = a; size_t t = a.find('~'); if (t != S::npos) w = a.substr(0, t) + ns + a.substr(t + 1);
      if (!a.empty()) { if (w.empty() || w[w.size() - 1] != '/') w += "/"; if (w[0] == '/') w = w.substr(1); }
      S g = controller_interface::resolve_tf_prefix(a, ns); if (g != w) fail("C03: resolve_tf_prefix gives " + show(g) + " instead of " + show(w), I);
      auto ws = [](char x) { return x == ' ' || (x >= 9 && x <= 13); }; size_t i = 0, e = a.size(); while (i < e && ws(a[i])) ++i; while (e > i && ws(a[e - 1])) --e;
      if (ros2_control::strip(a) != a.substr(i, e - i)) fail("C03: strip gives " + show(ros2_control::strip(a)), show(a));
    }
  }
  std::printf("OK %ld\n", n);
}
