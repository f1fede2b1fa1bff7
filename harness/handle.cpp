// bounded exploration of the real handles and loaned interfaces (H01, H02, H03): usage <prop> <seconds> <seed> [seeds]
#include "common.hpp"
#include <atomic>
#include <functional>
#include <list>
#include <memory>
#include <new>
#include <thread>
#include <type_traits>
#include "hardware_interface/loaned_command_interface.hpp"
#include "hardware_interface/loaned_state_interface.hpp"
using namespace vh; using namespace hardware_interface; using S = std::string;
static const char * NAMES[] = {"double", "float32", "bool", "uint8", "int8", "uint16", "int16", "uint32", "int32"};
template <int I> struct TY; 
template <> struct TY<0> { using t = double; }; template <> struct TY<1> { using t = float; }; template <> struct TY<2> { using t = bool; }; template <> struct TY<3> { using t = uint8_t; }; template <> struct TY<4> { using t = int8_t; };
template <> struct TY<5> { using t = uint16_t; }; template <> struct TY<6> { using t = int16_t; }; template <> struct TY<7> { using t = uint32_t; }; template <> struct TY<8> { using t = int32_t; };
template <class F> void each(F f) { f(TY<0>{}); f(TY<1>{}); f(TY<2>{}); f(TY<3>{}); f(TY<4>{}); f(TY<5>{}); f(TY<6>{}); f(TY<7>{}); f(TY<8>{}); }
template <class T> constexpr int index() { return std::is_same_v<T, double> ? 0 : std::is_same_v<T, float> ? 1 : std::is_same_v<T, bool> ? 2 : std::is_same_v<T, uint8_t> ? 3 : std::is_same_v<T, int8_t> ? 4 : std::is_same_v<T, uint16_t> ? 5 : std::is_same_v<T, int16_t> ? 6 : std::is_same_v<T, uint32_t> ? 7 : 8; }
template <class T> bool eq(T a, T b) { if constexpr (std::is_floating_point_v<T>) return std::memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b)); else return a == b; }
// the value a handle shows, whatever its type
struct View { int type = -1; double d = 0; bool valid = false, number = false; S name; bool operator==(const View & o) const { return type == o.type && eq(d, o.d) && valid == o.valid && number == o.number && name == o.name; } };
template <class H> View view(const H & h)
{
  View v; v.name = h.get_prefix_name() + "|" + h.get_interface_name() + "|" + h.get_name(); v.valid = h.is_valid(); v.number = bool(h);
  for (int i = 0; i < 9; ++i) if (h.get_data_type().to_string() == NAMES[i]) v.type = i;
  if (!v.valid) return v;
  each([&](auto t) { using T = typename decltype(t)::t; if (index<T>() != v.type) return; auto o = h.template get_optional<T>(); v.d = o ? double(*o) : -4711.25; });
  return v;
}
static double anyd(Rng & r) { double s[] = {0., -0., 1., -1., NaN(), INF, -INF, 1e308, 5e-324, 0.1}; return r.b(.5) ? s[r.i(0, 9)] : r.r(-1e3, 1e3); }
template <class T> T any(Rng & r) { if constexpr (std::is_floating_point_v<T>) return T(anyd(r)); else if constexpr (std::is_same_v<T, bool>) return r.b(); else return r.b(.4) ? (r.b() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min()) : T(r.u()); }
static S text(Rng & r, int ty) { if (ty < 2) return r.b() ? std::to_string(r.r(-9, 9)) : "1e3"; if (ty == 2) return r.b() ? "true" : "false"; bool u = ty % 2; int bits = ty < 5 ? 8 : ty < 7 ? 16 : 32; long long hi = (1ll << (u ? bits : bits - 1)) - 1, lo = u ? 0 : -hi - 1; return std::to_string(r.b(.3) ? hi : r.b(.3) ? lo : lo + (long long)(r.u() % (unsigned long long)(hi - lo + 1))); }
static InterfaceDescription desc(Rng & r, const S & p, int ty, const S & init) { InterfaceInfo i; i.name = "if" + std::to_string(r.i(0, 9)); i.data_type = NAMES[ty]; i.initial_value = init; return InterfaceDescription(p, i); }
// another thread that holds the lock of a handle while f runs
template <class F> void while_locked(const Handle & h, bool exclusive, F f)
{
  std::atomic<int> s{0}; std::thread t([&] { if (exclusive) h.get_mutex().lock(); else h.get_mutex().lock_shared(); s = 1; while (s == 1) std::this_thread::yield(); if (exclusive) h.get_mutex().unlock(); else h.get_mutex().unlock_shared(); });
  while (s != 1) std::this_thread::yield(); f(); s = 2; t.join();
}
template <class T> void access(Rng & r, CommandInterface & h, int ty, const S & I, bool external, const double & ext)
{
  const int ti = index<T>(); const bool rd = ti == ty || (ti == 0 && ty == 2 && !external), wr = ti == ty; S W = I + " access as " + NAMES[ti];
  View before = view(h); T v = any<T>(r), out = any<T>(r), out0 = out; bool threw = false, ok = false; double e0 = ext;
  auto want = [&]() -> double { return before.d; };
  // reading
  { std::optional<T> g; try { g = h.get_optional<T>(); } catch (const std::runtime_error &) { threw = true; }
    if (threw == rd) fail(rd ? "H01: reading a matching type is refused" : "H01: reading another type is accepted", W);
    if (rd && (!g || !eq(double(*g), want()))) fail("H01: a read yields another value", W); }
  { threw = false; bool wait = r.b(); try { ok = h.get_value(out, wait); } catch (const std::runtime_error &) { threw = true; }
    if (threw == rd) fail("H01: get_value refused or accepted wrongly", W); if (!threw && !ok) fail("H01: get_value without contention fails", W); if (!threw && !eq(double(out), want())) fail("H01: get_value yields another value", W); if (threw && !eq(out, out0)) fail("H01: get_value changes the variable although it throws", W); }
  if (!(view(h) == before)) fail("H01: reading changed the handle", W);
  // writing
  threw = false; ok = false; bool lim = r.b(.5), wait = r.b();
  T vw = v;
  if constexpr (ti == 0) { if (lim) { bool clip = r.b(); h.set_on_set_command_limiter([clip](double x, bool & l) { l = clip; return clip ? 42.5 : x; }); if (clip) vw = 42.5; } }
  int how = r.i(0, 2);
  try { ok = lim ? h.set_limited_value(v) : how == 0 ? h.set_value(v) : how == 1 ? h.set_value(v, wait) : [&] { std::unique_lock<std::shared_mutex> l(h.get_mutex()); return h.set_value(l, v); }(); } catch (const std::runtime_error &) { threw = true; }
  if constexpr (ti == 0) { if (lim && !threw && h.is_limited() != (eq(double(vw), 42.5) && !eq(double(v), 42.5)) && !eq(double(v), 42.5)) fail("H01: limiting is not reported", W); h.set_on_set_command_limiter([](double x, bool & l) { l = false; return x; }); }
  if (threw == wr) fail(wr ? "H01: writing a matching type is refused" : "H01: writing another type is accepted", W);
  if (wr && !ok) fail("H01: a write without contention fails", W);
  View after = view(h);
  if (wr) { if (!eq(after.d, double(vw)) || after.type != before.type || after.name != before.name || !after.valid) fail("H01: the written value is not stored", W); if (external && !eq(ext, double(vw))) fail("H01: an external double is not written", W); }
  else { if (!(after == before)) fail("H01: a refused write changed the handle", W); if (!eq(ext, e0)) fail("H01: a refused write changed the external double", W); }
  // contention: nothing is read or written without the lock
  if (r.b(.02))
  {
    bool ex = r.b(); before = view(h); out = out0 = any<T>(r); e0 = ext;
    while_locked(h, ex, [&] {
      if (ex) { try { if (h.get_optional<T>()) fail("H01: a read succeeds although another thread writes", W); if (h.get_value(out, false) || !eq(out, out0)) fail("H01: get_value succeeds although another thread writes", W); } catch (const std::runtime_error &) { fail("H01: a read without the lock throws", W); } }
      else if (rd) { auto g = h.get_optional<T>(); if (!g || !eq(double(*g), before.d)) fail("H01: a read beside a reader fails", W); }
      try { if (h.set_value(v) || h.set_value(v, false) || h.set_limited_value(v)) fail("H01: a write succeeds although another thread holds the lock", W); } catch (const std::runtime_error &) { fail("H01: a write without the lock throws", W); }
    });
    if (!(view(h) == before) || !eq(ext, e0)) fail("H01: a failed write changed the value", W);
  }
  if (wr && r.b(.01))
  { // waiting callers get the lock eventually
    std::atomic<bool> done{false}; T w = any<T>(r); std::thread t;
    while_locked(h, true, [&] { t = std::thread([&] { (void)!h.set_value(w, true); done = true; }); std::this_thread::sleep_for(std::chrono::milliseconds(2)); if (done) fail("H01: a waiting write did not wait", W); });
    t.join(); if (!eq(view(h).d, double(w))) fail("H01: a waiting write is lost", W);
  }
}
static void h01(Rng & r)
{
  int ty = r.i(0, 8); S init = r.b() ? S() : text(r, ty); double ext = anyd(r);
  if (r.b(.2))
  { // an external double
    S I = "external double"; CommandInterface h("p", "q", &ext); if (view(h).name != "p|q|p/q" || view(h).type != 0) fail("H01: names or type of an external handle", I);
    each([&](auto t) { access<typename decltype(t)::t>(r, h, 0, I, true, ext); }); return;
  }
  S P = r.b(.2) ? "arm/j" : "j", I = S("handle of ") + NAMES[ty] + " initial value '" + init + "'";
  auto d = desc(r, P, ty, init); CommandInterface h(d); View v = view(h);
  if (v.type != ty || !v.valid || v.name != P + "|" + d.interface_info.name + "|" + P + "/" + d.interface_info.name) fail("H01: names or type", I + " shows " + v.name);
  double w = 0; 
  if (init.empty()) { double ds[] = {NaN(), NaN(), 0, 255, 127, 65535, 32767, 4294967295., 2147483647.}; w = ds[ty]; } else w = ty == 0 ? std::strtod(init.c_str(), nullptr) : ty == 1 ? double(std::strtof(init.c_str(), nullptr)) : ty == 2 ? double(init == "true") : double(std::strtoll(init.c_str(), nullptr, 10));
  if (!eq(v.d, w)) fail("H01: initial value", I + " shows " + num(v.d));
  each([&](auto t) { access<typename decltype(t)::t>(r, h, ty, I, false, ext); });
  bool threw = false; try { S bad[] = {"Double", "int64", "", "float", "uint8_t", "string"}; Handle x("p", "q", bad[r.i(0, 5)], ""); } catch (const std::runtime_error &) { threw = true; } if (!threw) fail("H01: an unknown type is accepted", "");
  threw = false; try { Handle x("p", "q", NAMES[ty], "no value"); } catch (const std::invalid_argument &) { threw = true; } if (!threw) fail("H01: a bad initial value is accepted", NAMES[ty]);
  for (int i = 0; i < 2; ++i) { StateInterface n = i ? StateInterface("only") : StateInterface(S("only")); threw = false; try { (void)n.get_optional(); } catch (const std::runtime_error &) { threw = true; } if (!threw || n.is_valid() || n) fail("H01: a handle without value is read", ""); }
}
template <class H> std::shared_ptr<H> raw() { return nullptr; }
static void h02(Rng & r)
{
  auto refuses = [](auto & h) { try { (void)!h.set_value(1.25); } catch (const std::runtime_error &) { return true; } return false; };
  // objects live in separate heap blocks that are filled with a pattern when they end
  struct Slot { alignas(16) unsigned char b[sizeof(CommandInterface)]; };
  double ext = anyd(r); const double ext0 = ext; int ty = r.i(0, 8), ty2 = r.i(0, 8); bool e = r.b(.25), empty = r.b(.1);
  auto make = [&](void * at, auto tag, int t, const S & p) { using H = decltype(tag); if (e) return new (at) H(p, "q", &ext); if (empty) return new (at) H(S("only")); return new (at) H(desc(r, p, t, r.b(.2) ? S() : text(r, t))); };
  auto end = [&](auto * h) { using H = std::remove_pointer_t<decltype(h)>; h->~H(); std::memset(static_cast<void *>(h), 0x5a, sizeof *h); };
  auto run = [&](auto tag, const char * cls) {
    using H = decltype(tag); auto sa = std::make_unique<Slot>(), sb = std::make_unique<Slot>(); H * a = make(sa->b, H(S("x")), ty, "a"); View v = view(*a), v2; H * b = nullptr; int op = r.i(0, 5); bool copy = false; S I = S(cls) + (e ? " external" : empty ? " without value" : S(" of ") + NAMES[ty]) + " operation ";
    auto write = [&](H * h, const View & w) { // a value written to one handle does not show in another
      bool done = false; if (w.valid) each([&](auto t) { using T = typename decltype(t)::t; if (index<T>() == w.type) { T x = w.d == 1 ? T(0) : T(1); done = h->set_value(x); if (!done || !eq(double(*h->template get_optional<T>()), double(x))) fail("H02: the handle does not hold what is written to it", I); } }); return done; };
    if (op == 0) { I += "move construct"; b = new (sb->b) H(std::move(*a)); }
    else if (op == 1) { I += "copy construct"; if constexpr (std::is_copy_constructible_v<H>) { b = new (sb->b) H(*a); copy = true; } else b = new (sb->b) H(std::move(*a)); }
    else if (op == 2) { I += "move assign"; if constexpr (std::is_move_assignable_v<H>) { b = make(sb->b, H(S("x")), ty2, "b"); *b = std::move(*a); } else b = new (sb->b) H(std::move(*a)); }
    else if (op == 3) { I += "copy assign"; if constexpr (std::is_copy_assignable_v<H>) { b = make(sb->b, H(S("x")), ty2, "b"); *b = *a; copy = true; } else b = new (sb->b) H(std::move(*a)); }
    else if (op == 4) { I += "self copy assign"; if constexpr (std::is_copy_assignable_v<H>) *a = *a; b = nullptr; }
    else { I += "self move assign"; if constexpr (std::is_move_assignable_v<H>) *a = std::move(*a); b = nullptr; }
    H * n = b ? b : a; if (!(view(*n) == v)) fail("H02: the target shows another identity, type or value", I + ": " + view(*n).name + " " + num(view(*n).d) + " instead of " + v.name + " " + num(v.d));
    if (v.valid && v.type != 0 && !refuses(*n)) fail("H02: the target accepts a double", I);
    if (copy && !(view(*a) == v)) fail("H02: copying changed the source", I);
    if (b && !e)
    { // neither handle reaches into the other one
      View va = view(*a); (void)va; write(b, v); if (copy && !(view(*a) == v)) fail("H02: writing the copy changed the source", I);
      if (r.b()) { View w = view(*b); if (copy) { write(a, v); if (!(view(*b) == w)) fail("H02: writing the source changed the copy", I); } end(a); a = nullptr; if (!(view(*b) == w)) fail("H02: the target depends on the source", I); write(b, v); }
      else { View w = view(*a); end(b); b = nullptr; if (!(view(*a) == w)) fail("H02: the source depends on the target", I); if (w.valid && copy) write(a, v); }
    }
    if (e && !eq(ext, ext0)) fail("H02: the external value changed", I);
    if (e) { write(n, view(*n)); ext = ext0; }
    if (a) end(a); if (b) end(b);
  };
  switch (r.i(0, 2)) { case 0: run(Handle(S("x")), "Handle"); break; case 1: run(StateInterface(S("x")), "StateInterface"); break; default: run(CommandInterface(S("x")), "CommandInterface"); }
  if (!e && r.b(.1)) { CommandInterface c(desc(r, "p", 0, "")); int calls = 0; c.set_on_set_command_limiter([&](double x, bool & l) { ++calls; l = x > 1; return x > 1 ? 1. : x; }); CommandInterface m(std::move(c)); (void)!m.set_limited_value(2.0); if (calls != 1 || !m.is_limited() || !eq(*m.get_optional(), 1.0)) fail("H02: the limiter is lost in a move", ""); }
}
static void h03(Rng & r)
{
  int ty = r.i(0, 8); auto d = desc(r, "p", ty, text(r, ty)); auto c = std::make_shared<CommandInterface>(d); auto s = std::make_shared<StateInterface>(d); StateInterface::ConstSharedPtr cs = s; S I = S("interface of ") + NAMES[ty];
  { // without contention the first attempt decides
    LoanedCommandInterface lc(c); LoanedStateInterface ls(cs); unsigned m = r.b(.5) ? unsigned(r.i(0, 3)) : r.b() ? 10u : 0xffffffffu;
    each([&](auto t) { using T = typename decltype(t)::t; T v = any<T>(r); const bool wr = index<T>() == ty, rd = wr || (index<T>() == 0 && ty == 2); bool threw = false;
      try { if (!lc.set_value(v, m)) fail("H03: a write without contention fails", I); if (!eq(view(*c).d, double(v))) fail("H03: the write does not reach the interface", I); } catch (const std::runtime_error &) { threw = true; } if (threw == wr) fail("H03: a write is refused or accepted wrongly", I);
      auto get = [&](auto & l, auto & h) { threw = false; std::optional<T> g; try { g = l.template get_optional<T>(m); } catch (const std::runtime_error &) { threw = true; } if (threw == rd) fail("H03: a read is refused or accepted wrongly", I); if (rd && (!g || !eq(double(*g), view(h).d))) fail("H03: a read yields another value", I); };
      get(lc, *c); get(ls, *s); });
    if (lc.get_name() != c->get_name() || ls.get_name() != s->get_name() || lc.get_interface_name() != c->get_interface_name() || ls.get_prefix_name() != s->get_prefix_name() || lc.get_data_type().to_string() != NAMES[ty] || ls.get_data_type().to_string() != NAMES[ty]) fail("H03: name or type of a loan", I);
  }
  if (r.b(.05))
  { // a lock that is never released: the call still ends, without effect
    unsigned m = r.b(.3) ? 0u : unsigned(r.i(1, 12)); View b = view(*c);
    auto ended = [&](auto f) { std::atomic<bool> end{false}; std::thread t([&] { f(); end = true; }); for (int i = 0; i < 8000 && !end; ++i) std::this_thread::sleep_for(std::chrono::microseconds(i < 100 ? 20 : 500)); if (!end) { std::printf("FAIL H03: the retries do not end\n%s with %u tries\n", I.c_str(), m); std::fflush(stdout); std::_Exit(1); } t.join(); };
    while_locked(*c, true, [&] { LoanedCommandInterface lc(c); ended([&] { each([&](auto t) { using T = typename decltype(t)::t; if (index<T>() != ty) return; if (lc.set_value(any<T>(r), m)) fail("H03: a write succeeds without the lock", I); if (lc.get_optional<T>(m)) fail("H03: a read succeeds without the lock", I); }); }); });
    while_locked(*s, true, [&] { LoanedStateInterface ls(cs); ended([&] { each([&](auto t) { using T = typename decltype(t)::t; if (index<T>() == ty && ls.get_optional<T>(m)) fail("H03: a read succeeds without the lock", I); }); }); });
    if (!(view(*c) == b)) fail("H03: a failed write changed the value", I);
    if (ty == 0) { // the number of attempts, counted by the limiter
      int n = 0; c->set_on_set_command_limiter([&](double x, bool & l) { ++n; l = false; return x; }); while_locked(*c, true, [&] { LoanedCommandInterface lc(c); if (lc.set_value(1.5, m)) fail("H03: a write succeeds without the lock", I); }); if (n != int(m ? m : 1)) fail("H03: " + std::to_string(n) + " attempts with at most " + std::to_string(m), I);
      n = 0; int at = r.i(1, 6); std::atomic<int> st{0}; std::thread t([&] { c->get_mutex().lock(); st = 1; while (st == 1) std::this_thread::yield(); c->get_mutex().unlock(); st = 3; }); while (st != 1) std::this_thread::yield();
      c->set_on_set_command_limiter([&](double x, bool & l) { if (++n == at) { st = 2; while (st != 3) std::this_thread::yield(); } l = false; return x; }); { LoanedCommandInterface lc(c); bool ok = lc.set_value(2.5, 6); if (!ok || n != at) fail("H03: does not stop at the first success", I); } t.join(); c->set_on_set_command_limiter([](double x, bool & l) { l = false; return x; }); }
  }
  // the release action
  auto life = [&](auto tag, auto ptr) { using L = typename decltype(tag)::type; int n = 0; { auto a = std::make_unique<L>(ptr, [&n] { ++n; }); if (n) fail("H03: released while in use", I); if (r.b()) { auto b = std::make_unique<L>(std::move(*a)); if (r.b()) { a.reset(); if (n) fail("H03: released by a holder that gave the loan away", I); b.reset(); if (n != 1) fail("H03: not released by the last holder", I); } else { b.reset(); if (n != 1) fail("H03: not released by the new holder", I); } } } if (n != 1) fail("H03: released " + std::to_string(n) + " times", I);
    { std::vector<L> v; n = 0; int k = r.i(1, 7); for (int i = 0; i < k; ++i) v.emplace_back(ptr, [&n] { ++n; }); if (n) fail("H03: released while stored in a list", I); v.clear(); if (n != k) fail("H03: a list of loans releases " + std::to_string(n) + " of " + std::to_string(k), I); } };
  life(std::type_identity<LoanedCommandInterface>{}, c); life(std::type_identity<LoanedStateInterface>{}, cs);
}
int main(int, char ** av)
{
  S p = av[1]; double secs = std::atof(av[2]); Rng r(std::strtoull(av[3], nullptr, 10)); Clock c; long n = 0;
  std::atomic<bool> over{false}; std::thread([&] { for (int i = 0; i < int(secs * 20) + 800 && !over; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(50)); if (!over) fail(p + ": a call does not end", "after " + std::to_string(n) + " rounds"); }).detach();
  while (c.s() < secs && n < 1000000) { ++n; if (p == "H01") h01(r); else if (p == "H02") h02(r); else h03(r); }
  over = true; std::printf("OK %ld\n", n);
}
