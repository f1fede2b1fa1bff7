// bounded exploration of the real transmissions: usage <prop> <seconds> <seed> [seeds]
#include "common.hpp"
#include <deque>
#include <memory>
#include <set>
#include "transmission_interface/simple_transmission.hpp"
#define HW_IF_ABSOLUTE_POSITION HW_IF_ABSOLUTE_POSITION_OF_DIFFERENTIAL
#include "transmission_interface/differential_transmission.hpp"
#undef HW_IF_ABSOLUTE_POSITION
#include "transmission_interface/four_bar_linkage_transmission.hpp"
using namespace vh; using namespace transmission_interface;
static const std::vector<std::string> Q = {"position", "velocity", "effort", "torque", "force", "absolute_position"};
struct H { std::string name, type; int v; };
static std::string P;
static bool on(const char * p) { return P == p; }
static std::vector<const H *> ordered(const std::vector<H> & h, const std::string & q) { std::set<std::string> n; for (auto & x : h) n.insert(x.name); std::vector<const H *> o; for (auto & s : n) for (auto & x : h) if (x.name == s && x.type == q && x.v >= 0) o.push_back(&x); return o; }
static size_t names(const std::vector<H> & h) { std::set<std::string> n; for (auto & x : h) n.insert(x.name); return n.size(); }
static std::vector<const H *> first(const std::vector<H> & h, const std::string & q) { for (auto & x : h) if (x.type == q) { if (x.v >= 0) return {&x}; return {}; } return {}; }
static double red(Rng & r) { int k = r.i(0, 9); double v = k == 0 ? 1 : k == 1 ? -1 : k == 2 ? 1e-3 : r.r(.05, 60); return r.b() ? v : -v; }
int main(int, char ** av)
{
  P = av[1]; double secs = std::stod(av[2]); Rng r(std::stoull(av[3])); Clock c; long n = 0;
  while (c.s() < secs && n < 3000000)
  {
    ++n; int kind = r.i(0, 2); bool simple = kind == 0; size_t nq = kind == 2 ? 3 : 6; std::string what = kind == 0 ? "simple" : kind == 1 ? "differential" : "four-bar linkage"; std::ostringstream in; in << what;
    std::vector<double> ar, jr, off; int na = simple ? 1 : (r.b(.97) ? 2 : r.i(0, 3)), nj = simple ? 1 : (r.b(.97) ? 2 : r.i(0, 3)), no = simple ? 1 : (r.b(.97) ? 2 : r.i(0, 3));
    for (int i = 0; i < na; ++i) ar.push_back(r.b(.02) ? (r.b() ? 0.0 : -0.0) : red(r)); for (int i = 0; i < nj; ++i) jr.push_back(r.b(.02) ? 0.0 : red(r)); for (int i = 0; i < no; ++i) off.push_back(r.b(.3) ? 0 : r.r(-5, 5));
    in << "\nactuator reduction"; for (double x : ar) in << " " << num(x); in << "\njoint reduction"; for (double x : jr) in << " " << num(x); in << "\noffset"; for (double x : off) in << " " << num(x); in << "\n";
    auto F = [&](const std::string & w) { fail(P + ": " + what + ": " + w, in.str()); };
    bool bad = simple ? ar[0] == 0 : (na != 2 || nj != 2 || no != 2 || ar[0] == 0 || ar[1] == 0 || jr[0] == 0 || jr[1] == 0);
    std::unique_ptr<Transmission> t; bool threw = false;
    try { if (kind == 0) t = std::make_unique<SimpleTransmission>(ar[0], off[0]); else if (kind == 1) t = std::make_unique<DifferentialTransmission>(ar, jr, off); else t = std::make_unique<FourBarLinkageTransmission>(ar, jr, off); } catch (const std::exception &) { threw = true; }
    if (on("T03") && threw != bad) F(bad ? "bad parameters accepted" : "good parameters rejected");
    if (threw || bad) continue;
    std::vector<double> val; int rounds = r.b(.1) ? 2 : 1;
    std::vector<H> hj, ha; std::vector<std::vector<const H *>> kj(nq), ka(nq); bool ok = false;
    std::deque<std::vector<H>> keep; std::vector<H> * sides[2];
    for (int round = 0; round < rounds; ++round)
    {
      // handles: usually a complete set, with absences, duplicates, unset and foreign handles
      double wild = r.b(.5) ? 0 : r.b() ? .05 : .4;
      for (int s = 0; s < 2; ++s)
      {
        keep.emplace_back(); auto & h = keep.back(); sides[s] = &h;
        std::vector<std::string> pool = s ? std::vector<std::string>{"a1", "a2", "a10"} : std::vector<std::string>{"j1", "J2", "j"}; int nn = simple ? 1 : 2; if (r.b(wild * .3)) nn = r.i(0, 3);
        for (int a = 0; a < nn; ++a) for (size_t q = 0; q < Q.size(); ++q) { if (r.b(wild * .6)) continue; h.push_back({pool[a], Q[q], -1}); if (r.b(wild * .3)) h.push_back(h.back()); if (r.b(wild * .2)) h.push_back({pool[a], "temperature", -1}); }
        for (auto & x : h) if (!r.b(wild * .3)) { x.v = int(val.size()); val.push_back(0); }
        for (size_t i = h.size(); i > 1; --i) std::swap(h[i - 1], h[r.i(0, int(i) - 1)]);
        if (r.b(wild * .1)) h.clear();
      }
      std::vector<double> buf;  // storage must not move between configure and use: sized once below
      static std::vector<std::unique_ptr<std::vector<double>>> unusedbuf;
      if (round + 1 < rounds) continue;
    }
    // values live in one array for the whole history
    std::vector<double> store(val.size() + 2); auto ptr = [&](int v) { return v < 0 ? nullptr : &store[v]; };
    size_t idx = 0;
    for (int round = 0; round < rounds; ++round)
    {
      auto & J = keep[idx++]; auto & A = keep[idx++]; std::vector<JointHandle> jh; std::vector<ActuatorHandle> ah;
      for (auto & x : J) jh.emplace_back(x.name, x.type, ptr(x.v)); for (auto & x : A) ah.emplace_back(x.name, x.type, ptr(x.v));
      in << "configure:"; for (auto & x : J) in << " " << x.name << "/" << x.type << (x.v < 0 ? "(unset)" : ""); in << " |"; for (auto & x : A) in << " " << x.name << "/" << x.type << (x.v < 0 ? "(unset)" : ""); in << "\n";
      bool th = false; try { t->configure(jh, ah); } catch (const std::exception &) { th = true; }
      bool want = !J.empty() && !A.empty(); std::vector<std::vector<const H *>> fj(nq), fa(nq); for (size_t q = 0; q < nq; ++q) { fj[q] = simple ? first(J, Q[q]) : ordered(J, Q[q]); fa[q] = simple ? first(A, Q[q]) : ordered(A, Q[q]); }
      if (simple) { want = want && names(J) == 1 && names(A) == 1; bool a = false, b = false; for (size_t q = 0; q < nq; ++q) { a |= !fj[q].empty(); b |= !fa[q].empty(); } want = want && a && b; }
      else
      {
        want = want && names(J) == 2 && names(A) == 2; bool some = false, a = false, b = false, e = false, oddj = false;
        for (size_t q = 0; q < nq; ++q) { some |= fj[q].size() == 2 && fa[q].size() == 2; a |= fj[q].size() == 2; b |= fa[q].size() == 2; e |= fj[q].size() == fa[q].size(); oddj |= (!fj[q].empty() && fj[q].size() != 2) || (!fa[q].empty() && fa[q].size() != 2); }
        want = want && (kind == 1 ? some && !oddj : a && b && e);
      }
      if (on("T03") && th == want) F(want ? "usable configuration rejected" : "unusable configuration accepted");
      ok = !th;
      if (ok) { kj = fj; ka = fa; }
      hj.insert(hj.end(), J.begin(), J.end()); ha.insert(ha.end(), A.begin(), A.end());
    }
    // power needs finite moderate values
    for (auto & v : store) v = r.b(.1) ? 0 : r.r(-50, 50);
    auto before = store; bool fwd = r.b(); in << (fwd ? "actuator_to_joint" : "joint_to_actuator") << " from"; for (double v : store) in << " " << num(v); in << "\n";
    try { fwd ? t->actuator_to_joint() : t->joint_to_actuator(); } catch (const std::exception & e) { if (on("T03")) F(std::string("conversion threw: ") + e.what()); continue; }
    in << "gives"; for (double v : store) in << " " << num(v); in << "\n";
    // only values of valid destination handles change
    auto & dst = fwd ? hj : ha; std::vector<bool> may(store.size()); for (auto & x : dst) if (x.v >= 0) may[x.v] = true;
    if (on("T02") || on("T03")) for (size_t i = 0; i < store.size(); ++i) if (!may[i] && std::memcmp(&store[i], &before[i], 8)) F("a value outside the destination side changed");
    if (!ok) continue;
    size_t w = simple ? 1 : 2; auto full = [&](size_t q) { return kj[q].size() == w && ka[q].size() == w; };
    auto V = [&](const std::vector<double> & s, const std::vector<const H *> & k, size_t i) { return s[k[i]->v]; };
    // equality of conversion results: relative to the magnitude of the largest term involved
    double m = 60 * 60 * 1e3; auto near = [&](double a, double b, double scale) { return std::fabs(a - b) <= 1e-9 * (1 + scale); };
    auto expect = [&](size_t q, std::vector<double> x) -> std::vector<double>
    {
      bool pos = q == 0 || q == 5, vel = q == 1; double o0 = pos ? off[0] : 0, o1 = pos && w == 2 ? off[1] : 0;
      if (simple) { if (pos || vel) return {fwd ? x[0] / ar[0] + o0 : (x[0] - o0) * ar[0]}; return {fwd ? x[0] * ar[0] : x[0] / ar[0]}; }
      if (kind == 1)
      {
        if (pos || vel) { if (fwd) return {(x[0] / ar[0] + x[1] / ar[1]) / (2 * jr[0]) + o0, (x[0] / ar[0] - x[1] / ar[1]) / (2 * jr[1]) + o1}; return {ar[0] * (jr[0] * (x[0] - o0) + jr[1] * (x[1] - o1)), ar[1] * (jr[0] * (x[0] - o0) - jr[1] * (x[1] - o1))}; }
        if (fwd) return {jr[0] * (x[0] * ar[0] + x[1] * ar[1]), jr[1] * (x[0] * ar[0] - x[1] * ar[1])}; return {(x[0] / jr[0] + x[1] / jr[1]) / (2 * ar[0]), (x[0] / jr[0] - x[1] / jr[1]) / (2 * ar[1])};
      }
      if (pos || vel) { if (fwd) return {x[0] / (jr[0] * ar[0]) + o0, (x[1] / ar[1] - x[0] / (jr[0] * ar[0])) / jr[1] + o1}; return {(x[0] - o0) * jr[0] * ar[0], (x[0] - o0 + (x[1] - o1) * jr[1]) * ar[1]}; }
      if (fwd) return {jr[0] * x[0] * ar[0] + x[1] * ar[1], jr[1] * x[1] * ar[1]}; return {(x[0] - x[1] / jr[1]) / (jr[0] * ar[0]), x[1] / (ar[1] * jr[1])};
    };
    for (size_t q = 0; q < nq; ++q)
    {
      auto & d = fwd ? kj : ka; auto & s = fwd ? ka : kj;
      bool conv = full(q) && (fwd || q != 5);
      if (!conv) { if (on("T02") || on("T03")) for (auto * x : d[q]) if (std::memcmp(&store[x->v], &before[x->v], 8)) F(Q[q] + " converted although incomplete"); continue; }
      std::vector<double> x; for (size_t i = 0; i < w; ++i) x.push_back(V(before, s[q], i)); auto y = expect(q, x);
      for (size_t i = 0; i < w; ++i)
      {
        double sc = 50 * m; if (!near(V(store, d[q], i), y[i], 1e-3 * sc)) { if (on("T02") || on("T03")) F(Q[q] + " converted to " + num(V(store, d[q], i)) + ", expected " + num(y[i])); }
      }
    }
    if (on("T02") && full(1)) for (size_t q = 2; q < nq && q < 5; ++q) if (full(q)) { double pj = 0, pa = 0, sc = 0; for (size_t i = 0; i < w; ++i) { double a = V(store, kj[q], i) * V(store, kj[1], i), b = V(store, ka[q], i) * V(store, ka[1], i); pj += a; pa += b; sc = std::max({sc, std::fabs(a), std::fabs(b)}); } if (!near(pj, pa, sc * 1e3)) F(Q[q] + " power " + num(pj) + " at the joints, " + num(pa) + " at the actuators"); }
    // round trip
    if (on("T01"))
    {
      try { fwd ? t->joint_to_actuator() : t->actuator_to_joint(); } catch (const std::exception & e) { continue; }
      auto & s = fwd ? ka : kj;
      for (size_t q = 0; q < nq; ++q) { if (!full(q) || (q == 5 && !fwd)) continue; for (size_t i = 0; i < w; ++i) if (!near(V(store, s[q], i), V(before, s[q], i), 1e4)) F(Q[q] + " comes back as " + num(V(store, s[q], i)) + " instead of " + num(V(before, s[q], i))); }
    }
  }
  std::printf("OK %ld\n", n); return 0;
}
