// bounded exploration of the real text conversions (L01, L02): usage <prop> <seconds> <seed> [seeds]
#include "common.hpp"
#include <locale>
#include "hardware_interface/lexical_casts.hpp"
using namespace vh; using S = std::string; using I = __int128;
static bool sp(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static bool dg(char c) { return c >= '0' && c <= '9'; }
// [white space] [sign] digits, nothing else
static std::optional<I> whole_int(const S & s) { size_t i = 0; while (i < s.size() && sp(s[i])) ++i; bool neg = false; if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-'; if (i == s.size()) return {}; I v = 0; for (; i < s.size(); ++i) { if (!dg(s[i])) return {}; if (v < (I(1) << 100)) v = v * 10 + (s[i] - '0'); } return neg ? -v : v; }
// [sign] digits [. digits] [e [sign] digits]: finite
static std::optional<S> whole_real(const S & s) { size_t i = 0; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i; int d = 0; while (i < s.size() && dg(s[i])) ++i, ++d; if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && dg(s[i])) ++i, ++d; } if (!d) return {}; if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { ++i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i; int e = 0; while (i < s.size() && dg(s[i])) ++i, ++e; if (!e) return {}; } if (i != s.size()) return {}; return s[0] == '+' ? s.substr(1) : s; }
static S show(const S & s) { S o = "\""; for (unsigned char c : s) { if (c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; } return o + "\""; }
template <class T, class F> static void integer(const char * n, const S & s, F f)
{
  auto w = whole_int(s); bool ok = w && *w >= I(std::numeric_limits<T>::min()) && *w <= I(std::numeric_limits<T>::max());
  try { T v = f(s); if (!ok) fail(S("L01: ") + n + " accepted " + show(s) + " as " + std::to_string((long long)v), show(s)); if (I(v) != *w) fail(S("L01: ") + n + " value", show(s)); }
  catch (const std::invalid_argument &) { if (ok) fail(S("L01: ") + n + " rejected a number in range", show(s)); }
  catch (const std::out_of_range &) { if (ok) fail(S("L01: ") + n + " rejected a number in range", show(s)); }
}
template <class T, class F> static void real(const char * n, const S & s, F f)
{
  auto w = whole_real(s); T ref = 0; bool ok = w.has_value(), border = false;
  if (ok) { ref = sizeof(T) == 8 ? T(std::strtod(w->c_str(), nullptr)) : T(std::strtof(w->c_str(), nullptr)); if (std::isinf(ref)) ok = false; border = std::fabs(ref) < std::numeric_limits<T>::min() && ok; }
  if (border && w->find_first_of("123456789") < w->find_first_of("eE")) return;   // underflow: either answer
  try { T v = f(s); if (!ok) fail(S("L01: ") + n + " accepted " + show(s), show(s)); if (v != ref) fail(S("L01: ") + n + " value " + num(v), show(s)); if (!std::isfinite(v)) fail(S("L01: ") + n + " not finite", show(s)); }
  catch (const std::invalid_argument &) { if (ok) fail(S("L01: ") + n + " rejected a finite number", show(s)); }
}
static bool boolean(const S & t, bool & v) { S l; for (unsigned char c : t) l += (c >= 'A' && c <= 'Z') ? char(c + 32) : char(c); v = l == "true"; return v || l == "false"; }
// [ ws (element (ws , ws element)* ws)? ]
static bool elements(const S & s, std::vector<S> & out)
{
  size_t i = 0, n = s.size(); auto ws = [&] { while (i < n && sp(s[i])) ++i; }; out.clear();
  if (i == n || s[i] != '[') return false; ++i; ws();
  if (i + 1 == n && s[i] == ']') return true;
  for (;;) { S t; while (i < n && !sp(s[i]) && s[i] != ',' && s[i] != '[' && s[i] != ']') t += s[i++]; if (t.empty()) return false; out.push_back(t); ws(); if (i == n) return false; if (s[i] == ']') return i + 1 == n; if (s[i] != ',') return false; ++i; ws(); }
}
template <class T, class C> static void array(const char * n, const S & s, C conv)
{
  std::vector<S> e; std::vector<T> w; bool ok = elements(s, e), border = false;
  for (auto & t : e) { T v{}; int k = ok ? conv(t, v) : 1; if (k == 0) ok = false; if (k == 2) border = true; w.push_back(v); }
  if (border) return;
  try { auto r = hardware_interface::parse_array<T>(s); if (!ok) fail(S("L02: parse_array<") + n + "> accepted a malformed array", show(s)); if (r.size() != w.size()) fail(S("L02: parse_array<") + n + "> length", show(s)); for (size_t i = 0; i < w.size(); ++i) if (r[i] != w[i]) fail(S("L02: parse_array<") + n + "> element " + std::to_string(i), show(s)); }
  catch (const std::invalid_argument & x) { if (ok) fail(S("L02: parse_array<") + n + "> rejected a well-formed array: " + x.what(), show(s)); }
}
static int cd(const S & t, double & v) { auto w = whole_real(t); if (!w) return 0; v = std::strtod(w->c_str(), nullptr); if (std::isinf(v)) return 0; return std::fabs(v) < std::numeric_limits<double>::min() && w->find_first_of("123456789") < w->find_first_of("eE") ? 2 : 1; }
int main(int, char ** av)
{
  S p = av[1]; double secs = std::atof(av[2]); Rng r(std::strtoull(av[3], nullptr, 10)); Clock c; long n = 0;
  auto pick = [&](std::initializer_list<const char *> l) { return S(l.begin()[r.i(0, int(l.size()) - 1)]); };
  auto number = [&] {
    S s; if (r.b(.1)) s += pick({" ", "\t", "\n", "  "}); if (r.b(.6)) s += pick({"-", "-", "+", "+-", "-+", "--"});
    if (r.b(.5)) s += pick({"0", "1", "127", "128", "129", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551361", "99999999999999999999999", "007"});
    else for (int k = r.i(0, 4); k > 0; --k) s += char('0' + r.i(0, 9));
    if (r.b(.3)) { s += '.'; for (int k = r.i(0, 3); k > 0; --k) s += char('0' + r.i(0, 9)); }
    if (r.b(.25)) s += pick({"e", "E"}) + pick({"", "+", "-"}) + pick({"0", "1", "3", "10", "38", "39", "308", "309", "400", ""});
    if (r.b(.12)) s += pick({" ", "x", "f", "-", "\n", ",5", "..", "_", "e"});
    if (r.b(.04)) s = pick({"", "nan", "inf", "-inf", "infinity", "0x10", "1e400", "-1e400", "+", "-", ".", "+.", "e5", ".5", "5.", "+.5", "1e39", "3.4028235e38", "3.5e38", "0x1p3"}); return s; };
  auto flag = [&] { S s = pick({"true", "false", "True", "FALSE", "tRuE", "fAlsE", "TRUE", "yes", "1", "tru", "truee", "", "true ", "fals\xc5", "\xd4rue", "t\x12ue", "4rue", "0"}); if (r.b(.2) && !s.empty()) s[r.i(0, int(s.size()) - 1)] = char(r.i(1, 255)); return s; };
  while (c.s() < secs && n < 3000000)
  {
    ++n;
    if (p == "L01")
    {
      S s = number(); if (r.b(.05) && !s.empty()) s[r.i(0, int(s.size()) - 1)] = char(r.i(1, 255));
      try {
        integer<int8_t>("stoi8", s, hardware_interface::stoi8); integer<int16_t>("stoi16", s, hardware_interface::stoi16); integer<int32_t>("stoi32", s, hardware_interface::stoi32);
        integer<uint8_t>("stoui8", s, hardware_interface::stoui8); integer<uint16_t>("stoui16", s, hardware_interface::stoui16); integer<uint32_t>("stoui32", s, hardware_interface::stoui32);
        real<double>("stod", s, hardware_interface::stod); real<float>("stof", s, hardware_interface::stof);
      } catch (const std::exception & e) { fail(S("L01: undeclared exception ") + e.what(), show(s)); }
      continue;
    }
    auto check_bool = [&](const S & s) { bool v = false, ok = boolean(s, v); try { bool g = hardware_interface::parse_bool(s); if (!ok || g != v) fail("L02: parse_bool accepted or misread " + show(s), show(s)); } catch (const std::invalid_argument &) { if (ok) fail("L02: parse_bool rejected " + show(s), show(s)); } };
    check_bool(flag());
    S s; int kind = r.i(0, 4), k = r.i(0, 4); auto ws = [&] { return r.b(.3) ? pick({" ", "\t", "  ", "\n", "\v"}) : S(); };
    s = r.b(.97) ? "[" : pick({"", " [", "[[", "("}); s += ws();
    for (int i = 0; i < k; ++i) { S e = r.b(.9) ? (kind == 0 ? flag() : kind == 1 ? pick({"a", "bc", "x y", "d.e", "-", "\"q\"", "\xe9", "a;b"}) : number()) : pick({"", ",", "[1]", "]", "[", " "}); s += e; s += ws(); if (i + 1 < k ? r.b(.97) : r.b(.03)) s += ","; s += ws(); }
    s += r.b(.97) ? "]" : pick({"", "] ", "]]", ")", ",]"});
    try {
      array<S>("string", s, [](const S & t, S & v) { v = t; return 1; });
      { std::vector<S> e; bool ok = elements(s, e); try { auto g = hardware_interface::parse_string_array(s); if (!ok || g != e) fail("L02: parse_string_array", show(s)); } catch (const std::invalid_argument &) { if (ok) fail("L02: parse_string_array rejected an array", show(s)); } }
      array<double>("double", s, cd);
      array<float>("float", s, [](const S & t, float & v) { double d; int k = cd(t, d); if (k != 1) return k; if (std::fabs(d) > std::numeric_limits<float>::max()) return 0; v = float(d); return 1; });
      array<int>("int", s, [](const S & t, int & v) { double d; int k = cd(t, d); if (k != 1) return k; if (d != std::trunc(d) || d < -2147483648.0 || d > 2147483647.0) return 0; v = int(d); return 1; });
      array<bool>("bool", s, [](const S & t, bool & v) { return boolean(t, v) ? 1 : 0; });
    } catch (const std::exception & e) { fail(S("L02: undeclared exception ") + e.what(), show(s)); }
  }
  std::printf("OK %ld\n", n);
}
