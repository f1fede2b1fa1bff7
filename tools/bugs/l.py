
LH = """
#include <cstdio>
#include <stdexcept>
#include "hardware_interface/lexical_casts.hpp"
using namespace hardware_interface;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s\\n", #c); return 1; } } while (0)
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
"""
LX, LC = "hardware_interface/include/hardware_interface/lexical_casts.hpp", "hardware_interface/src/lexical_casts.cpp"
BUGS = [
 dict(id="l1-trailing-blank", property="L01", srcs=[LC],
  edits=[(LX, "  const auto v = std::stol(s, &pos);  // stol returns long\n  if (pos != s.length())", "  const auto v = std::stol(s, &pos);  // stol returns long\n  if (pos < s.find_last_not_of(\"\\t\\n \") + 1)")],
  needs="an integer followed by blanks only",
  breaks="text with trailing characters is accepted as a signed integer",
  demo=LH + """
int main() { CHECK(throws([] { stoi16("5 "); })); CHECK(throws([] { stoi32("-7\\n"); })); CHECK(stoi16("-5") == -5); CHECK(throws([] { stoi8("5x"); })); }"""),
 dict(id="l1-nan-accepted", property="L01", srcs=[LC],
  edits=[(LC, "    std::isfinite(static_cast<double>(result_value)))", "    !std::isinf(static_cast<double>(result_value)))")],
  needs="the text nan, with or without a sign",
  breaks="a not-a-number real is accepted",
  demo=LH + """
int main() { for (const char * s : {"nan", "-nan", "NAN"}) { CHECK(throws([&] { hardware_interface::stod(s); })); CHECK(throws([&] { hardware_interface::stof(s); })); } CHECK(throws([] { hardware_interface::stod("inf"); })); CHECK(hardware_interface::stod("1.5") == 1.5); }"""),
 dict(id="l2-bool-prefix", property="L02", srcs=[LC],
  edits=[(LC, 'if (temp == "false")', 'if (temp.compare(0, 5, "false") == 0)')],
  needs="text that starts with the word false and goes on",
  breaks="text that is no boolean is accepted as false",
  demo=LH + """
int main() { CHECK(throws([] { parse_bool("falsehood"); })); CHECK(throws([] { parse_bool("false "); })); CHECK(!parse_bool("FALSE")); CHECK(parse_bool("True")); }"""),
 dict(id="l2-element-split", property="L02", srcs=[LC],
  edits=[(LX, 'R"([^\\s,\\[\\]]+)"', 'R"([^\\s,;\\[\\]]+)"')],
  needs="an element that contains a semicolon",
  breaks="one element comes out as two",
  demo=LH + """
int main() { auto v = parse_string_array("[a;b, c]"); CHECK(v.size() == 2); CHECK(v[0] == "a;b"); CHECK(v[1] == "c"); CHECK(throws([] { parse_array<int>("[1;2]"); })); }"""),
]
