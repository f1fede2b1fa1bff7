#pragma once
#include <string>
#include "diagnostic_msgs/msg/diagnostic_status.hpp"
namespace diagnostic_updater { struct DiagnosticStatusWrapper : diagnostic_msgs::msg::DiagnosticStatus { void summary(unsigned char l, const std::string &) { level=l; } void mergeSummary(unsigned char l, const std::string &) { if (l>level) level=l; } template<class T> void add(const std::string &, const T &) {} };
struct Updater { template<class N> explicit Updater(N) {} void setHardwareID(const std::string &) {} template<class... A> void add(A &&...) {} void force_update() {} void broadcast(int, const std::string &) {} }; }
