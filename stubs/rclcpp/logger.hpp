#pragma once
#include <string>
#include <memory>
namespace rclcpp {
class Logger { std::string n_; public: Logger()=default; explicit Logger(std::string n):n_(std::move(n)){} Logger get_child(const std::string & s) const { return Logger(n_+"."+s);} const char* get_name() const {return n_.c_str();}
  enum class Level { Unset=0, Debug=10, Info=20, Warn=30, Error=40, Fatal=50 }; void set_level(Level) {} };
inline Logger get_logger(const std::string & n) { return Logger(n); }
}
