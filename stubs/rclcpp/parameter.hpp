#pragma once
#include <string>
#include <vector>
#include <variant>
#include <stdexcept>
#include <cstdint>
namespace rclcpp {
enum ParameterType { PARAMETER_NOT_SET, PARAMETER_BOOL, PARAMETER_INTEGER, PARAMETER_DOUBLE, PARAMETER_STRING, PARAMETER_BYTE_ARRAY, PARAMETER_BOOL_ARRAY, PARAMETER_INTEGER_ARRAY, PARAMETER_DOUBLE_ARRAY, PARAMETER_STRING_ARRAY };
namespace exceptions { struct InvalidParameterTypeException : std::runtime_error { InvalidParameterTypeException(const std::string & n, const std::string m): std::runtime_error(n+m) {} };
struct ParameterNotDeclaredException : std::runtime_error { using std::runtime_error::runtime_error; }; struct ParameterAlreadyDeclaredException : std::runtime_error { using std::runtime_error::runtime_error; }; struct InvalidParametersException : std::runtime_error { using std::runtime_error::runtime_error; }; }
class ParameterValue { std::variant<std::monostate,bool,int64_t,double,std::string,std::vector<std::string>> v_; public: ParameterValue()=default;
  explicit ParameterValue(bool b):v_(b){} explicit ParameterValue(int b):v_(int64_t(b)){} explicit ParameterValue(int64_t b):v_(b){} explicit ParameterValue(double b):v_(b){} explicit ParameterValue(std::string b):v_(std::move(b)){} explicit ParameterValue(std::vector<std::string> b):v_(std::move(b)){} explicit ParameterValue(const char* b):v_(std::string(b)){}
  ParameterType get_type() const { return v_.index()==5 ? PARAMETER_STRING_ARRAY : static_cast<ParameterType>(v_.index()); }
  template<class T> const T & get() const { if (!std::holds_alternative<T>(v_)) throw exceptions::InvalidParameterTypeException("","wrong type"); return std::get<T>(v_); } };
class Parameter { std::string n_; ParameterValue v_; public: Parameter()=default; Parameter(std::string n, ParameterValue v):n_(std::move(n)),v_(std::move(v)){} template<class T> Parameter(std::string n, T v):n_(std::move(n)),v_(v){}
  const std::string & get_name() const {return n_;} ParameterType get_type() const {return v_.get_type();} const ParameterValue & get_parameter_value() const {return v_;}
  bool as_bool() const {return v_.get<bool>();} double as_double() const {return v_.get<double>();} int64_t as_int() const {return v_.get<int64_t>();} const std::vector<std::string>& as_string_array() const {return v_.get<std::vector<std::string>>();} const std::string& as_string() const {return v_.get<std::string>();} 
  template<class T> T get_value() const { if constexpr (std::is_integral_v<T> && !std::is_same_v<T,bool>) return static_cast<T>(v_.get<int64_t>()); else return v_.get<T>(); } };
}
