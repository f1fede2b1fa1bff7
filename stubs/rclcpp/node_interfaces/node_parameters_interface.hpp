#pragma once
#include "rclcpp/parameter.hpp"
#include "rcl_interfaces/msg/set_parameters_result.hpp"
#include <memory>
#include <map>
#include <functional>
namespace rclcpp { namespace node_interfaces {
struct OnSetParametersCallbackHandle { using SharedPtr=std::shared_ptr<OnSetParametersCallbackHandle>; std::function<rcl_interfaces::msg::SetParametersResult(const std::vector<rclcpp::Parameter>&)> callback; };
class NodeParametersInterface { public: using SharedPtr=std::shared_ptr<NodeParametersInterface>; std::map<std::string,rclcpp::ParameterValue> params; OnSetParametersCallbackHandle::SharedPtr cb;
  virtual ~NodeParametersInterface()=default;
  virtual bool has_parameter(const std::string & n) const { return params.count(n)>0; }
  virtual const ParameterValue & declare_parameter(const std::string & n, const ParameterValue & v) { return params[n]=v; }
  virtual rclcpp::Parameter get_parameter(const std::string & n) const { auto it=params.find(n); if (it==params.end()) throw exceptions::ParameterNotDeclaredException(n); return rclcpp::Parameter(n,it->second); }
  virtual bool get_parameter(const std::string & n, rclcpp::Parameter & p) const { auto it=params.find(n); if (it==params.end()) return false; p=rclcpp::Parameter(n,it->second); return true; }
  virtual OnSetParametersCallbackHandle::SharedPtr add_on_set_parameters_callback(std::function<rcl_interfaces::msg::SetParametersResult(const std::vector<rclcpp::Parameter>&)> f) { cb=std::make_shared<OnSetParametersCallbackHandle>(); cb->callback=f; return cb; } };
}}
