#pragma once
#include "rclcpp/clock.hpp"
#include "rclcpp/logging.hpp"
#include "rclcpp/executor.hpp"
#include "rclcpp/node_options.hpp"
#include "rclcpp/node_interfaces/node_logging_interface.hpp"
#include "rclcpp/node_interfaces/node_clock_interface.hpp"
#include "rclcpp/node_interfaces/node_parameters_interface.hpp"
#include "rclcpp/context.hpp"
#include "rcl_interfaces/msg/set_parameters_result.hpp"
#include <chrono>
#include <cassert>
#include <condition_variable>
#include <numeric>
#include <mutex>
#include <thread>
namespace rclcpp {
inline bool ok() { return true; }
} enum rmw_qos_history_policy_t { RMW_QOS_POLICY_HISTORY_KEEP_ALL = 2 }; namespace rclcpp {
struct QoSInitialization { QoSInitialization(rmw_qos_history_policy_t, int) {} };
struct QoS { QoS()=default; QoS(int){} QoS(const QoSInitialization&){} QoS& durability_volatile(){return *this;} QoS& reliable(){return *this;} QoS& transient_local(){return *this;} QoS& keep_last(int){return *this;} };
struct SystemDefaultsQoS : QoS {}; 
template<class M> class Publisher { public: using SharedPtr=std::shared_ptr<Publisher<M>>; void publish(const M&){} };
template<class M> class Subscription { public: using SharedPtr=std::shared_ptr<Subscription<M>>; };
template<class S> class Service { public: using SharedPtr=std::shared_ptr<Service<S>>; };
class TimerBase { public: using SharedPtr=std::shared_ptr<TimerBase>; void cancel(){} };
class CallbackGroup { public: using SharedPtr=std::shared_ptr<CallbackGroup>; };
enum class CallbackGroupType { MutuallyExclusive, Reentrant };
class Node { public: using SharedPtr=std::shared_ptr<Node>; virtual ~Node()=default; Node()=default; Node(const std::string & n, const NodeOptions & = NodeOptions()):n_(n){} Node(const std::string & n, const std::string & ns, const NodeOptions & o = NodeOptions()):n_(n),ns_(ns){ for (auto & q : o.parameter_overrides()) p_->params[q.get_name()] = q.get_parameter_value(); }
  std::string n_="node", ns_="/"; node_interfaces::NodeLoggingInterface::SharedPtr l_=std::make_shared<node_interfaces::NodeLoggingInterface>(); node_interfaces::NodeParametersInterface::SharedPtr p_=std::make_shared<node_interfaces::NodeParametersInterface>(); node_interfaces::NodeClockInterface::SharedPtr c_=std::make_shared<node_interfaces::NodeClockInterface>();
  const char* get_name() const {return n_.c_str();} const char* get_namespace() const {return ns_.c_str();} Logger get_logger() const {return l_->get_logger();}
  node_interfaces::NodeLoggingInterface::SharedPtr get_node_logging_interface() {return l_;} node_interfaces::NodeParametersInterface::SharedPtr get_node_parameters_interface() {return p_;} node_interfaces::NodeClockInterface::SharedPtr get_node_clock_interface() {return c_;} node_interfaces::NodeBaseInterface::SharedPtr b_=std::make_shared<node_interfaces::NodeBaseInterface>(); node_interfaces::NodeBaseInterface::SharedPtr get_node_base_interface() const {return b_;}
  Clock::SharedPtr get_clock() {return c_->get_clock();} Time now() {return get_clock()->now();}
  bool has_parameter(const std::string&n) const {return p_->has_parameter(n);} template<class T> T declare_parameter(const std::string & n, const T & v) { p_->declare_parameter(n, ParameterValue(v)); return v; } const ParameterValue & declare_parameter(const std::string & n, const ParameterValue & v, const rcl_interfaces::msg::ParameterDescriptor &) { return p_->declare_parameter(n, v); } Parameter get_parameter(const std::string&n) const {return p_->get_parameter(n);} bool get_parameter(const std::string&n, Parameter&p) const {return p_->get_parameter(n,p);} template<class T> bool get_parameter(const std::string&n, T&v) const { Parameter p; if (!p_->get_parameter(n,p)) return false; v=p.get_value<T>(); return true; } Parameter set_parameter(const Parameter&p){return p;}
  CallbackGroup::SharedPtr create_callback_group(CallbackGroupType) { return std::make_shared<CallbackGroup>(); } template<class S, class F> std::shared_ptr<Service<S>> create_service(const std::string&, F, const QoS &, CallbackGroup::SharedPtr) { return std::make_shared<Service<S>>(); }
  template<class M, class Q> std::shared_ptr<Publisher<M>> create_publisher(const std::string&, const Q&) { return std::make_shared<Publisher<M>>(); } template<class M, class Q, class F> std::shared_ptr<Subscription<M>> create_subscription(const std::string&, const Q&, F) { return nullptr; } template<class D, class F> TimerBase::SharedPtr create_wall_timer(D, F) { return std::make_shared<TimerBase>(); } };
}
