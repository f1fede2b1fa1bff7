#pragma once
#include <memory>
#include <functional>
#include <atomic>
#include "rclcpp/context.hpp"
namespace rclcpp { namespace node_interfaces { class NodeBaseInterface { public: using SharedPtr=std::shared_ptr<NodeBaseInterface>; std::shared_ptr<Context> ctx_=std::make_shared<Context>(); std::atomic_bool assoc_{false}; std::shared_ptr<Context> get_context() { return ctx_; } std::atomic_bool & get_associated_with_executor_atomic() { return assoc_; } }; }
class Executor { public: using SharedPtr=std::shared_ptr<Executor>; using WeakPtr=std::weak_ptr<Executor>; void add_node(node_interfaces::NodeBaseInterface::SharedPtr){} template<class N> void add_node(std::shared_ptr<N>){} template<class N> void remove_node(N){} void cancel(){} }; }
