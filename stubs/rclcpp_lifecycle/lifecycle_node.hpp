#pragma once
#include "rclcpp/node.hpp"
#include "rclcpp_lifecycle/node_interfaces/lifecycle_node_interface.hpp"
#include <functional>
// the life cycle as rclcpp_lifecycle documents it: a callback runs in the transition state it belongs to; an ERROR result or an exception starts error processing
namespace rclcpp_lifecycle { class LifecycleNode : public rclcpp::Node { public: using SharedPtr=std::shared_ptr<LifecycleNode>; using rclcpp::Node::Node; LifecycleNode(const std::string&n, const std::string&ns, const rclcpp::NodeOptions&o, bool=false): rclcpp::Node(n,ns,o) {}
 State st_{1,"unconfigured"}; using CR=node_interfaces::LifecycleNodeInterface::CallbackReturn; using F=std::function<CR(const State&)>; F cfg_,cln_,act_,dea_,shu_,err_;
 static State primary(int i) { static const char * n[]={"unknown","unconfigured","inactive","active","finalized"}; return State(i,n[i]); }
 const State & go(F & f, bool legal, const State & trans, int ok, int fail) { if (!legal) return st_; State prev=st_; st_=trans; CR r=CR::SUCCESS; if (f) try { r=f(prev); } catch (...) { r=CR::ERROR; } if (r==CR::SUCCESS) st_=primary(ok); else if (r==CR::FAILURE) st_=primary(fail); else { State from=st_; st_=State(15,"errorprocessing"); CR q=CR::FAILURE; if (err_) try { q=err_(from); } catch (...) { q=CR::ERROR; } st_=primary(q==CR::SUCCESS?1:4); } return st_; }
 const State & get_current_state() const {return st_;} const State & configure(){ return go(cfg_,st_.id()==1,State(10,"configuring"),2,1); } const State& cleanup(){ return go(cln_,st_.id()==2,State(11,"cleaningup"),1,2); } const State& activate(){ return go(act_,st_.id()==2,State(13,"activating"),3,2); } const State& deactivate(){ return go(dea_,st_.id()==3,State(14,"deactivating"),2,3); } const State & shutdown(){ int i=st_.id(); return go(shu_,i>=1&&i<=3,State(12,"shuttingdown"),4,4); }
 void register_on_configure(F f){cfg_=f;} void register_on_cleanup(F f){cln_=f;} void register_on_activate(F f){act_=f;} void register_on_deactivate(F f){dea_=f;} void register_on_shutdown(F f){shu_=f;} void register_on_error(F f){err_=f;} }; }
