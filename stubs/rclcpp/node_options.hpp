#pragma once
#include <vector>
#include <string>
#include "rclcpp/parameter.hpp"
namespace rclcpp { class NodeOptions { std::vector<std::string> a_; std::vector<Parameter> po_; public: NodeOptions & arguments(const std::vector<std::string>&a){a_=a; return *this;} const std::vector<std::string>& arguments() const {return a_;} NodeOptions& allow_undeclared_parameters(bool){return *this;} NodeOptions& automatically_declare_parameters_from_overrides(bool){return *this;} NodeOptions& use_global_arguments(bool){return *this;} NodeOptions& enable_logger_service(bool){return *this;} NodeOptions& enable_rosout(bool) {return *this;} NodeOptions& append_parameter_override(const std::string&, bool){return *this;} template<class T> NodeOptions& append_parameter_override(const std::string&, const T&){return *this;} std::vector<Parameter>& parameter_overrides(){return po_;} const std::vector<Parameter>& parameter_overrides() const {return po_;} NodeOptions& parameter_overrides(const std::vector<Parameter>&p){po_=p;return *this;} NodeOptions& use_intra_process_comms(bool){return *this;} NodeOptions& clock_type(int){return *this;} }; }
