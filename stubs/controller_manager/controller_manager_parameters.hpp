#pragma once
#include <memory>
#include <string>
#include <vector>
#include <cstdint>
#include "rclcpp/node.hpp"
// what generate_parameter_library makes of controller_manager_parameters.yaml: the values and a listener that hands them out
namespace controller_manager {
struct Params {
  int64_t update_rate = 100;
  bool enforce_command_limits = true;
  bool handle_exceptions = true;
  struct Hardware_components_initial_stateS {
    std::vector<std::string> unconfigured = {};
    std::vector<std::string> inactive = {};
    bool shutdown_on_initial_state_failure = false;
  } hardware_components_initial_state;
  struct DefaultsS {
    struct Switch_controllerS {
      std::string strictness = "strict";
    } switch_controller;
    bool allow_controller_activation_with_inactive_hardware = false;
    bool deactivate_controllers_on_hardware_self_deactivate = true;
  } defaults;
  struct DiagnosticsS {
    struct ThresholdS {
      struct Controller_managerS {
        struct PeriodicityS {
          struct Mean_errorS {
            double warn = 5.0;
            double error = 10.0;
          } mean_error;
          struct Standard_deviationS {
            double warn = 5.0;
            double error = 10.0;
          } standard_deviation;
        } periodicity;
      } controller_manager;
      struct ControllersS {
        struct PeriodicityS {
          struct Mean_errorS {
            double warn = 5.0;
            double error = 10.0;
          } mean_error;
          struct Standard_deviationS {
            double warn = 5.0;
            double error = 10.0;
          } standard_deviation;
        } periodicity;
        struct Execution_timeS {
          struct Mean_errorS {
            double warn = 1000.0;
            double error = 2000.0;
          } mean_error;
          struct Standard_deviationS {
            double warn = 100.0;
            double error = 200.0;
          } standard_deviation;
        } execution_time;
      } controllers;
      struct Hardware_componentsS {
        struct PeriodicityS {
          struct Mean_errorS {
            double warn = 5.0;
            double error = 10.0;
          } mean_error;
          struct Standard_deviationS {
            double warn = 5.0;
            double error = 10.0;
          } standard_deviation;
        } periodicity;
        struct Execution_timeS {
          struct Mean_errorS {
            double warn = 1000.0;
            double error = 2000.0;
          } mean_error;
          struct Standard_deviationS {
            double warn = 100.0;
            double error = 200.0;
          } standard_deviation;
        } execution_time;
      } hardware_components;
    } threshold;
  } diagnostics;
  struct OverrunsS {
    bool print_warnings = false;
  } overruns;
};
class ParamListener { Params p_; public: static Params & preset() { static Params p; return p; } template<class... A> ParamListener(A &&...): p_(preset()) {} Params get_params() const { return p_; } bool is_old(const Params &) const { return false; } void refresh_dynamic_parameters() {} bool try_update_params(Params &) const { return false; } };
}
