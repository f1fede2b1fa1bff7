#include "controller_interface/src/controller_interface_base.cpp"
#include "controller_interface/src/chainable_controller_interface.cpp"
