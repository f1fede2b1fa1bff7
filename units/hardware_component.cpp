#include "hardware_interface/src/hardware_component_interface.cpp"
#include "hardware_interface/src/hardware_component.cpp"
