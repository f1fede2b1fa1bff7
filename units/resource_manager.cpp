#include "hardware_interface/src/resource_manager.cpp"
