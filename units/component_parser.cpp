#include "hardware_interface/src/component_parser.cpp"
