#include "controller_manager/src/controller_manager.cpp"
