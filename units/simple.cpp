#include "transmission_interface/simple_transmission.hpp"
