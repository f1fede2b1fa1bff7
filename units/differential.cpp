#include "transmission_interface/differential_transmission.hpp"
