#include "transmission_interface/four_bar_linkage_transmission.hpp"
