#pragma once
#include "pal_statistics/pal_statistics_macros.hpp"
