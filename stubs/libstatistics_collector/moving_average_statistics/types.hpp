#pragma once
#include <cmath>
#include <cstdint>
#include <limits>
namespace libstatistics_collector { namespace moving_average_statistics { struct StatisticData { double average=std::nan(""), min=std::nan(""), max=std::nan(""), standard_deviation=std::nan(""); uint64_t sample_count=0; }; } }
