#pragma once
#include "libstatistics_collector/moving_average_statistics/types.hpp"
#include <mutex>
namespace libstatistics_collector { namespace moving_average_statistics { class MovingAverageStatistics { public: virtual ~MovingAverageStatistics()=default; void AddMeasurement(double){} double Average() const {return 0;} double Max() const {return 0;} double Min() const {return 0;} double StandardDeviation() const {return 0;} StatisticData GetStatistics() const {return {};} void Reset(){} uint64_t GetCount() const {return 0;} uint64_t get_count() const {return 0;} }; } }
