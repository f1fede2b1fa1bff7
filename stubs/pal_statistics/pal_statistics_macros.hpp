#pragma once
#include <cxxabi.h>
#include <memory>
#include <string>
#include <functional>
#include <vector>
namespace pal_statistics {
using IdType = unsigned int;
class RegistrationsRAII { public: void enableAll() {} void disableAll() {} };
class StatisticsRegistry {
public:
  template<class T> IdType registerVariable(const std::string &, const T *, RegistrationsRAII * = nullptr, bool = true) { return 0; }
  IdType registerFunction(const std::string &, const std::function<double()> &, RegistrationsRAII * = nullptr, bool = true) { return 0; }
};
template<class T> IdType customRegister(StatisticsRegistry & registry, const std::string & name, const T * variable, RegistrationsRAII * bookkeeping = nullptr, bool enabled = true);
}
#define REGISTER_ENTITY(...) do {} while (0)
#define PAL_STATISTICS(...)
#define INITIALIZE_REGISTRY(...) do {} while (0)
#define UNREGISTER_ENTITY(...) do {} while (0)
#define PUBLISH_ASYNC_STATISTICS(...) do {} while (0)
#define PUBLISH_STATISTICS(...) do {} while (0)
#define START_PUBLISH_THREAD(...) do {} while (0)
#define CLEAR_ALL_REGISTRIES(...) do {} while (0)
#define DEFAULT_STATISTICS_TOPIC "/stats"
