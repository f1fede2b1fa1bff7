#pragma once
#include <mutex>
namespace realtime_tools { using prio_inherit_mutex=std::mutex; using prio_inherit_recursive_mutex=std::recursive_mutex; }
