#pragma once
#include <string>
#include <utility>
namespace realtime_tools { inline bool has_realtime_kernel(){return false;} inline bool configure_sched_fifo(int){return true;} inline std::pair<bool,std::string> set_current_thread_affinity(int){return {true,""};} inline bool lock_memory(std::string&){return true;} inline std::pair<bool,std::string> lock_memory(){return {true,""};} }
